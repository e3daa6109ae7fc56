exec(open('/verif/tools/plant/b15.py').read().split("plant('log-empty-fmt'")[0])
plant('typed-array-16','C20',('cbor-cpp/cbor.cpp','const uint32_t BYTE_COUNT = (COUNT * t_size);','const uint16_t BYTE_COUNT = (COUNT * t_size);'),'''
#include "cbor-cpp/cbor.h"
int main() { static uint32_t a[20000]; StringBuilder s; cbor::output_stringbuilder o(&s); cbor::encoder e(o); e.write_typed_array(a, 20000); EXPECT(80000 < s.length()); return 0; }''','a typed array of 64KiB and more','part of it is lost')
plant('blob-nofit-silent','C50',('Image/GfxUI/GfxUIBlobRender.cpp','          if (0 != ret_local) {','          if (-5 == ret_local) {'),UI+'''
int main() { Image im(400, 300, ImgBufferFormat::R8_G8_B8); im.reallocate(); im.fillRect(0, 0, 400, 300, 0); UIGfxWrapper g(&im); GfxUIStyle st(0x202020, 0xFFFFFF, 0xFFFFFF, 0xA0A0A0, 0x808080, 0xFFFFFF, 0x202020, 1);
  static uint8_t b[20000]; C3PValue val(b, 20000); GfxUIBlobRender* v = new GfxUIBlobRender(&val, GfxUILayout(0, 0, 230, 60, 0, 0, 0, 0, 0, 0, 0, 0), st, 0); v->render(&g, true); v->render(&g, true); int n = 0; for (int y = 0; y < 60; y++) for (int x = 0; x < 70; x++) n += im.getPixel(x, y) != 0x202020; EXPECT(n > 0); return 0; }''','more bytes than the view has pixels','the view is left blank, with no word of it')
plant('map-reserved-key','C19',('C3PValue/C3PValue.cpp','      if (3 == MAJOR) {  // The next byte must be a proper CBOR string.','      if ((2 == MAJOR) | (3 == MAJOR)) {  // The next byte must be a proper CBOR string.'),'''
#include "C3PValue/C3PValue.h"
int main() { static uint8_t d[] = {0xA1, 0x41, 'a', 0x05}; StringBuilder s(d, 4); C3PValue* v = C3PValue::deserialize(&s, TCode::CBOR); EXPECT(nullptr == v); return 0; }''','a map whose key is a byte string','it is taken for text')
plant('busop-none-left','C31',('M2MLink/M2MLink.cpp','M2MMsgHdr hdr(M2MMsgCode::APPLICATION, 0, need_reply);','M2MMsgHdr hdr(M2MMsgCode::APPLICATION, 0, (need_reply ? 1 : 0));'),'int main() { return 1; }','x','x') if 0 else None
