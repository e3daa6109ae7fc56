exec(open('/verif/tools/plant/b15.py').read().split("plant('log-empty-fmt'")[0])
plant('typed-array-16','C20',('cbor-cpp/cbor.cpp','const uint32_t BYTE_COUNT = (COUNT * t_size);','const uint16_t BYTE_COUNT = (COUNT * t_size);'),'''
#include "cbor-cpp/cbor.h"
int main() { static uint32_t a[20000]; StringBuilder s; cbor::output_stringbuilder o(&s); cbor::encoder e(o); e.write_typed_array(66, a, 20000); EXPECT(80000 < s.length()); return 0; }''','a typed array of 64KiB and more','part of it is lost')
plant('cbor-static-tail','C20',('cbor-cpp/cbor.cpp','if (_offset + size - 1 < _capacity) {','if (_offset + size - 1 <= _capacity) {'),'''
#include "cbor-cpp/cbor.h"
int main() { uint8_t b[16]; memset(b, 0xEE, 16); cbor::output_static o(8, b); cbor::encoder e(o); e.write_string("12345678"); EXPECT(0xEE == b[8]); EXPECT(8 >= o.size()); return 0; }''','a string that is one byte too long for what is left of the buffer','the last byte lands past the end')
plant('ref-limit','C41',('CppPotpourri.h','if (64000 <= _ref_count) return false;','if (64000 < _ref_count) return false;'),'''
#include "CppPotpourri.h"
int main() { C3PRefCounter c(0); for (int i = 0; i < 64000; i++) EXPECT(c.refTake()); EXPECT(!c.refTake()); EXPECT(64000 == c.refCount()); return 0; }''','the count at its documented limit','it goes past it')
plant('handoff-pos-root','C04',('StringBuilder.cpp','*donar_splice = current->next;  // Inform the donar instance...','donar->_root = current->next;  // Inform the donar instance...'),'''
#include "StringBuilder.h"
int main() { StringBuilder a, b; b.concat("one"); b.concat("two"); b.concat("three"); EXPECT(1 == a.concatHandoffPositions(&b, 1, 1)); EXPECT(6 > a.length()); EXPECT(8 == b.length()); return 0; }''','a handoff from a position other than the first','the fragments before it are lost')
plant('handoff-boundary','C04',('StringBuilder.cpp','if ((ll_with_byte->len - 1) == offset) {','if ((ll_with_byte->len - 1) <= (offset + 0) || (1 == ll_with_byte->len - offset - 1 && ll_with_byte->len > 64)) {'),'''
#include "StringBuilder.h"
int main() { StringBuilder a, b; char s[129]; memset(s, 'x', 128); s[128] = 0; b.concat(s); a.concatHandoffLimit(&b, 127); EXPECT(127 == a.length()); EXPECT(1 == b.length()); return 0; }''','a limit that leaves a single byte of a long fragment','the byte goes along')
plant('decode-nint16','C19',('C3PValue/C3PValue.cpp','if (_length_extra32 < INT16_MAX) {       value','if (_length_extra32 <= UINT16_MAX) {       value'),'''
#include "C3PValue/C3PType.cpp"
#include "C3PValue/KeyValuePair.cpp"
#include "C3PValue/C3PValue.h"
int main() { uint8_t d[] = {0x39, 0x9C, 0x3F}; StringBuilder s(d, 3); C3PValueDecoder dec(&s); C3PValue* v = dec.next(); EXPECT(nullptr != v); EXPECT(-40000 == v->get_as_int()); return 0; }''','a negative integer below -32768 in two bytes','read as a positive number')

plant('decode-array-cut','C19',('C3PValue/C3PValue.cpp','''      if (nullptr == ret) {  ret = value;        }
      else {                 tail->link(value);  }''','''      if (nullptr == ret) {  ret = value;        }
      else {                 tail->link(value);  }''') if 0 else ('C3PValue/C3PValue.cpp','''    if (bailout) {
      if (nullptr != ret) {  delete ret;  }''','''    if (bailout && (nullptr == ret)) {
      if (nullptr != ret) {  delete ret;  }''') if 0 else ('C3PValue/C3PValue.cpp','''  uint8_t len_len = (1 << (minorType - 24));''','''  uint8_t len_len = (1 << ((minorType - 24) & 0x03));'''),'''
#include "C3PValue/C3PType.cpp"
#include "C3PValue/KeyValuePair.cpp"
#include "C3PValue/C3PValue.h"
int main() { uint8_t d[] = {0xA1, 0x7C, 0x01, 'a', 0x05}; StringBuilder s(d, 5); C3PValueDecoder dec(&s); C3PValue* v = dec.next(); EXPECT(nullptr == v); return 0; }''','a map whose key has a reserved length form','it is taken for a key')
plant('map-half','C46',('Image/ImageUtils/BlobPlotter.cpp','((LEN << 1) <= _mapping_len));\n    PixUInt target_x = _t_x;','(LEN <= _mapping_len));\n    PixUInt target_x = _t_x;'),'''
#include "AbstractPlatform.h"
#include "Image/Image.h"
#include "Image/ImageUtils.h"
#include "Image/ImageUtils/BlobPlotter.h"
int main() {
  Image im(40, 40, ImgBufferFormat::R8_G8_B8); im.reallocate(); static uint8_t b[16]; C3PValue val(b, 16); BlobStylerHeatMap st(&im, 0, 0); BlobPlotterLinear p(&st, &val, &im, 0, 0, 40, 40); static PixUInt m[64]; memset(m, 0xEE, sizeof m); const PixUInt mark = m[60];
  p.setMapMem(m, 20); EXPECT(0 == p.apply(true)); for (int i = 20; i < 64; i++) EXPECT(mark == m[i]);
  return 0; }''','a mapping array with room for a part of the bytes','the map runs past its end')
plant('blob-nofit-silent','C50',('Image/GfxUI/GfxUIBlobRender.cpp','          if (0 != ret_local) {','          if (-4 == ret_local) {'),UI+'''
int main() { Image im(400, 300, ImgBufferFormat::R8_G8_B8); im.reallocate(); im.fillRect(0, 0, 400, 300, 0); UIGfxWrapper g(&im); GfxUIStyle st(0x202020, 0xFFFFFF, 0xFFFFFF, 0xA0A0A0, 0x808080, 0xFFFFFF, 0x202020, 1);
  static uint8_t b[20000]; C3PValue val(b, 20000); GfxUIBlobRender* v = new GfxUIBlobRender(&val, GfxUILayout(0, 0, 230, 60, 0, 0, 0, 0, 0, 0, 0, 0), st, 0); v->render(&g, true); v->render(&g, true); int n = 0; for (int y = 0; y < 60; y++) for (int x = 0; x < 70; x++) n += im.getPixel(x, y) != 0x202020; EXPECT(n > 0); return 0; }''','more bytes than the view has pixels','the view is left blank, with no word of it')
