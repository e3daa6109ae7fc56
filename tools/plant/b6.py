import sys; sys.path.insert(0,'/verif/tools/plant'); from plant import plant as plant_
def plant(*a):
  try: plant_(*a)
  except AssertionError as e: print(a[0],'ASSERT',str(e)[:300])
plant('uuid-compare-sum','C15',('uuid.cpp','''  for (int i = 0; i  < 16; i++) {
    if ((uuid0->id[i]) != uuid1->id[i]) {
      return 1;
    }
  }
  return 0;
''','''  uint8_t diff = 0;   // No early return. Takes the same time for any input.
  for (int i = 0; i  < 16; i++) {
    diff += (uuid0->id[i]) ^ uuid1->id[i];
  }
  return (0 == diff) ? 0 : 1;
'''),'''
#include "uuid.h"
int main() {
  UUID a, b; memset(&a, 0, sizeof(a)); memset(&b, 0, sizeof(b));
  EXPECT(0 == uuid_compare(&a, &b));
  b.id[3] = 0x80; b.id[9] = 0x80; EXPECT(0 != uuid_compare(&a, &b));
  return 0;
}''','two UUIDs whose differing bits, byte by byte, add up to a multiple of 256','they compare as equal')
plant('list-remove-far','C08',('LightLinkedList.h','''template <class T> T LinkedList<T>::remove(int pos) {
  int i = 0;''','''template <class T> T LinkedList<T>::remove(int pos) {
  int8_t i = 0;'''),'''
#include "LightLinkedList.h"
int main() {
  static int v[300]; LinkedList<int*> l;
  for (int i = 0; i < 300; i++) l.insert(&v[i]);
  EXPECT(l.remove(100) == &v[100]); EXPECT(l.remove(200) == &v[201]); EXPECT(l.size() == 298);
  return 0;
}''','a removal by position beyond the 127th element','nothing is removed')
plant('int64-low-word','C17',('C3PValue/C3PType.cpp','      if ((*((int64_t*) src) <= INT16_MAX) & ((*((int64_t*) src) >= INT16_MIN))) {\n        *d = (int16_t)','      if ((*((int64_t*) src) <= INT16_MAX) & ((*((int32_t*) src) >= INT16_MIN))) {\n        *d = (int16_t)'),'''
#include "C3PValue/C3PValue.h"
int main() {
  C3PValue v((int64_t) -5); int16_t d = 0; EXPECT(0 == v.get_as(&d)); EXPECT(-5 == d);
  C3PValue w((int16_t) 77); EXPECT(0 == w.set((int64_t) -5)); EXPECT(0 != w.set((int64_t) -0x100000000LL)); EXPECT(0 == w.get_as(&d)); EXPECT(-5 == d);
  return 0;
}''','a 64-bit number below -2^31 whose low word is a small number','it is read as that small number')
plant('b64-chunk-order','C23',('Pipes/BufferAccepter/Base64/C3P_B64.cpp','''int8_t Base64Decoder::pushBuffer(StringBuilder* buf) {
  int8_t ret = -1;''','''static void _give_back(StringBuilder* buf, StringBuilder* src) {
  if (buf->isEmpty()) buf->prependHandoff(src);
  else buf->concatHandoff(src);
}

int8_t Base64Decoder::pushBuffer(StringBuilder* buf) {
  int8_t ret = -1;'''),'x','x','x') if 0 else None
plant('fork-drift-swap','C24',('Pipes/BufferAccepter/BufferAccepter.cpp','      StringBuilder deep_copy(buf->string() + _right_drift, RIGHT_OFFER_LEN);','      StringBuilder deep_copy(buf->string() + _left_drift, RIGHT_OFFER_LEN);'),'''
#include "Pipes/BufferAccepter/BufferAccepter.h"
struct Liar : BufferAccepter {
  StringBuilder got; int32_t take;
  int8_t pushBuffer(StringBuilder* b) { int n = b->length(); if (n > take) n = take; got.concatLimit(b, n); b->cull(n); return b->isEmpty(true) ? 1 : 0; }
  int32_t bufferAvailable() { return 100; }
};
int main() {
  Liar l, r; l.take = 4; r.take = 8; BufferAccepterFork f(&l, &r);
  StringBuilder b("abcdefghijklmnop");
  f.pushBuffer(&b); l.take = r.take = 100; while (!b.isEmpty(true)) EXPECT(0 <= f.pushBuffer(&b));
  EXPECT(0 == strcmp((char*) l.got.string(), "abcdefghijklmnop")); EXPECT(0 == strcmp((char*) r.got.string(), "abcdefghijklmnop"));
  return 0;
}''','a fork whose right side took more than the left of an earlier push','the right side is given bytes that it already has')
plant('trace-clock-wrap','C43',('TimerTools/C3PTrace.cpp','''    if (nullptr != path_stopwatch) {
      ret = path_stopwatch->addRuntime''','''    if ((nullptr != path_stopwatch) && (POINT->ts_micros >= _start_point.ts_micros)) {
      ret = path_stopwatch->addRuntime'''),'''
#include "TimerTools/C3PTrace.h"
#include "TimerTools/TimerTools.h"
int main() {
  TracePath p(1); 
  TracePoint a(0xFFFFFFF0u, 5), b(0x10, 6);
  EXPECT(p.recordStart(5, &a)); EXPECT(p.recordStop(6, &b));
  return 0;
}''','a path that is open while the microsecond clock wraps','its measurement is dropped')
plant('fence-offset-narrow','C46',('Image/ImageUtils/BlobPlotter.cpp','      int fence_offset = _fences.getPriority(fence_position);','      int16_t fence_offset = _fences.getPriority(fence_position);'),'''
#include "AbstractPlatform.h"
#include "Image/Image.h"
#include "Image/ImageUtils.h"
#include "Image/ImageUtils/BlobPlotter.h"
int main() {
  Image im(8, 8, ImgBufferFormat::R8_G8_B8); BlobStylerExplicitFencing s(&im); static uint8_t b[70000];
  EXPECT(0 == s.addOffset(10, 1)); EXPECT(0 == s.addOffset(40000, 2));
  EXPECT(1 == s.getColor(b, 70000, 20)); EXPECT(1 == s.getColor(b, 70000, 39999)); EXPECT(2 == s.getColor(b, 70000, 40000));
  return 0;
}''','a fence beyond the 32767th byte','it colours the bytes before it')
plant('identity-long-name','C33',('Identity/Identity.cpp','    uint16_t ident_len = (((uint16_t) *(buf+0)) << 8) + *(buf+1);','    uint16_t ident_len = (uint16_t) ((uint8_t) (*(buf+0) << 8)) + *(buf+1);'),'''
#include "Identity/Identity.h"
#include "Identity/IdentityUUID.h"
int main() {
  char nm[400]; memset(nm, 'n', 399); nm[399] = 0; static uint8_t b[600];
  IdentityUUID i(nm); int n = i.serialize(b, 600); EXPECT(n > 399);
  Identity* j = Identity::fromBuffer(b, n); EXPECT(j); EXPECT(0 == strcmp(j->getHandle(), nm)); delete j;
  return 0;
}''','an identity longer than 255 bytes','it does not read back')
plant('handoff-limit-seek','C01',('StringBuilder.cpp','          while ((nullptr != current) && (ll_with_byte != current) && (ll_with_byte != current->next)) {','          if ((nullptr != current) && (ll_with_byte != current) && (ll_with_byte != current->next)) {'),'''
int main() {
  StringBuilder a, b; a.concat("ab"); a.concat("cd"); a.concat("ef"); a.concat("ghij");
  b.concatHandoffLimit(&a, 8);
  EXPECT(0 == strcmp((char*) b.string(), "abcdefgh")); EXPECT(0 == strcmp((char*) a.string(), "ij"));
  return 0;
}''','a limit that falls within the fourth or a later fragment','fragments between are lost')
plant('token-octal','C03',('StringBuilder.cpp','      return strtoull(temp, &end, 10);','      return strtoull(temp, &end, 0);'),'''
int main() { StringBuilder s("12,0017,5"); s.split(","); EXPECT(12 == s.position_as_uint64(0)); EXPECT(17 == s.position_as_uint64(1)); return 0; }''','a number with leading zeroes','it is read as octal')
plant('dump-tail-offset','C05',('StringBuilder.cpp','      output->concatf("%s0x%04x: ", indent, i);','      output->concatf("%s0x%04x: ", indent, (uint16_t) i);'),'''
int main() {
  static uint8_t b[65540]; StringBuilder o; StringBuilder::printBuffer(&o, b, 65540, "");
  EXPECT(o.contains("0x10000: ")); return 0;
}''','a buffer of more than 65536 bytes whose last line is not full','the last line is labelled wrong')
plant('stdev-two-sums','C26',('TimeSeries/TimeSeries.h','''      double tmp = ((double) samples[i] - cached_mean);
      deviation_sum += pow((double) tmp, 2.0);
    }
    _stdev = sqrt(deviation_sum / _window_size);
    _set_flags(true, TIMESERIES_FLAG_VALID_STDEV);
  }
  return ret;
}


''','''      deviation_sum += pow((double) samples[i], 2.0);
    }
    const double VARIANCE = ((deviation_sum / _window_size) - (cached_mean * cached_mean));
    _stdev = (VARIANCE > 0.0) ? sqrt(VARIANCE) : 0.0;
    _set_flags(true, TIMESERIES_FLAG_VALID_STDEV);
  }
  return ret;
}


'''),'''
#include "TimeSeries/TimeSeries.h"
int main() {
  TimeSeries<double> t(4); EXPECT(0 == t.init());
  for (int i = 0; i < 4; i++) t.feedSeries((double) 1000000000.0 + (double) (i & 1));
  EXPECT(t.stdev() > (double) 0.49); EXPECT(t.stdev() < (double) 0.51); return 0;
}''','samples with a small spread around a large mean','the deviation is lost in rounding')
plant('filter-rms-square','C27',('TimeSeries/SensorFilter.h','      squared_samples += ((double) samples[i] * (double) samples[i]);','      squared_samples += (double) (samples[i] * samples[i]);'),'''
#include "TimeSeries/SensorFilter.h"
int main() {
  SensorFilter<uint32_t> f(4, FilteringStrategy::RAW); EXPECT(0 == f.init());
  for (int i = 0; i < 4; i++) f.feedFilter((uint32_t) 100000);
  EXPECT(f.rms() > (double) 99999); return 0;
}''','unsigned samples above 65535','the root mean square is that of the squares modulo 2^32')
plant('flat-triangle','C35',('Image/Image.cpp','    else if (x2 > b) {  b = x2;   }','    else if (x2 > x1) {  b = x2;   }'),'''
#include "Image/Image.h"
int main() {
  Image m(20, 4, ImgBufferFormat::GREY_8); EXPECT(m.reallocate());
  m.fillTriangle(10, 1, 2, 1, 6, 1, 255);
  for (int x = 0; x < 20; x++) EXPECT((m.getPixel(x, 1) != 0) == (x >= 2 && x <= 10));
  return 0;
}''','a flat triangle whose first corner is the rightmost and its third between the others','it is drawn too short')
plant('zoom-reversed','C36',('Image/ImageUtils/ImageUtils.cpp','  const PixUInt PIX_M_WIDTH = strict_abs_delta(PIX_M_RIGHT, PIX_M_LEFT);','  const PixUInt PIX_M_WIDTH = (PIX_M_RIGHT > PIX_M_LEFT) ? (PIX_M_RIGHT - PIX_M_LEFT) : 0;'),'''
#include "Image/Image.h"
#include "Image/ImageUtils.h"
static int lit(float a, float b) {
  Image m(100, 20, ImgBufferFormat::R8_G8_B8); m.reallocate(); m.fill(0); UIGfxWrapper g(&m);
  g.drawZoomBarH(0, 0, 100, 20, 0x123456, false, a, b); int n = 0;
  for (int y = 0; y < 20; y++) for (int x = 0; x < 100; x++) n += m.getPixel(x, y) == 0x123456;
  return n;
}
int main() { EXPECT(lit(0.25f, 0.75f) > 100); EXPECT(lit(0.75f, 0.25f) == lit(0.25f, 0.75f)); return 0; }''','a zoom bar given its fractions in the reverse order','its span is not drawn')
plant('nmea-lower-hex','C39',('Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp',"  if (c >= 'a' && c <= 'f') return c - 'a' + 10;","  if (c >= 'a' && c <= 'f') return c - 'A' + 10;"),'''
#include "Pipes/BufferAccepter/GPSWrapper/GPSWrapper.h"
static int calls = 0;
static int8_t cb(LocationFrame*) { calls++; return 0; }
int main() {
  GPSWrapper g; g.init(); g.setCallback(cb);
  const char* body = "GPVTG,054.7,T,034.4,M,005.5,N,010.2,K"; 
  for (int d = 0; d < 16; d++) {
    char t[100]; sprintf(t, "GPVTG,054.7,T,034.4,M,%03d.5,N,010.2,K", 100 + d * 7); uint8_t c = 0; for (char* p = t; *p; p++) c ^= *p;
    StringBuilder b; b.concatf("$%s*%02x\\r\\n", t, c); int was = calls; g.pushBuffer(&b); StringBuilder e("                                                                                                                                                       \\r\\n"); g.pushBuffer(&e); 
    EXPECT(calls == was + 1);
  }
  (void) body; return 0;
}''','a checksum with the digits a to f in lower case','the sentence is rejected')
plant('bind-u16-signed','C41',('CppPotpourri.h','inline uint16_t strict_range_bind(const uint16_t VAL, const uint16_t MIN, const uint16_t MAX) {   return strict_min(strict_max(VAL, MIN), MAX);   };','inline uint16_t strict_range_bind(const uint16_t VAL, const uint16_t MIN, const uint16_t MAX) {   return strict_min((int16_t) strict_max(VAL, MIN), (int16_t) MAX);   };'),'''
#include "CppPotpourri.h"
int main() { EXPECT(strict_range_bind((uint16_t) 7, (uint16_t) 1, (uint16_t) 100) == 7); EXPECT(strict_range_bind((uint16_t) 50000, (uint16_t) 1, (uint16_t) 1000) == 1000); return 0; }''','a 16-bit value above 32767','it is bound as if negative')
plant('nint-32-word','C18',('C3PValue/C3PValue.cpp','            else {                                 value = new C3PValue((int64_t) -(_length_extra+1));  }','            else {                                 value = new C3PValue((int64_t) -((int64_t) (_length_extra32+1)));  }'),'''
#include "C3PValue/C3PValue.h"
static int64_t rt(int64_t x) { C3PValue v(x); StringBuilder b; v.serialize(&b, TCode::CBOR); C3PValue* r = C3PValue::deserialize(&b, TCode::CBOR); EXPECT(r); int64_t y = 0; EXPECT(0 == r->get_as(&y)); delete r; return y; }
int main() { EXPECT(rt(-3000000000LL) == -3000000000LL); EXPECT(rt(-4294967296LL) == -4294967296LL); return 0; }''','the number -2^32','it reads back as 0')
plant('array-last-missing','C19',('C3PValue/C3PValue.cpp','    bailout = true;\n    C3PValue* value = _next(&local_offset);','    bailout = ((nullptr == ret) || (count > 1));\n    C3PValue* value = _next(&local_offset);'),'''
#include "C3PValue/C3PValue.h"
int main() {
  static uint8_t whole[] = {0x83, 1, 2, 3}; StringBuilder w(whole, 4); C3PValue* v = C3PValue::deserialize(&w, TCode::CBOR);
  bool took = (nullptr != v); if (v) delete v;
  StringBuilder s(whole, 3); v = C3PValue::deserialize(&s, TCode::CBOR); EXPECT(!v); EXPECT(took); return 0;
}''','an array whose last member is missing','it is read as a complete, shorter one')
plant('frame-corner','C45',('Image/GfxUI/GfxUI.cpp','          ui_gfx->img()->drawFastVLine((_x+i), _y, _h, COLOR);','          ui_gfx->img()->drawFastVLine((_x+i), (_y+_bordr_t), (_h-(_bordr_t+_bordr_b)), COLOR);'),'''
#include "AbstractPlatform.h"
#include "Image/Image.h"
#include "Image/ImageUtils.h"
#include "Image/GfxUI.h"
struct E : GfxUIElement { E(const GfxUILayout l, const GfxUIStyle s, uint32_t f) : GfxUIElement(l, s, f) {} int _render(UIGfxWrapper*) { return 1; } bool _notify(const GfxUIEvent, PixUInt, PixUInt, PriorityQueue<GfxUIElement*>*) { return false; } };
int main() {
  Image m(40, 40, ImgBufferFormat::R8_G8_B8); EXPECT(m.reallocate()); m.fill(0); UIGfxWrapper g(&m);
  GfxUIStyle st(0, 0xFFFFFF, 0x0000FF, 0x0000FF, 0x404040, 0x808080, 0x00FFFF, 1);
  E e(GfxUILayout(5, 5, 20, 20, 0, 0, 0, 0, 3, 3, 1, 1), st, GFXUI_FLAG_DRAW_FRAME_L); e.render(&g, true);
  uint32_t mid = m.getPixel(5, 15); EXPECT(mid != 0); EXPECT(m.getPixel(5, 5) == mid); EXPECT(m.getPixel(5, 24) == mid);
  return 0;
}''','a left frame without the upper and lower ones, whose borders have a width','the frame stops short of the corners')
