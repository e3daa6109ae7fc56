import sys; sys.path.insert(0,'/verif/tools/plant'); from plant import plant as plant_
def plant(*a):
  try: plant_(*a)
  except AssertionError as e: print(a[0],'ASSERT',str(e)[:300])
SER='''
#include "AbstractPlatform.h"
#include "C3PValue/C3PValue.h"
#include "C3PValue/KeyValuePair.h"
#include "TimeSeries/TimeSeries.h"
static TimeSeriesBase* over(TimeSeriesBase* s, StringBuilder* w) { C3PValue v(s); v.serialize(w, TCode::CBOR); C3PValue* c = C3PValue::deserialize(w, TCode::CBOR); TimeSeriesBase* o = nullptr; if (c) c->get_as(&o); return o; }
'''
plant('int-min-narrow','C17',('C3PValue/C3PType.cpp','''      if ((*((int64_t*) src) <= INT32_MAX) & (*((int64_t*) src) >= INT32_MIN)) {
        d = (int32_t) *((uint64_t*) src);''','''      if (((*((int64_t*) src) < 0) ? -(*((int64_t*) src)) : *((int64_t*) src)) <= INT32_MAX) {
        d = (int32_t) *((uint64_t*) src);'''),'''
#include "AbstractPlatform.h"
#include "C3PValue/C3PValue.h"
int main() { C3PValue v((int32_t) 5); EXPECT(0 == v.set((int64_t) -2147483648LL)); int32_t o = 0; EXPECT(0 == v.get_as(&o)); EXPECT(INT32_MIN == o); return 0; }''','a 64-bit integer of exactly -2^31, set into a 32-bit value','it is refused')
plant('series-u64-signed','C22',('TimeSeries/TimeSeries.cpp','''template <> void TimeSeries<uint64_t>::_serialize_value(cbor::encoder* enc, uint32_t idx) {   enc->write_int(samples[idx]);  }''','''template <> void TimeSeries<uint64_t>::_serialize_value(cbor::encoder* enc, uint32_t idx) {   enc->write_int((int64_t) samples[idx]);  }'''),SER+'''
int main() { TimeSeries<uint64_t> s(2); s.init(); s.feedSeries(3); s.feedSeries(0xC000000000000000ULL); StringBuilder w; TimeSeries<uint64_t>* o = (TimeSeries<uint64_t>*) over(&s, &w); EXPECT(nullptr != o); EXPECT(0xC000000000000000ULL == o->maxValue()); return 0; }''','a sample of 2^63 or more','it arrives as something else')
plant('series-total-signed','C22',('TimeSeries/TimeSeries.cpp','''        encoder.write_string("ttl");   encoder.write_int(obj->totalSamples());''','''        encoder.write_string("ttl");   encoder.write_int((int) obj->totalSamples());'''),SER+'''
int main() { uint8_t b[2] = {1, 2}; TimeSeries<uint8_t> s(2); s.init(); s.feedSeries(1); s.feedSeries(2); StringBuilder w; C3PValue v((TimeSeriesBase*) &s); v.serialize(&w, TCode::CBOR);
  uint8_t* p = w.string(); int n = w.length(); int k = 0; while ((k < n) && memcmp(p + k, "cttl", 4)) k++; EXPECT(k < n); StringBuilder x; x.concat(p, k + 4); uint8_t big[5] = {0x1A, 0x90, 0, 0, 0}; x.concat(big, 5); x.concat(p + k + 5, n - k - 5);
  C3PValue* c = C3PValue::deserialize(&x, TCode::CBOR); TimeSeriesBase* a = nullptr; EXPECT(c && (0 == c->get_as(&a))); EXPECT(0x90000000 == a->totalSamples()); StringBuilder y; TimeSeriesBase* o = over(a, &y); EXPECT(nullptr != o); EXPECT(0x90000000 == o->totalSamples()); return 0; }''','a series of more than 2^31 samples in total','its total is lost on the way')
plant('hdr-len-65535','C29',('M2MLink/M2MMsgHdr.cpp','''        if (msg_len > 0x0000FFFF) calcd_len_sz++;''','''        if (msg_len > 0x0000FFFE) calcd_len_sz++;'''),'''
#include "AbstractPlatform.h"
#include "M2MLink/M2MLink.h"
int main() { M2MMsgHdr h(M2MMsgCode::APPLICATION, 0, false); EXPECT(h.set_payload_length(0xFFFF - 5)); EXPECT(0xFFFF == h.total_length()); EXPECT(h.isValid()); return 0; }''','a message of exactly 65535 bytes','it is taken to be invalid')
plant('filter-strategy-keeps','C27',('TimeSeries/SensorFilter.h','''    _strat = s;
    last_value = T(0);
''','''    _strat = s;
    if (!_window_full) {  last_value = T(0);  }
'''),'''
#include "AbstractPlatform.h"
#include "TimeSeries/SensorFilter.h"
int main() { SensorFilter<int32_t> f(4, FilteringStrategy::RAW); f.init(); for (int i = 0; i < 6; i++) f.feedFilter(400); f.setStrategy(FilteringStrategy::MOVING_AVG); EXPECT(0 == f.value()); f.feedFilter(400); EXPECT(100 == f.value()); return 0; }''','the strategy changed with a full window','the average starts from the last sample')
plant('filter-stdev-mean','C27',('TimeSeries/SensorFilter.h','''    double cached_mean = mean();
    for (uint32_t i = 0; i < _window_size; i++) {
      double tmp = samples[i] - cached_mean;''','''    double cached_mean = (_samples_total > _window_size) ? _mean : mean();
    for (uint32_t i = 0; i < _window_size; i++) {
      double tmp = samples[i] - cached_mean;'''),'''
#include "AbstractPlatform.h"
#include "TimeSeries/SensorFilter.h"
int main() { SensorFilter<float> f(4, FilteringStrategy::RAW); f.init(); for (int i = 0; i < 4; i++) f.feedFilter(1.0f); EXPECT((double) 0 == f.stdev()); for (int i = 0; i < 4; i++) f.feedFilter(9.0f); EXPECT((double) 0 == f.stdev()); return 0; }''','the deviation read again after the window turned over, without the mean being read','it is taken around the old mean')
plant('pool-16bit-span','C10',('ElementPool.h','''  const uintptr_t pre_max  = pre_min + (uintptr_t) (_list.capacity() * sizeof(T));''','''  const uint16_t  SPAN     = (_list.capacity() * sizeof(T));
  const uintptr_t pre_max  = pre_min + (uintptr_t) SPAN;'''),'''
#include "AbstractPlatform.h"
#include "ElementPool.h"
struct Big { uint8_t b[1000]; };
static Big mem[70];
int main() { ElementPool<Big> p(70, 0, mem); EXPECT(p.allocated()); EXPECT(p.inPool(&mem[0])); EXPECT(p.inPool(&mem[69])); return 0; }''','a pool of more than 64 KB','its later elements are freed as if they had come from the heap')
plant('uuid-braces','C15',('uuid.cpp','''  for (unsigned int i = 0; i < strlen(str); i++) {''','''  const unsigned int LEN = strnlen(str, 36);   // The canonical form is no longer than this.
  for (unsigned int i = 0; i < LEN; i++) {'''),'''
#include "uuid.h"
int main() { UUID a; UUID b; memset(&a, 0, sizeof(a)); memset(&b, 0, sizeof(b)); uuid_from_str("00112233-4455-6677-8899-aabbccddeeff", &a); uuid_from_str("{00112233-4455-6677-8899-aabbccddeeff}", &b); EXPECT(0 == uuid_compare(&a, &b)); return 0; }''','text with something in front of the UUID','the last byte is lost')
plant('fork-take-any','C24',('Pipes/BufferAccepter/BufferAccepter.cpp','''    const int32_t TOTAL_TAKEN = strict_min(left_range_covered, right_range_covered);''','''    // A side that took nothing at all isn't waited for.
    const int32_t TOTAL_TAKEN = ((0 < left_range_covered) & (0 < right_range_covered)) ? strict_min(left_range_covered, right_range_covered) : strict_max(left_range_covered, right_range_covered);'''),'''
#include "AbstractPlatform.h"
#include "Pipes/BufferAccepter/BufferAccepter.h"
struct Shy : public BufferAccepter { int n = 0; StringBuilder got; int8_t pushBuffer(StringBuilder* b) { if (0 == n++) return -1; got.concatHandoff(b); return 1; } int32_t bufferAvailable() { return 100; } };
int main() { Shy y; StringBuilderSink k(100); BufferAccepterFork f(&k, &y); StringBuilder s("hello"); f.pushBuffer(&s); EXPECT(5 == s.length()); EXPECT(1 == f.pushBuffer(&s)); EXPECT(5 == y.got.length()); EXPECT(5 == k.length()); return 0; }''','a side that refuses what the other took','it never sees those bytes')
plant('image-wipe-owned','C35',('Image/Image.cpp','''  _buf_fmt  = ImgBufferFormat::UNALLOCATED;
  _imgflags = 0;
}''','''  _buf_fmt  = ImgBufferFormat::UNALLOCATED;
}'''),'''
#include "AbstractPlatform.h"
#include "Image/Image.h"
static uint8_t mem[64 * 64];
int main() { { Image im(8, 8, ImgBufferFormat::GREY_8); im.reallocate(); im.wipe(); EXPECT(im.setBuffer(mem, ImgBufferFormat::GREY_8)); im.setSize(4, 4); mem[0] = 7; } EXPECT(7 == mem[0]); return 0; }''','an image that is wiped, and then given a buffer','that buffer is freed as if it were its own')
