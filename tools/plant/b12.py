import sys; sys.path.insert(0,'/verif/tools/plant'); from plant import plant as plant_
def plant(*a):
  try: plant_(*a)
  except AssertionError as e: print(a[0],'ASSERT',str(e)[:300])
UI='''
#include "AbstractPlatform.h"
#include "FlagContainer.h"
#include "PriorityQueue.h"
#include "ElementPool.h"
#include "TimerTools/TimerTools.h"
#include "TimeSeries/TimeSeries.h"
#include "C3PLogger.h"
#include "TimerTools/C3PScheduler.h"
#include "Image/ImageUtils.h"
#include "Image/GfxUI.h"
'''
plant('replace-same-nothing','C02',('StringBuilder.cpp','''  if ((0 < HAYSTACK_LEN) && (HAYSTACK_LEN >= NEEDLE_LEN) && (0 < NEEDLE_LEN)) {
    #if defined(__BUILD_HAS_CONCURRENT_STRINGBUILDER)
      // TODO: Lock with semaphore.''','''  if (0 == memcmp(needle, ((nullptr == replace) ? "" : replace), strict_min((int32_t) NEEDLE_LEN, (int32_t) REPLACE_LEN)) && (NEEDLE_LEN == REPLACE_LEN)) {
    return 0;   // Replacing something with itself changes nothing.
  }
  if ((0 < HAYSTACK_LEN) && (HAYSTACK_LEN >= NEEDLE_LEN) && (0 < NEEDLE_LEN)) {
    #if defined(__BUILD_HAS_CONCURRENT_STRINGBUILDER)
      // TODO: Lock with semaphore.'''),'''
int main() { StringBuilder s("ban"); s.concat("ana"); EXPECT(3 == s.replace("a", "a")); EXPECT(0 == strcmp((char*) s.string(), "banana")); return 0; }''','a replacement of something by itself','the replacements are not counted')
plant('chunk-fits-already','C03',('StringBuilder.cpp','''    if (TOTAL_STR_LEN <= CSIZE) {
      // If the requested''','''    if ((1 < count()) && (maximumFragmentLength() == CSIZE) && (((count() - 1) * CSIZE) >= (TOTAL_STR_LEN - CSIZE))) {
      // The fragments are already of the requested size.
      ret = count();
    }
    else if (TOTAL_STR_LEN <= CSIZE) {
      // If the requested'''),'''
int main() { StringBuilder s("abcd"); s.concat("ab"); s.concat("xyzw"); EXPECT(3 == s.chunk(4)); int n = 0; s.position(1, &n); EXPECT(4 == n); return 0; }''','fragments of which the longest has the size of the chunks asked for','chunks other than the last stay short')
plant('series-minmax-elseif','C26',('TimeSeries/TimeSeries.h','''    _min_value = samples[0];  // Start with a baseline.
    _max_value = samples[0];  // Start with a baseline.
    for (uint32_t i = 1; i < _window_size; i++) {''','''    // Start with a baseline, and keep what was found before if it's still there.
    _min_value = samples[0];
    _max_value = samples[0];
    const uint32_t LAST = (((0 != _sample_idx) ? _sample_idx : _window_size) - 1);
    if (_chk_flags(TIMESERIES_FLAG_VALID_MEAN) && (samples[LAST] > _max_value)) {
      _max_value = samples[LAST];
      _set_flags(true, TIMESERIES_FLAG_VALID_MINMAX);
      return ret;
    }
    for (uint32_t i = 1; i < _window_size; i++) {'''),'''
#include "AbstractPlatform.h"
#include "TimeSeries/TimeSeries.h"
int main() { TimeSeries<int32_t> s(4); s.init(); s.feedSeries(5); s.feedSeries(1); s.feedSeries(9); s.feedSeries(6); s.mean(); EXPECT(1 == s.minValue()); EXPECT(9 == s.maxValue()); return 0; }''','the mean read before the extremes, and a last sample above the first','the extremes are wrong')

plant('b64-pad-anything','C23',('Pipes/BufferAccepter/Base64/C3P_B64.cpp','''    if('=' == src_buf[src_len - 2]) { ++pad; }
  }
''','''    if('=' == src_buf[src_len - 2]) { ++pad; }
    if ((1 == pad) && ('A' == src_buf[src_len - 2]) && (0 == (unb64[src_buf[src_len - 3]] & 0x0F))) { ++pad; }   // The last byte is only padding.
  }
'''),'''
#include "Pipes/BufferAccepter/Base64/C3P_B64.h"
int main() { StringBuilderSink k(100); Base64Decoder d(&k); StringBuilder s("QQA="); d.pushBuffer(&s); EXPECT(2 == k.length()); EXPECT(0x41 == k.string()[0]); return 0; }''','a text whose last group of two bytes ends in zero','the zero is lost')
plant('trace-dedupe','C43',('TimerTools/C3PTrace.cpp','''    if (0 == _trace_points.vacancy()) {
      _trace_points.get();
    }
    TracePoint tmp_point(NOW, SPATIAL_WORD);
    _trace_points.insert(tmp_point);''','''    TracePoint tmp_point(NOW, SPATIAL_WORD);
    const unsigned int HELD = _trace_points.count();
    bool novel = true;
    if (0 < HELD) {   // A mark repeated in the same microsecond carries no information.
      TracePoint newest = _trace_points.peek(HELD - 1);
      novel = ((newest.ts_micros != NOW) || (newest.trace_word != SPATIAL_WORD));
    }
    if (novel) {
      if (0 == _trace_points.vacancy()) {  _trace_points.get();  }
      _trace_points.insert(tmp_point);
    }'''),'''
#include "AbstractPlatform.h"
#include "TimerTools/C3PTrace.h"
int main() { now_us = 1000; C3PTrace t(10); t.recording(true); now_us = 2000; t.leave_trace(5); t.leave_trace(5); t.leave_trace(6); StringBuilder o; t.serialize(&o, TCode::STR); int n = 0; for (int i = 0; i < o.length(); i++) if ('\\n' == o.string()[i]) n++; EXPECT(3 == n); return 0; }''','the same place marked twice within one microsecond','the second mark is not kept')
plant('scale-down-black','C36',('Image/ImageUtils/ImageScalers.cpp','''              _target->setPixel(i, j, color);
              source_y += SQUARE_SIZE;''','''              // A column repeats itself often. Only write what differs.
              if ((j == TGT_Y_RANGE_START) || (0 != color) || (0 != _target->getPixel(i, j - 1))) {  _target->setPixel(i, j, color);  }
              source_y += SQUARE_SIZE;'''),'''
#include "Image/ImageUtils.h"
int main() { Image a(8, 8, ImgBufferFormat::R8_G8_B8); Image b(4, 4, ImgBufferFormat::R8_G8_B8); EXPECT(a.reallocate()); EXPECT(b.reallocate()); a.fill(0); b.fill(0x123456); ImageScaler z(&a, &b, 0.5f); EXPECT(0 == z.apply()); for (int y = 0; y < 4; y++) for (int x = 0; x < 4; x++) EXPECT(0 == b.getPixel(x, y)); return 0; }''','two black samples in one column over a target that was not black','the second stays as it was')
plant('i2c-error-keeps','C37',('BusQueue/I2CAdapter.cpp','''            case BUSOP_CALLBACK_ERROR:
            case BUSOP_CALLBACK_NOMINAL:
            default:
              _reclaim_queue_item(current_job);''','''            case BUSOP_CALLBACK_ERROR:
              if (!current_job->hasFault()) {
                break;   // The client found fault with it, and will want to look.
              }
            case BUSOP_CALLBACK_NOMINAL:
            default:
              _reclaim_queue_item(current_job);'''),'''
#include "AbstractPlatform.h"
#include <new>
#include "BusQueue/I2CAdapter.h"
XferFault I2CBusOp::begin() { set_state(XferState::TX_WAIT); return XferFault::NONE; }
XferFault I2CBusOp::advance(uint32_t) { markComplete(); return XferFault::NONE; }
int8_t I2CAdapter::_bus_init() { return 0; } int8_t I2CAdapter::_bus_deinit() { return 0; }
void I2CAdapter::printHardwareState(StringBuilder*) {}
struct TI2C : public I2CAdapter { TI2C(I2CAdapterOptions* o) : I2CAdapter(o, 2, 5) {} void opts() { _pf_needs_op_advance(true); } unsigned av() { return preallocated.available(); } };
struct D : public BusOpCallback { int8_t io_op_callahead(BusOp*) { return 0; } int8_t io_op_callback(BusOp*) { return BUSOP_CALLBACK_ERROR; } int8_t queue_io_job(BusOp*) { return -1; } };
int main() { I2CAdapterOptions o(0, 1, 2); TI2C* a = new TI2C(&o); D d; a->init(); a->opts(); EXPECT(2 == a->av()); I2CBusOp* op = a->new_op(BusOpcode::TX, &d); EXPECT(0 == a->queue_io_job(op)); for (int i = 0; i < 6; i++) a->poll(); EXPECT(2 == a->av()); return 0; }''','a client that answers with an error a job that had none','the job never returns to the pool')
plant('vec-project','C40',('Vector3.h','''    Vector3<T> projected(const Vector3<T> &v) {  return v * (*this * v)/(v*v); }''','''    Vector3<T> projected(const Vector3<T> &v) {
      const T SCALE = ((*this * v) / (v*v));   // Both vectors give the same figure in each axis.
      return (v * SCALE);
    }'''),'''
#include "Vector3.h"
int main() { Vector3<int32_t> a(3, 0, 0), b(2, 0, 0); EXPECT(3 == a.projected(b).x); return 0; }''','vectors of integers','the projection is truncated before it is scaled')
plant('axis-negative-stale','C44',('Pipes/TripleAxisPipe/TripleAxisPipe.cpp','''_fresh_data = (0 != _CALLBACK(''','''_fresh_data = (0 < _CALLBACK('''),'''
#include "AbstractPlatform.h"
#include "Pipes/TripleAxisPipe/TripleAxisPipe.h"
static int8_t cb(SpatialSense, Vector3f*, Vector3f*, uint32_t) { return -1; }
int main() { TripleAxisTerminus t(SpatialSense::ACC, cb); Vector3f v(1, 2, 3); EXPECT(0 == t.pushVector(SpatialSense::ACC, &v)); EXPECT(t.dataFresh()); return 0; }''','a call-back that answers with a negative number','the data is not marked fresh')
plant('list-tail-cache','C08',[('LightLinkedList.h','''    Node<T> *root;
''','''    Node<T> *root;
    Node<T> *tail;                   // Where we last left the end.
'''),('LightLinkedList.h','''  root = nullptr;
  element_count = 0;
}''','''  root = nullptr;
  tail = nullptr;
  element_count = 0;
}'''),('LightLinkedList.h','''    current = getLast();
    current->next = (Node<T>*) malloc(sizeof(Node<T>));
    current = current->next;
  }''','''    current = ((nullptr != tail) && (nullptr == tail->next)) ? tail : getLast();
    current->next = (Node<T>*) malloc(sizeof(Node<T>));
    current = current->next;
  }
  tail = current;'''),('LightLinkedList.h','''  if (current != nullptr) {
    return_value = current->data;
    root = current->next;
    free(current);''','''  if (current != nullptr) {
    return_value = current->data;
    root = current->next;
    if (current == tail) {  tail = nullptr;  }
    free(current);'''),('LightLinkedList.h','''      return_value = current->data;
      free(current);
      element_count--;
      return return_value;''','''      return_value = current->data;
      if (current == tail) {  tail = nullptr;  }
      free(current);
      element_count--;
      return return_value;''')],'''
#include "LightLinkedList.h"
#include <stdint.h>
int main() { LinkedList<int*> l; int a, b, c; l.insert(&a); l.insert(&b); l.remove(&b); int* keep[9]; for (int i = 0; i < 9; i++) keep[i] = (int*) malloc(8); memset(keep[0], 0, 8); l.insert(&c); EXPECT(&c == l.get(1)); return 0; }''','the last element removed by value, and another inserted','the memory of the removed element is written, and the new one is lost')
plant('link-retry-burst','C30',('M2MLink/M2MMsg.cpp','''void M2MMsg::markSent() {
  _ms_io_mark = millis();''','''void M2MMsg::markSent() {
  if (!wasSent()) {
    _ms_io_mark = millis();   // When did this message first go out?
  }'''),'''
#include "AbstractPlatform.h"
#include "M2MLink/M2MLink.h"
int main() { M2MMsgHdr h(M2MMsgCode::APPLICATION, 0, true); M2MMsg m(&h, BusOpcode::TX); now_us = 1000000; m.markSent(); now_us = 3000000; EXPECT(m.attemptRetry()); m.markSent(); now_us = 3001000; EXPECT(m.msSinceSend() < 100); return 0; }''','a message not answered in time','every retry follows the first at once')
plant('gps-callback-speed','C39',('Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp','''            emit_callback = true;''','''            emit_callback = (0 != frame.speed_kph.value);   // Nothing to report if it doesn't move.'''),'''
#include "AbstractPlatform.h"
#include "Pipes/BufferAccepter/GPSWrapper/GPSWrapper.h"
static int n = 0; static int8_t cb(LocationFrame*) { n++; return 0; }
int main() { GPSWrapper g; g.setCallback(cb); g.init(); const char* t = "$GPVTG,054.7,T,034.4,M,000.0,N,000.0,K"; uint8_t x = 0; for (const char* p = t + 1; *p; p++) x ^= (uint8_t) *p; StringBuilder s; for (int i = 0; i < 4; i++) s.concatf("%s*%02X\\r\\n", t, x); g.pushBuffer(&s); EXPECT(4 == n); return 0; }''','a receiver that stands still','its sentences are not reported')
