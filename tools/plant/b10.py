import sys; sys.path.insert(0,'/verif/tools/plant'); from plant import plant as plant_
def plant(*a):
  try: plant_(*a)
  except AssertionError as e: print(a[0],'ASSERT',str(e)[:300])
plant('rb-bulk-edge','C07',('RingBuffer.h','''  for (uint32_t i = 0; i < COUNT_TO_TAKE; i++) {
    if (0 != insert(*(d_ptr + i))) {   break;   }
    else {    count_taken++;    }
  }
  return count_taken;''','''  // Two calls to memcpy(), at most.
  const uint32_t TO_EDGE   = strict_min((uint32_t) COUNT_TO_TAKE, (uint32_t) (_CAPAC - _w));
  const uint32_t FROM_ROOT = (COUNT_TO_TAKE - TO_EDGE);
  memcpy((_pool + (_w * _E_SIZE)), (uint8_t*) d_ptr, (TO_EDGE * _E_SIZE));
  if (FROM_ROOT > 0) {
    memcpy(_pool, (uint8_t*) (d_ptr + TO_EDGE), (FROM_ROOT * _E_SIZE));
    _w = FROM_ROOT;
  }
  else {
    _w = _w + TO_EDGE;
  }
  _count = _count + COUNT_TO_TAKE;
  count_taken = (int) COUNT_TO_TAKE;
  return count_taken;'''),'''
#include "RingBuffer.h"
int main() { RingBuffer<int> r(4); int a[4] = {1, 2, 3, 4}; r.allocated(); EXPECT(4 == r.insert(a, 4)); EXPECT(1 == r.get()); EXPECT(2 == r.get()); EXPECT(0 == r.insert(9)); EXPECT(3 == r.get()); EXPECT(4 == r.get()); EXPECT(9 == r.get()); return 0; }''','a bulk insertion that ends exactly at the end of the ring, and then another insertion','the next element lands beyond the ring')
plant('flag64-branchless','C16',('FlagContainer.h','''    inline void set(uint64_t _flag, bool x) {
      if (x)  raw |= _flag;
      else    raw &= ~_flag;
    };''','''    inline void set(uint64_t _flag, bool x) {
      raw ^= (((0 - (uint32_t) x) ^ raw) & _flag);   // No branch.
    };'''),'''
#include "FlagContainer.h"
int main() { FlagContainer64 f(0); f.set((uint64_t) 1 << 40, true); EXPECT(f.raw == ((uint64_t) 1 << 40)); f.set((uint64_t) 1 << 40, false); EXPECT(f.raw == 0); return 0; }''','a flag above the 32nd, set by value','it stays clear')
plant('kvp-setkey-self','C21',('C3PValue/KeyValuePair.cpp','''    int K_LEN = strlen(k);
    char* nk = StringBuilder::deep_copy(k, K_LEN);''','''    int K_LEN = strlen(k);
    _set_new_key(nullptr);   // Don't hold two keys in memory.
    char* nk = StringBuilder::deep_copy(k, K_LEN);'''),'''
#include "C3PValue/KeyValuePair.h"
int main() { KeyValuePair k((const char*) "first", (uint32_t) 5); k.setKey((char*) "alphabetical-order"); k.setKey(k.getKey()); EXPECT(!strcmp(k.getKey(), "alphabetical-order")); return 0; }''','an entry is given its own key','the key is garbage')
plant('gps-digit-edge','C39',('Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp','if (value > (INT_LEAST32_MAX-digit) / 10) {','if (value > INT_LEAST32_MAX / 10) {'),'''
#include "Pipes/BufferAccepter/GPSWrapper/GPSWrapper.h"
static int calls = 0; static double alt = 0;
static int8_t cb(LocationFrame* f) { calls++; (void) f; return 0; }
int main() {
  GPSWrapper g; g.init(); g.setCallback(cb);
  char t[120]; strcpy(t, "GPVTG,054.7,T,034.4,M,2147483649,N,010.2,K"); uint8_t c = 0; for (char* p = t; *p; p++) c ^= *p;
  StringBuilder b; b.concatf("$%s*%02X\\r\\n", t, c); g.pushBuffer(&b); StringBuilder e("                                                                                                                                                       \\r\\n"); g.pushBuffer(&e);
  (void) alt; EXPECT(calls == 0); return 0;
}''','a number of ten digits that is a little above the largest','it is read as another number')
plant('uart-rx-refused','C42',('BusQueue/UARTAdapter.cpp','          _rx_buffer.cull(ret);','          _rx_buffer.cull(RX_BYTES_FROM_RB);'),'''
#include "AbstractPlatform.h"
#include "BusQueue/UARTAdapter.h"
struct Sink : public BufferAccepter { StringBuilder got; int room = 0;
  int8_t pushBuffer(StringBuilder* b) override { int n = b->length(); if (n > 3) n = 3; StringBuilder x; x.concat(b->string(), n); got.concatHandoff(&x); b->cull(n); return (b->length() > 0) ? 0 : 1; }
  int32_t bufferAvailable() override { return 8; } };
struct U : public UARTAdapter {
  U() : UARTAdapter(1, 255, 255, 255, 255, 32, 32) {}
  int8_t _pf_init() { _adapter_set_flag(UART_FLAG_HAS_TX | UART_FLAG_HAS_RX | UART_FLAG_UART_READY); return 0; }
  int8_t _pf_deinit() { return 0; }
  int8_t _pf_poll() { _handle_rx_push(); return 0; }
  void irq_handler() {}
  void feed(const char* t) { while (*t) _rx_buffer.insert((uint8_t) *t++); }
};
int main() {
  UARTOpts o; memset((void*) &o, 0, sizeof(o)); o.bitrate = 9600; o.bit_per_word = 8; o.stop_bits = UARTStopBit::STOP_1; o.parity = UARTParityBit::NONE; o.flow_control = UARTFlowControl::NONE;
  U u; Sink s; u.readCallback(&s); u.init(&o); u.poll(); u.feed("abcdefghij"); for (int i = 0; i < 20; i++) u.poll();
  EXPECT(s.got.length() == 10); EXPECT(0 == memcmp(s.got.string(), "abcdefghij", 10)); return 0;
}''','a receiver that takes less than it promised','the bytes it left are lost')
plant('date-leap-february','C05',('CppPotpourri.cpp','if ((((year - 1972) % 4) == 0) && (month > 2)) {','if ((((year - 1972) % 4) == 0) && (month >= 2)) {'),'''
#include "CppPotpourri.h"
int main() { EXPECT(stringToTimestamp("2024-02-10T00:00:00Z") == 1707523200ULL); EXPECT(stringToTimestamp("2024-03-10T00:00:00Z") == 1710028800ULL); return 0; }''','a date in the February of a leap year','a day too late')
