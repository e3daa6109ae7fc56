import sys; sys.path.insert(0,'/verif/tools/plant'); from plant import plant as plant_
def plant(*a):
  try: plant_(*a)
  except AssertionError as e: print(a[0],'ASSERT',str(e)[:300])
plant('pool-give-range','C10',('ElementPool.h','  return ((obj_addr < pre_max) & (obj_addr >= pre_min));','  return ((obj_addr <= pre_max) & (obj_addr >= pre_min));'),'''
#include "StringBuilder.h"
#include "RingBuffer.h"
#include "ElementPool.h"
int main() {
  static uint64_t mem[9]; ElementPool<uint64_t> p(8, 4, mem); EXPECT(p.allocated());
  EXPECT(p.inPool(mem)); EXPECT(p.inPool(mem + 7)); EXPECT(!p.inPool(mem + 8));
  return 0;
}''','an element just past the pool','the element past the pool is taken for one of it')
plant('cbor-len-24','C20',('cbor-cpp/cbor.cpp','''  if (value < 24) {''','''  if (value <= 24) {'''),'''
#include "cbor-cpp/cbor.h"
int main() { StringBuilder b; cbor::output_stringbuilder o(&b); cbor::encoder e(o); std::string s(24, 'x'); e.write_string(s.c_str()); EXPECT(b.length() == 26); return 0; }''','a string of exactly 24 bytes','its length is encoded as a reserved short form')
plant('busop-requeue-fault','C37',('BusQueue/BusQueue.h','''    inline void markForRequeue() {
      _xfer_fault = XferFault::NONE;
      _xfer_state = XferState::IDLE;''','''    inline void markForRequeue() {
      _xfer_state = XferState::IDLE;'''),'''
#include "AbstractPlatform.h"
#include "BusQueue/BusQueue.h"
struct O : BusOp { XferFault begin() { return XferFault::NONE; } void wipe() {} void printDebug(StringBuilder*) {} void fail(XferFault f) { set_fault(f); } };
int main() { O o; o.fail(XferFault::TIMEOUT); EXPECT(o.hasFault()); o.markForRequeue(); EXPECT(!o.hasFault()); return 0; }''','a job that failed and is recycled by its call-back','the recycled job still shows the fault of its first run')
