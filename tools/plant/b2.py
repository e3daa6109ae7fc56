import sys; sys.path.insert(0,'/verif/tools/plant'); from plant import plant
plant('m2mhdr-64k-edge','C29',('M2MLink/M2MMsgHdr.cpp','''  if (pl_len > 0x00FFFFFD) return ret;  // Can't possibly fit, and the sum below might wrap.
  uint32_t needed_total_sz = id_length() + pl_len + M2MMSGHDR_MINIMUM_HEADER_SIZE;
  if (needed_total_sz > 0x000000FF) calcd_len_sz++;
  if (needed_total_sz > 0x0000FFFE) calcd_len_sz++;''','''  if (pl_len > 0x00FFFFFD) return ret;  // Can't possibly fit, and the sum below might wrap.
  uint32_t needed_total_sz = id_length() + pl_len + M2MMSGHDR_MINIMUM_HEADER_SIZE;
  if (needed_total_sz > 0x000000FF) calcd_len_sz++;
  if (needed_total_sz > 0x0000FFFF) calcd_len_sz++;'''),'''
#include "M2MLink/M2MLink.h"
int main() {
  for (uint32_t n = 65500; n < 65560; n++) {
    M2MMsgHdr h(M2MMsgCode::APPLICATION, 0, 77);
    EXPECT(h.set_payload_length(n));
    StringBuilder b; EXPECT(h.serialize(&b));
    M2MMsgHdr g; EXPECT(g.deserialize(&b) > 0 || true);
    EXPECT(g.payload_length() == (int) n);
  }
  return 0;
}''','a payload whose message is exactly at the limit of the two-byte length','the length that counts its own second byte no longer fits in two bytes and is encoded truncated')
plant('uart-partial-frag','C42',('BusQueue/UARTAdapter.cpp','if ((int32_t) BYTES_INSERTED == frag_len) {','if ((int32_t) BYTES_INSERTED == BYTES_TO_INSERT) {'),'''
#include "AbstractPlatform.h"
#include "BusQueue/UARTAdapter.h"
struct U : public UARTAdapter {
  U() : UARTAdapter(1, 255, 255, 255, 255, 8, 8) {}
  int8_t _pf_init() { _adapter_set_flag(UART_FLAG_HAS_TX | UART_FLAG_UART_READY); return 0; }
  int8_t _pf_deinit() { return 0; }
  int8_t _pf_poll() { return 0; }
  void irq_handler() {}
};
int main() {
  UARTOpts o; memset((void*) &o, 0, sizeof(o)); o.bitrate = 9600; o.bit_per_word = 8; o.stop_bits = UARTStopBit::STOP_1; o.parity = UARTParityBit::NONE; o.flow_control = UARTFlowControl::NONE;
  U u; u.init(&o); u.poll();
  StringBuilder b; b.concat("abcde"); b.concat("fghijk");
  EXPECT(0 == u.pushBuffer(&b)); EXPECT(8 == u.pendingTxBytes());
  EXPECT(3 == b.length() && 0 == memcmp(b.string(), "ijk", 3));
  return 0;
}''','a push larger than the room in the transmit ring','the rest of the fragment that was partially taken is dropped: bytes are lost')
plant('axis-err-inversion','C44',('Pipes/TripleAxisPipe/TripleAxisPipe.cpp','stacked_err(inversion * error->z, error->x, error->y);','stacked_err(error->z, error->x, inversion * error->y);'),'''
#include "AbstractPlatform.h"
#include "Pipes/TripleAxisPipe/TripleAxisPipe.h"
int main() {
  TripleAxisTerminus t(SpatialSense::MAG);
  const GnomonType G[] = {GnomonType::RH_NEG_Z, GnomonType::LH_POS_Z, GnomonType::RH_POS_Z, GnomonType::LH_NEG_Z};
  const GnomonType E[] = {GnomonType::RH_POS_X, GnomonType::LH_NEG_Y, GnomonType::LH_POS_X};
  for (GnomonType g : G) for (GnomonType e : E) {
    TripleAxisConvention c(&t, g, e);
    Vector3f d(1.0f, 2.0f, 3.0f), er(1.0f, 2.0f, 3.0f);
    c.pushVector(SpatialSense::MAG, &d, &er);
    EXPECT(t.getData()->x == t.getError()->x && t.getData()->y == t.getError()->y && t.getData()->z == t.getError()->z);
  }
  return 0;
}''','a convention with inversion about Z, with errors','errors are transformed otherwise than the data')
plant('fork-right-full','C24',('Pipes/BufferAccepter/BufferAccepter.cpp','  force_fail |= ((nullptr != _right_hand) & (rh_available <= 0));','  force_fail |= ((nullptr != _right_hand) & (rh_available <= 0) & (lh_available <= 0));'),'''
#include "Pipes/BufferAccepter/BufferAccepter.h"
int main() {
  StringBuilderSink l(100), r(5); BufferAccepterFork f(&l, &r);
  StringBuilder a("12345"); EXPECT(1 == f.pushBuffer(&a));
  EXPECT(r.bufferAvailable() == 0);
  EXPECT(f.bufferAvailable() == 0);
  return 0;
}''','the right side of a fork is full while the left is not','the fork promises room that it does not have')
plant('record-truncated','C34',('Storage/SimpleDataRecord.cpp','if ((buf_len - DATARECORD_BASE_SIZE) >= _data_length) {','if (buf_len >= _data_length) {'),'''
#include "Storage/Storage.h"
#include <sys/mman.h>
struct R : SimpleDataRecord {
  std::string body; R() : SimpleDataRecord(0, StorageRecordType::C3P_OBJECT) {}
  int8_t serialize(StringBuilder* o, TCode) { o->concat((uint8_t*) body.data(), (int) body.size()); return 0; }
  int8_t deserialize(StringBuilder* i, TCode) { body.assign((char*) i->string(), i->length()); return 0; }
};
int main() {
  R r; r.body = std::string(300, 'q'); StringBuilder o; EXPECT(0 == r.save(9, "name", &o));
  uint8_t* m = (uint8_t*) mmap(0, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(m + 4096, 4096, PROT_NONE);
  for (int n = o.length(); n > 0; n--) {
    uint8_t* p = m + 4096 - n; memcpy(p, o.string(), n); R g;
    int8_t ret = g.load(9, p, n);
    EXPECT((0 == ret) == (n == o.length()));
  }
  return 0;
}''','an image of a record cut off inside of its data','the checksum is taken over memory past the end of the image')
plant('console-history-cull','C28',('Console/C3PConsole.cpp','  while (_max_history < _history.size()) {\n    delete _history.remove(0);','  if (_max_history < _history.size()) {\n    delete _history.remove(0);'),'''
#include "AbstractPlatform.h"
#include "Console/C3PConsole.h"
static int cb(StringBuilder* o, StringBuilder* a) { return 0; }
static const ConsoleCommand CMDS[] = { ConsoleCommand("go", 'g', "", "", 0, cb) };
int main() {
  ParsingConsole c(64); c.init(); c.defineCommands(CMDS, 1);
  c.setRXTerminator(LineTerm::LF);
  for (int i = 0; i < 6; i++) { StringBuilder l; l.concatf("go %d\\n", i); c.pushBuffer(&l); c.poll(); }
  EXPECT(c.historyDepth() == 6);
  c.maxHistoryDepth(2);
  EXPECT(c.historyDepth() == 2);
  return 0;
}''','a history depth reduced by more than one','more history than allowed is kept')
plant('mss-offset-range','C25',('MultiStringSearch.cpp','(_search_length - (_next_starting_offset - _starting_offset))','(_search_length - _next_starting_offset)'),'''
#include "MultiStringSearch.h"
int main() {
  MultiStringSearch s(2); EXPECT(0 == s.addSearchTerm((const uint8_t*) "ab", 2));
  StringBuilder t("xxxxxxxxxxabxxabxx");
  EXPECT(1 == s.runSearch(&t, 8, 10)); EXPECT(s.lastMatch()->offset_start == 10);
  EXPECT(s.searchRunning());
  EXPECT(1 == s.continueSearch()); EXPECT(s.lastMatch()->offset_start == 14);
  return 0;
}''','a search that starts at an offset larger than what remains','a search of a range ends early')
plant('image-fill-mono','C35',('Image/Image.cpp','''      for (uint32_t i=0; i < bytesUsed(); i++) {
        *(_buffer + i) = (0 != color) ? 0xFF : 0x00;''','''      for (uint32_t i=0; i < (pixels() >> 3); i++) {
        *(_buffer + i) = (0 != color) ? 0xFF : 0x00;'''),'''
#include "Image/Image.h"
int main() {
  Image m(5, 5, ImgBufferFormat::MONOCHROME); EXPECT(m.reallocate());
  m.fill(1);
  for (int y = 0; y < 5; y++) for (int x = 0; x < 5; x++) EXPECT(0 != m.getPixel(x, y));
  return 0;
}''','a monochrome image whose pixels are not a multiple of eight','the last pixels are not filled')
plant('enum-first-catchall','C16',('EnumWrapper.h','''          return (LIST_PTR + i);
        }
        else if ((LIST_PTR + i)->FLAGS & ENUM_WRAPPER_FLAG_CATCHALL) {
          catchall_idx = i;''','''          return (LIST_PTR + i);
        }
        else if ((LIST_PTR + i)->FLAGS & ENUM_WRAPPER_FLAG_CATCHALL) {
          catchall_idx = strict_min(i, catchall_idx);'''),'''
#include "CppPotpourri.h"
#include "EnumWrapper.h"
enum class E : uint8_t { A, B, C, D };
static const EnumDef<E> D[] = { {E::A, "a"}, {E::B, "b", ENUM_WRAPPER_FLAG_CATCHALL}, {E::C, "c", ENUM_WRAPPER_FLAG_CATCHALL}, {E::D, "d"} };
static const EnumDefList<E> L(D, 4, "E");
int main() { EXPECT(L.getEnumDefByStr("nope")->VAL == E::C); EXPECT(L.getEnumByStr("nope") == E::C); return 0; }''','a list with several catch-alls','the first catch-all is returned rather than the last')
plant('sched-delay-disabled','C13',('TimerTools/C3PScheduler.cpp','''    if (!_enabled) {
      _exec_at = (unsigned int) micros();
      _enabled = true;
    }
    _exec_at += by_us;''','''    if (!willRunAgain()) {
      _exec_at = (unsigned int) micros();
      _enabled = true;
    }
    _exec_at += by_us;'''),'''
#include <functional>
#include "AbstractPlatform.h"
#include "TimerTools/C3PScheduler.h"
int main() {
  C3PScheduledLambda s("s", 100, 0, true, []() { return (int8_t) 0; });
  s.delay(50); const unsigned int a = s.nextExec(); now_us += 10;
  s.delay(50); EXPECT(s.nextExec() == a + 50);
  return 0;
}''','an enabled schedule without recurrences left, delayed','the delay is counted from now rather than from the due time')
