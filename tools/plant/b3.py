import sys; sys.path.insert(0,'/verif/tools/plant'); from plant import plant as plant_
def plant(*a):
  try: plant_(*a)
  except AssertionError as e: print(a[0],'ASSERT',str(e)[:300])
plant('m2mhdr-64k-edge','C29',('M2MLink/M2MMsgHdr.cpp','''  uint32_t needed_total_sz = id_length() + pl_len + M2MMSGHDR_MINIMUM_HEADER_SIZE;
  if (needed_total_sz > 0x000000FF) calcd_len_sz++;
  if (needed_total_sz > 0x0000FFFE) calcd_len_sz++;''','''  uint32_t needed_total_sz = id_length() + pl_len + M2MMSGHDR_MINIMUM_HEADER_SIZE;
  if (needed_total_sz > 0x000000FF) calcd_len_sz++;
  if (needed_total_sz > 0x0000FFFF) calcd_len_sz++;'''),'''
#include "M2MLink/M2MLink.h"
int main() {
  for (uint32_t n = 65500; n < 65560; n++) {
    M2MMsgHdr h(M2MMsgCode::APPLICATION, 0, 77);
    EXPECT(h.set_payload_length(n));
    StringBuilder b; h.serialize(&b);
    const uint8_t* p = (const uint8_t*) b.string(); const int bytes = (p[1] & 0x30) >> 4;
    uint32_t big = 0, little = 0; for (int i = 0; i < bytes; i++) { big = (big << 8) | p[2 + i]; little |= ((uint32_t) p[2 + i]) << (8 * i); }
    const uint32_t total = n + b.length();
    EXPECT(big == total || little == total);
  }
  return 0;
}''','a payload whose message is exactly at the limit of the two-byte length','the length that counts its own second byte no longer fits in two bytes and is encoded truncated')
plant('record-truncated','C34',('Storage/SimpleDataRecord.cpp','if ((buf_len - DATARECORD_BASE_SIZE) >= _data_length) {','if (buf_len >= _data_length) {'),'''
#include "Storage/Storage.h"
#include <sys/mman.h>
struct R : SimpleDataRecord {
  std::string body; R() : SimpleDataRecord(0, StorageRecordType::C3POBJ_ON_ICE) {}
  int8_t serialize(StringBuilder* o, TCode) { o->concat((uint8_t*) body.data(), (int) body.size()); return 0; }
  int8_t deserialize(StringBuilder* i, TCode) { body.assign((char*) i->string(), i->length()); return 0; }
};
int main() {
  R r; r.body = std::string(300, 'q'); StringBuilder o; EXPECT(0 == r.save(9, "name", &o));
  uint8_t* m = (uint8_t*) mmap(0, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(m + 4096, 4096, PROT_NONE);
  for (int n = o.length(); n > 0; n--) {
    uint8_t* p = m + 4096 - n; memcpy(p, o.string(), n); R g;
    int8_t ret = g.load(9, p, n);
    EXPECT((0 == ret) == (n == o.length()));
  }
  return 0;
}''','an image of a record cut off inside of its data','the checksum is taken over memory past the end of the image')
plant('console-history-cull','C28',('Console/C3PConsole.cpp','  while (_max_history < _history.size()) {\n    delete _history.remove(0);','  if (_max_history < _history.size()) {\n    delete _history.remove(0);'),'''
#include "AbstractPlatform.h"
#include "Console/C3PConsole.h"
static int cb(StringBuilder* o, StringBuilder* a) { return 0; }
int main() {
  ParsingConsole c(64); ConsoleCommand cmd("go", 'g', "", "", 0, cb);
  c.defineCommand(&cmd); c.init(); c.setRXTerminator(LineTerm::LF);
  for (int i = 0; i < 6; i++) { StringBuilder l; l.concatf("go %d\\n", i); c.pushBuffer(&l); }
  EXPECT(c.historyDepth() == 6);
  c.maxHistoryDepth(2);
  EXPECT(c.historyDepth() == 2);
  return 0;
}''','a history depth reduced by more than one','more history than allowed is kept')
plant('enum-first-catchall','C16',('EnumWrapper.h','''          catchall_idx = i;''','''          if (LIST_LEN <= catchall_idx) catchall_idx = i;'''),'''
#include "CppPotpourri.h"
#include "EnumWrapper.h"
enum class E : uint8_t { A, B, C, D };
static const EnumDef<E> D[] = { {E::A, "a"}, {E::B, "b", ENUM_WRAPPER_FLAG_CATCHALL}, {E::C, "c", ENUM_WRAPPER_FLAG_CATCHALL}, {E::D, "d"} };
static const EnumDefList<E> L(D, 4, "E");
int main() { EXPECT(L.getEnumByStr("nope") == E::C); return 0; }''','a list with several catch-alls','the first catch-all is returned rather than the last')
plant('kvp-key-reap','C21',('C3PValue/KeyValuePair.cpp','''    free((void*)_key);
    _reap_key(false);''','''    free((void*)_key);'''),'''
#include "C3PValue/KeyValuePair.h"
int main() {
  static const char* const K = "constant";
  char own[8]; strcpy(own, "mine");
  KeyValuePair* k = new KeyValuePair((uint32_t) 5, own);
  k->setKey(K); EXPECT(0 == strcmp(k->getKey(), "constant"));
  k->setKey("other");
  delete k;
  return 0;
}''','an entry whose copied key is replaced by a constant one','the constant key is freed')
plant('stopwatch-restop','C14',('TimerTools/StopWatch.cpp','''  _run_time_average = _run_time_total / _executions;
  _started          = false;''','''  _run_time_average = _run_time_total / _executions;'''),'''
#include "TimerTools/TimerTools.h"
int main() {
  StopWatch w(1); w.markStart(); now_us += 10; EXPECT(w.markStop()); now_us += 10; EXPECT(!w.markStop()); EXPECT(1 == w.executions());
  return 0;
}''','a second stop without a start','the second stop is measured as another run')
plant('logger-order','C38',('AbstractPlatform.cpp','''  if (!log_line->isEmpty()) {
    _log.concatHandoff(log_line);''','''  if (!log_line->isEmpty()) {
    _log.prependHandoff(log_line);'''),'''
#include "AbstractPlatform.h"
#include "C3PLogger.h"
int main() {
  C3PLogger l(0); l.verbosity(7);
  StringBuilder a("one"), b("two"); l.print(3, "t", &a); l.print(3, "t", &b);
  StringBuilder o; l.fetchLog(&o); std::string s((char*) o.string(), o.length());
  EXPECT(s.find("one") < s.find("two"));
  return 0;
}''','two lines logged before a fetch','lines come out in reverse')
plant('checklist-row-height','C47',('Image/GfxUI/GfxUIChecklist.cpp','      else if (_CHK_LIST->all_steps_dispatched(STEP_FLAG)) {\n        label_color = _style.color_active;','      else if (_CHK_LIST->all_steps_dispatched(STEP->DEP_MASK)) {\n        label_color = _style.color_active;'),'''
#include "AbstractPlatform.h"
#include "AsyncSequencer.h"
#include "Image/Image.h"
#include "Image/GfxUI/GfxUIKit.h"
static int8_t no() { return 0; }
static const StepSequenceList S[] = {
  { 1, 0, "Ab", []() -> int8_t { return 0; }, []() -> int8_t { return 0; } },
  { 2, 1, "Cd", []() -> int8_t { return 0; }, []() -> int8_t { return 0; } },
};
static const StepSequenceList* const T = S;
int main() {
  AsyncSequencer q(S, 2);
  Image m(200, 100, ImgBufferFormat::R8_G8_B8); EXPECT(m.reallocate()); m.fill(0);
  UIGfxWrapper g(&m);
  GfxUIStyle st(0, 0xFFFFFF, 0x0000FF, 0x404040, 0x00FFFF, 0x808080, 1);
  GfxUIChecklist c(&q, GfxUILayout(0, 0, 150, 60, 0, 0, 0, 0, 0, 0, 0, 0), st, 0);
  c.render(&g, true);
  for (int y = 0; y < 60; y++) for (int x = 0; x < 150; x++) EXPECT(m.getPixel(x, y) != 0x0000FF);
  return 0;
}''','a step without dependencies that was never asked for','an idle step shows as requested')
