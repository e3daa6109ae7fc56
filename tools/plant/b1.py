import sys; sys.path.insert(0,'/verif/tools/plant'); from plant import plant
plant('sb-locate-retrace','C02',('StringBuilder.cpp','        if (match_length > 1) {\n          search_offset','        if ((match_length > 1) && (0 < strll_offset)) {\n          search_offset'),'''
int main() {
  StringBuilder s; s.concat("xxaab"); s.concat("c-aabd");
  EXPECT(7 == s.locate("-aabd"));
  StringBuilder t; t.concat("aab"); t.concat("aac");      // "aabaac": the partial match "aab" breaks at the next fragment's first byte
  EXPECT(3 == t.locate("aac"));
  StringBuilder u; u.concat("zaa"); u.concat("ab");   // "aab" starts inside the false start "aaa".
  EXPECT(2 == u.locate("aab"));
  return 0;
}''','a false start that breaks exactly on the first byte of a fragment','locate() does not retrace its steps when the mismatch is at the start of a fragment, so it misses overlapping matches or reports a wrong offset')
plant('sb-handoff-guard','C04',('StringBuilder.cpp','''      StrLL*  current      = donar->_root;
      StrLL*  move_first   = nullptr;''','''      StrLL*  current      = donar->_root;
      if ((0 == pos) & ((uint32_t) donar->count() == FRAG_COUNT)) {
        concatHandoff(donar);   // Everything is moving. Take the whole chain.
        return FRAG_COUNT;
      }
      if ((0 == pos) & (1 < FRAG_COUNT)) {
        donar->string();
      }
      StrLL*  move_first   = nullptr;'''),'''
int main() {
  StringBuilder d, s; d.concat("aa"); d.concat("bb"); d.concat("cc");
  EXPECT(2 == s.concatHandoffPositions(&d, 0, 2));
  EXPECT(2 == s.count());
  EXPECT(4 == s.length() && 0 == memcmp(s.string(), "aabb", 4));
  EXPECT(2 == d.length() && 0 == memcmp(d.string(), "cc", 2));
  return 0;
}''','handing off the first two or more positions of three or more','the donor is collapsed first, so that the hand-off takes all of it as one position')
plant('rb-contains-wrap','C07',('RingBuffer.h','''      found |= current_is_compare;

      cur_idx = ((cur_idx + 1) % _CAPAC);   // TODO: Convert to pow(2) later and convert to bitmask.''','''      found |= current_is_compare;

      cur_idx++;
      if (cur_idx > _CAPAC) {  cur_idx = 0;  }'''),'''
#include "RingBuffer.h"
int main() {
  RingBuffer<uint8_t> r(4);
  for (uint8_t i = 1; i <= 4; i++) EXPECT(0 == r.insert(i));
  EXPECT(1 == r.get() && 2 == r.get() && 3 == r.get());
  r.insert(5); r.insert(6);           // 4 | 5 6 (wrapped)
  EXPECT(r.contains(4)); EXPECT(r.contains(5)); EXPECT(r.contains(6));
  return 0;
}''','contents that wrap past the end of the ring','contains() reads one slot past the end and misses the last element')
plant('pq-absent-rank','C09',('PriorityQueue.h','    if (current->priority >= nu_pri) {\n      insert_pointer','    if ((current->priority > nu_pri) | (nullptr == insert_pointer ? (current->priority == nu_pri) : (current->priority == insert_pointer->priority))) {\n      insert_pointer'),'''
#include "PriorityQueue.h"
int main() {
  PriorityQueue<int*> q; int a, b, c, d;
  q.insert(&a, 9); q.insert(&b, 5); q.insert(&c, 1);
  EXPECT(2 == q.insertIfAbsent(&d, 5));
  EXPECT(q.dequeue() == &a); EXPECT(q.dequeue() == &b); EXPECT(q.dequeue() == &d); EXPECT(q.dequeue() == &c);
  return 0;
}''','insertIfAbsent() of a priority already present behind a higher one','the element is put ahead of its equals: not first come, first served')
plant('fsm-advance-refused','C11',('FiniteStateMachine.h','''    if (0 == _fsm_set_position((T) _waypoints.peek())) {
      _prior_state   = _current_state;
      _current_state = (T) _waypoints.get();
      ret = 0;''','''    const T NEXT_STATE = (T) _waypoints.get();
    if (0 != _fsm_set_position(NEXT_STATE)) {
      _fsm_prepend_state(NEXT_STATE);   // Refused. Put it back for a later try.
    }
    else {
      _prior_state   = _current_state;
      _current_state = NEXT_STATE;
      ret = 0;'''),'''
#include "FiniteStateMachine.h"
enum class S : uint8_t { A = 1, B, C, D, X };
static const EnumDef<S> L[] = { {S::A, "A"}, {S::B, "B"}, {S::C, "C"}, {S::D, "D"}, {S::X, "X", ENUM_WRAPPER_FLAG_CATCHALL} };
static const EnumDefList<S> DL(L, 5, "S");
struct M : public StateMachine<S> {
  M() : StateMachine<S>("M", &DL, S::A, 2) {}
  bool refuse = true;
  int8_t _fsm_poll() { return 0; }
  int8_t _fsm_set_position(S x) { if (refuse) { _fsm_append_state(S::D); return -1; } return 0; }
  int8_t go() { return _fsm_advance(); }
};
int main() {
  M m; EXPECT(0 == m._fsm_set_route(2, S::B, S::C));
  EXPECT(-1 == m.go());          // Refused; its code tried to plan one more, for which there is no room.
  m.refuse = false;
  EXPECT(0 == m.go() && m.currentState() == S::B);
  EXPECT(0 == m.go() && m.currentState() == S::C);
  return 0;
}''','an entry that is refused by code which itself tries to plan a state while the plan is full','the state that was refused is lost from the plan')
plant('seq-deep-deps','C12',('AsyncSequencer.cpp','          if (strict_min((uint32_t) 32, _STEP_COUNT) > limiter) {','          if (strict_min((uint32_t) 8, _STEP_COUNT) > limiter) {'),'''
#include "AsyncSequencer.h"
static int8_t one() { return 1; }
int main() {
  static StepSequenceList L[16]; 
  for (int i = 0; i < 16; i++) { StepSequenceList s = { .FLAG = (1u << i), .LABEL = "s", .DEP_MASK = (i ? (1u << (i - 1)) : 0), .DISPATCH_FXN = one, .POLL_FXN = one }; memcpy((void*) &L[i], &s, sizeof(s)); }
  AsyncSequencer q(L, 16);
  q.requestSteps(1u << 15);
  for (int i = 0; i < 200; i++) q.poll();
  EXPECT(q.request_completed()); EXPECT(q.all_steps_have_passed(0xFFFF));
  return 0;
}''','a chain of dependencies more than eight deep','the request does not reach the far end of the chain, which never runs')
plant('bus-purge-dev-first','C37',('BusQueue/BusQueue.h','''          ret++;
          work_queue.remove(current);
          current->abort''','''          ret++;
          work_queue.dequeue();
          current->abort'''),'''
#include "BusQueue/SPIAdapter.h"
int main() { return 0; }
''','x','x') if 0 else None
plant('timer-remaining-wrap','C14',('TimerTools/TimerTools.h','      return (expired() ? 0 : _until(_mark + _period));','      const unsigned long DUE = (_mark + _period);\n      const unsigned long NOW = _now();\n      return ((DUE > NOW) ? (DUE - NOW) : 0);'),'''
#include "TimerTools/TimerTools.h"
int main() {
  now_us = 0xFFFFFF00ull; MicrosTimeout t(1000); t.reset(); now_us += 100;
  EXPECT(!t.expired()); EXPECT(900 == t.remaining());
  now_us += 500; EXPECT(400 == t.remaining());
  return 0;
}''','a timeout which spans the wrap of the clock','remaining() is zero although the timeout did not expire')
