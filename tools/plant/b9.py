import sys; sys.path.insert(0,'/verif/tools/plant'); from plant import plant as plant_
def plant(*a):
  try: plant_(*a)
  except AssertionError as e: print(a[0],'ASSERT',str(e)[:300])
FSM='''
#include "FiniteStateMachine.h"
enum class S : uint8_t { A = 1, B, C, D, X };
static const EnumDef<S> L[] = { {S::A, "A"}, {S::B, "B"}, {S::C, "C"}, {S::D, "D"}, {S::X, "X", ENUM_WRAPPER_FLAG_CATCHALL} };
static const EnumDefList<S> DL(L, 5, "S");
struct M : public StateMachine<S> {
  M() : StateMachine<S>("M", &DL, S::A, 4) {}
  int8_t _fsm_poll() { return 0; }
  int8_t _fsm_set_position(S x) { return 0; }
  int8_t go() { return _fsm_advance(); }
  int8_t two(S x, S y) { return _fsm_set_route(2, x, y); }
};
'''
LINKS='''
#include "M2MLink/M2MLink.h"
#include "Identity/IdentityUUID.h"
#include <malloc.h>
struct Pipe : public BufferAccepter { M2MLink* to = nullptr; StringBuilder q;
  int8_t pushBuffer(StringBuilder* b) override { q.concatHandoff(b); return 1; }
  int32_t bufferAvailable() override { return 100000; }
  void flow() { if (q.length() > 0) to->pushBuffer(&q); } };
static int got = 0; static int last = 0;
static void on_msg(uint32_t, M2MMsg* m) { got++; KeyValuePair* k = nullptr; m->getPayload(&k); const char* t = nullptr; if (k && (0 == k->valueWithKey("n")->get_as(&t)) && t) last = strlen(t); }
'''
plant('cbor-map-late-cut','C19',('C3PValue/C3PValue.cpp','''"Bailout: %c with %u left to go.\\n", (bailout ? 'y':'n'), count);
  }

  if (bailout) {''','''"Bailout: %c with %u left to go.\\n", (bailout ? 'y':'n'), count);
  }

  if (bailout && (count > 0)) {   // We stopped short of what was promised.'''),'''
#include "C3PValue/C3PValue.h"
static bool takes(const uint8_t* b, int n) { StringBuilder s; s.concat((uint8_t*) b, n); C3PValue* v = C3PValue::deserialize(&s, TCode::CBOR); const bool r = (nullptr != v); if (v) delete v; return r; }
int main() { static uint8_t m[] = {0xA2, 0x61, 0x61, 0x01, 0x61, 0x62, 0x19, 0x01, 0x02}; EXPECT(takes(m, 9)); for (int i = 1; i < 9; i++) EXPECT(!takes(m, i)); return 0; }''','a map of which the input ends within its last entry','it is read as a complete, smaller one')
plant('cbor-string-exact','C19',('C3PValue/C3PValue.cpp','const bool HAVE_EXTRA_LEN = (_length_extra <= (uint64_t) (INPUT_LEN - local_offset));','const bool HAVE_EXTRA_LEN = ((uint32_t) _length_extra <= (uint64_t) (INPUT_LEN - local_offset));'),'''
#include "C3PValue/C3PValue.h"
int main() { static uint8_t m[] = {0x5B, 0, 0, 0, 1, 0, 0, 0, 2, 7, 7}; StringBuilder s; s.concat(m, 11); C3PValue* v = C3PValue::deserialize(&s, TCode::CBOR); EXPECT(!v); return 0; }''','a length over 4G whose low half is small','it is read as a short one')
plant('link-mtu-payload','C31',('M2MLink/M2MLink.cpp','if (_header.total_length() <= (int) _opts.mtu) {','if (_header.payload_length() <= (int) _opts.mtu) {'),LINKS+'''
int main() {
  M2MLinkOpts o(500, 300, 300, TCode::CBOR, 0); M2MLinkOpts big(500, 3000, 1000, TCode::CBOR, 0); M2MLink* a = new M2MLink(&big); M2MLink* b = new M2MLink(&o); Pipe ab, ba; ab.to = b; ba.to = a; a->setEfferant(&ab); b->setEfferant(&ba); a->setCallback(on_msg); b->setCallback(on_msg); IdentityUUID ia("alice"), ib("bob"); a->localIdentity(&ia); b->localIdentity(&ib);
  auto run = [&](int n) { StringBuilder l; for (int i = 0; i < n; i++) { now_us += 5000; a->poll(&l); ab.flow(); b->poll(&l); ba.flow(); l.clear(); } };
  run(2000); EXPECT(a->isConnected() && b->isConnected());
  int most = 0; for (int i = 250; i < 330; i++) { char t[400]; memset(t, 'x', sizeof(t)); t[i] = 0; KeyValuePair p("n", (char*) t); got = 0; a->send(&p, false); run(40); if (got) most = last; if (!b->isConnected() || !got) break; }
  EXPECT(most > 200); EXPECT(most < 320); EXPECT(most < 300); EXPECT(most < 294); return 0; }''','a message whose payload fits the mtu, and which with its header does not','it is taken')
plant('link-identity-stale','C30',('M2MLink/M2MLink.cpp','''  _unackd_sends   = 0;
  if (nullptr != _id_remote) {''','''  _unackd_sends   = 0;
  if ((nullptr != _id_remote) && _flags.value(M2MLINK_FLAG_CONNECT_REMOTE)) {''') if 0 else ('M2MLink/M2MLink.cpp','''    Identity* tmp_ptr = _id_remote;
    _id_remote = nullptr;
    delete tmp_ptr;
  }
}''','''    if ((nullptr == _id_loc) || (_id_remote->identityType() != _id_loc->identityType())) {   // Keep our half of a mutual introduction.
      Identity* tmp_ptr = _id_remote;
      _id_remote = nullptr;
      delete tmp_ptr;
    }
  }
}'''),'''
#define CONFIG_C3P_IDENTITY_SUPPORT
#include "C3PValue/C3PType.cpp"
#include "C3PValue/KeyValuePair.cpp"
'''+LINKS+'''
int main() {
  M2MLinkOpts o(500, 300, 1000, TCode::CBOR, 0); M2MLink* a = new M2MLink(&o); M2MLink* b = new M2MLink(&o); Pipe ab, ba; ab.to = b; ba.to = a; a->setEfferant(&ab); b->setEfferant(&ba); a->setCallback(on_msg); b->setCallback(on_msg); IdentityUUID ia("alice"), ib("bob"), ic("carol"); a->localIdentity(&ia); b->localIdentity(&ib);
  auto run = [&](int n) { StringBuilder l; for (int i = 0; i < n; i++) { now_us += 5000; a->poll(&l); ab.flow(); b->poll(&l); ba.flow(); l.clear(); } };
  run(3000); EXPECT(a->isConnected() && b->isConnected()); EXPECT(b->remoteIdentity());
  a->hangup(); run(3000); b->localIdentity(&ic); a->reset(); b->reset(); run(3000); EXPECT(a->isConnected() && b->isConnected()); StringBuilder x, y; EXPECT(a->remoteIdentity()); a->remoteIdentity()->toString(&x); ic.toString(&y); EXPECT(!strcmp((char*) x.string(), (char*) y.string())); return 0; }''','a session after one in which both had identities','the other party is taken for whoever was there before')
plant('sb-cull-in-place','C01',('StringBuilder.cpp','''        const int REMAINING_LENGTH = (CURRENT_LENGTH - x);
        StrLL* culled_str_ll = _create_str_ll(REMAINING_LENGTH);
        if (nullptr != culled_str_ll) {
          // TODO: Prepend the collapsed string into the list, and eat fragments.
          //   there is no need whatsoever for this fxn to ever call malloc(), let
          //   alone incure almost triple the memory load (worst-case).
          _collapse();   // TODO: Room to optimize here...
          memcpy(culled_str_ll->str, (uint8_t*)(_root->str + x), REMAINING_LENGTH);
          clear();                 // Throw away all else.
          _root = culled_str_ll;   // Re-assign root.
        }''','''        // Eat whole fragments, and then shift what is left of the first one. No
        //   allocation required.
        while ((nullptr != _root->next) && (x >= _root->len)) {
          StrLL* eaten = _root;
          x -= eaten->len;
          _root = eaten->next;
          eaten->next = nullptr;
          _destroy_str_ll(eaten);
        }
        if (x > 0) {
          _root->len -= x;
          memmove(_root->str, (_root->str + x), _root->len);
        }'''),'''
#include "StringBuilder.h"
int main() { StringBuilder a("hello "); a.concat("brave "); a.concat("world"); a.cull(8); EXPECT(a.length() == 9); StringBuilder b((char*) a.string()); EXPECT(!strcmp((char*) a.string(), "ave world")); StringBuilder c("abcdef"); c.cull(2); EXPECT(c.length() == 4); EXPECT(!strcmp((char*) c.string(), "cdef")); return 0; }''','bytes culled from within the only fragment','the string is not terminated where it ends')
plant('seq-reset-passed','C12',('AsyncSequencer.cpp','  _steps_runnable.clear(STEP_MASK);\n  _steps_running.clear(STEP_MASK);','  _steps_runnable.clear(STEP_MASK & ~_steps_complete.raw);   // Its dependencies were met.\n  _steps_running.clear(STEP_MASK);'),'''
#include "AsyncSequencer.h"
static int n = 0; static int ok = 1;
static int d0() { n++; return ok; } static int d1() { return ok; }
int main() {
  static const StepSequenceList L[2] = {{ .FLAG = 1, .LABEL = "s", .DEP_MASK = 0, .DISPATCH_FXN = d1, .POLL_FXN = d1 }, { .FLAG = 2, .LABEL = "t", .DEP_MASK = 1, .DISPATCH_FXN = d0, .POLL_FXN = d0 }};
  AsyncSequencer q(L, 2); q.requestSteps(3); for (int i = 0; i < 50; i++) q.poll(); EXPECT(q.all_steps_have_passed(3));
  q.resetSteps(3); ok = 0; n = 0; q.requestSteps(3); for (int i = 0; i < 50; i++) q.poll();
  EXPECT(0 == n); return 0;
}''','steps reset after they completed, and requested again','a step is dispatched before what it depends upon')
plant('fsm-route-eager','C11',('FiniteStateMachine.h','''    int8_t ret = -1;
    const int32_t PARAM_COUNT = strict_min((int32_t) arg_count, (int32_t) _waypoints.capacity());
    if (PARAM_COUNT > 0) {
    va_list args;''','') if 0 else ('FiniteStateMachine.h','''    if (0 == ret) {
      // If everything looks good, clear the state traversal list and add the
      //   new route to it.
      _waypoints.clear();
      for (int i = 0; i < PARAM_COUNT; i++) {
        _waypoints.insert((uint8_t) test_values[i]);
      }
    }''','''    if (0 == ret) {
      // If everything looks good, clear the state traversal list and add the
      //   new route to it. No sense in visiting where we already are.
      _waypoints.clear();
      for (int i = 0; i < PARAM_COUNT; i++) {
        if ((i > 0) || (currentState() != test_values[i])) {
          _waypoints.insert((uint8_t) test_values[i]);
        }
      }
    }'''),FSM+'''
int main() { M m; EXPECT(0 == m.two(S::A, S::B)); EXPECT(0 == m.go()); EXPECT(m.currentState() == S::A); EXPECT(0 == m.go()); EXPECT(m.currentState() == S::B); return 0; }''','a route that begins with the present state','it is not entered again')
plant('sched-double-queue','C13',('TimerTools/C3PScheduler.cpp','        if (0 != _exec_queue.insertIfAbsent(current)) {','        if (0 != ((current == _exec_queue.peek()) ? -1 : _exec_queue.insert(current))) {'),'''
#include <functional>
#include "AbstractPlatform.h"
#include "TimerTools/C3PScheduler.h"
int main() { int n = 0, m = 0; C3PScheduledLambda s("s", 1000, -1, true, [&]() { n++; return (int8_t) 0; }), t("t", 1000, -1, true, [&]() { m++; return (int8_t) 0; });
  C3PScheduler* sch = C3PScheduler::getInstance(); sch->addSchedule(&s); sch->addSchedule(&t); now_us += 1500; sch->advanceScheduler(); sch->advanceScheduler(); sch->serviceSchedules(); EXPECT(n == 1); EXPECT(m == 1); return 0; }''','two ticks before a service, with two schedules due','the second runs twice')
