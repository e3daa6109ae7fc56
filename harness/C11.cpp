/* C11: StateMachine against a list of planned states. */
#include "sbmodel.h"
#include "FiniteStateMachine.h"
#include <vector>
#include <deque>
#include <string>
const char* VF_PROPERTY = "C11";
const char* VF_RULE = "A case is one machine (plan capacity 0 to 12, table with declared, invalid and undeclared states) and a history of route, append, prepend, advance, poll, refusal, lockout, slowdown, re-entrant planning, reset, print and time steps, started anywhere on the 32-bit clock. Distinct by the calls made.";
using namespace vf;
enum class St : uint8_t { IDLE = 0, BOOT = 1, RUN = 2, WAIT = 7, HALT = 40, FAULT = 200, LAST = 254, BAD = 255 };
static const EnumDef<St> DEFS[] = {
  {St::IDLE, "IDLE"}, {St::BOOT, "BOOT", 0, 3}, {St::RUN, "RUN"}, {St::WAIT, "WAIT"}, {St::HALT, "HALT"}, {St::FAULT, "FAULT"}, {St::LAST, "LAST"},
  {St::BAD, "BAD", ENUM_FLAG_MASK_INVALID_CATCHALL} };
static const EnumDefList<St> TABLE(DEFS, sizeof(DEFS) / sizeof(DEFS[0]), "states");
static const int VALID[] = {0, 1, 2, 7, 40, 200, 254};
static bool valid(int s) { for (int v : VALID) if (v == s) return true; return false; }
static const char* name(int s) { for (auto& d : DEFS) if ((int)d.VAL == s) return d.STR; return "<NO ENUM>"; }
void vf_setup() {}

struct M : public StateMachine<St> {
  int answer = 0, calls = 0, asked = -1, entry_lock = -1, entry_append = -1, seen_cur = -1;
  M(St i, unsigned d) : StateMachine<St>("MACHINE", &TABLE, i, d) {}
  int8_t _fsm_poll() override { if (_fsm_is_waiting() || _fsm_is_stable()) return 0; return (0 == _fsm_advance()) ? 1 : -1; }
  int8_t _fsm_set_position(St s) override {
    calls++; asked = (int)s; seen_cur = (int)currentState();
    if (entry_lock >= 0) _fsm_lockout((uint32_t)entry_lock);
    if (entry_append >= 0) _fsm_append_state((St)entry_append);
    return (int8_t)answer;
  }
  using StateMachine<St>::_fsm_set_route; using StateMachine<St>::_fsm_append_route; using StateMachine<St>::_fsm_append_state; using StateMachine<St>::_fsm_prepend_state;
  using StateMachine<St>::_fsm_advance; using StateMachine<St>::_fsm_reset; using StateMachine<St>::_fsm_mark_current_state; using StateMachine<St>::_fsm_state_planned; using StateMachine<St>::_fsm_lockout;
  using StateMachine<St>::_fsm_is_waiting; using StateMachine<St>::_fsm_pos_next; using StateMachine<St>::_fsm_is_next_pos; using StateMachine<St>::_fsm_is_stable; using StateMachine<St>::_fsm_slowdown; using StateMachine<St>::_fsm_state_string;
};
static unsigned long ms() { return (unsigned long)(now_us / 1000); }
struct T { unsigned long mark = 0, period = 0; bool expired() { return period == 0 || (unsigned long)(ms() - mark) >= period; } unsigned long remaining() { return expired() ? 0 : (unsigned long)(mark + period - ms()); } void reset(unsigned long p) { mark = ms(); period = p; } };

static int pick(Rng& r) { return r.chance(1, 12) ? (r.chance(1, 2) ? 255 : (int)r.below(256)) : VALID[r.below(7)]; }

void vf_case(Ctx& c) {
  Rng& r = c.rng;
  switch (r.below(4)) {
    case 0: now_us = 1000 + r.below(1000000); break;
    case 1: now_us = ((uint64_t)0xFFFFFFFFu - r.below(3000)) * 1000 + r.below(1000); break;   // millis() is about to wrap
    case 2: now_us = ((uint64_t)0x80000000u - r.below(3000)) * 1000 + r.below(1000); break;
    default: now_us = r.u64() & 0xFFFFFFFFFFULL;
  }
  const bool vast = r.chance(1, 250); const unsigned cap = vast ? 100 + r.below(500) : r.chance(1, 25) ? 0 : 1 + r.below(12); const int init = VALID[r.below(7)];
  M m((St)init, cap); std::deque<int> way; int cur = init, prior = init; T lock; uint32_t slow = 0;
  c.op("machine cap %u at %d", cap, init);
  if (vast) { unsigned n = r.below(cap + 1); for (unsigned i = 0; i < n; i++) { int s = VALID[r.below(7)]; int got = m._fsm_append_state((St)s); VF_CHECK(got == 0, "plan-code", "append of %d with %zu of %u planned gave %d", s, way.size(), cap, got); way.push_back(s); } c.op("a plan of %u", n); c.count("long_plans"); }
  const int N = 20 + r.below(100);
  for (int k = 0; k < N; k++) {
    switch (r.below(16)) {
      case 0: case 1: {   // Route
        const int n = r.chance(1, 10) ? -(int)r.below(3) : (int)r.below(r.chance(1, 3) ? 17 : 5); int a[16]; for (int& x : a) x = pick(r); if (r.chance(1, 2)) for (int i = 0; i < 16; i++) if (!valid(a[i])) a[i] = VALID[i % 7];
        const bool app = r.chance(1, 2); std::string t; for (int i = 0; i < n; i++) t += " " + std::to_string(a[i]);
        c.op("%s%s", app ? "append_route" : "set_route", t.c_str());
        int got = app ? m._fsm_append_route(n, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15])
                      : m._fsm_set_route(n, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15]);
        const int room = (int)(app ? cap - way.size() : cap), used = n < room ? n : room; int want = 0;
        if (used <= 0) want = -1; else for (int i = 0; i < used; i++) if (!valid(a[i])) want = -2;
        VF_CHECK(got == want, "plan-code", "%s of %d with room %d gave %d, should be %d", app ? "append_route" : "set_route", n, room, got, want);
        if (!want) { if (!app) way.clear(); for (int i = 0; i < used; i++) way.push_back(a[i]); c.count(n > room ? "plans_truncated" : "plans"); } else c.count("plans_refused");
        break; }
      case 2: case 3: {
        const int s = pick(r); const bool pre = r.chance(1, 2); c.op("%s %d", pre ? "prepend" : "append", s);
        int got = pre ? m._fsm_prepend_state((St)s) : m._fsm_append_state((St)s); int want = !valid(s) ? -1 : (way.size() >= cap ? -2 : 0);
        VF_CHECK(got == want, "plan-code", "%s of %d with %zu of %u planned gave %d, should be %d", pre ? "prepend" : "append", s, way.size(), cap, got, want);
        if (!want) { if (pre) { if (!way.empty()) c.count("prepends_moving"); way.push_front(s); } else way.push_back(s); c.count("plans"); } else c.count("plans_refused");
        break; }
      case 4: case 5: case 6: case 7: case 8: {   // Advance, perhaps by the guarded way
        const bool guarded = r.chance(2, 3); m.answer = r.chance(1, 4) ? (r.chance(1, 2) ? -1 : 1) : 0; m.calls = 0; m.asked = -1;
        m.entry_lock = r.chance(1, 6) ? (int)r.below(40) : -1; m.entry_append = r.chance(1, 8) ? pick(r) : -1;
        c.op("%s ans %d lock %d app %d", guarded ? "poll" : "advance", m.answer, m.entry_lock, m.entry_append);
        const bool waiting = !lock.expired(), blocked = way.empty() || (guarded && waiting);
        int got = guarded ? m._fsm_poll() : m._fsm_advance(); const bool moved = guarded ? got == 1 : got == 0;
        VF_CHECK(m.calls == (blocked ? 0 : 1), "entry-attempts", "the machine was asked to enter a state %d times", m.calls);
        if (!blocked) {
          VF_CHECK(m.asked == way.front(), "entry-order", "asked to enter state %d, planned is %d", m.asked, way.front());
          VF_CHECK(m.seen_cur == cur, "entry-before-change", "while entering, the current state is %d, should be %d", m.seen_cur, cur);
          if (m.entry_lock >= 0) lock.reset(m.entry_lock);
          if (m.entry_append >= 0 && valid(m.entry_append) && way.size() < cap) { way.push_back(m.entry_append); c.count("planned_in_entry"); }
        }
        VF_CHECK(moved == (!blocked && m.answer == 0), "advance-result", "advance gave %d with answer %d, blocked %d", got, m.answer, blocked);
        if (moved) { prior = cur; cur = way.front(); way.pop_front(); if (slow) { unsigned long rem = lock.remaining(); lock.reset(rem > slow ? rem : slow); if (rem > slow) c.count("longer_lockouts_kept"); } c.count("advances"); }
        else c.count(way.empty() ? "advances_stable" : (blocked ? "advances_waiting" : "advances_refused"));
        m.entry_lock = m.entry_append = -1;
        break; }
      case 9: { unsigned long x = r.chance(1, 5) ? 0 : r.below(r.chance(1, 4) ? 5000 : 50); c.op("lockout %lu", x); m._fsm_lockout((uint32_t)x); lock.reset(x); break; }
      case 10: { slow = r.chance(1, 3) ? 0 : r.chance(1, 8) ? r.below(200000) : r.below(60);
        if (r.chance(1, 2)) { c.op("slowdown %u", slow); m._fsm_slowdown(slow); }
        else { c.op("console slowdown %u", slow); StringBuilder a, o; a.concat("slowdown"); StringBuilder b; b.concatf("%u", slow); a.concatHandoff(&b);
          VF_CHECK(0 == m.fsm_console_handler(&o, &a), "console", "the console handler failed"); lock.period = slow; c.count("console_slowdowns"); }
        VF_CHECK(m._fsm_slowdown() == slow, "slowdown", "slowdown reads %u, set was %u", m._fsm_slowdown(), slow);
        break; }
      case 11: case 12: case 13: { uint64_t d = r.chance(1, 6) ? r.below(5000000) : r.below(60000); c.op("time +%llu", (unsigned long long)d); advance_us(d); break; }
      case 14: if (r.chance(1, 4)) { int s = VALID[r.below(7)]; c.op("reset %d", s); m._fsm_reset((St)s); prior = cur; cur = s; way.clear(); lock.mark = ms(); c.count("resets"); }
        else if (r.chance(1, 4)) { int s = VALID[r.below(7)]; c.op("mark %d", s); m._fsm_mark_current_state((St)s); prior = cur; cur = s; c.count("marks"); } break;
      default: {
        StringBuilder o, none; c.op("print"); if (r.chance(1, 2)) m.printFSM(&o); else m.fsm_console_handler(&o, &none);
        std::string s((const char*)o.string(), o.length()), list; for (int w : way) list += std::string(name(w)) + ", "; list += "(stable)";
        VF_CHECK(s.find("Next states:   " + list) != std::string::npos, "print", "the plan %s is not printed: %s", list.c_str(), s.c_str());
        VF_CHECK(s.find(std::string("Prior state:   ") + name(prior) + "\n") != std::string::npos && s.find(std::string("Current state: ") + name(cur) + " ") != std::string::npos, "print", "wrong states printed: %s", s.c_str());
        VF_CHECK((s.find("(LOCKED)") != std::string::npos) == !lock.expired(), "print", "lock state printed wrongly"); c.count("prints"); }
    }
    VF_CHECK((int)m.currentState() == cur && (int)m.priorState() == prior, "position", "the machine is at %d after %d, should be at %d after %d", (int)m.currentState(), (int)m.priorState(), cur, prior);
    VF_CHECK(m._fsm_is_stable() == way.empty(), "stable", "stable %d with %zu planned", (int)m._fsm_is_stable(), way.size());
    if (!way.empty()) VF_CHECK((int)m._fsm_pos_next() == way.front(), "next", "next is %d, should be %d", (int)m._fsm_pos_next(), way.front());
    for (int v : VALID) { bool in = false; for (int w : way) in |= w == v; VF_CHECK(m._fsm_state_planned((St)v) == in, "planned", "state %d planned: %d, should be %d", v, !in, in); VF_CHECK(m._fsm_is_next_pos((St)v) == (!way.empty() && way.front() == v), "next", "is_next_pos(%d) is wrong", v); }
    VF_CHECK(m._fsm_is_waiting() == !lock.expired() && m._fsm_lockout() == (uint32_t)lock.remaining(), "lockout", "waiting %d remaining %u, should be %lu", (int)m._fsm_is_waiting(), m._fsm_lockout(), lock.remaining());
    VF_CHECK(!strcmp(m._fsm_state_string((St)cur), name(cur)), "print", "state string of %d is %s", cur, m._fsm_state_string((St)cur));
    if (!lock.expired()) c.count("waiting_observed");
    c.feat(mix(mix(cap, way.size()), mix(cur, lock.expired() ? 0 : 1)));
  }
  c.nontrivial = true;
}
