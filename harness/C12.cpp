/* C12: AsyncSequencer against a per-step reference. */
#include "sbmodel.h"
#include "AsyncSequencer.h"
#include <vector>
#include <string>
#include <memory>
const char* VF_PROPERTY = "C12";
const char* VF_RULE = "A case is one checklist (1 to 32 steps on random flags; chains, random acyclic, unsatisfiable or circular dependencies) and a history of requests, polls, resets, state export and import, with outcome and duration of every dispatch and poll drawn at random, some of them requesting or resetting steps from inside a callback. Distinct by the graph and the calls.";
using namespace vf;
void vf_setup() {}
struct S { uint32_t flag, deps; bool req = false, able = false, run = false, comp = false, pass = false; int fate = 1; unsigned wait = 0, dispatches = 0; };
struct World {
  std::vector<S> s; std::vector<std::string> seen, want; bool fair = false, model = false; AsyncSequencer* q = nullptr; Ctx* c = nullptr;
  std::vector<int> script; size_t sp = 0;      // The answers given in this poll, in order, for the reference to replay.
  struct Re { int kind; uint32_t mask; }; std::vector<Re> re;
};
static World* W;
static std::vector<std::string> LABELS;
static uint32_t bit(const S& s) { return s.flag; }
static S* by(uint32_t f) { for (S& s : W->s) if (s.flag == f) return &s; return nullptr; }
static bool passed(uint32_t mask) { for (int b = 0; b < 32; b++) if (mask >> b & 1) { S* d = by(1u << b); if (!d || !d->pass) return false; } return true; }
static void m_request(uint32_t mask) {   // With everything reachable.
  std::vector<S*> todo; for (S& s : W->s) if (mask & s.flag) todo.push_back(&s);
  std::vector<S*> seen; while (!todo.empty()) { S* s = todo.back(); todo.pop_back(); bool dup = false; for (S* o : seen) dup |= o == s; if (dup) continue; seen.push_back(s); for (S& d : W->s) if (s->deps & d.flag) todo.push_back(&d); }
  for (S* s : seen) s->req = true;
}
static void m_reset(uint32_t mask) { for (S& s : W->s) if (mask & s.flag) s.req = s.able = s.run = s.comp = s.pass = false; }
static int answer(int i, bool poll) {   // The real callback.
  World& w = *W; S& s = w.s[i]; Rng& r = w.c->rng; w.seen.push_back((poll ? "p" : "d") + std::to_string(i));
  VF_CHECK(w.seen.size() < 200, "one-pass", "more than 200 callbacks in one poll()");
  int a = 1; if (!w.fair) { switch (r.below(poll ? 5 : 6)) { case 0: case 1: a = 0; break; case 2: a = r.chance(1, 3) ? (r.chance(1, 2) ? -1 : 2 + (int)r.below(100)) : 1; break; default: a = 1; } }
  World::Re e{0, 0}; if (!w.fair && r.chance(1, 25)) { e.kind = 1 + r.below(2); e.mask = 1u << r.below(32); if (r.chance(1, 2)) e.mask = w.s[r.below((uint32_t)w.s.size())].flag; if (e.kind == 1) w.q->requestSteps(e.mask); else w.q->resetSteps(e.mask); w.c->op("in %s: %s %08x", w.seen.back().c_str(), e.kind == 1 ? "request" : "reset", e.mask); w.c->count("reentrant_calls"); }
  w.script.push_back(a); w.re.push_back(e); (void)s; return a;
}
static int replay(int i, bool poll) {
  World& w = *W; w.want.push_back((poll ? "p" : "d") + std::to_string(i)); if (w.sp >= w.script.size()) return 0;   // The lists of callbacks will differ, and that is reported.
  World::Re e = w.re[w.sp]; if (e.kind == 1) m_request(e.mask); else if (e.kind == 2) m_reset(e.mask); return w.script[w.sp++];
}
static int m_poll() {
  World& w = *W; struct B { bool run, comp, due; }; std::vector<B> b; for (S& s : w.s) b.push_back(B{s.run, s.comp, s.able && !s.comp && !s.run});
  std::vector<S*> fresh; for (S& s : w.s) if (!s.able && s.req && passed(s.deps)) fresh.push_back(&s); for (S* s : fresh) s->able = true;
  for (size_t i = 0; i < w.s.size(); i++) if (b[i].due) { int a = replay((int)i, false); S& s = w.s[i]; if (a == 1) { s.comp = s.pass = false; s.run = true; } else if (a) { s.run = false; s.comp = true; s.pass = false; } }
  std::vector<bool> go; for (S& s : w.s) go.push_back(s.run);
  for (size_t i = 0; i < w.s.size(); i++) if (go[i]) { int a = replay((int)i, true); S& s = w.s[i]; if (a) { s.run = false; s.comp = true; s.pass = a == 1; } }
  int n = 0; for (size_t i = 0; i < w.s.size(); i++) { S& s = w.s[i]; n += (s.run != b[i].run) + (s.comp != b[i].comp) + ((s.able && !s.comp && !s.run) != b[i].due); } return n;
}
static void compare(Ctx& c) {
  World& w = *W; uint32_t q[5]; w.q->getState(q, q + 1, q + 2, q + 3, q + 4); uint32_t e[5] = {0, 0, 0, 0, 0};
  for (S& s : w.s) { if (s.req) e[0] |= s.flag; if (s.able) e[1] |= s.flag; if (s.run) e[2] |= s.flag; if (s.comp) e[3] |= s.flag; if (s.pass) e[4] |= s.flag; }
  static const char* N[] = {"requested", "runnable", "running", "complete", "passed"};
  for (int i = 0; i < 5; i++) VF_CHECK(q[i] == e[i], "state", "%s steps are %08x, should be %08x", N[i], q[i], e[i]);
  VF_CHECK(w.q->request_fulfilled() == ((e[0] & ~(e[3] & e[4])) == 0), "fulfilled", "request_fulfilled is %d: requested %08x complete %08x passed %08x", w.q->request_fulfilled(), e[0], e[3], e[4]);
  VF_CHECK(w.q->request_completed() == ((e[0] & ~e[3]) == 0), "fulfilled", "request_completed is %d", w.q->request_completed());
  VF_CHECK(w.q->steps_running() == (e[2] != 0), "running", "steps_running is wrong");
  VF_CHECK(w.q->all_steps_have_run() == ((e[1] & ~e[3]) == 0) && w.q->all_steps_have_passed() == ((e[1] & ~e[4]) == 0), "all-steps", "all_steps_have_run / passed is wrong");
  VF_CHECK(w.q->failed_steps(false) == (e[3] & ~e[4]) && w.q->failed_steps(true) == (e[1] & ~e[4]), "failed", "failed steps are %08x", w.q->failed_steps(false));
  uint32_t m = c.rng.chance(1, 2) ? w.s[c.rng.below((uint32_t)w.s.size())].flag : c.rng.u32() & c.rng.u32();
  VF_CHECK(w.q->all_steps_have_run(m) == ((m & ~e[3]) == 0) && w.q->all_steps_have_passed(m) == ((m & ~e[4]) == 0) && w.q->all_steps_still_running(m) == ((m & ~e[2]) == 0) && w.q->all_steps_dispatched(m) == ((m & ~e[0]) == 0), "all-steps", "a masked question about %08x is answered wrongly", m);
  c.feat(mix(mix(e[1], e[2]), mix(e[3], e[4])));
}
static int one_poll(Ctx& c) {
  World& w = *W; w.seen.clear(); w.want.clear(); w.script.clear(); w.re.clear(); w.sp = 0;
  // What the callbacks may see: only requested steps whose dependencies have passed are dispatched (stated without the reference's bookkeeping).
  int got = w.q->poll(); std::string a, b; int want = m_poll(); for (auto& x : w.seen) a += " " + x; for (auto& x : w.want) b += " " + x;
  c.op("poll%s", a.c_str()); VF_CHECK(a == b, "callbacks", "poll() called%s, should call%s", a.c_str(), b.c_str());
  VF_CHECK(got == want, "transitions", "poll() reports %d transitions, there were %d", got, want); c.count("polls"); c.count("callbacks", w.seen.size()); return got;
}
void vf_case(Ctx& c) {
  Rng& r = c.rng; const unsigned n = r.chance(1, 6) ? 32 : 1 + r.below(r.chance(1, 2) ? 6 : 32); World w; W = &w; w.c = &c;
  std::vector<int> bits; for (int i = 0; i < 32; i++) bits.push_back(i); for (int i = 31; i > 0; i--) std::swap(bits[i], bits[r.below(i + 1)]);
  const unsigned shape = r.below(5); std::vector<unsigned> rank; for (unsigned i = 0; i < n; i++) rank.push_back(i); if (r.chance(2, 3)) for (unsigned i = n - 1; i > 0; i--) std::swap(rank[i], rank[r.below(i + 1)]);
  std::vector<uint32_t> deps(n, 0); std::vector<unsigned> at(n); for (unsigned i = 0; i < n; i++) at[rank[i]] = i;
  for (unsigned k = 1; k < n; k++) { unsigned i = at[k]; if (shape == 0) deps[i] = 1u << bits[at[k - 1]]; else if (shape < 4) for (unsigned j = 0; j < k; j++) if (r.chance(shape == 1 ? 1 : 2, shape == 3 ? 3 : n)) deps[i] |= 1u << bits[at[j]]; }
  if (r.chance(1, 15) && n < 32) deps[r.below(n)] |= 1u << bits[31];                                        // Nobody has that flag.
  if (r.chance(1, 15) && n < 9) { deps[at[0]] |= 1u << bits[at[n - 1]]; c.count("circular"); }               // Maybe circular.
  StepSequenceList* list = (StepSequenceList*)calloc(n, sizeof(StepSequenceList)); std::string g;
  static char lab[32][12]; for (unsigned i = 0; i < n; i++) { snprintf(lab[i], sizeof lab[i], "step-%u", i * i * i); new (list + i) StepSequenceList{1u << bits[i], lab[i], deps[i], [i]() { return answer((int)i, false); }, [i]() { return answer((int)i, true); }};
    S s; s.flag = 1u << bits[i]; s.deps = deps[i]; w.s.push_back(s); char t[40]; snprintf(t, sizeof t, " %08x:%08x", s.flag, s.deps); g += t; }
  c.op("list%s", g.c_str());
  {
    AsyncSequencer q(list, n); w.q = &q; VF_CHECK(q.stepCount() == n, "list", "stepCount is %u", q.stepCount());
    for (unsigned i = 0; i <= n; i++) VF_CHECK(q.getStep(i) == (i < n ? list + i : nullptr), "list", "getStep(%u) is wrong", i);
    compare(c); const int N = 10 + r.below(70);
    for (int k = 0; k < N; k++) {
      switch (r.below(12)) {
        case 0: case 1: { uint32_t m = r.chance(1, 2) ? w.s[r.below(n)].flag : (r.chance(1, 4) ? 0xFFFFFFFF : r.u32() & r.u32()); c.op("request %08x", m); q.requestSteps(m); m_request(m); c.count("requests"); break; }
        case 2: { uint32_t m = r.chance(1, 2) ? w.s[r.below(n)].flag : r.u32() & r.u32(); c.op("reset %08x", m); q.resetSteps(m); m_reset(m); c.count("resets"); break; }
        case 3: if (r.chance(1, 6)) { c.op("reset all"); q.resetSequencer(); m_reset(0xFFFFFFFF); c.count("full_resets"); } break;
        case 4: if (r.chance(1, 3)) { uint32_t t[5]; q.getState(t, t + 1, t + 2, t + 3, t + 4); if (r.chance(1, 2)) { q.resetSequencer(); c.op("export, reset, import"); } else { unsigned i = r.below(n); c.op("import %u passed", i); t[0] |= bit(w.s[i]); t[1] |= bit(w.s[i]); t[2] &= ~bit(w.s[i]); t[3] |= bit(w.s[i]); t[4] |= bit(w.s[i]); S& s = w.s[i]; s.req = s.able = s.comp = s.pass = true; s.run = false; }
          q.setState(t[0], t[1], t[2], t[3], t[4]); q.getState(nullptr, nullptr, nullptr, nullptr, nullptr); c.count("imports"); } break;
        case 5: if (r.chance(1, 4)) { StringBuilder o; c.op("print"); q.printDebug(&o, r.chance(1, 2) ? "HDR" : nullptr); std::string t((char*)o.string(), o.length()); size_t p = 0;
          for (unsigned i = 0; i < n; i++) { S& s = w.s[i]; char row[160]; snprintf(row, sizeof row, "%s |         %c |        %c |       %c |        %c |   %s\n", lab[i], s.req ? 'y' : 'n', s.able ? 'y' : 'n', s.run ? 'y' : 'n', s.comp ? 'y' : 'n', s.comp ? (s.pass ? "pass" : "fail") : ""); size_t f = t.find(row, p); VF_CHECK(f != std::string::npos, "print", "no row [%s] in %s", row, t.c_str()); p = f; }
          StringBuilder l; VF_CHECK(q.stepList(&l) == n && q.stepList() == n, "list", "stepList counts wrongly"); c.count("prints"); } break;
        default: one_poll(c);
      }
      compare(c);
    }
    // Continued polling with willing steps brings every satisfiable request home.
    w.fair = true; for (S& s : w.s) s.dispatches = 0; unsigned idle = 0; for (int k = 0; k < 200 && idle < 3; k++) { idle = one_poll(c) ? 0 : idle + 1; compare(c); }
    VF_CHECK(idle >= 3, "settles", "the sequencer never settles");
    for (size_t i = 0; i < w.s.size(); i++) { S& s = w.s[i]; bool able = s.req && passed(s.deps); VF_CHECK(!able || s.comp, "eventually", "step %zu was requested and can run, and never did", i); if (able && s.pass) c.count("steps_home"); if (s.comp && !s.pass) c.count("steps_failed"); }
    bool all = true; for (S& s : w.s) if (s.req && !s.pass) all = false; VF_CHECK(q.request_fulfilled() == all, "fulfilled", "after settling, fulfilled is %d", q.request_fulfilled()); if (all) c.count("fulfilled");
  }
  for (unsigned i = 0; i < n; i++) list[i].~StepSequenceList(); free(list); w.q = nullptr; c.nontrivial = true;
}
