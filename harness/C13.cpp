/* C13: C3PScheduler and C3PSchedule against a table of due times. */
#include "sbmodel.h"
#include <functional>
#include <vector>
#include <string>
#include "AbstractPlatform.h"
#include "FlagContainer.h"
#include "PriorityQueue.h"
#include "ElementPool.h"
#include "TimeSeries/TimeSeries.h"
#include "C3PLogger.h"
#include "TimerTools/TimerTools.h"
#define private public      // The constructor: each case wants a scheduler of its own.
#include "TimerTools/C3PScheduler.h"
#undef private
const char* VF_PROPERTY = "C13";
const char* VF_RULE = "A case is a jitter probe run early, late and over the wrap, or one scheduler (room for 1 to 8) with up to 10 schedules (lambdas and polled objects) and a history of ticks, services, delays, enabling, disabling, period and recurrence edits (also from inside the work, which may take long, tick the scheduler, or add another schedule), starting anywhere on the 32-bit clock, near its wrap in half of the cases. Distinct by the calls made.";
using namespace vf;
void vf_setup() { C3PScheduler* s = C3PScheduler::getInstance(); VF_CHECK(s && s == C3PScheduler::getInstance() && s->initialized(), "singleton", "getInstance() is not a singleton"); }
static uint32_t us() { return (uint32_t)now_us; }
struct E { int kind; uint32_t v; int who; };
struct W; static W* w;
struct Sch {   // The reference's view
  C3PSchedule* real = nullptr; uint32_t period = 0, at = 0, last = 0; int32_t rec = 0; bool en = false, added = false, queued = false, busy = false; unsigned runs = 0, real_runs = 0; uint32_t total = 0;
  std::vector<E> during;  // What the work does.
};
struct W { Ctx* c; C3PScheduler* s; std::vector<Sch> m; std::vector<int> active, queue; unsigned cap; uint32_t ticks = 0, services = 0, dead = 0; bool dead_on = false; unsigned runs_in_service = 0; };
static bool will(Sch& s) { return s.en && (s.rec > 0 || s.rec == -1); }
static void m_delay(Sch& s, bool by, uint32_t d) { if (s.busy) return; if (by) { if (!s.en) { s.at = us(); s.en = true; } s.at += d; } else { s.at = us() + s.period; s.en = true; } }
static int m_add(int i) { for (int a : w->active) if (a == i) return -2; if (w->active.size() >= w->cap) return -1; w->active.push_back(i); Sch& s = w->m[i]; if (s.en) m_delay(s, false, 0); return 0; }
static void m_tick() {
  for (int i : w->active) { Sch& s = w->m[i]; if (s.en && !s.busy && (uint32_t)(us() - s.at) < 0x7FFFFFFFu && !s.queued) { s.queued = true; w->queue.push_back(i); } }
  w->ticks++; w->dead_on = true;
}
static void edit(const E& e, bool inside) {   // One edit, of both.
  Sch& s = w->m[e.who]; Ctx& c = *w->c; static const char* N[] = {"enable", "disable", "period", "recurrence", "delay", "delay by", "tick", "time", "add"};
  c.op("%s%s %d %u", inside ? "  in work: " : "", N[e.kind], e.who, e.v);
  switch (e.kind) {
    case 0: s.real->enabled(true); s.en = true; break;
    case 1: s.real->enabled(false); s.en = false; if (s.queued) c.count("disabled_in_queue"); break;
    case 2: s.real->period(e.v); s.period = e.v; break;
    case 3: s.real->recurrence((int32_t)e.v); s.rec = (int32_t)e.v; break;
    case 4: s.real->delay(); m_delay(s, false, 0); c.count("delays"); break;
    case 5: s.real->delay(e.v); m_delay(s, true, e.v); c.count("delays"); break;
    case 6: w->s->advanceScheduler(); m_tick(); c.count(inside ? "ticks_in_work" : "ticks"); break;
    case 7: advance_us(e.v); break;
    case 8: { int g = w->s->addSchedule(s.real), x = m_add(e.who); VF_CHECK(g == x, "add-code", "addSchedule gave %d, should be %d", g, x); c.count(x ? "adds_refused" : "adds"); break; }
  }
}
static void work(int i) {   // The real work: it is here that the schedule is observed.
  Sch& s = w->m[i]; Ctx& c = *w->c; w->c->op(" runs %d", i); c.count("executions");
  while (!w->queue.empty() && w->queue.front() != i && !w->m[w->queue.front()].en) { w->m[w->queue.front()].queued = false; w->queue.erase(w->queue.begin()); c.count("skipped_disabled"); }
  VF_CHECK(!w->queue.empty() && w->queue.front() == i, "execution-order", "schedule %d executes now; the one to execute is %d", i, w->queue.empty() ? -1 : w->queue.front());
  VF_CHECK(s.en, "disabled-execution", "schedule %d executes while disabled", i); VF_CHECK(s.real->executingNow(), "executing-flag", "the executing schedule does not say so");
  w->queue.erase(w->queue.begin()); s.queued = false; s.busy = true; s.real_runs++; w->runs_in_service++; const uint32_t t0 = us();
  for (E& e : s.during) if (e.kind != 6 || w->runs_in_service < 30) edit(e, true);   // Overload ends at some point.
  s.busy = false; s.runs++; s.total += us() - t0;
  if (s.en) { if (s.rec > 0) s.rec--; if (s.rec == 0) { s.en = false; c.count("runs_out"); } s.last = t0; }
  s.at = will(s) ? t0 + s.period : 0;
}
struct Pol : public C3PPollable { int i; PollResult poll() override { work(i); return PollResult::NO_ACTION; } };
static E draw(Rng& r, int n, bool inside, int self) {
  static const int K[] = {0, 1, 2, 3, 4, 5, 6, 7, 8}; E e; e.kind = K[r.below(9)]; e.who = inside && r.chance(1, 2) ? self : (int)r.below(n);
  switch (e.kind) { case 2: e.v = 1 + r.below(r.chance(1, 4) ? 2000000 : 300); break; case 3: e.v = r.chance(1, 3) ? (uint32_t)-1 : r.chance(1, 6) ? 100 + r.below(1000000) : r.below(5); break; case 5: e.v = r.below(r.chance(1, 4) ? 100000 : 300); break; case 7: e.v = r.below(inside ? 400 : 2000); break; default: e.v = 0; } return e;
}
static void look(Ctx& c) {
  for (size_t i = 0; i < w->m.size(); i++) { Sch& s = w->m[i]; C3PSchedule* q = s.real;
    VF_CHECK(q->enabled() == s.en, "enabled", "schedule %zu is %sabled", i, s.en ? "dis" : "en"); VF_CHECK(q->recurrence() == s.rec, "recurrence", "schedule %zu has %d recurrences left, should be %d", i, q->recurrence(), s.rec);
    VF_CHECK(q->period() == s.period, "period", "schedule %zu has period %u", i, q->period()); VF_CHECK(q->nextExec() == s.at, "due-time", "schedule %zu is due at %u, should be %u (now %u)", i, q->nextExec(), s.at, us());
    VF_CHECK(q->lastExec() == s.last, "last-time", "schedule %zu last ran at %u, should be %u", i, q->lastExec(), s.last); VF_CHECK(q->willRunAgain() == will(s), "will-run", "schedule %zu will run again: %d", i, (int)q->willRunAgain()); VF_CHECK(!q->executingNow(), "executing-flag", "schedule %zu is not executing", i);
    VF_CHECK(q->profiler.executions() == s.runs, "execution-count", "schedule %zu counts %u executions, there were %u", i, q->profiler.executions(), s.runs); VF_CHECK(q->profiler.totalTime() == s.total, "execution-count", "schedule %zu accounts %u us, it took %u", i, q->profiler.totalTime(), s.total);
    bool in = false; for (int a : w->active) in |= a == (int)i; VF_CHECK(w->s->containsSchedule(q) == in, "contains", "schedule %zu contained: %d", i, !in); c.feat(mix(mix(s.en, s.queued), mix(s.rec < 3 ? s.rec : 3, (uint32_t)(us() - s.at) < 0x7FFFFFFFu))); }
  VF_CHECK(w->s->scheduleCount() == w->active.size(), "contains", "scheduleCount %u", w->s->scheduleCount());
  for (size_t k = 0; k < w->active.size(); k++) VF_CHECK(w->s->getScheduleByIndex((unsigned)k) == w->m[w->active[k]].real, "contains", "schedule at index %zu is another", k);
  VF_CHECK(w->s->serviceLoops() == w->services && w->s->profiler_deadband.executions() == w->dead, "service-count", "%u services and %u dead times are counted, should be %u and %u", w->s->serviceLoops(), w->s->profiler_deadband.executions(), w->services, w->dead);
}
static void probe(Ctx& c) {   // The jitter probe records how far from its due time each execution after the first was.
  Rng& r = c.rng; now_us = 0x100000000ULL * (1 + r.below(2)) - (r.chance(1, 3) ? r.u32() : r.below(20000)); const uint32_t P = 1 + r.below(r.chance(1, 5) ? 3000000 : 500); C3PScheduler sched(2);
  C3PScheduledJitterProbe p("probe", P, -1, true, []() { return (int8_t)0; }); VF_CHECK(sched.addSchedule(&p) == 0, "add-code", "a probe was refused"); uint32_t at = us() + P; unsigned runs = 0;
  for (int k = 5 + (int)r.below(60); k > 0; k--) {
    const uint32_t d = r.below(r.chance(1, 9) ? 4 * P + 2 : P + 20); advance_us(d); c.op("time %u", d); const bool direct = r.chance(1, 8); bool due = (uint32_t)(us() - at) < 0x7FFFFFFFu; if (direct) { p.execute(); due = true; } else { sched.advanceScheduler(); if (r.chance(1, 3)) { const uint32_t e = r.below(300); advance_us(e); } sched.serviceSchedules(); }
    if (due) { const uint32_t a = us() - at, b = at - us(), j = a < b ? a : b; if (runs) { VF_CHECK(p.jitter.totalSamples() == runs && p.jitter.memPtr()[(runs - 1) % 100] == j, "jitter", "execution %u, at %u when due at %u, recorded a jitter of %u", runs, us(), at, p.jitter.memPtr()[(runs - 1) % 100]); c.count("jitters"); if (us() < 0x40000000u && at > 0xC0000000u) c.count("jitters_over_the_wrap"); } runs++; at = us() + P; }
    VF_CHECK(p.nextExec() == at && p.profiler.executions() == runs && p.jitter.totalSamples() == (runs ? runs - 1 : 0), "jitter", "after %u executions, %u jitters, next at %u", runs, p.jitter.totalSamples(), p.nextExec()); if (r.chance(1, 20)) { StringBuilder o; p.printSchedule(&o); VF_CHECK(sb_read(&o).find("JitterProbe") != std::string::npos, "contains", "the probe prints as something else"); }
  }
  c.nontrivial = true;
}
void vf_case(Ctx& c) {
  Rng& r = c.rng; if (r.chance(1, 12)) { probe(c); return; } W ww; w = &ww; ww.c = &c; const bool vast = r.chance(1, 500); ww.cap = vast ? 100 + r.below(260) : 1 + r.below(8); const unsigned n = vast ? 100 + r.below(200) : 1 + r.below(10);
  switch (r.below(4)) { case 0: now_us = 1 + r.below(100000); break; case 1: now_us = 0x100000000ULL * r.below(3) + 0xFFFFFFFFu - r.below(8000); break; case 2: now_us = 0x100000000ULL - r.below(2000000); break; default: now_us = 0x100000000ULL + r.u32(); }
  C3PScheduler sched(ww.cap); ww.s = &sched; VF_CHECK(sched.initialized() && sched.scheduleCount() == 0, "contains", "a fresh scheduler is not empty");
  static char nm[300][8]; Pol* pols = new Pol[n]; ww.m.resize(n); c.op("scheduler of %u at %u", ww.cap, us());
  for (unsigned i = 0; i < n; i++) { Sch& s = ww.m[i]; s.period = 1 + r.below(r.chance(1, 5) ? 3000000 : 500); s.rec = r.chance(1, 3) ? -1 : r.chance(1, 12) ? 100 + (int)r.below(1000000) : (int)r.below(6); s.en = r.chance(2, 3); snprintf(nm[i], 8, "S%u", i); pols[i].i = (int)i;
    if (r.chance(1, 2)) s.real = new C3PScheduledPolling(nm[i], s.period, s.rec, s.en, pols + i); else s.real = new C3PScheduledLambda(nm[i], s.period, s.rec, s.en, [i]() { work((int)i); return (int8_t)0; });
    VF_CHECK(s.real->valid() && s.real->handle() == nm[i], "contains", "a fresh schedule is not valid"); c.op("S%u period %u rec %d %s", i, s.period, s.rec, s.en ? "on" : "off");
    const unsigned d = r.chance(1, 2) ? 0 : 1 + r.below(4); for (unsigned k = 0; k < d; k++) s.during.push_back(draw(r, (int)n, true, (int)i)); }
  if (vast) { for (unsigned i = 0; i < n; i++) edit(E{8, 0, (int)i}, false); c.count("many_schedules"); }
  const int N = vast ? 12 : 30 + r.below(120);
  for (int k = 0; k < N; k++) {
    const unsigned z = r.below(10);
    if (z < 2) { int i = (int)r.below(n); edit(E{8, 0, i}, false); }
    else if (z < 4) edit(E{7, r.below(r.chance(1, 8) ? 4000000 : 400), 0}, false);
    else if (z < 6) edit(E{6, 0, 0}, false);
    else if (z < 8) { c.op("service"); const bool open = ww.ticks > 0; if (open) { ww.services++; if (ww.dead_on) ww.dead++; ww.dead_on = false; }
      ww.runs_in_service = 0; sched.serviceSchedules();
      if (open) {
        // What stays in the reference's queue was skipped, which only the disabled may be.
        while (!ww.queue.empty()) { Sch& s = ww.m[ww.queue.front()]; VF_CHECK(!s.en, "serviced", "schedule %d is due and was not executed", ww.queue.front()); s.queued = false; ww.queue.erase(ww.queue.begin()); c.count("skipped_disabled"); } } }
    else if (z == 8 && r.chance(1, 3)) { c.op("print"); StringBuilder o; sched.printDebug(&o); ww.m[r.below(n)].real->printSchedule(&o); }
    else edit(draw(r, (int)n, false, 0), false);
    look(c);
  }
  for (Sch& s : ww.m) delete s.real; delete[] pols; c.nontrivial = true; w = nullptr;
}
