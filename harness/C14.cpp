/* C14: timeouts, stopwatches and time differences, on a clock that wraps. */
#include "sbmodel.h"
#include "TimerTools/TimerTools.h"
#include "AbstractPlatform.h"
#include <vector>
const char* VF_PROPERTY = "C14";
const char* VF_RULE = "A case is a history of one to four timeouts (milli- and microseconds) or of stopwatches, or a batch of clock readings, on a virtual clock that starts near a wrap of its 32 bits in most cases; time moves to just before, onto and just after deadlines. Distinct by the calls made.";
using namespace vf;
void vf_setup() {}
typedef unsigned long ul;
static const uint64_t LIM = 0xFFFFFFFFull;
struct TO { PeriodicTimeout* t; bool milli; uint64_t mark, period; };   // In its own unit, on the unbounded clock.
static uint64_t nowu(bool milli) { return milli ? now_us / 1000 : now_us; }
static void start_clock(Rng& r) {
  switch (r.below(6)) { case 0: now_us = r.below(5000); break; case 1: case 2: now_us = 0x100000000ULL * (1 + r.below(3)) - r.below(1u << (4 + r.below(20))); break; case 3: now_us = 0x100000000ULL * 1000 - r.below(1u << (8 + r.below(20))); break; case 4: now_us = 0x80000000ULL - r.below(100000); break; default: now_us = r.u64() & 0x3FFFFFFFFFFULL; }
}
static uint64_t rnd_period(Rng& r) { switch (r.below(6)) { case 0: return 0; case 1: return 1; case 2: return r.below(1000); case 3: return r.below(3000000); case 4: return 1ull << r.below(32); default: return LIM - 1 - (r.chance(1, 2) ? r.below(10) : r.below(0xFFFFFFF0)); } }
static void timeouts(Ctx& c) {
  Rng& r = c.rng; start_clock(r); std::vector<TO> v; const unsigned n = 1 + r.below(4);
  for (unsigned i = 0; i < n; i++) { bool m = r.chance(1, 2); uint64_t p = rnd_period(r); TO t{m ? (PeriodicTimeout*)new MillisTimeout((ul)p) : (PeriodicTimeout*)new MicrosTimeout((ul)p), m, 0, p}; VF_CHECK(t.t->period() == (ul)p && t.t->enabled() == (p > 0), "period", "a fresh timeout has period %lu", t.t->period()); t.t->reset(); t.mark = nowu(m); v.push_back(t); c.op("%s timeout %llu at %llu", m ? "ms" : "us", (unsigned long long)p, (unsigned long long)now_us); }
  const int N = 15 + r.below(60);
  for (int k = 0; k < N; k++) {
    TO& t = v[r.below(n)]; const uint64_t unit = t.milli ? 1000 : 1;
    switch (r.below(9)) {
      case 0: c.op("reset"); t.t->reset(); t.mark = nowu(t.milli); c.count("resets"); break;
      case 1: t.period = rnd_period(r); c.op("reset %llu", (unsigned long long)t.period); t.t->reset((ul)t.period); t.mark = nowu(t.milli); c.count("resets"); break;
      case 2: t.period = rnd_period(r); c.op("period %llu", (unsigned long long)t.period); t.t->period((ul)t.period); c.count("period_changes"); break;
      case 3: c.op("trigger"); t.t->trigger(); VF_CHECK(t.t->expired() && t.t->remaining() == 0, "trigger", "a triggered timeout of period %llu is not expired", (unsigned long long)t.period); { uint64_t left = LIM - t.period; for (int q = r.below(4); q && left; q--) { uint64_t d = 1 + r.below(left > 1000000 ? 1000000 : (uint32_t)left); if (d > left) break; left -= d; now_us += d * unit; if (left > 2) VF_CHECK(t.t->expired() && t.t->remaining() == 0, "trigger", "a triggered timeout of period %llu did not stay expired", (unsigned long long)t.period); else break; } } t.t->reset(); t.mark = nowu(t.milli); c.count("triggers"); break;
      case 4: { uint64_t d = r.below(1u << (1 + r.below(22))); c.op("time +%llu", (unsigned long long)d); now_us += d; break; }
      default: {   // Move to around the deadline.
        uint64_t at = (t.mark + t.period) * unit; int64_t off = r.range(-2, 2); if (r.chance(1, 2)) off *= (int64_t)unit; at += off; if (at > now_us) { c.op("to %llu", (unsigned long long)at); now_us = at; } } }
    for (TO& x : v) {
      uint64_t el = nowu(x.milli) - x.mark; if (el > LIM) { x.t->reset(); x.mark = nowu(x.milli); el = 0; }   // No 32-bit clock can tell.
      bool exp = x.period == 0 || el >= x.period; uint64_t rem = exp ? 0 : x.period - el;
      VF_CHECK(x.t->expired() == exp, "expired", "%llu after its start, a timeout of %llu is %sexpired", (unsigned long long)el, (unsigned long long)x.period, exp ? "not " : "");
      VF_CHECK(x.t->remaining() == (ul)rem, "remaining", "%llu after its start, a timeout of %llu has %lu remaining", (unsigned long long)el, (unsigned long long)x.period, x.t->remaining());
      VF_CHECK(x.t->period() == (ul)x.period && x.t->enabled() == (x.period > 0), "period", "period is %lu", x.t->period());
      c.count(exp ? "expired" : "pending"); if (((x.mark ^ nowu(x.milli)) >> 32) && x.period) c.count("across_wrap"); c.feat(mix(exp, mix(x.milli, el == x.period ? 1 : el + 1 == x.period ? 2 : 3) + (((x.mark ^ nowu(x.milli)) >> 32) ? 64 : 0)));
    }
  }
  for (TO& t : v) delete t.t;
}
static void readings(Ctx& c) {
  Rng& r = c.rng;
  for (int k = 0; k < 30; k++) {
    start_clock(r); uint64_t d = rnd_period(r); c.op("now %llu, %llu apart", (unsigned long long)now_us, (unsigned long long)d); const uint64_t M = (uint64_t)(ul)-1;
    const uint64_t mi = now_us / 1000;
    VF_CHECK(millis() == (ul)mi && micros() == (ul)now_us, "clock", "the platform's clock is off");
    // On a 64-bit unsigned long nothing wraps here; on 32 bits everything is modulo 2^32.
    VF_CHECK(micros_since((ul)((now_us - d) & M)) == (ul)d, "since", "micros_since of %llu before now is %lu", (unsigned long long)d, micros_since((ul)((now_us - d) & M)));
    VF_CHECK(millis_since((ul)((mi - d) & M)) == (ul)d, "since", "millis_since of %llu before now is %lu", (unsigned long long)d, millis_since((ul)((mi - d) & M)));
    VF_CHECK(micros_until((ul)((now_us + d) & M)) == (ul)d, "until", "micros_until of %llu after now is %lu", (unsigned long long)d, micros_until((ul)((now_us + d) & M)));
    VF_CHECK(millis_until((ul)((mi + d) & M)) == (ul)d, "until", "millis_until of %llu after now is %lu", (unsigned long long)d, millis_until((ul)((mi + d) & M)));
    uint64_t a = r.edgy64(), b = r.edgy64(); if (r.chance(1, 6)) b = a; if (r.chance(1, 6)) b = a + 1 - 2 * r.below(2);
    VF_CHECK(delta_assume_wrap((uint64_t)a, (uint64_t)b) == (uint64_t)(a - b), "delta", "64-bit delta of %llx and %llx", (unsigned long long)a, (unsigned long long)b);
    VF_CHECK(delta_assume_wrap((uint32_t)a, (uint32_t)b) == (uint32_t)((uint32_t)a - (uint32_t)b), "delta", "32-bit delta of %x and %x is %x", (uint32_t)a, (uint32_t)b, delta_assume_wrap((uint32_t)a, (uint32_t)b));
    VF_CHECK(delta_assume_wrap((uint16_t)a, (uint16_t)b) == (uint16_t)((uint16_t)a - (uint16_t)b), "delta", "16-bit delta of %x and %x", (unsigned)(uint16_t)a, (unsigned)(uint16_t)b);
    VF_CHECK(delta_assume_wrap((uint8_t)a, (uint8_t)b) == (uint8_t)((uint8_t)a - (uint8_t)b), "delta", "8-bit delta of %x and %x", (unsigned)(uint8_t)a, (unsigned)(uint8_t)b);
    c.hash(&a, 8); c.hash(&b, 8); c.count("readings"); if (((now_us - d) ^ now_us) >> 32) c.count("across_wrap");
  }
}
static void watches(Ctx& c) {
  Rng& r = c.rng; start_clock(r); uint32_t tag = r.u32(); StopWatch* w = new StopWatch(tag); struct { uint32_t last = 0, best = 0xFFFFFFFF, worst = 0, mean = 0, total = 0, n = 0; bool on = false; uint64_t t0 = 0; } m;
  c.op("stopwatch at %llu", (unsigned long long)now_us); const int N = r.chance(1, 60) ? 1200 : 20 + r.below(80);
  auto add = [&](uint32_t d) { m.n++; m.last = d; if (d < m.best) m.best = d; if (d > m.worst) m.worst = d; m.total += d; m.mean = m.total / m.n; m.on = false; c.count("measurements"); };
  for (int k = 0; k < N; k++) {
    switch (r.below(7)) {
      case 0: case 1: c.op("start"); w->markStart(); m.on = true; m.t0 = now_us; break;
      case 2: case 3: { c.op("stop"); bool got = w->markStop(); VF_CHECK(got == m.on, "stop", "markStop() is %d with the watch %srunning", (int)got, m.on ? "" : "not "); if (m.on) { if ((m.t0 ^ now_us) >> 32) c.count("across_wrap"); add((uint32_t)(now_us - m.t0)); } else c.count("idle_stops"); break; }
      case 4: { uint32_t a = (uint32_t)r.edgy64(), d = r.below(1u << (1 + r.below(26))); c.op("runtime %x +%u", a, d); VF_CHECK(w->addRuntime(a, (uint32_t)(a + d)), "add", "addRuntime() refused"); add(d); break; }
      case 5: if (r.chance(1, 6)) { c.op("reset"); w->reset(); bool on = m.on; uint64_t t0 = m.t0; m = {}; m.on = on; m.t0 = t0; c.count("watch_resets"); } break;
      default: { StringBuilder o; w->printDebug("LBL", &o); std::string s((char*)o.string(), o.length()); char e[160]; if (m.n) snprintf(e, sizeof e, "%10u %10u %10u %10u %10u %10u", m.n, m.total, m.mean, m.worst, m.best, m.last); else snprintf(e, sizeof e, "<NO DATA>"); VF_CHECK(s.find(e) != std::string::npos && s.find("LBL") != std::string::npos, "print", "printed [%s], should have [%s]", s.c_str(), e); c.count("prints"); }
    }
    if (r.chance(2, 3)) { uint64_t d = r.below(1u << (1 + r.below(20))); now_us += d; if (r.chance(1, 20)) now_us = (now_us | 0xFFFFFFFFull) + 1; c.op("now %llu", (unsigned long long)now_us); }
    VF_CHECK(w->tag() == tag && w->executions() == m.n, "count", "%u measurements counted, made %u", w->executions(), m.n);
    VF_CHECK(w->lastTime() == m.last, "last", "last is %u, should be %u", w->lastTime(), m.last); VF_CHECK(w->bestTime() == m.best, "best", "best is %u, should be %u", w->bestTime(), m.best); VF_CHECK(w->worstTime() == m.worst, "worst", "worst is %u, should be %u", w->worstTime(), m.worst);
    VF_CHECK(w->totalTime() == m.total && w->meanTime() == m.mean, "mean", "total %u mean %u, should be %u and %u", w->totalTime(), w->meanTime(), m.total, m.mean); c.feat(mix(m.on, m.n));
  }
  delete w;
}
void vf_case(Ctx& c) { switch (c.rng.below(5)) { case 0: readings(c); break; case 1: case 2: watches(c); break; default: timeouts(c); } c.nontrivial = true; }
