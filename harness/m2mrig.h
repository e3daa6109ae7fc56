/* Two M2M links joined by byte channels under the harness' control. */
#ifndef M2MRIG_H
#define M2MRIG_H
#include "sbmodel.h"
#include "kvgen.h"
#include "M2MLink/M2MLink.h"
#include <map>
#include <set>
struct Chan : public BufferAccepter {   // What one end sends and the other has yet to get.
  std::string q; uint64_t sent = 0, bytes = 0, refused = 0; unsigned refuse = 0; bool gone = false; Rng* r = nullptr; Ctx* trace = nullptr; const char* name = "";
  int8_t pushBuffer(StringBuilder* b) override { if (refuse && r->chance(refuse, 10)) { refused++; return -1; } std::string s = sb_read(b); sent++; bytes += s.size(); if (trace) trace->op("[%llu] %s emits %s", (unsigned long long)vf::now_us / 1000, name, hex(s.data(), s.size(), 24).c_str()); if (!gone) q += s; if (r->chance(1, 2)) { b->clear(); return 1; } return 0; }
  int32_t bufferAvailable() override { return 100000; }
};
struct Rig;
struct End { M2MLink* l = nullptr; Chan out; unsigned idx = 0; Rig* rig = nullptr; std::string log; unsigned live = 0, hung = 0; };
struct Rig {
  Ctx& c; Rng& r; End e[2]; void (*on_msg)(Rig&, End&, uint32_t tag, M2MMsg*) = nullptr; void* app = nullptr;
  Rig(Ctx& x);
  ~Rig() { for (auto& x : e) delete x.l; now() = nullptr; }
  static Rig*& now() { static Rig* p; return p; }
  static void cb0(uint32_t t, M2MMsg* m) { Rig* g = now(); if (g && g->on_msg) g->on_msg(*g, g->e[0], t, m); }
  static void cb1(uint32_t t, M2MMsg* m) { Rig* g = now(); if (g && g->on_msg) g->on_msg(*g, g->e[1], t, m); }
  static void st(M2MLink* l) { Rig* g = now(); for (auto& x : g->e) if (x.l == l) { (void)l->linkTag(); x.live++; } }
  void make(int i, M2MLinkOpts& o) { End& x = e[i]; x.idx = i; x.rig = this; x.out.r = &r; x.out.trace = getenv("VF_TRACE") ? &c : nullptr; x.out.name = i ? "end 1" : "end 0"; x.l = new M2MLink(&o); x.l->setCallback(i ? cb1 : cb0); x.l->setCallback(st); x.l->setEfferant(&x.out); x.l->verbosity(r.chance(1, 4) ? r.below(8) : 0); VF_CHECK(x.l->currentState() == M2MLinkState::UNINIT && !x.l->isConnected() && !x.l->linkIdle(), "fresh", "a new link claims to be somewhere"); }
  void poll(int i) { StringBuilder lg; M2MLinkState was = e[i].l->currentState(); e[i].l->poll(&lg); if (was != e[i].l->currentState()) c.op("[%llu] end %d: %s -> %s", (unsigned long long)vf::now_us / 1000, i, M2MLink::sessionStateStr(was), state(i)); if (lg.length()) e[i].log += sb_read(&lg); c.count("polls"); }
  // Hand END i the next N bytes that the other end sent.
  void deliver(int i, size_t n) { std::string& q = e[!i].out.q; if (n > q.size()) n = q.size(); if (!n) return; StringBuilder b; sb_build(r, &b, q.substr(0, n), 3); q.erase(0, n); give(i, &b); }
  void give(int i, StringBuilder* b) { int8_t g = e[i].l->pushBuffer(b); VF_CHECK(g == 1 && b->length() == 0, "push", "pushBuffer() gave %d and left %d bytes", g, b->length()); c.count("pushes"); }
  bool quiet() { return e[0].l->linkIdle() && e[1].l->linkIdle() && e[0].out.q.empty() && e[1].out.q.empty(); }
  void shuffle(unsigned tick_ms) {   // One step of the world.
    if (tick_ms && r.chance(1, 2)) advance_us(1000ull * r.below(tick_ms + 1)); int i = r.below(2);
    switch (r.below(3)) { case 0: poll(i); break; default: { size_t m = e[!i].out.q.size(); if (m) deliver(i, r.chance(1, 3) ? m : r.chance(1, 2) ? 1 + r.below(4) : 1 + r.below((uint32_t)m)); if (r.chance(2, 3)) poll(i); } }
  }
  const char* state(int i) { return M2MLink::sessionStateStr(e[i].l->currentState()); }
};
inline Rig::Rig(Ctx& x) : c(x), r(x.rng) { now() = this; }
#endif
