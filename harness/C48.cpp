/* C48: composite views: identities, the scheduler, links and key-value trees, as their views show and steer them. */
#include "vf.h"
#include "m2mrig.h"
#include "AbstractPlatform.h"
#include <new>
#include <functional>
#include "FlagContainer.h"
#include "PriorityQueue.h"
#include "ElementPool.h"
#include "TimerTools/TimerTools.h"
#include "TimeSeries/TimeSeries.h"
#include "C3PLogger.h"
#define private public
#include "TimerTools/C3PScheduler.h"
#undef private
#include "Identity/IdentityUUID.h"
#include "Image/ImageUtils.h"
#include "Image/GfxUI.h"
#include <algorithm>
#include <deque>
#include <string>
#include <vector>
const char* VF_PROPERTY = "C48";
const char* VF_RULE = "A view of an identity, of the scheduler, of a link or of a tree of keys and values, placed with margins and borders on an image, and a history of renders, touches and changes to what it presents, which may go away. Distinct by the history.";
using namespace vf;
#include "stage.h"
static void identity(Ctx& c) {
  Rng& r = c.rng; uint8_t size = 1 + r.below(2); const int row = 8 * size + 2, iw = 6 * size * (6 + (int)r.below(44)) + 2; Stage s(r, 420 + size * 200, 120, iw, 3 * row + (int)r.below(20)); std::string h = word(r, 1, 30); GfxUIStyle st = style(r, size);
  IdentityUUID id(h.c_str()); const bool none = r.chance(1, 12); GfxUIIdentity v(s.lay(), st, none ? nullptr : &id, r.chance(1, 3) ? GFXUI_FLAG_ALWAYS_REDRAW : 0); c.op("%s of \"%s\" in %d x %d, size %u", none ? "no identity" : "identity", h.c_str(), s.in.w, s.in.h, size);
  StringBuilder t; id.toString(&t); std::string lines[3] = {h, "UUID", sb_read(&t)}; const size_t cols = (size_t)((s.in.w - 2) / (6 * size));
  for (unsigned k = 1 + r.below(4); k; k--) {
    if (r.chance(1, 3)) { PQ log; v.notify(r.chance(1, 2) ? E::TOUCH : E::MOVE_UP, s.in.x + r.below(s.in.w), s.in.y + r.below(s.in.h), &log); c.op("event"); }
    v.render(&s.gfx, r.chance(1, 2)); v.render(&s.gfx, false); int last = -1; c.count("identity_renders");
    if (!none) for (int i = 0; i < 3; i++) { std::string w = lines[i].substr(0, cols); int y = 0; Box a = s.in; VF_CHECK(s.seen(w, a, size, st.color_active, nullptr, &y), "identity", "\"%s\" isn't shown", w.c_str()); VF_CHECK(y > last, "order", "\"%s\" is at %d, not below %d", w.c_str(), y, last); last = y; c.count("identity_lines"); c.nontrivial = true; }
    s.outside("an identity's view"); c.feat(mix(1, mix(size, cols > 36)));
    if (r.chance(1, 4)) { s.wipe(); v.render(&s.gfx, true); }
  }
}

struct Sched { C3PScheduledLambda* q; std::string h; unsigned runs; };
static void scheduler(Ctx& c) {
  Rng& r = c.rng; C3PScheduler* S = C3PScheduler::getInstance(); S->~C3PScheduler(); new (S) C3PScheduler(8); /* Every case starts with an empty one. */ uint8_t size = 1 + r.below(2); const int iw = 630 + (int)r.below(60), ih = 160 + (int)r.below(430); Stage s(r, iw + 40, ih + 40, iw, ih); GfxUIStyle st = style(r, size); std::vector<Sched*> L; unsigned made = 0; bool second = false; now_us += 1000000 + r.below(5000000);
  S->profiler_service.reset(); S->profiler_deadband.reset();
  GfxUIC3PScheduler* v = new GfxUIC3PScheduler(s.lay(), st, 0); c.op("scheduler's view of %d x %d, size %u", s.in.w, s.in.h, size); const int tab = size * 8 + 12;
  for (unsigned k = 4 + r.below(16); k; k--) {
    switch (r.below(8)) {
      case 0: case 1: if (L.size() < 8) { Sched* n = new Sched; n->h = word(r, 2, 8) + std::to_string(made++); n->runs = 0; n->q = new C3PScheduledLambda(n->h.c_str(), 1000 + r.below(r.chance(1, 2) ? 100000 : 0x40000000), r.chance(1, 2) ? -1 : (int32_t)r.below(1000), r.chance(1, 2), [n]() { n->runs++; return (int8_t)0; }); VF_CHECK(S->addSchedule(n->q) == 0, "rig", "a schedule was refused"); L.push_back(n); c.op("add %s", n->h.c_str()); c.count("schedules_added"); } break;
      case 2: case 3: advance_us(r.below(5000000)); S->advanceScheduler(); S->serviceSchedules(); S->serviceSchedules(); c.op("service"); break;
      case 4: if (!L.empty()) { Sched* n = L[r.below((uint32_t)L.size())]; n->q->enabled(!n->q->enabled()); n->q->period(1000 + r.below(1000000)); if (r.chance(1, 2)) n->q->recurrence((int32_t)r.below(50) - 1); c.op("change %s", n->h.c_str()); } break;
      case 5: { second = !second; PQ log; int x = s.in.x + s.in.w / 4 + (second ? s.in.w / 2 : 0), y = s.in.y + tab / 2; v->notify(E::TOUCH, x, y, &log); v->notify(E::RELEASE, x, y, &log); c.op("tab %d", second); c.count("tab_changes"); break; }
      case 7: if (r.chance(1, 4)) { advance_us(0x80000000ull + r.below(0x7FF00000)); c.op("long idle"); c.count("long_idles"); } break;
      case 6: if (second && r.chance(1, 2)) { PQ log; v->notify(E::MOVE_UP, s.in.x + r.below(s.in.w), s.in.y + tab + 1 + r.below(s.in.h - tab - 1), &log); } break;
      default: break; }
    const bool skip = r.chance(1, 4); if (skip) continue;   // Changes may pile up between two renders.
    for (int i = 0; i < 3; i++) v->render(&s.gfx, i == 0 && r.chance(1, 4)); s.outside("the scheduler's view"); c.count("scheduler_renders"); Box body = {s.in.x, s.in.y + tab, s.in.w, s.in.h - tab};
    VF_CHECK(s.seen("Info", {s.in.x, s.in.y, s.in.w, tab}, size, second ? st.color_active : st.color_bg) && s.seen("Schedules", {s.in.x, s.in.y, s.in.w, tab}, size, second ? st.color_bg : st.color_active), "tabs", "the tabs' names aren't shown, tab %d being active", second);
    if (!second) { std::string t = "Schedule count:   " + std::to_string(L.size()); VF_CHECK(s.seen(t, body, size, st.color_active), "count", "\"%s\" isn't shown", t.c_str());
      uint8_t sub = size > 1 ? size - 1 : 1; StopWatch* w[2] = {&S->profiler_service, &S->profiler_deadband}; static const char* nm[2] = {"Service Loop", "Deadband"}; for (int i = 0; i < 2; i++) { int y = 0; VF_CHECK(s.seen(nm[i], body, size, st.color_active, nullptr, &y), "profilers", "\"%s\" isn't shown", nm[i]); if (w[i]->executions()) { std::string b = std::to_string(w[i]->bestTime()) + " us"; VF_CHECK(s.seen(b, {body.x, y - 2, body.w, 36}, sub, 0xFFFFFF), "profilers", "the best time of \"%s\", %s, isn't shown", nm[i], b.c_str()); c.count("profilers_shown"); } }
      c.nontrivial = true; }
    else { size_t fit = (size_t)(body.h / 64), n = std::min(fit, L.size()), shown = 0; uint8_t sub = size > 1 ? size - 1 : 1; std::vector<int> rows; Sched* hit = nullptr; int hy = 0;
      for (Sched* q : L) { int y = 0; uint32_t fg = q->q->enabled() ? st.color_active : st.color_inactive; Box left = {body.x, body.y, body.w / 2, body.h}; if (!s.seen(q->h, left, size, fg, nullptr, &y)) continue; shown++; rows.push_back(y); if (!hit || r.chance(1, 2)) { hit = q; hy = y; }
        Box line = {body.x + body.w / 2 - 1, y - 1, body.w - body.w / 2 + 1, 40}; const char* word2 = q->q->enabled() ? "Enabled" : "Disabled"; VF_CHECK(s.seen(word2, line, sub, q->q->enabled() ? 0x00CC00 : 0x888800), "enabled", "\"%s\" isn't said to be %s", q->h.c_str(), word2);
        std::string t = "Last executed " + std::to_string((uint32_t)micros() - q->q->lastExec()) + " us ago"; VF_CHECK(s.seen(t, line, sub, 0xe0e0e0), "last", "\"%s\" isn't shown for \"%s\"", t.c_str(), q->h.c_str());
        t = "Period:     " + std::to_string(q->q->period()) + " us"; VF_CHECK(s.seen(t, line, sub, 0xe0e0e0), "period", "\"%s\" isn't shown for \"%s\"", t.c_str(), q->h.c_str()); t = q->q->recurrence() == -1 ? std::string("Recurrence: Forever") : "Recurrence: " + std::to_string(q->q->recurrence()); VF_CHECK(s.seen(t + " ", line, sub, 0xe0e0e0) || s.seen(t, line, sub, 0xe0e0e0), "recurrence", "\"%s\" isn't shown for \"%s\"", t.c_str(), q->h.c_str()); c.count("schedules_shown"); c.nontrivial = true; }
      VF_CHECK(shown >= n, "schedules", "%zu of %zu schedules are shown, where %zu fit", shown, L.size(), fit); std::sort(rows.begin(), rows.end()); for (size_t i = 1; i < rows.size(); i++) VF_CHECK(rows[i] - rows[i - 1] >= 60, "rows", "two schedules are shown at %d and %d", rows[i - 1], rows[i]);
      if (L.size() > fit) c.count("more_than_fit");
      if (hit && r.chance(1, 2)) { bool was = hit->q->enabled(); PQ log; VF_CHECK(v->notify(E::TOUCH, body.x + r.below(body.w), hy + r.below(20), &log), "claim", "a schedule's view doesn't claim a touch"); VF_CHECK(hit->q->enabled() == !was, "toggle", "a touch of \"%s\" left it %sabled", hit->h.c_str(), was ? "en" : "dis"); for (Sched* q : L) (void)q; c.op("toggle %s", hit->h.c_str()); c.count("toggles"); } }
    c.feat(mix(2, mix(second, L.size())));
  }
  delete v; S->~C3PScheduler(); new (S) C3PScheduler(8); for (Sched* q : L) { delete q->q; delete q; }
}

static void link(Ctx& c) {
  Rng& r = c.rng; uint8_t size = 1; const int iw = 330 + (int)r.below(60), ih = 240 + (int)r.below(60); Stage s(r, iw + 40, ih + 40, iw, ih); GfxUIStyle st = style(r, size); Rig g(c); now_us += 1000000 + r.below(5000000); IdentityUUID me0("here"), me1("there");
  for (int i = 0; i < 2; i++) { M2MLinkOpts o(300 + r.below(1000), 0, 200 + r.below(2000), TCode::CBOR, 0); g.make(i, o); if (i || r.chance(3, 4)) g.e[i].l->localIdentity(i ? &me1 : &me0); } M2MLink* l = g.e[0].l; const bool ident = l->localIdentity() != nullptr;
  if (r.chance(1, 3)) l->syncCast(r.chance(1, 2));
  GfxUIMLink* v = new GfxUIMLink(s.lay(), st, l, 0); c.op("link's view of %d x %d at (%d, %d)", s.in.w, s.in.h, s.all.x, s.all.y); const int tab = size * 8 + 12; int at = 0; bool cast = l->syncCast(); unsigned k = 4 + r.below(14); bool hung = false;
  auto touch = [&](int x, int y) { PQ log; bool got = v->notify(E::TOUCH, x, y, &log); if (r.chance(1, 2)) v->render(&s.gfx, false); got |= v->notify(E::RELEASE, x, y, &log); return got; };
  for (; k; k--) {
    switch (r.below(7)) {
      case 0: case 1: { at = r.below(4); touch(s.in.x + (2 * at + 1) * s.in.w / 8, s.in.y + tab / 2); c.op("tab %d", at); c.count("tab_changes"); break; }
      case 2: for (int i = 0; i < 60; i++) g.shuffle(20); cast = l->syncCast(); c.op("run: %s", g.state(0)); break;
      case 3: cast = r.chance(1, 2); l->syncCast(cast); c.op("cast %d", cast); c.count("casts_set"); break;
      case 4: advance_us(r.below(2000000)); break;
      default: if (at == 3) { v->render(&s.gfx, false); v->render(&s.gfx, false); int x = 0, y = 0; const bool hang = r.chance(1, 4); if (!hang) { if (s.seen("Cast Sync", s.in, 2, cast ? 0 : 0x20B2AA, &x, &y) ) { bool got = touch(x + r.below(50), y + r.below(8)); cast = !cast; VF_CHECK(got, "claim", "a button doesn't claim a touch"); c.op("touch Cast Sync"); c.count("casts_touched"); } else VF_CHECK(false, "cast", "the button for casting isn't shown as %s", cast ? "on" : "off"); }
        else if (s.seen("Hangup", s.in, size, st.color_active, &x, &y)) { M2MLinkState was = l->currentState(); PQ log; v->notify(E::TOUCH, x + 5, y + 3, &log); v->render(&s.gfx, false); v->notify(E::RELEASE, x + 5, y + 3, &log); c.op("touch Hangup (%s)", M2MLink::sessionStateStr(was)); if (was == M2MLinkState::LIVE && !hung) { VF_CHECK(l->hangup() == -2, "hangup", "a live link whose Hangup was touched wasn't hanging up"); c.count("hangups"); } hung = true; } else VF_CHECK(false, "hang", "the button for hanging up isn't shown"); } break; }
    for (int i = 0; i < 3; i++) v->render(&s.gfx, i == 0 && r.chance(1, 4)); s.outside("a link's view"); c.count("link_renders"); VF_CHECK(l->syncCast() == cast, "cast", "the link's casting is %d, should be %d", l->syncCast(), cast);
    Box bar = {s.in.x, s.in.y, s.in.w, tab}; static const char* names[4] = {"Overview", "Conf", "Messages", "Counterparty"}; for (int i = 0; i < 4; i++) { int room = (s.in.w / 4 - 4) / 6; std::string n = std::string(names[i]); if ((int)n.size() > room) continue; VF_CHECK(s.seen(n, bar, size, i == at ? st.color_bg : st.color_active), "tabs", "the name of tab %d, \"%s\", isn't shown (tab %d)", i, names[i], at); }
    Box body = {s.in.x, s.in.y + tab, s.in.w, s.in.h - tab}; switch (at) {
      case 0: { StringBuilder o; l->printDebug(&o); std::string t = sb_read(&o); unsigned n = 0; for (size_t i = 0; i < t.size();) { size_t e = t.find('\n', i); std::string w = t.substr(i, e - i); i = e + 1; while (!w.empty() && w[0] == '\t') w.erase(0, 1); if (w.find(':') == std::string::npos || w.find('\t') != std::string::npos || w.size() > 30) continue; VF_CHECK(s.seen(w, body, size, st.color_active), "overview", "\"%s\" isn't shown", w.c_str()); n++; } VF_CHECK(n > 6, "overview", "%u lines of an overview", n); c.count("overview_lines", n); c.nontrivial = true; break; }
      case 1: if (ident) { VF_CHECK(s.seen("here", body, 1, 0x40B2AA) && s.seen("UUID", body, 1, 0x40B2AA), "conf", "the local identity isn't shown"); c.count("identities_shown"); c.nontrivial = true; } break;
      case 3: VF_CHECK(s.seen("Cast Sync", body, 2, cast ? 0 : 0x20B2AA), "cast", "casting isn't shown as %s", cast ? "on" : "off"); VF_CHECK(s.seen("Send Sync", body, size, st.color_active) && s.seen("Hangup", body, size, st.color_active), "buttons", "the buttons aren't shown"); c.count("buttons_shown"); c.nontrivial = true; break;
      default: break; }
    c.feat(mix(3, mix(at, mix(cast, (unsigned)l->currentState()))));
  }
  delete v;
}

struct Row { int depth; std::string key, text; bool open; };   // OPEN: a nested tree begins.
static KeyValuePair* tree(Rng& r, int depth, unsigned& left, std::vector<Row>& rows, std::deque<std::string>& keep, unsigned tag) {
  KeyValuePair* head = nullptr; unsigned n = 1 + r.below(depth ? 3 : 6); 
  for (unsigned i = 0; i < n; i++) { if (i && !left) break; if (left) left--; std::string k = word(r, 1, 7) + std::to_string(i + tag * 10 % 100); if (r.chance(1, 6)) k = (r.chance(1, 2) ? " " : "") + k + " "; KeyValuePair* v = nullptr; char t[40]; keep.push_back(k); const char* K = keep.back().c_str();
    if (depth < 2 && r.chance(1, 5) && left) { rows.push_back({depth, k, "{", true}); KeyValuePair* sub = tree(r, depth + 1, left, rows, keep, tag + i + 1); rows.push_back({depth, "", "}", false}); v = new KeyValuePair(K, sub); v->reapValue(true); }
    else switch (r.below(4)) { case 0: { int32_t q = (int32_t)r.u32() >> r.below(32); snprintf(t, 40, "%d", q); v = new KeyValuePair(K, q); rows.push_back({depth, k, t, false}); break; } case 1: { uint32_t q = r.u32() >> r.below(32); snprintf(t, 40, "%u", q); v = new KeyValuePair(K, q); rows.push_back({depth, k, t, false}); break; } case 2: { uint8_t q = (uint8_t)r.u32(); snprintf(t, 40, "%u", q); v = new KeyValuePair(K, q); rows.push_back({depth, k, t, false}); break; } default: { std::string w = word(r, 1, 10); keep.push_back(w); v = new KeyValuePair(K, keep.back().c_str()); rows.push_back({depth, k, w, false}); } }
    v->reapContainer(true); if (!head) head = v; else head->link(v); }
  return head;
}
static void kvps(Ctx& c) {
  Rng& r = c.rng; uint8_t size = 1 + r.below(2); const int step = 8 * size + 2; struct Shown { KeyValuePair* kvp = nullptr; std::vector<Row> rows; } cur, old; std::deque<std::string> keep; auto grow = [&](Shown& q) { q.rows.clear(); unsigned left = r.below(12); q.kvp = tree(r, 0, left, q.rows, keep, 0); };
  grow(cur); const int full = 6 * size * (3 * (10 + 6) + 14) ; const bool tight = r.chance(1, 4); const int iw = full + (int)r.below(40), ih = tight ? step * (1 + (int)r.below(8)) + (int)r.below(step) : step * 40; Stage s(r, iw + 30, ih + 30, iw, ih); GfxUIStyle st = style(r, size); const bool fits = r.chance(1, 4); GfxUIKeyValuePair* v = new GfxUIKeyValuePair(r.chance(1, 10) ? nullptr : cur.kvp, s.lay(), st, (r.chance(1, 2) ? GFXUI_FLAG_ALWAYS_REDRAW : 0) | (fits ? GFXUI_C3PVAL_FLAG_RESIZE_ON_RENDER : 0)); v->showKVP(cur.kvp); c.op("tree of %zu rows in %d x %d, size %u", cur.rows.size(), s.in.w, s.in.h, size);
  for (unsigned k = 1 + r.below(5); k; k--) {
    for (int i = 0; i < 4; i++) v->render(&s.gfx, i == 0 && r.chance(1, 3)); s.outside("a tree's view"); c.count("tree_renders"); int y = s.in.y, lim = s.in.y + s.in.h; bool hidden = false, all = true;
    for (Row& q : cur.rows) { if (!tight) { if (y + step > lim) { VF_CHECK(false, "rig", "no room"); } int kx = 0, ky = 0; Box line = {s.in.x, y, s.in.w, step}; if (!q.key.empty()) { std::string t = "\"" + q.key + "\":"; VF_CHECK(s.seen(t, line, size, st.color_active, &kx, &ky), "key", "the key %s isn't shown in row %d", t.c_str(), (y - s.in.y) / step); c.count("keys_shown"); int vx = 0; VF_CHECK(s.seen(q.text, {kx + 6 * size * (int)t.size(), y, s.in.x + s.in.w - kx - 6 * size * (int)t.size(), step}, size, q.open ? st.color_inactive : st.color_active, &vx), "value", "the value %s of %s isn't shown", q.text.c_str(), t.c_str()); if (q.depth) c.count("nested_shown"); } else VF_CHECK(s.seen(q.text, line, size, st.color_inactive), "brace", "a tree isn't closed"); c.nontrivial = true; } else { std::string t = "\"" + q.key + "\":"; if (y + step > lim || hidden) { hidden = true; c.count("rows_hidden"); } else if (!q.key.empty() && q.depth == 0) { if (q.open) { hidden = true; continue; } VF_CHECK(s.seen(t, {s.in.x, y, s.in.w, step}, size, st.color_active), "key", "the key %s isn't shown", t.c_str()); c.count("keys_shown"); } } y += step; }
    (void)all; c.feat(mix(4, mix(cur.rows.size(), tight)));
    switch (r.below(4)) {
      case 0: { old = cur; grow(cur); if (fits) v->resize(s.all.w, s.all.h); v->showKVP(cur.kvp); delete old.kvp; s.wipe(); c.op("show %zu rows", cur.rows.size()); c.count("trees_changed"); break; }
      case 1: s.wipe(); v->render(&s.gfx, true); c.op("wipe and redraw"); c.count("trees_redrawn"); break;
      case 2: { PQ log; v->notify(r.chance(1, 2) ? E::HOVER_IN : E::MOVE_UP, s.in.x + r.below(s.in.w), s.in.y + r.below(s.in.h), &log); break; }
      default: break; }
  }
  delete v; delete cur.kvp;
}
void vf_setup() {}
void vf_case(Ctx& c) { switch (c.rng.below(4)) { case 3: kvps(c); break; case 0: identity(c); break; case 1: scheduler(c); break; default: link(c); } }
