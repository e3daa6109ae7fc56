/* C45: the user interface's elements: who is told of an event, what is drawn, and what buttons, sliders and tabs make of it. */
#include "vf.h"
#include "StringBuilder.h"
#include "AbstractPlatform.h"
#include "Image/GfxUI.h"
#include <algorithm>
#include <cmath>
const char* VF_PROPERTY = "C45";
const char* VF_RULE = "Either a tree of up to 14 (seldom 400) elements (groups and elements of the harness, each with its own layout, flags and events that it claims) on a 60 x 60 image and a history of events at, in and around their corners, renders (forced or not) and changes of place, size, margins, frames, flags and membership; or a button, slider, zoom slider, tab bar or tabbed pane and a history of the user's events. Distinct by the history.";
using namespace vf;
typedef GfxUIEvent E; typedef PriorityQueue<GfxUIElement*> PQ;
static const uint32_t ALWAYS = GFXUI_FLAG_ALWAYS_REDRAW, FU = GFXUI_FLAG_DRAW_FRAME_U, FD = GFXUI_FLAG_DRAW_FRAME_D, FL = GFXUI_FLAG_DRAW_FRAME_L, FR = GFXUI_FLAG_DRAW_FRAME_R;
struct Probe;
struct Nd { Probe* p = nullptr; int id = 0, x = 0, y = 0, w = 0, h = 0, m[4] = {}, b[4] = {}; bool active = true, mute = false, need = true, always = false, drag = false, dragging = false, focus = false, sel = false, under = false, reap = false, alive = true, redraws = false; uint32_t frames = 0, claims = 0, col = 0, border = 0xFFFFFF; std::vector<Nd*> kids; Nd* up = nullptr; };
struct Told { Nd* n; E e; int x, y; bool operator==(const Told& o) const { return n == o.n && e == o.e && x == o.x && y == o.y; } };
static std::vector<Told> told; static std::vector<Nd*> drawn;
struct Probe : GfxUIElement {
  Nd* n;
  Probe(Nd* N, PixUInt x, PixUInt y, PixUInt w, PixUInt h, uint32_t f) : GfxUIElement(x, y, w, h, f), n(N) {}
  Probe(Nd* N, const GfxUILayout l, const GfxUIStyle s, uint32_t f) : GfxUIElement(l, s, f), n(N) {}
  Probe(Nd* N, GfxUILayout* l, GfxUIStyle* s, uint32_t f) : GfxUIElement(l, s, f), n(N) {}
  Probe(Nd* N, GfxUILayout* l, uint32_t f) : GfxUIElement(l, f), n(N) {}
  ~Probe() { if (!n->alive) broken("destroyed twice"); n->alive = false; }
  int add(Probe* c) { return _add_child(c); } int drop(Probe* c) { return _remove_child(c); } bool need() { return _need_redraw(); } void flip(uint32_t f) { _class_flip_flag(f); } bool flag(uint32_t f) { return _class_flag(f); } uint32_t flags() { return _class_flags(); } void redraw() { _need_redraw(true); }
  bool _notify(const E e, const PixUInt x, const PixUInt y, PQ*) override { Told t{n, e, x, y}; told.push_back(t); bool r = n->claims >> (int)e & 1; if (r && n->redraws) _need_redraw(true); return r; }
  int _render(UIGfxWrapper* g) override { drawn.push_back(n); fill(g, n->col); return 1; }
};
struct Canvas { int W, H; std::vector<uint32_t> p; void fill(int x, int y, int w, int h, uint32_t c) { for (int Y = std::max(0, y); Y < std::min(H, y + h); Y++) for (int X = std::max(0, x); X < std::min(W, x + w); X++) p[Y * W + X] = c; } };
static bool inside(Nd* n, int x, int y) { return x >= n->x && x < n->x + n->w && y >= n->y && y < n->y + n->h; }
struct Log { Nd* n; int e; };
static void shift(Nd* n, int dx, int dy) { n->x += dx; n->y += dy; n->need = true; for (auto* k : n->kids) shift(k, dx, dy); }
struct World {
  std::vector<Told> told; std::vector<Log> log; std::vector<Nd*> drawn;
  bool tell(Nd* n, E e, int x, int y) { told.push_back({n, e, x, y}); bool r = n->claims >> (int)e & 1; if (r && n->redraws) n->need = true; return r; }
  bool kids(Nd* n, E e, int x, int y) { for (auto* k : n->kids) if (notify(k, e, x, y)) return true; return false; }
  bool notify(Nd* n, E e, int x, int y) {
    n->under = inside(n, x, y); if (!n->under || n->mute) return false;
    switch (e) {
      case E::HOVER_IN: case E::HOVER_OUT: case E::SELECT: case E::UNSELECT: case E::IDENTIFY: case E::DRAG_START: case E::DRAG_STOP:
        if (kids(n, e, x, y)) return true;
        { bool r = e == E::IDENTIFY ? false : tell(n, e, x, y);
          if (e == E::HOVER_IN || e == E::HOVER_OUT) n->focus = e == E::HOVER_IN;
          if (e == E::SELECT) n->sel = r; if (e == E::UNSELECT) n->sel = !r;
          if ((e == E::DRAG_START || e == E::DRAG_STOP) && n->drag) { if (n->dragging) shift(n, x - n->x, y - n->y); n->dragging = e == E::DRAG_START; } }
        log.push_back({n, (int)e}); return true;
      default: if (!n->active) return false; return tell(n, e, x, y) || kids(n, e, x, y);
    }
  }
  int render(Nd* n, Canvas& c, bool force) {
    if (n->mute) return 0; int r = 0; for (auto* k : n->kids) r += render(k, c, force);
    if (n->need || n->always || force) { drawn.push_back(n); r++; c.fill(n->x + n->m[2] + n->b[2], n->y + n->m[0] + n->b[0], n->w - n->m[2] - n->m[3] - n->b[2] - n->b[3], n->h - n->m[0] - n->m[1] - n->b[0] - n->b[1], n->col);
      if (n->frames & FU) c.fill(n->x, n->y, n->w, n->b[0], n->border); if (n->frames & FD) c.fill(n->x, n->y + n->h - n->b[1], n->w, n->b[1], n->border);
      if (n->frames & FL) c.fill(n->x, n->y, n->b[2], n->h, n->border); if (n->frames & FR) c.fill(n->x + n->w - n->b[3], n->y, n->b[3], n->h, n->border); n->need = false; }
    return r;
  }
};
static E any_event(Rng& r) { static const E few[] = {E::TOUCH, E::HOVER_IN, E::HOVER_OUT, E::SELECT, E::UNSELECT, E::IDENTIFY, E::DRAG_START, E::DRAG_START, E::DRAG_STOP, E::MOVE_UP}; return r.chance(2, 3) ? few[r.below(10)] : (E)r.below(0x20); }
static void compare(Ctx& c, std::vector<Nd*>& all) {
  for (auto* n : all) { if (!n->alive) continue; Probe* p = n->p;
    VF_CHECK(p->elementPosX() == n->x && p->elementPosY() == n->y && p->elementWidth() == n->w && p->elementHeight() == n->h, "place", "element %d is at (%u %u %u %u), should be (%d %d %d %d)", n->id, p->elementPosX(), p->elementPosY(), p->elementWidth(), p->elementHeight(), n->x, n->y, n->w, n->h);
    VF_CHECK(p->internalPosX() == n->x + n->m[2] + n->b[2] && p->internalPosY() == n->y + n->m[0] + n->b[0] && p->internalWidth() == n->w - n->m[2] - n->m[3] - n->b[2] - n->b[3] && p->internalHeight() == n->h - n->m[0] - n->m[1] - n->b[0] - n->b[1], "inset", "the inside of element %d is (%u %u %u %u) of (%d %d %d %d), margins %d %d %d %d, borders %d %d %d %d", n->id, p->internalPosX(), p->internalPosY(), p->internalWidth(), p->internalHeight(), n->x, n->y, n->w, n->h, n->m[0], n->m[1], n->m[2], n->m[3], n->b[0], n->b[1], n->b[2], n->b[3]);
    VF_CHECK(p->xCornerUpperLeft() == n->x && p->xCornerUpperRight() == n->x + n->w && p->xCornerLowerLeft() == n->x && p->xCornerLowerRight() == n->x + n->w && p->yCornerUpperLeft() == n->y && p->yCornerUpperRight() == n->y && p->yCornerLowerLeft() == n->y + n->h && p->yCornerLowerRight() == n->y + n->h, "corners", "the corners of element %d are wrong", n->id);
    VF_CHECK(p->elementActive() == n->active && p->muteRender() == n->mute && p->isFocused() == n->focus && p->isSelected() == n->sel && p->underPointer() == n->under && p->isDraggable() == n->drag && p->isDragging() == n->dragging && p->shouldReap() == n->reap, "flags", "element %d: active %d mute %d focused %d selected %d under %d draggable %d dragging %d reap %d, should be %d %d %d %d %d %d %d %d", n->id, p->elementActive(), p->muteRender(), p->isFocused(), p->isSelected(), p->underPointer(), p->isDraggable(), p->isDragging(), p->shouldReap(), n->active, n->mute, n->focus, n->sel, n->under, n->drag, n->dragging, n->reap);
    VF_CHECK(p->need() == (n->need || n->always), "redraw", "element %d %s to be redrawn", n->id, p->need() ? "needn't" : "needs"); }
}
static void pixels(Image& img, Canvas& cv, const char* what) {
  for (int y = 0; y < cv.H; y++) for (int x = 0; x < cv.W; x++) { uint32_t got = img.getPixel(x, y); VF_CHECK(got == cv.p[y * cv.W + x], what, "pixel (%d, %d) is %06x, should be %06x", x, y, got, cv.p[y * cv.W + x]); }
}
static void tree(Ctx& c) {
  Rng& r = c.rng; told.clear(); drawn.clear(); const bool big = r.chance(1, 16), tall = big && r.chance(1, 2); const int W = 40 + r.below(24) + (big && !tall ? 200 + r.below(300) : 0), H = 40 + r.below(24) + (tall ? 200 + r.below(300) : 0), X0 = big && !tall ? (int)r.below(W - 40) : 0, Y0 = tall ? (int)r.below(H - 40) : 0; if (big) c.count("large_images"); Image img(W, H, ImgBufferFormat::R8_G8_B8); img.reallocate(); UIGfxWrapper g(&img); Canvas cv{W, H, std::vector<uint32_t>(W * H)}; for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) { uint32_t col = r.u32() & 0xFFFFFF; img.setPixel(x, y, col); cv.p[y * W + x] = img.getPixel(x, y); }
  std::vector<Nd*> all; World w;
  auto make = [&](int x, int y, int ww, int hh) { Nd* n = new Nd; n->id = (int)all.size(); n->x = x; n->y = y; n->w = ww; n->h = hh; n->col = r.u32() & 0xFFFFFF; n->claims = r.chance(1, 3) ? 0 : r.u32() & r.u32(); if (r.chance(1, 6)) n->claims = ~0u; n->redraws = r.chance(1, 2);
    uint32_t f = 0; if (r.chance(1, 3)) { f |= (r.u32() & GFXUI_FLAG_DRAW_FRAME_MASK); n->frames = f & GFXUI_FLAG_DRAW_FRAME_MASK; } if (r.chance(1, 6)) { f |= ALWAYS; n->always = true; } if (r.chance(1, 6)) { f |= GFXUI_FLAG_INACTIVE; n->active = false; } if (r.chance(1, 4)) { f |= GFXUI_FLAG_DRAGGABLE; n->drag = true; } if (r.chance(1, 2)) { f |= GFXUI_FLAG_FREE_THIS_ELEMENT; n->reap = true; }
    int most = std::max(0, std::min(3, std::min(ww, hh) / 4)); unsigned kind = r.below(6); auto in = [&]() { return (int)r.below(most + 1); }; GfxUIStyle st(r.u32() & 0xFFFFFF, r.u32() & 0xFFFFFF, 1, 2, 3, 4, 5, 1); uint32_t bc = st.color_border;
    if (kind == 0) { n->p = new Probe(n, x, y, ww, hh, f); n->b[0] = !!(f & FU); n->b[1] = !!(f & FD); n->b[2] = !!(f & FL); n->b[3] = !!(f & FR); }
    else { for (int i = 0; i < 4; i++) { n->m[i] = in(); n->b[i] = in(); } GfxUILayout* l;
      if (kind == 1) { for (int i = 1; i < 4; i++) { n->m[i] = n->m[0]; n->b[i] = n->b[0]; } l = new GfxUILayout(x, y, ww, hh, (uint8_t)n->m[0], (uint8_t)n->b[0]); }
      else if (kind == 2) { for (int i = 0; i < 4; i++) n->b[i] = 0; l = new GfxUILayout(x, y, ww, hh, (uint8_t)n->m[0], n->m[1], n->m[2], n->m[3]); }
      else l = new GfxUILayout(x, y, ww, hh, n->m[0], n->m[1], n->m[2], n->m[3], n->b[0], n->b[1], n->b[2], n->b[3]);
      unsigned way = r.below(3); if (way == 0) { n->p = new Probe(n, *l, st, f); n->border = bc; } else if (way == 1) { n->p = new Probe(n, l, &st, f); n->border = bc; } else n->p = new Probe(n, l, f); delete l; }
    all.push_back(n); c.op("element %d at (%d %d %d %d) flags %x", n->id, x, y, ww, hh, f); return n; };
  auto hang = [&](Nd* p, Nd* n) { VF_CHECK(p->p->add(n->p) == 0, "add", "a child wasn't added"); p->kids.push_back(n); n->up = p; p->need = true; c.op("%d under %d", n->id, p->id); };
  auto child = [&](Nd* p) { int x = p->x + r.below(std::max(1, p->w)), y = p->y + r.below(std::max(1, p->h)); int ww = 2 + r.below(std::max(1, p->x + p->w - x)), hh = 2 + r.below(std::max(1, p->y + p->h - y)); if (r.chance(1, 8)) { ww += 6; hh += 3; } if (r.chance(1, 6)) { x = p->x; y = p->y; ww = std::max(2, p->w); hh = std::max(2, p->h); } Nd* n = make(x, y, ww, hh); hang(p, n); };
  Nd* root = make(r.below(8) + X0, r.below(8) + Y0, 20 + r.below(40) + (big && !tall ? r.below(300) : 0), 20 + r.below(40) + (tall ? r.below(300) : 0)); root->reap = r.chance(1, 2); root->p->shouldReap(root->reap);
  const bool crowd = r.chance(1, 150); if (crowd) c.count("crowds"); for (unsigned k = crowd ? 250 + r.below(60) : r.below(9); k; k--) child(crowd && !r.chance(1, 40) ? root : all[r.below((uint32_t)all.size())]);
  auto attached = [&](Nd* n) { while (n->up) n = n->up; return n == root; };
  for (unsigned k = 4 + r.below(24); k; k--) {
    Nd* n = all[r.below((uint32_t)all.size())];
    switch (r.below(16)) {
      case 0: case 1: case 2: case 3: case 4: case 5: {
        int x = n->x + (int)r.below(n->w), y = n->y + (int)r.below(n->h); if (r.chance(1, 2)) { static const int d[] = {-1, 0, 0, 1}; x = (r.chance(1, 2) ? n->x : n->x + n->w - 1) + d[r.below(4)]; if (r.chance(1, 2)) y = (r.chance(1, 2) ? n->y : n->y + n->h - 1) + d[r.below(4)]; } x = std::max(0, x); y = std::max(0, y); if (r.chance(1, 30)) { x = 65535; }
        E e = any_event(r); PQ log; bool got = root->p->notify(e, x, y, &log), want = w.notify(root, e, x, y); c.op("event %d at (%d, %d): %d", (int)e, x, y, got); c.count("events"); c.count(want ? "claimed" : "unclaimed");
        VF_CHECK(got == want, "claim", "event %d at (%d, %d) was %sclaimed", (int)e, x, y, got ? "" : "not ");
        VF_CHECK(told == w.told, "told", "event %d at (%d, %d) was told to %zu elements (last %d), should be %zu (last %d)", (int)e, x, y, told.size(), told.empty() ? -1 : told.back().n->id, w.told.size(), w.told.empty() ? -1 : w.told.back().n->id); c.count("told", told.size()); if (told.size() > 1) c.count("passed_on"); told.clear(); w.told.clear();
        VF_CHECK((size_t)log.size() == w.log.size(), "log", "%d changes were logged, should be %zu", log.size(), w.log.size()); for (auto& l : w.log) { int pri = log.getPriority(0); GfxUIElement* el = log.dequeue(); VF_CHECK(el == l.n->p && pri == l.e, "log", "the log says event %d, should be %d of element %d", pri, l.e, l.n->id); c.count("logged"); if (l.e == (int)E::DRAG_START && l.n->dragging) c.count("drags"); } w.log.clear(); break; }
      case 6: case 7: case 8: { bool force = r.chance(1, 3); int got = root->p->render(&g, force), want = w.render(root, cv, force); c.op("render%s: %d", force ? " all" : "", got); c.count("renders"); VF_CHECK(drawn == w.drawn, "order", "%zu elements were drawn, should be %zu, or in another order", drawn.size(), w.drawn.size()); VF_CHECK(got == want, "drawn", "render() gave %d, should be %d", got, want); c.count("drawn", drawn.size()); if (drawn.empty()) c.count("undrawn"); drawn.clear(); w.drawn.clear(); pixels(img, cv, "pixels"); c.nontrivial = true; break; }
      case 9: { int x = (n->up ? n->up->x : 0) + r.below(20), y = (n->up ? n->up->y : 0) + r.below(20); n->p->reposition(x, y); shift(n, x - n->x, y - n->y); c.op("%d to (%d, %d)", n->id, x, y); c.count("moves"); break; }
      case 10: { int lo[2] = {n->m[2] + n->m[3] + n->b[2] + n->b[3], n->m[0] + n->m[1] + n->b[0] + n->b[1]}; n->w = std::max(1, lo[0]) + r.below(24); n->h = std::max(1, lo[1]) + r.below(24); n->p->resize(n->w, n->h); n->need = true; c.op("%d is %d x %d", n->id, n->w, n->h); c.count("resizes"); break; }
      case 11: { int most = std::max(0, std::min(3, std::min(n->w, n->h) / 4 - 2)); if (n->w < n->b[2] + n->b[3] + 2 * most || n->h < n->b[0] + n->b[1] + 2 * most) break; for (int& m : n->m) m = r.below(most + 1); n->p->setMargins(n->m[0], n->m[1], n->m[2], n->m[3]); n->need = true; c.op("margins of %d", n->id); break; }
      case 12: { n->frames = r.chance(1, 3) ? GFXUI_FLAG_DRAW_FRAME_MASK : r.u32() & GFXUI_FLAG_DRAW_FRAME_MASK; if (n->frames == GFXUI_FLAG_DRAW_FRAME_MASK && r.chance(1, 2)) n->p->enableFrames(); else n->p->enableFrames(n->frames | (r.u32() & ~(uint32_t)GFXUI_FLAG_DRAW_FRAME_MASK)); n->need = true; c.op("frames %x of %d", n->frames, n->id); c.count("frames"); break; }
      case 13: { bool b = r.chance(1, 2); switch (r.below(7)) { case 0: n->p->muteRender(b); n->mute = b; if (!b && !n->always) n->need = true; c.count("mutes"); break; case 1: n->p->elementActive(b); n->active = b; break; case 2: n->p->isDraggable(b); n->drag = b; break; case 3: n->p->isDragging(b); n->dragging = b; break; case 4: n->p->shouldReap(b); n->reap = b; break; case 5: { uint32_t f = 0x01000000u << r.below(8); bool was = n->p->flag(f); uint32_t o = n->p->flags(); n->p->flip(f); VF_CHECK(n->p->flag(f) == !was && n->p->flags() == (o ^ f), "flip", "flag %x wasn't inverted", f); break; } default: n->p->redraw(); n->need = true; break; } c.op("flags of %d", n->id); break; }
      case 14: if (all.size() < (crowd ? 400 : 14)) child(n); break;
      case 15: { if (n->up && r.chance(2, 3)) { Nd* u = n->up; VF_CHECK(u->p->drop(n->p) == 0, "remove", "a child wasn't removed"); u->kids.erase(std::find(u->kids.begin(), u->kids.end(), n)); u->need = true; n->up = nullptr; c.op("%d is free", n->id); c.count("removed"); }
        else if (!n->up && n != root) { Nd* u = root; if (n->x >= u->x && n->y >= u->y) hang(u, n); } else if (n != root && !attached(n)) {} else { Nd* o = all[r.below((uint32_t)all.size())]; if (o->up != n) VF_CHECK(n->p->drop(o->p) == -1, "remove", "an element that is no child was removed"); } break; }
    }
    compare(c, all); c.feat(mix(all.size(), mix(w.drawn.size(), cv.p[r.below(W * H)] & 7)));
  }
  // Each parent takes those of its children with it that are to be reaped, and no others.
  for (;;) { Nd* t = nullptr; for (auto* n : all) if (n->alive && (!n->up || !n->up->alive)) { t = n; break; } if (!t) break; std::vector<Nd*> go{t}; for (size_t i = 0; i < go.size(); i++) for (auto* k : go[i]->kids) if (k->reap) go.push_back(k); size_t before = 0, after = 0; for (auto* n : all) before += n->alive; Probe* p = t->p; delete p; for (auto* n : all) after += n->alive; for (auto* n : go) VF_CHECK(!n->alive, "reap", "element %d, to be freed with its parent, wasn't", n->id); VF_CHECK(before - after == go.size(), "reap", "%zu elements were freed, should be %zu", before - after, go.size()); c.count("reaped", go.size() - 1); }
  for (auto* n : all) delete n;
}
static int find_log(PQ& l, GfxUIElement* e, E ev) { int k = 0; for (int i = 0; i < l.size(); i++) if (l.get(i) == e && l.getPriority(i) == (int)ev) k++; return k; }
struct Tabs : GfxUITabBar { Tabs(const GfxUILayout l, const GfxUIStyle s, uint32_t f) : GfxUITabBar(l, s, f) {} GfxUIButton* tab(int i) { return (GfxUIButton*)_children.get(i); } };
struct Two { Image a, b; UIGfxWrapper ga, gb; Two(Rng& r, int W, int H) : a(W, H, ImgBufferFormat::R8_G8_B8), b(W, H, ImgBufferFormat::R8_G8_B8), ga(&a), gb(&b) { a.reallocate(); b.reallocate(); for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) { uint32_t col = r.u32() & 0xFFFFFF; a.setPixel(x, y, col); b.setPixel(x, y, col); } }
  void same(const char* what) { for (int y = 0; y < (int)a.y(); y++) for (int x = 0; x < (int)a.x(); x++) VF_CHECK(a.getPixel(x, y) == b.getPixel(x, y), what, "pixel (%d, %d) is %06x, should be %06x", x, y, a.getPixel(x, y), b.getPixel(x, y)); } };
static void kit(Ctx& c) {
  Rng& r = c.rng; const bool big = r.chance(1, 12), tall = big && r.chance(1, 2); const int W = big && !tall ? 720 : 120, H = tall ? 660 : 90; if (big) c.count("large_images"); Two t(r, W, H); GfxUIStyle st(r.u32() & 0xFFFFFF, r.u32() & 0xFFFFFF, r.u32() & 0xFFFFFF, r.u32() & 0xFFFFFF, r.u32() & 0xFFFFFF, r.u32() & 0xFFFFFF, r.u32() & 0xFFFFFF, 1);
  int m[4], b[4], x = r.below(30) + (big && !tall ? r.below(300) : 0), y = r.below(30) + (tall ? r.below(250) : 0), w = 24 + r.below(60) + (big && !tall ? r.below(300) : 0), h = 24 + r.below(30) + (tall ? r.below(330) : 0); for (int i = 0; i < 4; i++) { m[i] = r.below(4); b[i] = r.below(3); } GfxUILayout lay(x, y, w, h, m[0], m[1], m[2], m[3], b[0], b[1], b[2], b[3]);
  const int ix = x + m[2] + b[2], iy = y + m[0] + b[0], iw = w - m[2] - m[3] - b[2] - b[3], ih = h - m[0] - m[1] - b[0] - b[1]; c.nontrivial = true; auto point = [&](int& px, int& py) { px = x + r.below(w); py = y + r.below(h); if (r.chance(1, 10)) px = x + w + r.below(4); if (r.chance(1, 12)) px = x; if (r.chance(1, 12)) py = y; if (r.chance(1, 12)) px = x + w - 1; };
  switch (r.below(5)) {
    case 0: { bool text = r.chance(1, 2), mom = r.chance(1, 2), on = false; GfxUIButton* p = text ? new GfxUITextButton(lay, st, "Ok", mom ? GFXUI_BUTTON_FLAG_MOMENTARY : 0) : new GfxUIButton(lay, st, mom ? GFXUI_BUTTON_FLAG_MOMENTARY : 0); c.op("%sbutton", mom ? "momentary " : ""); VF_CHECK(p->momentary() == mom && !p->pressed(), "button", "a new button is in the wrong state"); bool act = true;
      for (unsigned k = 3 + r.below(12); k; k--) { if (r.chance(1, 10)) { act = r.chance(1, 2); p->elementActive(act); } if (r.chance(1, 12)) { mom = !mom; p->momentary(mom); } if (r.chance(1, 12)) { on = r.chance(1, 2); p->pressed(on); }
        int px, py; point(px, py); static const E ev[] = {E::TOUCH, E::RELEASE, E::TOUCH, E::RELEASE, E::MOVE_UP, E::KEY_PRESS, E::PRESSURE}; E e = ev[r.below(7)]; PQ log; bool in = px < x + w, got = p->notify(e, px, py, &log), mine = in && act && (e == E::TOUCH || e == E::RELEASE); bool was = on, said = false; if (mine) { if (mom) { on = e == E::TOUCH; said = true; } else if (e == E::RELEASE) { on = !on; said = true; } } c.op("event %d: %d", (int)e, got);
        VF_CHECK(got == mine, "claim", "the button %s event %d", got ? "claimed" : "didn't claim", (int)e); VF_CHECK(p->pressed() == on, "button", "a %s button is %s after event %d (was %d)", mom ? "momentary" : "toggled", p->pressed() ? "pressed" : "not pressed", (int)e, was); VF_CHECK(find_log(log, p, E::VALUE_CHANGE) == said && find_log(log, p, e) == mine && log.size() == said + mine, "log", "event %d logged %d changes", (int)e, log.size()); c.count(on != was ? "presses" : "no_presses");
        if (r.chance(1, 2)) { if (r.chance(1, 3)) p->render(&t.ga, true); else if (p->render(&t.ga)) {} else { VF_CHECK(!mine, "redraw", "a button wasn't redrawn after event %d", (int)e); continue; } uint32_t col = act ? st.color_active : st.color_inactive; t.b.fillRoundRect(ix, iy, iw, ih, 4, on ? col : st.color_bg); t.b.drawRoundRect(ix, iy, iw, ih, 4, st.color_border); if (text) { t.b.setTextSize(1); t.b.setCursor(ix + 3, iy + 3); t.b.setTextColor(on ? st.color_bg : col, on ? col : st.color_bg); t.b.writeString("Ok"); } t.same("button-drawn"); c.count("buttons_drawn"); } c.feat(mix(mix(1, mom), mix(on, (int)e))); }
      delete p; break; }
    case 1: case 2: { bool zoom = r.chance(1, 2), vert = r.chance(1, 2), val = r.chance(1, 2); uint32_t f = (vert ? GFXUI_SLIDER_FLAG_VERTICAL : 0) | (val ? GFXUI_SLIDER_FLAG_RENDER_VALUE : 0); GfxUISlider s(lay, st, f); GfxUIZoomSlider z(lay, st, f); GfxUIElement* p = zoom ? (GfxUIElement*)&z : &s; double v0 = 0, v1 = 0; c.op("%s%s", vert ? "vertical " : "", zoom ? "zoom slider" : "slider"); auto bind = [](double a) { return std::min(1.0f * (double)1, std::max((double)0, a)); };
      auto centre = [&](double at) { double wd = v1 - v0, ctr = std::min((double)1 - wd / 2, std::max(wd / 2, at)); v0 = ctr - wd / 2; v1 = ctr + wd / 2; };
      for (unsigned k = 3 + r.below(14); k; k--) { double o0 = v0, o1 = v1; E e = E::NONE; bool mine = false, got = false; PQ log;
        if (r.chance(1, 4)) { float a = (float)r.below(1001) / 1000, bb = (float)r.below(1001) / 1000; if (r.chance(1, 6)) a = (float)r.below(2); if (!zoom) { s.value(a); v0 = a; } else if (r.chance(1, 2)) { z.value(a, bb); v0 = std::min(a, bb); v1 = std::max(a, bb); } else { z.value(a); centre(a); } c.op("value %g", a); c.count("values_set"); }
        else { int px, py; point(px, py); static const E ev[] = {E::TOUCH, E::DRAG_START, E::RELEASE, E::MOVE_UP, E::MOVE_DOWN, E::MOVE_DOWN, E::KEY_PRESS}; e = ev[r.below(7)]; bool in = px < x + w; got = p->notify(e, px, py, &log); mine = in && e != E::KEY_PRESS; double at = bind(vert ? (double)1 - (double)(py - iy) / ih : (double)(px - ix) / iw);
          if (mine) switch (e) { case E::TOUCH: case E::DRAG_START: if (zoom) centre(at); else v0 = at; break; case E::MOVE_UP: if (zoom) { v0 = bind(v0 - 0.005L); v1 = bind(v1 + 0.005L); } else v0 = bind(v0 + 0.01L); break; case E::MOVE_DOWN: if (zoom) { double mid = (v0 + v1) / 2; v0 = std::min(mid, (double)(v0 + 0.005L)); v1 = std::max(mid, (double)(v1 - 0.005L)); } else v0 = bind(v0 - 0.01L); break; default: break; }
          c.op("event %d at (%d, %d): %d", (int)e, px, py, got); VF_CHECK(got == mine, "claim", "the slider %s event %d", got ? "claimed" : "didn't claim", (int)e); c.count("slides"); }
        float have = zoom ? z.value() : s.value(), wid = zoom ? z.markWidth() : 0; double ctr = zoom ? (v0 + v1) / 2 : v0; VF_CHECK(fabs(have - ctr) < 2e-5L && (!zoom || fabs(wid - (v1 - v0)) < 2e-5L), zoom ? "zoom" : "slider", "%s%s: event %d from (%g, %g) gave %g (width %g), should be %g (width %g)", vert ? "vertical " : "", zoom ? "zoom slider" : "slider", (int)e, o0, o1, have, wid, ctr, v1 - v0);
        VF_CHECK(have >= 0 && have <= 1 && wid <= 1.00001f && have - wid / 2 > -1e-5L && have + wid / 2 < 1 + 1e-5L, "bounds", "the mark is out of bounds: %g, width %g", have, wid);
        if (mine) { int n = find_log(log, p, E::VALUE_CHANGE); bool moved = fabs(o0 - v0) > 1e-4L || fabs(o1 - v1) > 1e-4L; VF_CHECK(n <= 1 && (!moved || n), "log", "a change of a slider's value from (%g %g) to (%g %g) was logged %d times", o0, o1, v0, v1, n); if (e == E::TOUCH) VF_CHECK(find_log(log, p, E::DRAG_START) == 1, "log", "a touched slider doesn't ask to be dragged"); if (e == E::RELEASE) VF_CHECK(find_log(log, p, E::DRAG_STOP) == 1, "log", "a released slider doesn't ask for the drag's end"); c.count(moved ? "slid" : "unslid"); }
        // Keep to the library's rounding.
        if (zoom) { v0 = have - wid / 2; v1 = have + wid / 2; } else v0 = have;
        if (r.chance(1, 3)) { int d = p->render(&t.ga, r.chance(1, 2)); if (!d) { VF_CHECK(!mine, "redraw", "a slider wasn't redrawn after event %d", (int)e); continue; } if (zoom) { float fr0 = 0, fr1 = 0; struct Z : GfxUIZoomSlider { static void get(GfxUIZoomSlider& q, float& a, float& b) { a = ((Z&)q)._frac_0; b = ((Z&)q)._frac_1; } }; Z::get(z, fr0, fr1); if (vert) t.gb.drawZoomBarV(ix, iy, iw, ih, st.color_active, val, fr0, fr1); else t.gb.drawZoomBarH(ix, iy, iw, ih, st.color_active, val, fr0, fr1); } else if (vert) t.gb.drawProgressBarV(ix, iy, iw, ih, st.color_active, true, val, have); else t.gb.drawProgressBarH(ix, iy, iw, ih, st.color_active, true, val, have); t.same("slider-drawn"); c.count("sliders_drawn"); } c.feat(mix(mix(2, zoom), mix(vert, (int)e * 8 + (int)(have * 4)))); }
      break; }
    case 3: { bool cyc = r.chance(3, 4); Tabs bar(lay, st, 0); bar.scrollCycle(cyc); VF_CHECK(bar.scrollCycle() == cyc, "tabs", "cycling isn't as set"); int n = 0, on = -1; auto look = [&](const char* why) { VF_CHECK(bar.tabCount() == n, "tabs", "%s: %u tabs, should be %d", why, bar.tabCount(), n); VF_CHECK(bar.activeTab() == std::max(0, on), "tabs", "%s: tab %u of %d is active, should be %d", why, bar.activeTab(), n, on); for (int i = 0; i < n; i++) { VF_CHECK(bar.tab(i)->pressed() == (i == on), "tabs", "%s: tab %d of %d is %spressed (%d is active)", why, i, n, i == on ? "not " : "", on);
          VF_CHECK(bar.tab(i)->elementPosX() == ix + i * (iw / n) && bar.tab(i)->elementWidth() == iw / n && bar.tab(i)->elementPosY() == iy && bar.tab(i)->elementHeight() == ih, "tab-place", "tab %d of %d is at %u, %u wide", i, n, bar.tab(i)->elementPosX(), bar.tab(i)->elementWidth()); } };
      for (unsigned k = 4 + r.below(14); k; k--) { if (n == 0 || (n < 7 && r.chance(1, 4))) { bool sel = n == 0 ? r.chance(3, 4) : r.chance(1, 4); VF_CHECK(bar.addTab("T", sel) == 0, "tabs", "a tab wasn't added"); if (sel) on = n; n++; c.op("tab %d%s", n - 1, sel ? " selected" : ""); c.count("tabs"); }
        else if (r.chance(1, 5)) { bar.render(&t.ga, r.chance(1, 2)); c.count("tab_renders"); }
        else if (r.chance(1, 2)) { int i = r.below(n), px = ix + i * (iw / n) + r.below(iw / n), py = iy + r.below(ih); PQ log; bool got = bar.notify(E::TOUCH, px, py, &log); if (i != on && !(on < 0 && i == 0)) { VF_CHECK(got, "tabs", "a touch on tab %d wasn't claimed", i); on = i; c.count("tab_touches"); } c.op("touch tab %d", i); if (r.chance(1, 2) && i == on) { PQ l2; bar.notify(E::RELEASE, px, py, &l2); } }
        else { bool up = r.chance(1, 2); PQ log; bool got = bar.notify(up ? E::MOVE_UP : E::MOVE_DOWN, x + 1 + r.below(w - 1), y + r.below(h), &log); VF_CHECK(!cyc || got, "tabs", "a scroll wasn't claimed"); if (cyc && on >= 0) { on = (on + n + (up ? 1 : -1)) % n; c.count("tab_scrolls"); } c.op("scroll %s", up ? "up" : "down"); }
        look("after the event"); c.feat(mix(mix(3, n), mix(on + 1, cyc))); }
      break; }
    default: { GfxUILayout pl(0, 0, W, H); GfxUITabbedContentPane* pp = new GfxUITabbedContentPane(pl, st, r.chance(1, 2) ? GFXUI_FLAG_ALWAYS_REDRAW : 0); GfxUITabbedContentPane& pane = *pp; unsigned n = 2 + r.below(4), on = r.below(n); std::vector<Nd> node(n); const int BAR = st.text_size * 8 + 12; told.clear(); drawn.clear();
      for (unsigned i = 0; i < n; i++) { node[i].id = i; node[i].claims = ~0u; node[i].col = r.u32() & 0xFFFFFF; node[i].p = new Probe(&node[i], 1, 2, 3, 4, 0); VF_CHECK(pane.addTab("T", node[i].p, i == on) == 0, "pane", "a tab wasn't added"); Probe* p = node[i].p; VF_CHECK(p->elementPosX() == 0 && p->elementPosY() == BAR && p->elementWidth() == W && p->elementHeight() == H - BAR, "pane-place", "the content of tab %u is at (%u %u %u %u)", i, p->elementPosX(), p->elementPosY(), p->elementWidth(), p->elementHeight()); } c.op("pane of %u, %u selected", n, on); for (unsigned i = 0; i < n; i++) VF_CHECK(node[i].p->muteRender() == (i != on) && node[i].p->elementActive() == (i == on), "pane", "the content of tab %u of %u, of which %u was selected, isn't as it should be when added", i, n, on);
      pane.render(&t.ga, r.chance(1, 2)); for (Nd* d : drawn) VF_CHECK(d == &node[on], "pane", "a content that isn't the active tab's was drawn at first"); drawn.clear();
      for (unsigned k = 3 + r.below(10); k; k--) { const unsigned was = on; if (r.chance(1, 2)) { unsigned i = r.below(n); int tw = (W - 1) / n; PQ log; pane.notify(E::TOUCH, 1 + i * tw + tw / 2, 1 + r.below(BAR - 3), &log); on = i; c.op("touch tab %u", i); } else { bool up = r.chance(1, 2); PQ log; pane.notify(up ? E::MOVE_UP : E::MOVE_DOWN, 1 + r.below(W - 2), 1 + r.below(BAR - 3), &log); on = (on + n + (up ? 1 : -1)) % n; c.op("scroll"); } told.clear(); drawn.clear();
        const bool force = r.chance(1, 2); if (!force) c.count("pane_unforced"); pane.render(&t.ga, force); VF_CHECK(pane.activeTab() == on, "pane", "tab %u of %u is active, should be %u", pane.activeTab(), n, on); for (unsigned i = 0; i < n; i++) VF_CHECK(node[i].p->elementActive() == (i == on) && node[i].p->muteRender() == (i != on), "pane", "the content of tab %u of %u is %s (tab %u is active)", i, n, i == on ? "inactive or mute" : "active or not mute", on); VF_CHECK((!force && on == was) || (!drawn.empty() && drawn.back() == &node[on]), "pane", "the content of the active tab wasn't drawn");
        for (int Y = BAR; Y < H; Y++) for (int X = 0; X < W; X++) VF_CHECK(t.a.getPixel(X, Y) == node[on].col, "pane-drawn", "pixel (%d, %d) is %06x, not the active tab's %06x", X, Y, t.a.getPixel(X, Y), node[on].col);
        told.clear(); PQ log; bool got = pane.notify(E::KEY_PRESS, r.below(W), BAR + r.below(H - BAR), &log); VF_CHECK(got && told.size() == 1 && told[0].n == &node[on], "pane", "a key was told to %zu contents", told.size()); c.count("pane_turns"); c.feat(mix(mix(4, n), on)); }
      for (auto& q : node) { VF_CHECK(q.alive, "reap", "a content was freed"); q.p->shouldReap(true); } delete pp; for (auto& q : node) VF_CHECK(!q.alive, "reap", "a content to be freed with the pane wasn't"); break; }
  }
}
void vf_setup() {}
void vf_case(Ctx& c) { told.reserve(64); if (c.rng.chance(1, 2)) tree(c); else kit(c); std::vector<Told>().swap(told); std::vector<Nd*>().swap(drawn); }
