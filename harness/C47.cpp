/* C47: views: what text areas, check lists, stopwatches' and values' views and magnifiers show of the thing they present. */
#include "vf.h"
#include "StringBuilder.h"
#include "AbstractPlatform.h"
#include "AsyncSequencer.h"
#include "Image/ImageUtils.h"
#include "Image/GfxUI.h"
#include <algorithm>
#include <deque>
#include <string>
#include <cmath>
const char* VF_PROPERTY = "C47";
const char* VF_RULE = "A view of a text, a check list, a stopwatch, a value or a magnified image, placed with margins and borders on an image of random pixels, and a history of changes to what it shows, the user's events, and renders. Distinct by the history.";
using namespace vf;
typedef GfxUIEvent E; typedef PriorityQueue<GfxUIElement*> PQ;
struct Two { Image a, b; UIGfxWrapper ga; Two(Rng& r, int W, int H) : a(W, H, ImgBufferFormat::R8_G8_B8), b(W, H, ImgBufferFormat::R8_G8_B8), ga(&a) { a.reallocate(); b.reallocate(); bool busy = r.chance(1, 2); uint32_t one = r.u32() & 0xFFFFFF; for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) { uint32_t col = busy ? mix(one, y * W + x) & 0xFFFFFF : one; a.setPixel(x, y, col); b.setPixel(x, y, col); } }
  void same(const char* what) { int W = a.x(), H = a.y(); if (!memcmp(a.buffer(), b.buffer(), a.bytesUsed())) return; for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) VF_CHECK(a.getPixel(x, y) == b.getPixel(x, y), what, "pixel (%d, %d) is %06x, should be %06x", x, y, a.getPixel(x, y), b.getPixel(x, y)); } };
struct Place { int x, y, w, h, m[4], b[4]; int ix() const { return x + m[2] + b[2]; } int iy() const { return y + m[0] + b[0]; } int iw() const { return w - m[2] - m[3] - b[2] - b[3]; } int ih() const { return h - m[0] - m[1] - b[0] - b[1]; }
  GfxUILayout lay() const { return GfxUILayout(x, y, w, h, m[0], m[1], m[2], m[3], b[0], b[1], b[2], b[3]); } };
static Place place(Rng& r, int W, int H, int wmin, int hmin) { Place p; for (int i = 0; i < 4; i++) { p.m[i] = r.chance(1, 2) ? 0 : r.below(4); p.b[i] = r.chance(1, 2) ? 0 : r.below(3); } wmin += p.m[2] + p.m[3] + p.b[2] + p.b[3]; hmin += p.m[0] + p.m[1] + p.b[0] + p.b[1]; p.w = wmin + r.below(std::max(1, W - wmin)); p.h = hmin + r.below(std::max(1, H - hmin)); if (r.chance(1, 6)) { p.w = wmin; p.h = hmin; } p.x = r.below(W - p.w + 1); p.y = r.below(H - p.h + 1); return p; }
static GfxUIStyle style(Rng& r, uint8_t size) { uint32_t c[7]; for (auto& q : c) q = r.u32() & 0xFFFFFF; return GfxUIStyle(c[0], c[1], c[2], c[3], c[4], c[5], c[6], size); }
static void write(Image& img, int x, int y, uint8_t size, uint32_t fg, uint32_t bg, const std::string& s) { img.setTextSize(size); img.setTextColor(fg, bg); img.setCursor(x, y); img.writeString(s.c_str()); }

static void text(Ctx& c) {
  Rng& r = c.rng; const bool big = r.chance(1, 12), tall = big && r.chance(1, 2); const int W = 60 + r.below(80) + (big && !tall ? 250 + r.below(300) : 0), H = 40 + r.below(70) + (tall ? 250 + r.below(300) : 0); if (big) c.count("large_images"); Two t(r, W, H); uint8_t size = 1 + r.below(2); Place p = place(r, W, H, 1, 1); bool scroll = r.chance(3, 5); GfxUIStyle st = style(r, size); GfxUITextArea ta(p.lay(), st, r.chance(1, 5) ? GFXUI_FLAG_ALWAYS_REDRAW : 0); ta.scrollable(scroll); VF_CHECK(ta.scrollable() == scroll, "text", "an area isn't as scrollable as set");
  std::deque<std::string> lines; size_t max = 600; int rows = 0, cols = 0, top = 0; bool need = true; VF_CHECK(ta.scrollbackLength() == 600, "text", "the scrollback begins at %u", (unsigned)ta.scrollbackLength()); if (r.chance(1, 2)) { max = 1 + r.below(r.chance(1, 3) ? 4000 : 120); ta.scrollbackLength(max); VF_CHECK(ta.scrollbackLength() == max, "text", "the scrollback is %u, set to %zu", (unsigned)ta.scrollbackLength(), max); }
  c.op("text area (%d %d %d %d) inside %d x %d, size %u%s, %zu bytes", p.x, p.y, p.w, p.h, p.iw(), p.ih(), size, scroll ? ", scrollable" : "", max);
  auto total = [&]() { size_t n = 0; for (auto& l : lines) n += l.size(); return n; };
  auto render = [&](bool force) { int got = ta.render(&t.ga, force); bool due = need || force || (ta.elementActive() && got); (void)due; VF_CHECK(got || !(need || force), "redraw", "a changed text area wasn't drawn"); if (!got) { c.count("undrawn"); return; } need = false;
    rows = p.ih() / (8 * size); cols = p.iw() / (6 * size); if (rows && cols) top = std::max(0, std::min(top, (int)lines.size() - rows));
    if (rows && cols) { t.b.fillRect(p.ix(), p.iy(), p.iw(), p.ih(), st.color_bg); int n = std::min((int)lines.size(), rows), from = (int)lines.size() - n - top; for (int i = 0; i < n; i++) { write(t.b, p.ix(), p.iy() + i * 8 * size, size, st.color_active, st.color_bg, lines[from + i].substr(0, cols)); if ((int)lines[from + i].size() > cols) c.count("lines_cut"); } c.count("lines_shown", n); if ((int)lines.size() > rows) c.count("more_than_fits"); if (top) c.count("scrolled_views"); c.nontrivial = true; }
    else c.count("no_room");
    t.same("text-drawn"); c.count("text_renders"); c.feat(mix(mix(1, std::min((size_t)12, lines.size())), mix(rows, top))); };
  if (r.chance(3, 4)) render(false);
  for (unsigned k = 3 + r.below(26); k; k--) switch (r.below(12)) {
    case 0: case 1: case 2: case 3: { std::string s; unsigned n = r.below(4) ? 1 + r.below(3) : r.below(14); for (unsigned i = 0; i < n; i++) { unsigned len = r.chance(1, 12) ? r.below(max < 300 ? 300 : 900) : r.chance(1, 10) ? 0 : 1 + r.below(W / 6 + 3); for (unsigned j = 0; j < len; j++) s += r.chance(1, 9) ? ' ' : (char)(33 + r.below(94)); s += '\n'; } if (r.chance(1, 10) && k == 1) s += "unfinished";
      StringBuilder b; for (size_t at = 0; at < s.size();) { size_t m = 1 + r.below((uint32_t)(s.size() - at)); b.concat((uint8_t*)s.data() + at, (int)m); at += m; } int8_t got = ta.pushBuffer(&b); c.op("push %zu bytes of %u lines: %d", s.size(), n, got); if (s.empty()) { VF_CHECK(got == 0 || got == 1, "push", "an empty push gave %d", got); break; }
      VF_CHECK(got == 1 && b.length() == 0, "push", "a push of %zu bytes gave %d, %d bytes left", s.size(), got, b.length()); c.count("pushes");
      if (s.size() >= max) { lines.clear(); s = s.substr(s.size() - max); c.count("overflows"); } else while (s.size() + total() > max) { lines.pop_front(); c.count("lines_lost"); }
      for (size_t i = 0; i < s.size();) { size_t e = s.find('\n', i); if (e == std::string::npos) e = s.size(); if (e > i) lines.push_back(s.substr(i, e - i)); i = e + 1; }
      if (!scroll && rows) while ((int)lines.size() > rows) lines.pop_front(); need = true; if (r.chance(1, 2)) render(false); break; }
    case 4: case 5: case 6: case 7: { bool up = r.chance(3, 5); for (unsigned n = r.chance(1, 4) ? 1 + r.below(20) : 1; n; n--) { PQ log; bool got = ta.notify(up ? E::MOVE_UP : E::MOVE_DOWN, p.x + r.below(p.w), p.y + r.below(p.h), &log); bool want = scroll && (up ? top < (int)lines.size() - rows : top > 0); if (want) { top += up ? 1 : -1; need = true; } c.op("scroll %s: %d", up ? "up" : "down", got); VF_CHECK(got == want, "scroll", "a scroll %s of %zu lines in %d rows, %d up, was %sclaimed", up ? "up" : "down", lines.size(), rows, top, got ? "" : "not "); c.count(want ? "scrolls" : "no_scrolls"); } render(false); break; }
    case 8: render(r.chance(1, 2)); break;
    case 9: if (r.chance(1, 2)) { ta.clear(); lines.clear(); if (scroll) top = 0; need = true; c.op("clear"); c.count("clears"); } break;
    case 10: if (r.chance(1, 2)) { int lo = p.m[2] + p.m[3] + p.b[2] + p.b[3], lh = p.m[0] + p.m[1] + p.b[0] + p.b[1]; p.w = std::min(W - p.x, lo + 1 + (int)r.below(W)); p.h = std::min(H - p.y, lh + 1 + (int)r.below(H)); ta.resize(p.w, p.h); need = true; c.op("resize to %d x %d", p.w, p.h); c.count("resizes"); } break;
    default: if (r.chance(1, 2)) { max = 1 + r.below(600); ta.scrollbackLength(max); c.op("scrollback %zu", max); } else { PQ log; static const E ev[] = {E::TOUCH, E::RELEASE, E::KEY_PRESS}; VF_CHECK(!ta.notify(ev[r.below(3)], p.x, p.y, &log), "claim", "a text area claims what it doesn't use"); } break;
  }
  render(true);
}

static void checklist(Ctx& c) {
  Rng& r = c.rng; unsigned n = 1 + r.below(6); static char lab[6][12]; StepSequenceList* list = (StepSequenceList*)calloc(n, sizeof(StepSequenceList)); uint32_t used = 0; unsigned longest = 0;
  for (unsigned i = 0; i < n; i++) { unsigned len = r.below(10); for (unsigned j = 0; j < len; j++) lab[i][j] = 'A' + r.below(26); lab[i][len] = 0; longest = std::max(longest, len); uint32_t f; do f = 1u << r.below(32); while (used & f); used |= f; new (list + i) StepSequenceList{f, lab[i], r.u32() & r.u32(), []() { return 1; }, []() { return 1; }}; }
  { AsyncSequencer seq(list, n); uint8_t size = r.chance(4, 5) ? 1 : 2; uint32_t f = r.u32() & (GFXUI_CHKLST_FLAG_SHOW_SUMMARY | GFXUI_CHKLST_FLAG_SHOW_DEPS_MASKS | GFXUI_CHKLST_FLAG_SHOW_EXPLICIT_STATE); bool masks = f & GFXUI_CHKLST_FLAG_SHOW_DEPS_MASKS, state = f & GFXUI_CHKLST_FLAG_SHOW_EXPLICIT_STATE, sum = f & GFXUI_CHKLST_FLAG_SHOW_SUMMARY; const int fw = 6 * size, fh = 8 * size, step = fh + size;
    const int iw = fw * (int)(longest + 1 + (masks ? 22 : 0) + (state ? 12 : 0)) + fw * 11, ih = (int)n * step + (sum ? 2 * fh + 4 : 0); const int W = iw + 10, H = ih + 20; Two t(r, W, H); Place p = place(r, W, H, iw, ih); for (int i = 0; i < 4; i++) { p.m[i] = std::min(p.m[i], 1); p.b[i] = std::min(p.b[i], 1); } GfxUIStyle st = style(r, size); GfxUIChecklist view(&seq, p.lay(), st, f | GFXUI_FLAG_ALWAYS_REDRAW); c.op("check list of %u, flags %x", n, f);
    for (unsigned k = 2 + r.below(6); k; k--) { uint32_t s[5]; for (auto& q : s) { q = r.u32() & used; if (r.chance(1, 4)) q = used; if (r.chance(1, 6)) q = 0; } if (r.chance(1, 2)) s[3] &= s[0]; if (r.chance(1, 2)) s[2] &= s[0] & ~s[3]; s[4] &= s[3]; seq.setState(s[0], s[1], s[2], s[3], s[4]); c.op("state %x %x %x %x %x", s[0], s[1], s[2], s[3], s[4]); VF_CHECK(view.render(&t.ga, r.chance(1, 2)) == 1, "redraw", "a check list wasn't drawn");
      t.b.fillRect(p.ix(), p.iy(), p.iw(), p.ih(), st.color_bg); auto at = [&](unsigned i) { return p.iy() + (int)i * step; };
      for (unsigned i = 0; i < n; i++) { uint32_t m = list[i].FLAG; int kind = (s[3] & m) ? ((s[4] & m) ? 0 : 1) : (s[2] & m) ? 2 : (s[0] & m) ? 3 : 4; static const char* kinds[] = {"steps_passed", "steps_failed", "steps_running", "steps_requested", "steps_idle"}; c.count(kinds[kind]); static const char* words[] = {"PASS", "FAIL", "Running", "Requested", ""}; uint32_t col[] = {0x00FF00, 0xFF1010, 0xC0C000, st.color_active, st.color_inactive};
        write(t.b, p.ix(), at(i), size, col[kind], st.color_bg, list[i].LABEL); int x = p.ix() + fw * (int)strlen(list[i].LABEL); if (masks) { char b[32]; snprintf(b, sizeof b, "0x%08x 0x%08x", m, list[i].DEP_MASK); x = p.ix() + fw * (int)(longest + 1); write(t.b, x, at(i), size, st.color_selected, st.color_bg, b); x += 21 * fw; } if (state) write(t.b, x, at(i), size, col[kind], st.color_bg, words[kind]); }
      if (sum) { bool done = !(s[0] & ~s[3]), good = !(s[0] & ~(s[3] & s[4])); char b[32] = "Inactive"; uint32_t col = st.color_inactive; if (done && good) { strcpy(b, "PASS"); col = 0x00FF00; c.count("lists_passed"); } else if (done) { col = 0xFF0000; snprintf(b, sizeof b, "%u failures", seq.failed_steps(true)); c.count("lists_failed"); } else if (seq.steps_running()) { col = 0xC0C000; strcpy(b, "Running"); } write(t.b, p.ix(), at(n) + 4, size, col, st.color_bg, b); t.b.drawFastHLine(p.ix(), at(n), fw * (int)(longest + 1 + (masks ? 22 : 0) + (state ? 12 : 0)), col); }
      t.same("list-drawn"); c.count("list_renders"); c.nontrivial = true; PQ log; VF_CHECK(!view.notify(E::TOUCH, p.x, p.y, &log), "claim", "a check list claims a touch"); c.feat(mix(mix(2, n), mix(s[0] != 0, s[3] & s[4] ? 1 : 0))); }
  }
  for (unsigned i = 0; i < n; i++) list[i].~StepSequenceList(); free(list);
}

static void watch(Ctx& c) {
  Rng& r = c.rng; const int W = 420, H = 60; Two t(r, W, H); uint8_t size = 2; Place p = place(r, W, H, 330, 40); GfxUIStyle st = style(r, size); StopWatch sw(r.u32()); GfxUIStopWatch view("watch", &sw, p.lay(), st); c.op("stopwatch in %d x %d", p.iw(), p.ih()); VF_CHECK(view.stopwatch() == &sw, "watch", "the view gives another watch");
  for (unsigned k = 2 + r.below(8); k; k--) { switch (r.below(6)) {
      case 0: case 1: case 2: case 3: { unsigned n = 1 + r.below(5); uint32_t same = 1 + r.below(90000); bool all = r.chance(1, 3); for (; n; n--) { uint32_t d = all ? same : r.chance(1, 5) ? r.below(0x10000000) : 1 + r.below(5000); sw.markStart(); advance_us(d); sw.markStop(); } c.op("runs"); break; }
      case 4: { PQ log; bool got = view.notify(E::TOUCH, p.x + r.below(p.w), p.y + r.below(p.h), &log); VF_CHECK(got && sw.executions() == 0 && sw.totalTime() == 0, "reset", "a touched stopwatch was not reset"); bool said = false; for (int i = 0; i < log.size(); i++) said |= log.get(i) == &view && log.getPriority(i) == (int)E::TOUCH; VF_CHECK(said, "log", "a reset wasn't logged"); c.op("touch"); c.count("watch_resets"); break; }
      default: { PQ log; uint32_t n = sw.executions(); VF_CHECK(!view.notify(E::MOVE_UP, p.x, p.y, &log) && sw.executions() == n, "claim", "a stopwatch's view claims a scroll"); } }
    // Judge on a plain ground, so that every pixel drawn is known.
    for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) t.a.setPixel(x, y, 0x123456);
    VF_CHECK(view.render(&t.ga, false) == 1, "redraw", "a stopwatch wasn't drawn"); c.count("watch_renders"); c.nontrivial = true;
    for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) if (x < p.ix() || y < p.iy() || x >= p.ix() + p.iw() || y >= p.iy() + p.ih()) VF_CHECK(t.a.getPixel(x, y) == 0x123456, "beyond", "a stopwatch's view drew (%d, %d), outside of it", x, y);
    Image ref(W, H, ImgBufferFormat::R8_G8_B8); ref.reallocate(); ref.fillRect(0, 0, W, H, st.color_bg); auto has = [&](const char* s, int x0, int x1, uint32_t fg, const char* what) { int len = (int)strlen(s) * 6; ref.fillRect(0, 0, W, 8, st.color_bg); write(ref, 0, 0, 1, fg, st.color_bg, s); for (int y = p.iy(); y + 8 <= p.iy() + p.ih(); y++) for (int x = std::max(p.ix(), x0); x + len <= std::min(p.ix() + p.iw(), x1); x++) { bool ok = true; for (int j = 0; ok && j < 8; j++) for (int i = 0; ok && i < len - 1; i++) ok = t.a.getPixel(x + i, y + j) == ref.getPixel(i, j); if (ok) return x; } VF_CHECK(false, what, "\"%s\" isn't drawn", s); return -1; };
    char s[40]; snprintf(s, sizeof s, "Tag: 0x%08x", sw.tag()); has(s, 0, W, 0xFFFFFF, "tag"); const int bx = p.ix() + 150, bw = p.iw() - 150;
    if (sw.executions()) { uint32_t lo = sw.bestTime(), hi = sw.worstTime(), mean = sw.meanTime(), last = sw.lastTime(); auto us = [&](uint32_t v) { snprintf(s, sizeof s, "%u us", v); return s; }; int len = (int)strlen(us(lo)) * 6; has(s, bx, bx + 12 + len, 0xFFFFFF, "best"); us(hi); has(s, bx + bw / 2, W, 0xFFFFFF, "worst"); auto frac = [&](uint32_t v) { return hi == lo ? (double)0 : (double)(v - lo) / (hi - lo); };
      us(last); int x = has(s, bx, W, 0xF06060, "last"), room = bx + bw - 7 * (int)strlen(s) - 4; double want = std::min((double)room, bx + frac(last) * (bw - 2)); VF_CHECK(fabs(x - want) <= 2, "last", "the last time, %u of %u to %u, is at %d, should be %g", last, lo, hi, x, want);
      us(mean); room = bx + bw - 7 * (int)strlen(s) - 4; double mx = std::min((double)room, bx + frac(mean) * (bw - 2)); if (mx + 6 * strlen(s) + 3 < x || mx > x + 90) { int q = has(s, bx, W, 0xA0A0A0, "mean"); VF_CHECK(fabs(q - mx) <= 2, "mean", "the mean time, %u of %u to %u, is at %d, should be %g", mean, lo, hi, q, mx); c.count("means_seen"); }
      int edge = -1; for (int yy = p.iy(); yy < p.iy() + p.ih(); yy++) for (int xx = p.ix(); xx < p.ix() + p.iw(); xx++) if (t.a.getPixel(xx, yy) == 0x505050) edge = std::max(edge, xx); double fill = frac(mean) * (bw - 2); if (fill >= 14) { VF_CHECK(fabs(edge - (bx + fill)) <= 2, "mean", "the bar of mean %u of %u to %u ends at %d, should at %g", mean, lo, hi, edge, bx + fill); c.count("bars"); } if (hi == lo) c.count("all_the_same"); }
    else has("No data", bx, W, 0xFFFFFF, "no-data");
    c.feat(mix(3, std::min(3u, (unsigned)sw.executions()))); }
}

static void value(Ctx& c) {
  Rng& r = c.rng; const int W = 190, H = 60; Two t(r, W, H); Place p = place(r, W, H, 138, 10); GfxUIStyle st = style(r, 1); unsigned kind = r.below(5); uint32_t u = r.u32() >> r.below(32); int32_t s = (int32_t)r.u32() >> r.below(32); char txt[12]; auto word = [&]() { unsigned n = 1 + r.below(11); for (unsigned i = 0; i < n; i++) txt[i] = 'a' + r.below(26); txt[n] = 0; }; word(); uint8_t blob[40]; uint32_t bl = 1 + r.below(40); for (auto& q : blob) q = (uint8_t)r.u32(); C3PValue* v = kind == 4 ? new C3PValue(blob, bl) : kind == 0 ? new C3PValue(u) : kind == 1 ? new C3PValue(s) : kind == 2 ? new C3PValue(r.chance(1, 2)) : new C3PValue(txt);
  bool owns = r.chance(1, 2), hover = r.chance(1, 4); bool frozen = r.chance(1, 5); const bool always = r.chance(1, 2); GfxUIC3PValue* view = new GfxUIC3PValue(v, p.lay(), st, (always ? GFXUI_FLAG_ALWAYS_REDRAW : 0) | (owns ? GFXUI_C3PVAL_FLAG_OWNS_OBJECT : 0) | (hover ? GFXUI_C3PVAL_FLAG_HOVER_RESPONSE : 0) | (frozen ? GFXUI_C3PVAL_FLAG_INHIBIT_REFRESH : 0)); bool typed = false; const int TW = 68; c.op("value of kind %u", kind);
  if (r.chance(1, 12)) { for (int i = 0; i < 65535; i++) v->markDirty(); c.count("wrapped_traces"); }
  for (unsigned k = 3 + r.below(10); k; k--) { switch (r.below(6)) {
      case 5: if (!frozen) { uint32_t col = r.u32() & 0xFFFFFF; t.a.fillRect(0, 0, W, H, col); t.b.fillRect(0, 0, W, H, col); c.op("wipe"); c.count("values_wiped"); break; }
      case 4: if (kind != 4 && !frozen && strlen(typecodeToStr(v->tcode())) * 6 <= TW) { typed = !typed; view->showTypeInfo(typed); VF_CHECK(view->showTypeInfo() == typed, "type", "showing the type isn't as set"); c.op("type %d", typed); view->render(&t.ga, true); } break;
      case 0: case 1: { int8_t got = -1; if (kind == 0) got = v->set((uint32_t)(r.u32() >> r.below(32))); else if (kind == 1) got = v->set((int32_t)((int32_t)r.u32() >> r.below(32))); else if (kind == 2) got = v->set((bool)r.chance(1, 2)); if (got == 0) c.count("values_changed"); c.op("set: %d", got); break; }
      case 2: { PQ log; VF_CHECK(view->notify(E::TOUCH, p.x + r.below(p.w), p.y + r.below(p.h), &log), "claim", "a value's view doesn't claim a touch"); if (!hover) frozen = !frozen; VF_CHECK(view->inhibitRefresh() == frozen, "freeze", "a touched view is %sfrozen", frozen ? "not " : ""); c.op("touch"); c.count("freezes"); break; }
      default: break; }
    bool force = r.chance(1, 2); view->render(&t.ga, force || always); view->render(&t.ga, true); if (!frozen && kind == 4) { t.b.fillRect(p.ix(), p.iy(), p.iw(), p.ih(), st.color_bg); BlobStylerHeatMap heat(&t.b, 0, 0); BlobPlotterHilbertCurve plot(&heat, v, &t.b, p.ix(), p.iy(), p.iw(), p.ih()); if (plot.apply(true)) { char s2[24]; snprintf(s2, sizeof s2, "%u bytes", bl); write(t.b, p.ix(), p.iy(), 1, st.color_active, st.color_bg, s2); } c.count("blob_renders"); c.nontrivial = true; }
    else if (!frozen && typed) { const char* tn = typecodeToStr(v->tcode()); Image ref(W, 8, ImgBufferFormat::R8_G8_B8); ref.reallocate(); write(ref, 0, 0, 1, 0xFFFFFF, 0, tn); int64_t col = -1; for (int y = 0; y < 8; y++) for (int x = 0; x < 6 * (int)strlen(tn); x++) if (ref.getPixel(x, y)) { uint32_t g = t.a.getPixel(p.ix() + x, p.iy() + y); if (col < 0) col = g; VF_CHECK(g == col, "type-drawn", "the type's name isn't drawn"); } for (int y = p.iy(); y < p.iy() + p.ih(); y++) for (int x = p.ix(); x < p.ix() + TW; x++) t.b.setPixel(x, y, t.a.getPixel(x, y)); StringBuilder q; v->toString(&q, false); t.b.fillRect(p.ix() + TW, p.iy(), p.iw() - TW, p.ih(), st.color_bg); write(t.b, p.ix() + TW, p.iy(), 1, st.color_active, st.color_bg, std::string((char*)q.string(), q.length())); c.count("types_shown"); c.nontrivial = true; }
    else if (!frozen) { StringBuilder q; v->toString(&q, false); t.b.fillRect(p.ix(), p.iy(), p.iw(), p.ih(), st.color_bg); write(t.b, p.ix(), p.iy(), 1, st.color_active, st.color_bg, std::string((char*)q.string(), q.length())); c.count("value_renders"); c.nontrivial = true; } else c.count("frozen_renders");
    t.same(frozen ? "frozen" : "value-drawn"); c.feat(mix(4, mix(kind, frozen))); }
  delete view; if (!owns) delete v;
}

static void magnifier(Ctx& c) {
  Rng& r = c.rng; const bool big = r.chance(1, 12), tall = big && r.chance(1, 2); const int W = 30 + r.below(60) + (big && !tall ? 220 + r.below(300) : 0), H = 30 + r.below(60) + (tall ? 220 + r.below(300) : 0); if (big) c.count("large_images"); Two t(r, W, H); Image src(W, H, ImgBufferFormat::R8_G8_B8); src.reallocate(); uint32_t seed = r.u32(); for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) src.setPixel(x, y, mix(seed, y * W + x) & 0xFFFFFF);
  const int w = 4 + r.below(W / 2), h = 4 + r.below(H / 2); uint32_t f = r.u32() & (GFXUI_MAGNIFIER_FLAG_SHOW_FEED_FRAME), col = r.u32() & 0xFFFFFF; GfxUIMagnifier m(&src, r.below(W - w), r.below(H - h), w, h, col, f); float lo = 1, hi = 40, sc = 2; int px = 0, py = 0; bool frame = f & GFXUI_MAGNIFIER_FLAG_SHOW_FEED_FRAME; c.op("magnifier %d x %d on %d x %d", w, h, W, H);
  auto bind = [&](float v) { return std::min(hi, std::max(lo, v)); };
  for (unsigned k = 4 + r.below(16); k; k--) { switch (r.below(7)) {
      case 0: case 1: { bool up = r.chance(1, 2); PQ log; bool got = m.notify(up ? E::MOVE_UP : E::MOVE_DOWN, m.elementPosX(), m.elementPosY(), &log); VF_CHECK(got, "claim", "a magnifier doesn't claim a scroll"); if (up) sc = sc >= 1 ? sc + 1 : sc * 2; else sc = sc > 1 ? sc - 1 : sc * 0.5f; sc = bind(sc); c.op("scroll %s", up ? "up" : "down"); c.count("zooms"); break; }
      case 2: { float v = r.chance(1, 2) ? (float)(1 + r.below(8)) : r.chance(1, 3) ? -r.edgyFloat() : (float)r.below(100) / 10; if (v != v) v = 0; m.scale(v); sc = bind(v); c.op("scale %g", v); break; }
      case 3: if (r.chance(1, 2)) { float a = r.chance(1, 4) ? -(float)r.below(4) : 1 + (float)r.below(4), b = (float)r.below(12); if (r.chance(1, 4)) a = 0; bool good = a > 0 && b > a; int got = m.setBoands(a, b); VF_CHECK(got == (good ? 0 : -1), "bounds", "bounds of %g and %g gave %d", a, b, got); if (good) { lo = a; hi = b; sc = bind(sc); } c.count(good ? "bounds" : "bounds_refused"); c.op("bounds %g to %g", a, b); } break;
      case 4: case 5: px = r.below(W); py = r.below(H); if (r.chance(1, 6)) px = r.chance(1, 2) ? 0 : W - 1; m.pointerLocation(px, py); c.op("at (%d, %d)", px, py); break;
      default: break; }
    VF_CHECK(m.scale() == sc && sc >= lo && sc <= hi, "scale", "the scale is %g, should be %g of %g to %g", m.scale(), sc, lo, hi);
    VF_CHECK(m.render(&t.ga, r.chance(1, 2)) == 1, "redraw", "a magnifier wasn't drawn"); const int x0 = W - w - 1, y0 = H - h - 1; VF_CHECK(m.elementPosX() == x0 && m.elementPosY() == y0, "place", "the magnifier is at (%u, %u)", m.elementPosX(), m.elementPosY());
    const int fw = (int)(w / sc), fh = (int)(h / sc); auto feed = [](int at, int size, int limit) { int o = size / 2 + 1; return std::min(std::max(at, o), limit - o) - o; }; const int fx = feed(px, fw, W), fy = feed(py, fh, H);
    int side = (int)sc; for (int i = 0; i < fw; i++) for (int j = 0; j < fh; j++) t.b.fillRect(x0 + i * side, y0 + j * side, side, side, src.getPixel(fx + i, fy + j)); if (frame) t.b.drawRect(fx, fy, fw, fh, col); t.same("magnified"); c.count("magnified"); c.nontrivial = true; c.feat(mix(5, mix(fw, (int)sc))); }
}
void vf_setup() {}
void vf_case(Ctx& c) { switch (c.rng.below(8)) { case 0: checklist(c); break; case 1: watch(c); break; case 2: value(c); break; case 3: magnifier(c); break; default: text(c); } }
