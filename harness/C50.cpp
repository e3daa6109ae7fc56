/* C50: a view of binary data: its plot, by the plotter and the styler whose tabs are selected, at its place. */
#include "vf.h"
#include "sbmodel.h"
#include "AbstractPlatform.h"
#include "C3PValue/C3PValue.h"
#include "stage.h"
const char* VF_PROPERTY = "C50";
const char* VF_RULE = "A view of a value of 0 to 5000 bytes (or of no bytes' type, or none), placed with margins and borders on an image, and a history of renders, touches of its tabs, changes of the bytes and of its place. Distinct by the history.";
/* The Hilbert curve of 2^n squares by side (Wikipedia). */
static void hilbert(unsigned n, uint32_t d, uint32_t* x, uint32_t* y) {
  uint32_t t = d; *x = *y = 0; for (uint32_t s = 1; s < 1u << n; s *= 2) { uint32_t rx = 1 & (t / 2), ry = 1 & (t ^ rx); if (!ry) { if (rx) { *x = s - 1 - *x; *y = s - 1 - *y; } std::swap(*x, *y); } *x += s * rx; *y += s * ry; t /= 4; }
}
static const int PANEL = 160;
void vf_setup() {}
void vf_case(Ctx& c) {
  Rng& r = c.rng; const uint8_t size = 1; const int bar = size * 8 + 18, need = 2 * bar + 128; const bool slim = r.chance(1, 6); const int iw = PANEL + (slim ? 1 + (int)r.below(20) : 8 + (int)r.below(120)), ih = need + (int)r.below(60);
  Stage s(r, iw + 60, ih + 40, iw, ih); GfxUIStyle st = style(r, size); std::string b; std::vector<std::string> keep; keep.reserve(80);
  auto bytes = [&]() { size_t n = r.chance(1, 15) ? 0 : 1 + r.below(r.chance(1, 3) ? 16 : r.chance(1, 2) ? 300 : 5000); if (r.chance(1, 3)) { n = (size_t)1 << (2 * r.below(6)); n += (int)r.below(3) - 1; } if (r.chance(1, 12)) n = (size_t)((s.in.w - PANEL) * s.in.h) + r.below(40) - (r.chance(1, 2) ? 20 : 0); b.resize(n); for (auto& ch : b) ch = (char)r.u32(); keep.push_back(b); };
  bytes(); const unsigned kind = r.chance(1, 10) ? 1 + r.below(2) : 0; C3PValue* val = kind == 2 ? nullptr : kind == 1 ? new C3PValue((uint32_t)r.u32()) : new C3PValue((uint8_t*)keep.back().data(), (uint32_t)b.size()); bool frozen = r.chance(1, 8); if (val && r.chance(1, 12)) { for (int i = 0; i < 65535; i++) val->markDirty(); c.count("wrapped_traces"); }
  GfxUIBlobRender* v = new GfxUIBlobRender(val, s.lay(), st, frozen ? GFXUI_BLOB_RENDER_FLAG_INHIBIT_REFRESH : 0); VF_CHECK(v->inhibitRefresh() == frozen, "frozen", "a new view is %sfrozen", frozen ? "not " : ""); c.op("%s of %zu bytes in %d x %d%s", kind == 2 ? "nothing" : kind ? "a number" : "a blob", b.size(), s.in.w, s.in.h, frozen ? ", frozen" : "");
  int plot = 1, shade = 0; Image one(1, 1, s.img.format()); one.reallocate(); bool fresh = false;
  auto shot = [&]() { std::vector<uint32_t> p; int w = s.in.w - PANEL; p.reserve((size_t)w * s.in.h); for (int y = 0; y < s.in.h; y++) for (int x = 0; x < w; x++) p.push_back(s.img.getPixel(s.in.x + x, s.in.y + y)); return p; };
  for (unsigned k = 3 + r.below(9); k; k--) {
    switch (r.below(9)) {
      case 0: case 1: case 2: { bool which = r.chance(1, 2); int n = which ? 3 : 2, i = r.below(n), w = (PANEL - 2) / n, x = s.in.x + s.in.w - PANEL + 1 + i * w + 1 + r.below(w - 2), y = s.in.y + (which ? bar : 0) + 2 + r.below(bar - 4); PQ log; v->notify(E::TOUCH, x, y, &log); if (r.chance(1, 2)) { v->render(&s.gfx); } v->notify(E::RELEASE, x, y, &log); if (which) shade = i; else plot = i; c.op("touch %s %d", which ? "style" : "plot", i); c.count(which ? "style_tabs" : "plot_tabs"); break; }
      case 3: case 4: if (kind == 0 && keep.size() < 70) { if (r.chance(1, 2)) { bytes(); VF_CHECK(val->set((uint8_t*)keep.back().data(), (uint32_t)b.size(), TCode::BINARY) == 0, "rig", "the blob wasn't set"); } else if (!b.empty()) { size_t i = r.below((uint32_t)b.size()); b[i] ^= 1 + r.below(255); keep.back() = b; val->markDirty(); VF_CHECK(val->set((uint8_t*)keep.back().data(), (uint32_t)b.size(), TCode::BINARY) == 0, "rig", "the blob wasn't set"); } c.op("%zu bytes", b.size()); c.count("blobs_changed"); } break;
      case 5: { int x = r.below(s.W - s.all.w + 1), y = r.below(s.H - s.all.h + 1); s.wipe(); v->reposition(x, y); s.all.x = x; s.all.y = y; s.inner(); fresh = false; c.op("move to %d, %d", x, y); c.count("moves"); break; }
      case 6: { frozen = r.chance(1, 3); v->inhibitRefresh(frozen); c.op("%s", frozen ? "freeze" : "thaw"); break; }
      case 7: { s.wipe(); fresh = false; c.op("wipe"); c.count("wipes"); break; }
      default: { bool m = r.chance(1, 2); v->muteRender(true); if (m) { s.wipe(); fresh = false; v->render(&s.gfx, r.chance(1, 2)); int x = 0, y = 0; Box none = {0, 0, 0, 0}; VF_CHECK(ground(s.img.buffer(), s.W, s.H, none, &x, &y), "mute", "a mute view drew (%d, %d)", x, y); c.count("mutes"); } v->muteRender(false); break; }
    }
    if (r.chance(1, 5)) continue;
    const bool force = r.chance(1, 3) || !fresh; std::vector<uint32_t> was = shot(); for (int i = 1 + (int)r.below(2) ; i >= 0; i--) v->render(&s.gfx, force && i == 0); c.count("renders"); s.outside("a blob's view"); if (force) fresh = true;
    const int fw = s.in.w - PANEL, fh = s.in.h; Box field = {s.in.x, s.in.y, fw, fh}; std::vector<uint32_t> got = shot();
    static const char* names[2][3] = {{"Linear", "Hilbert", ""}, {"Heat", "Entropy", "MAP File"}}; for (int t = 0; t < 2; t++) for (int i = 0; i < 2 + t; i++) { int w = (PANEL - 2) / (2 + t); Box tb = {s.in.x + s.in.w - PANEL, s.in.y + t * bar, PANEL, bar}; if ((int)strlen(names[t][i]) * 6 + 8 > w) continue; int ax = 0; bool on = i == (t ? shade : plot); VF_CHECK(s.seen(names[t][i], tb, size, on ? 0 : t ? 0xdf20d0 : 0xcF10c0, &ax) || s.seen(names[t][i], tb, size, on ? 0 : 0xA0A0A0, &ax), "tabs", "the tab \"%s\" isn't shown as %sselected", names[t][i], on ? "" : "not "); VF_CHECK(ax >= tb.x + i * w && ax < tb.x + (i + 1) * w, "tabs", "the tab \"%s\" is at %d", names[t][i], ax - tb.x); c.count("tabs_seen"); }
    if (frozen || kind == 2) { VF_CHECK(got == was, "frozen", "a view %s drew in its field", frozen ? "that is frozen" : "of nothing"); c.count(frozen ? "frozen" : "nothing"); continue; }
    if (kind == 1) { std::string t = "Refusing to render data that is not ptr/len."; VF_CHECK(s.seen(t.substr(0, (size_t)std::max(0, std::min((int)t.size(), fw / 6))), field, size, st.color_active), "refusal", "a value that isn't a blob isn't refused"); c.count("refusals"); continue; }
    const size_t N = b.size(); unsigned n = 1; while ((1ull << (2 * n)) < N) n++; int q = 0, bw = 0; bool drawn = N > 0 && (size_t)fw * fh >= N; if (drawn) { if (plot) { q = std::min(fw, fh) >> n; drawn = q > 0; } else { for (q = std::min(fw, fh); q > 1 && (size_t)(fw / q) * (fh / q) < N; q--); bw = fw / q; } }
    auto shown = [&](uint32_t col) { one.fillRect(0, 0, 1, 1, col); return one.getPixel(0, 0); }; const uint32_t bg = shown(st.color_bg);
    if (N && !drawn) { std::string t = std::to_string(N) + " bytes"; if ((int)t.size() * 6 <= fw) { VF_CHECK(s.seen(t, field, size, st.color_active), "length", "\"%s\" isn't shown for a blob that doesn't fit", t.c_str()); c.count((size_t)fw * fh < N ? "too_long" : "lengths"); } continue; }
    bool ok = false; std::string why; for (int turn = 0; turn < (plot ? 2 : 1) && !ok; turn++) { ok = true; std::vector<uint32_t> e((size_t)fw * fh, bg); for (size_t i = 0; i < N; i++) { uint32_t x, y; if (plot) { hilbert(n, (uint32_t)i, &x, &y); if (turn) std::swap(x, y); } else { x = (uint32_t)(i % bw); y = (uint32_t)(i / bw); } uint32_t px = shown(shade == 2 ? 0 : (uint8_t)b[i] * 0x10101u); for (int v2 = 0; v2 < q; v2++) for (int u = 0; u < q; u++) e[(y * q + v2) * fw + x * q + u] = px; }
      for (size_t j = 0; j < e.size(); j++) if (e[j] != got[j]) { ok = false; if (why.empty()) { char m[160]; snprintf(m, sizeof m, "pixel (%d, %d) of the field is %06x, should be %06x (squares of %d)", (int)(j % fw), (int)(j / fw), got[j], e[j], q); why = m; } break; } }
    VF_CHECK(ok, N ? "plot" : "empty", "%s (%zu bytes, plotter %d, styler %d)", why.c_str(), N, plot, shade); c.count(N ? plot ? "hilberts" : "linears" : "empties"); if (shade == 2) c.count("unfenced"); c.nontrivial = true; c.feat(mix(mix(plot, shade), mix(q, n)));
  }
  delete v; if (val) VF_CHECK(kind || val->length() == b.size(), "owner", "the blob went with its view"); delete val; c.hash(b.data(), b.size());
}
