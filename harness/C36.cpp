/* C36: what the image tools draw: scaled copies, bars, needles, vectors, and graphs, judged by the pixels of the image before and after. */
#include "sbmodel.h"
#include "Image/ImageUtils.h"
#include <algorithm>
#include <math.h>
const char* VF_PROPERTY = "C36";
const char* VF_RULE = "A case is an image of noise of any size to 90 x 90 (and sometimes to 420 wide or high) and any format that can be drawn on, and up to ten calls upon it: copies of its regions to another image (of any format, size and orientation) or itself, scaled up, down, and not at all, within and beyond the images; progress and zoom bars, needles, vectors and graphs of any size, place, colour, fraction, angle and data. Distinct by the history.";
using namespace vf;
typedef ImgBufferFormat F;
static int side(Rng& r, int least, int most) { return r.chance(1, 80) ? 200 + (int)r.below(220) : least + (int)r.below(most); }
static const F FMTS[] = {F::MONOCHROME, F::GREY_24, F::GREY_16, F::GREY_8, F::R8_G8_B8_ALPHA, F::R8_G8_B8, F::R5_G6_B5, F::R3_G3_B2};
static uint32_t mask(F f) { switch (f) { case F::GREY_8: case F::R3_G3_B2: return 0xFF; case F::GREY_16: case F::R5_G6_B5: return 0xFFFF; case F::GREY_24: case F::R8_G8_B8: return 0xFFFFFF; default: return 0xFFFFFFFFu; } }
void vf_setup() {}

/* What an image shows at every address that might be on it. */
struct Shot { int e = 0; std::vector<uint32_t> p; bool same = true; uint32_t at(int x, int y) const { return p[y * e + x]; }
  Shot() {} Shot(Image& i) : e(std::max(i.x(), i.y())), p(e * e) { for (int y = 0; y < e; y++) for (int x = 0; x < e; x++) p[y * e + x] = i.getPixel(x, y); } };
static void noise(Image& i, Rng& r) { int e = std::max(i.x(), i.y()); for (int y = 0; y < e; y++) for (int x = 0; x < e; x++) i.setPixel(x, y, r.u32() | 0x10101); }
static void make(Image& i, Rng& r, bool turned) { i.setBuffer(nullptr, FMTS[r.below(8)]); i.reallocate(); if (turned && r.chance(1, 3)) { i.orientation((ImgOrientation)r.below(4)); i.flipX(r.chance(1, 2)); i.flipY(r.chance(1, 2)); } noise(i, r); }

static void scaling(Ctx& c, Rng& r) {
  bool big = r.chance(1, 12); auto dim = [&]() { return big ? 1 + (int)r.below(90) : side(r, 1, 24); };
  Image a(dim(), dim()), bb(dim(), dim()); make(a, r, true); bool self = r.chance(1, 8); Image& b = self ? a : bb; if (!self) { make(bb, r, true); if (r.chance(1, 4)) { Image& z = bb; z.orientation(ImgOrientation::ROTATION_0); } }
  int n = r.chance(1, 4) ? 1 : 2 + r.below(6); bool down = n > 1 && r.chance(1, 2); float sc = down ? 1.0f / n : n; bool frac = !down && r.chance(1, 10); if (frac) sc = n + r.below(100) / 100.0f;
  int sx = r.below(a.x()), sy = r.below(a.y()), sw = 1 + r.below(a.x() - sx), sh = 1 + r.below(a.y() - sy); int tx = 0, ty = 0;
  auto ex = [&](int v) { return down ? v / n : v * n; };   // The extent of V in the target.
  if (!down && r.chance(2, 3)) { sw = std::max(1, std::min(sw, b.x() / n)); sh = std::max(1, std::min(sh, b.y() / n)); }
  if (down && r.chance(1, 2)) { sw = std::max(1, sw / n * n); sh = std::max(1, sh / n * n); if (sw > a.x() - sx) sw = a.x() - sx; if (sh > a.y() - sy) sh = a.y() - sy; }
  int roomx = b.x() - ex(sw), roomy = b.y() - ex(sh); tx = r.chance(1, 6) ? r.below(b.x() + 2) : roomx > 0 ? r.below(roomx + 1) : 0; ty = r.chance(1, 6) ? r.below(b.y() + 2) : roomy > 0 ? r.below(roomy + 1) : 0;
  switch (r.below(24)) { case 0: sw = r.edgyBits(16, false); break; case 1: sh = r.edgyBits(16, false); break; case 2: sx = r.edgyBits(16, false); break; case 3: sy = r.edgyBits(16, false); break; case 4: tx = r.edgyBits(16, false); break; case 5: ty = r.edgyBits(16, false); break; case 6: sc = r.edgyFloat(); break; case 7: sx = 65535 - r.below(4); sw = 1 + r.below(8); break; case 8: sy = 65535 - r.below(4); sh = 1 + r.below(8); break; case 9: tx = 65535 - r.below(4); break; }
  bool plain = (float)sc == (down ? 1.0f / n : (float)n); if (frac && sc == n) frac = false;
  bool whole = false; ImageScaler* s; if (r.chance(1, 4)) { whole = true; sx = sy = 0; sw = a.x(); sh = a.y(); s = r.chance(1, 2) ? new ImageScaler(&a, &b, sc, 0, 0, 0, 0, tx, ty) : (tx = ty = 0, new ImageScaler(&a, &b, sc)); } else if (r.chance(1, 2)) s = new ImageScaler(&a, &b, sc, sx, sy, sw ? sw : 1, sh ? sh : 1, tx, ty), sw = sw ? sw : 1, sh = sh ? sh : 1; else { s = new ImageScaler(&a, &b, 7); if (r.chance(1, 8)) sw = 0; s->setParameters(sc, sx, sy, sw, sh, tx, ty); }
  if (r.chance(1, 4)) { s->scale(0.5f); VF_CHECK(s->scale() == 0.5f, "scale", "a set scale isn't kept"); s->scale(sc); } uint8_t* kept = nullptr; bool none = r.chance(1, 30); Image& gone = r.chance(1, 2) ? a : b; if (none) { kept = gone.buffer(); (void)kept; gone.setBuffer(nullptr); }
  c.op("scale %.3f (%d %d %d %d) of %ux%u f%d to (%d %d) of %ux%u f%d%s%s", sc, sx, sy, sw, sh, a.x(), a.y(), (int)a.format(), tx, ty, b.x(), b.y(), (int)b.format(), self ? " itself" : "", whole ? " whole" : "");
  /* Regions of one image that overlap have no meaning that's claimed. */
  double f = sc; bool src_ok = sx + sw <= a.x() && sy + sh <= a.y(); double tw = trunc(f * sw), th = trunc(f * sh); bool tgt_ok = sc > 0 && tx + tw <= b.x() && ty + th <= b.y(); bool tgt_sure = sc > 0 && (tx + f * sw + 0.01 < b.x() || (plain && tx + tw <= b.x())) && (ty + f * sh + 0.01 < b.y() || (plain && ty + th <= b.y())); bool tgt_bad = !(sc > 0) || tx + tw - 0.01 * (plain ? 0 : 1) > b.x() || ty + th - 0.01 * (plain ? 0 : 1) > b.y();
  Shot A(a), B(b); int8_t ret = s->apply(); delete s; Shot Z(b); Shot A2(a); c.count("scalings");
  int want = none ? -1 : !(sc > 0) ? 99 : !src_ok ? -2 : tgt_sure ? 0 : tgt_bad && !down ? -3 : 98;
  if (want == 99) VF_CHECK(ret < 0, "return", "a scale of %g was taken", (double)sc); else if (want == 98) VF_CHECK(ret == 0 || ret == -3, "return", "apply() returned %d", ret); else VF_CHECK(ret == want, "return", "apply() returned %d, should be %d", ret, want);
  if (!self) VF_CHECK(A.p == A2.p, "source", "the source image was changed");
  if (ret) { VF_CHECK(B.p == Z.p, "refused", "a scaling that was refused (%d) changed the target", ret); c.feat(mix(11, -ret)); return; }
  if (!tgt_ok && !down) return;   // To within the truncation of a fraction.
  bool over = self && sx < tx + tw && tx < sx + sw && sy < ty + th && ty < sy + sh; if (over) return;
  int cols[2] = {(int)tw, (int)tw}, rows[2] = {(int)th, (int)th}; if (down && plain) { cols[0] = sw / n; rows[0] = sh / n; cols[1] = sw % n ? cols[0] : std::max(0, cols[0] - 1); rows[1] = sh % n ? rows[0] : std::max(0, rows[0] - 1); }
  if ((down && !plain) || (!down && sc < 1)) return; bool ok = false; std::string why; Image t(b.x(), b.y(), b.format()); t.reallocate(); t.orientation(b.orientation()); t.flipX(b.flipX()); t.flipY(b.flipY()); Image src(a.x(), a.y(), a.format()); src.reallocate(); src.orientation(a.orientation()); src.flipX(a.flipX()); src.flipY(a.flipY()); for (int y = 0; y < A.e; y++) for (int x = 0; x < A.e; x++) src.setPixel(x, y, A.at(x, y));
  for (int k = 0; k < 4 && !ok; k++) {
    for (int y = 0; y < B.e; y++) for (int x = 0; x < B.e; x++) t.setPixel(x, y, B.at(x, y)); int cw = cols[k & 1], rh = rows[k >> 1];
    if (down) for (int i = 0; i < cw; i++) for (int j = 0; j < rh; j++) t.setPixel(tx + i, ty + j, src.getPixelAsFormat(sx + i * n, sy + j * n, b.format()));
    else { int q = (int)sc; for (int i = 0; i < sw; i++) for (int j = 0; j < sh; j++) { uint32_t col = src.getPixelAsFormat(sx + i, sy + j, b.format()); for (int u = 0; u < q; u++) for (int v = 0; v < q; v++) t.setPixel(tx + i * q + u, ty + j * q + v, col); } }
    ok = true; for (int y = 0; y < Z.e && ok; y++) for (int x = 0; x < Z.e && ok; x++) if (t.getPixel(x, y) != Z.at(x, y)) { ok = false; if (!k) { char m[120]; snprintf(m, sizeof m, "pixel (%d, %d) is %08x, should be %08x; it was %08x", x, y, Z.at(x, y), t.getPixel(x, y), B.at(x, y)); why = m; } } }
  VF_CHECK(ok, down ? "reduce" : n > 1 ? "enlarge" : "copy", "%s", why.c_str()); c.count(down ? "reductions" : n > 1 ? "enlargements" : "copies"); c.feat(mix(12, down * 16 + n)); c.feat(mix(13, (int)a.format() * 16 + (int)b.format())); c.nontrivial = true;
}

struct Canvas {
  Ctx& c; Rng& r; Image i; F f; uint32_t m; int W, H; UIGfxWrapper* u; uint32_t bg, fg, col; Shot before;
  Canvas(Ctx& c_, Rng& r_, int w, int h) : c(c_), r(r_), i(w, h), W(w), H(h) { do { make(i, r, false); f = i.format(); } while (f == F::MONOCHROME); m = mask(f); u = new UIGfxWrapper(&i); for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) i.setPixel(x, y, 0x80808080u | r.u32()); bg = 0x01010101 & m; fg = 0x02020202 & m; col = 0x03030303 & m; u->bg_color = bg; u->fg_color = fg; before = Shot(i); }
  ~Canvas() { delete u; }
  uint32_t at(int x, int y) { return i.getPixel(x, y); }
  void outside(int x, int y, int w, int h, const char* what) { for (int Y = 0; Y < H; Y++) for (int X = 0; X < W; X++) if (X < x || Y < y || X >= x + w || Y >= y + h) VF_CHECK(at(X, Y) == before.at(X, Y), "outside", "%s in (%d %d %d %d): pixel (%d, %d) was painted %08x", what, x, y, w, h, X, Y, at(X, Y)); c.count("bounds_checked"); }
  void is(int x, int y, uint32_t w, const char* key, const char* what) { if (x < W && y < H) VF_CHECK(at(x, y) == w, key, "%s: pixel (%d, %d) is %08x, should be %08x", what, x, y, at(x, y), w); }
};
struct Box { int x, y, w, h; };
static Box place(Rng& r, int W, int H, int lw, int lh) { Box b; b.w = lw + (r.chance(1, 8) ? 0 : r.below(std::max(1, W - lw + 1))); b.h = lh + (r.chance(1, 8) ? 0 : r.below(std::max(1, H - lh + 1))); b.w = std::min(b.w, W); b.h = std::min(b.h, H); b.x = r.below(W - b.w + 1); b.y = r.below(H - b.h + 1); return b; }
static float fraction(Rng& r) { switch (r.below(6)) { case 0: return 0; case 1: return 1; case 2: return r.below(101) / 100.0f; case 3: return 0.5f; default: return (float)(r.below(1000001) / 1e6); } }

static void bars(Ctx& c, Rng& r) {
  const bool big = r.chance(1, 12); Canvas k(c, r, big && r.chance(1, 2) ? 200 + (int)r.below(400) : side(r, 1, 70), big ? 8 + (int)r.below(500) : side(r, 1, 70)); Box b = place(r, k.W, k.H, 0, 0); if (k.W > 199 || k.H > 199) c.count("wide_canvases"); bool vert = r.chance(1, 2), zoom = r.chance(1, 2), base = r.chance(1, 2), val = r.chance(1, 6); float p = fraction(r), q = fraction(r); bool wild = r.chance(1, 16); if (wild && !zoom) p = r.chance(1, 2) ? -(float)r.below(300) / 100 : 1 + (float)r.below(300) / 100; if (val) k.i.setTextSize(1);
  c.op("%s %s bar (%d %d %d %d) of %dx%d f%d %.4f %.4f base %d value %d", vert ? "upright" : "level", zoom ? "zoom" : "progress", b.x, b.y, b.w, b.h, k.W, k.H, (int)k.f, p, q, base, val);
  if (zoom) vert ? k.u->drawZoomBarV(b.x, b.y, b.w, b.h, k.col, val, p, q) : k.u->drawZoomBarH(b.x, b.y, b.w, b.h, k.col, val, p, q); else vert ? k.u->drawProgressBarV(b.x, b.y, b.w, b.h, k.col, base, val, p) : k.u->drawProgressBarH(b.x, b.y, b.w, b.h, k.col, base, val, p);
  c.count("bars"); c.feat(mix(21, vert * 4 + zoom * 2 + base));
  if (val) {   // The same bar, and its figure upon it.
    if (wild) return; char s[16]; snprintf(s, sizeof(s), "%d%%", zoom ? (int)((p + q) / 0.02f) : (int)(p * 100)); const int tw = 6 * strlen(s); int a = zoom ? std::abs((int)(p * (b.h - 2)) - (int)(q * (b.h - 2))) : (int)(p * (b.h - 2)), tx = b.x + (vert ? 2 : 3), ty = !vert ? b.y + 3 : a > 9 ? b.y + 2 + b.h - a : b.y + b.h - (a + 8); if (b.w < 2 || b.h < 2 || tx + tw > b.x + b.w || ty < b.y) { c.count("figures_without_space"); return; }
    Shot got(k.i); for (int y = 0; y < k.H; y++) for (int x = 0; x < k.W; x++) k.i.setPixel(x, y, k.before.at(x, y)); if (zoom) vert ? k.u->drawZoomBarV(b.x, b.y, b.w, b.h, k.col, false, p, q) : k.u->drawZoomBarH(b.x, b.y, b.w, b.h, k.col, false, p, q); else vert ? k.u->drawProgressBarV(b.x, b.y, b.w, b.h, k.col, base, false, p) : k.u->drawProgressBarH(b.x, b.y, b.w, b.h, k.col, base, false, p);
    if (vert ? b.w >= 19 : b.h >= 11) { k.i.setCursor(tx, ty); k.i.setTextColor(k.fg); k.i.writeString(s); c.count("figures"); } for (int y = 0; y < k.H; y++) for (int x = 0; x < k.W; x++) VF_CHECK(k.at(x, y) == got.at(x, y), "figure", "with \"%s\" upon it, pixel (%d, %d) of the bar is %08x, should be %08x", s, x, y, got.at(x, y), k.at(x, y)); c.nontrivial = true; return; }
  k.outside(b.x, b.y, b.w, b.h, zoom ? "zoom bar" : "progress bar"); if (wild) { p = std::min(1.0f, std::max(0.0f, p)); }
  int rad = zoom ? std::min(b.w, b.h) / 5 : 3; if (b.w < 2 * rad + 4 || b.h < 2 * rad + 4) return; c.nontrivial = true;
  /* Along the middle of the bar, corners have no say. */
  int len = (vert ? b.h : b.w) - 2, wide = (vert ? b.w : b.h); int lo = 0, hi = (int)(p * len); if (zoom) { lo = std::min((int)(p * len), (int)(q * len)); hi = std::max((int)(p * len), (int)(q * len)); }
  for (int across = rad + 1; across < wide - rad - 1; across++) for (int s = 0; s < len; s++) {   // s: from the bar's beginning, which is its left or lower end.
      int x = vert ? b.x + across : b.x + 1 + s, y = vert ? b.y + b.h - 2 - s : b.y + across; uint32_t got = k.at(x, y); bool in = s >= lo && s < hi; bool edge = (hi != lo) && (abs(s - lo) <= (zoom ? 1 : 0) || abs(s - hi) <= (zoom ? 1 : 0)); uint32_t want = in ? k.col : k.bg;
      VF_CHECK(got == want || (edge && (got == k.col || got == k.bg || got == k.fg)), "fill", "bar (%d %d %d %d) at %.4f %.4f: pixel (%d, %d), %d of %d along it, is %08x, should be %s", b.x, b.y, b.w, b.h, p, q, x, y, s, len, got, in ? "filled" : "empty"); }
  for (int x = rad + 1; x < b.w - rad - 1; x++) { k.is(b.x + x, b.y, k.fg, "border", "upper border"); k.is(b.x + x, b.y + b.h - 1, k.fg, "border", "lower border"); } for (int y = rad + 1; y < b.h - rad - 1; y++) { k.is(b.x, b.y + y, k.fg, "border", "left border"); k.is(b.x + b.w - 1, b.y + y, k.fg, "border", "right border"); }
  if (zoom || base) { size_t other = 0; for (int y = b.y; y < b.y + b.h; y++) for (int x = b.x; x < b.x + b.w; x++) { uint32_t g = k.at(x, y); if (g != k.bg && g != k.fg && g != k.col) other++; } VF_CHECK(!other, "cleared", "%zu of the bar's pixels still show what was there", other); }
  c.count("bars_judged");
}
static void compass(Ctx& c, Rng& r) {
  Canvas k(c, r, 1 + r.below(70), 1 + r.below(70)); Box b = place(r, k.W, k.H, 0, 0); float a = r.chance(1, 4) ? 45.0f * r.below(9) : r.chance(1, 8) ? (float)((int)r.below(4000) - 2000) : (float)(r.below(3600001) / 1e4); uint32_t RED = k.i.convertColor(0x000000FF), WHITE = k.i.convertColor(0x00FFFFFF); uint32_t bg = 0x11111111 & k.m, fg = 0x22222222 & k.m; k.u->bg_color = bg; k.u->fg_color = fg;
  c.op("compass (%d %d %d %d) of %dx%d f%d %.3f", b.x, b.y, b.w, b.h, k.W, k.H, (int)k.f, a); k.u->drawCompass(b.x, b.y, b.w, b.h, r.chance(1, 2), r.chance(1, 2), a, r.below(360)); c.count("needles"); k.outside(b.x, b.y, b.w, b.h, "compass");
  int e = std::min(b.w, b.h) / 2 - 1; if (e < 3) return; c.nontrivial = true; int ox = b.x + b.w / 2, oy = b.y + b.h / 2; double rad = a * (M_PI / 180); int dx = (int)(cos(rad) * e), dy = (int)(sin(rad) * e);
  bool red = false, white = false; for (int j = -1; j <= 1; j++) for (int i = -1; i <= 1; i++) { if (k.at(ox + dx + i, oy + dy + j) == (RED & k.m)) red = true; if (k.at(ox - dx + i, oy - dy + j) == (WHITE & k.m)) white = true; }
  VF_CHECK(red, "needle", "no tip of the needle near (%d, %d), at %.2f degrees of (%d, %d) by %d", ox + dx, oy + dy, (double)a, ox, oy, e); VF_CHECK(white, "needle", "no tail of the needle near (%d, %d)", ox - dx, oy - dy); VF_CHECK(k.at(ox, oy) == (RED & k.m), "needle", "the needle's middle is %08x", k.at(ox, oy));
  if ((RED & k.m) != (WHITE & k.m) && (RED & k.m) != bg && (WHITE & k.m) != bg && (RED & k.m) != fg && (WHITE & k.m) != fg) for (int y = b.y; y < b.y + b.h; y++) for (int x = b.x; x < b.x + b.w; x++) { uint32_t g = k.at(x, y); double X = x - ox, Y = y - oy, L = hypot(dx, dy); if (hypot(X, Y) > e - 1.6 && g == k.before.at(x, y)) continue; if (hypot(X, Y) > e + 1.5) { VF_CHECK(g == k.before.at(x, y), "dial", "(%d, %d), beyond the dial, was painted %08x", x, y, g); continue; } double along = (X * dx + Y * dy) / L, off = fabs(X * dy - Y * dx) / L; bool on = false; if (g == (RED & k.m)) { on = true; VF_CHECK(off < 1.1 && along > -1.1, "needle", "red at (%d, %d), beside the needle at %.2f degrees", x, y, (double)a); } if (g == (WHITE & k.m)) { on = true; VF_CHECK(off < 1.1 && along < 1.1, "needle", "white at (%d, %d), beside the needle at %.2f degrees", x, y, (double)a); } double R = hypot(X, Y); if (!on && R < e - 1.5) VF_CHECK(g == bg, "dial", "(%d, %d), on the dial, is %08x", x, y, g); if (fabs(R - e) < 0.01 && !on) VF_CHECK(g == fg, "dial", "(%d, %d), on the rim, is %08x", x, y, g); }
}
static void vector(Ctx& c, Rng& r) {
  Canvas k(c, r, side(r, 3, 70), side(r, 3, 70)); Box b = place(r, k.W - 2, k.H - 2, 0, 0); b.x++; b.y++; bool axes = r.chance(1, 2); float vx = fraction(r) * (r.chance(1, 2) ? 1 : -1), vy = fraction(r) * (r.chance(1, 2) ? 1 : -1), vz = fraction(r); c.op("vector (%d %d %d %d) of %dx%d f%d (%.4f %.4f %.4f) axes %d", b.x, b.y, b.w, b.h, k.W, k.H, (int)k.f, vx, vy, vz, axes);
  k.u->drawVector(b.x, b.y, b.w, b.h, k.col, axes, r.chance(1, 2), vx, vy, vz); c.count("vectors"); k.outside(b.x - 1, b.y - 1, b.w + 2, b.h + 2, "vector"); if (b.w < 3 || b.h < 3) return; c.nontrivial = true; int ox = b.x + b.w / 2, oy = b.y + b.h / 2, px = ox + (int)(vx * (b.w / 2)), py = oy - (int)(vy * (b.h / 2)); double L = hypot(px - ox, py - oy);
  for (int y = 0; y < k.H; y++) for (int x = 0; x < k.W; x++) { bool sh = k.at(x, y) == k.col; double X = x - ox, Y = y - oy, along = L > 0 ? (X * (px - ox) + Y * (py - oy)) / L : 0, off = L > 0 ? fabs(X * (py - oy) - Y * (px - ox)) / L : hypot(X, Y); if (sh) VF_CHECK(off <= 2.3 && along >= -1.6 && along <= L + 1.6, "shaft", "vector to (%d, %d) from (%d, %d) painted (%d, %d)", px, py, ox, oy, x, y); else if (axes && b.w > 4 && b.h > 4 && x >= b.x && y >= b.y && x < b.x + b.w && y < b.y + b.h && (x == ox || y == oy)) VF_CHECK(k.at(x, y) == k.fg, "axes", "(%d, %d), on an axis, is %08x", x, y, k.at(x, y)); }
  bool tip = false; for (int j = -1; j <= 1; j++) for (int i = -1; i <= 1; i++) if (k.at(px + i, py + j) == k.col) tip = true; VF_CHECK(tip, "shaft", "the vector doesn't reach (%d, %d)", px, py);
  if (axes) { int far = 0; auto near = [&](int x, int y) { for (int j = -1; j <= 1; j++) for (int i = -1; i <= 1; i++) { uint32_t g = k.at(x + i, y + j); if (g == k.fg || g == k.col) return true; } return false; }; if (!near(b.x, b.y + b.h - 1) || !near(b.x + b.w - 1, b.y)) far = 1; VF_CHECK(!far, "axes", "the z-axis doesn't join the corners of (%d %d %d %d)", b.x, b.y, b.w, b.h); int ax = 0; for (int y = b.y; y < b.y + b.h; y++) for (int x = b.x; x < b.x + b.w; x++) if (k.at(x, y) == k.fg && x != ox && y != oy) { ax++; double d = fabs((double)(x - b.x) * (b.h - 1) + (double)(y - (b.y + b.h - 1)) * (b.w - 1)) / hypot(b.w - 1, b.h - 1); VF_CHECK(d < 1.1, "axes", "(%d, %d) is on no axis", x, y); } }
}
template <class T> static void graph(Ctx& c, Rng& r, bool real) {
  Canvas k(c, r, side(r, 1, 90), side(r, 1, 70)); Box b = place(r, k.W, k.H, 0, 0); bool beyond = r.chance(1, 20); if (beyond) { b.x += r.below(40); b.y += r.below(40); } unsigned n = r.chance(1, 12) ? 0 : 1 + r.below(k.W > 199 ? 500 : r.chance(1, 2) ? 120 : 12); T* d = (T*)malloc(n * sizeof(T) + 1); T base = (T)r.below(1000), amp = (T)(1 + r.below(r.chance(1, 4) ? 3 : 100000)); unsigned shape = r.below(5); if (real && r.chance(1, 3)) base = -base;
  for (unsigned i = 0; i < n; i++) switch (shape) { case 0: d[i] = base; break; case 1: d[i] = base + (T)i; break; case 2: d[i] = base + (T)r.below((uint32_t)amp + 1); break; case 3: d[i] = base + amp * (T)(i & 1); break; default: d[i] = real ? (T)r.edgyFloat() : (T)r.edgyBits(32, false); if (real && !(fabs((double)d[i]) < 1e30)) d[i] = 1; if (real && d[i] != 0 && fabs((double)d[i]) < 1e-30) d[i] = 0; }
  ImageGraph<T> g(b.w, b.h); g.fg_color = k.fg; g.bg_color = k.bg; ImageGraphTrace<T> t; t.color = k.col; t.dataset = r.chance(1, 20) ? nullptr : d; t.data_len = n; t.enabled = !r.chance(1, 12); t.autoscale_y = r.chance(1, 2); t.draw_curve = r.chance(1, 3); t.offset_x = r.chance(1, 2) ? 0 : r.below(5000); t.draw_grid = !real && r.chance(1, 3); t.grid_lock_x = r.chance(1, 3); t.grid_lock_y = r.chance(1, 3); t.major_grid_x = r.chance(1, 2) ? 0 : 1 + r.below(20); t.major_grid_y = r.chance(2, 3) ? 0 : 1 + r.below(200); t.minor_grid_x = r.below(3); t.minor_grid_y = r.below(3); t.accented_idx = r.chance(1, 3) && n ? (int)r.below(n + 3) : -1; bool txt = r.chance(1, 6); if (txt) { t.show_x_range = r.chance(1, 2); t.show_y_range = r.chance(1, 2); t.show_value = r.chance(1, 2); k.i.setTextSize(1); }
  bool en = t.copyFrom(&t); VF_CHECK(en == (t.enabled && n > 0), "trace", "copyFrom() returned %d", en); if (r.chance(1, 2)) g.trace0.copyFrom(&t); else { ImageGraphTrace<T> u(t); g.trace0.copyFrom(&u); } bool shown = t.enabled && t.dataset && n;
  c.op("graph<%s> (%d %d %d %d) of %dx%d f%d n%u shape %u off %u scale %d curve %d grid %d %u %u acc %d text %d", real ? "float" : "u32", b.x, b.y, b.w, b.h, k.W, k.H, (int)k.f, n, shape, t.offset_x, t.autoscale_y, t.draw_curve, t.draw_grid, t.major_grid_x, t.major_grid_y, t.accented_idx, txt);
  g.drawGraph(&k.i, b.x, b.y); c.count("graphs"); bool fits = b.x + b.w <= k.W && b.y + b.h <= k.H; if (!fits) { for (int y = 0; y < k.H; y++) for (int x = 0; x < k.W; x++) VF_CHECK(k.at(x, y) == k.before.at(x, y), "outside", "a graph that doesn't fit painted (%d, %d)", x, y); free(d); return; }
  if (txt || b.w < 3 || b.h < 3) { free(d); return; } k.outside(b.x, b.y, b.w, b.h, "graph"); c.nontrivial = true; int gx = b.x + 1, gy = b.y + 1, gw = b.w - 2, gh = b.h - 2; int vis = shown ? (int)std::min<unsigned>(gw, n) : 0;
  if (!(shown && t.accented_idx >= 0 && t.accented_idx < vis)) for (int y = gy; y < gy + gh; y++) { uint32_t v = k.at(gx - 1, y); VF_CHECK(v == k.fg, "frame", "(%d, %d), on the vertical axis, is %08x", gx - 1, y, v); }
  if (vis) { T hi = t.autoscale_y ? (T)0 : d[0], lo = t.autoscale_y ? d[0] : (T)0; for (int i = 0; i < vis; i++) { hi = std::max(hi, d[i]); lo = std::min(lo, d[i]); } double range = (double)hi - (double)lo; VF_CHECK(g.trace0.maxValue() == hi && g.trace0.minValue() == lo && g.trace0.rangeInFrustum() == (T)(hi - lo), "range", "the range is [%g, %g], should be [%g, %g]", (double)g.trace0.minValue(), (double)g.trace0.maxValue(), (double)lo, (double)hi);
    std::vector<int> row(vis); for (int i = 0; i < vis; i++) row[i] = gy + gh - (range != 0 ? (int)(((double)d[i] - (double)lo) * gh / range) : (int)std::min<double>(1e6, (double)d[i] - (double)lo));
    int acc = t.accented_idx; bool has_acc = acc >= 0 && acc < vis;
    for (int i = 0; i < vis; i++) { bool on = false; for (int y = row[i] - 1; y <= row[i] + 1; y++) if (y >= gy && y <= gy + gh && k.at(gx + i, y) == k.col) on = true; VF_CHECK(on, "datum", "datum %d of %d (%g in [%g, %g]) isn't near (%d, %d)", i, vis, (double)d[i], (double)lo, (double)hi, gx + i, row[i]); }
    for (int i = 0; i < gw; i++) { if (has_acc && abs(i - acc) <= 3) continue; int y0 = INT32_MAX, y1 = INT32_MIN; for (int q = i - 1; q <= i + 1; q++) if (q >= 0 && q < vis && (q == i || t.draw_curve)) { y0 = std::min(y0, row[q]); y1 = std::max(y1, row[q]); } unsigned cnt = 0; for (int y = b.y; y < b.y + b.h; y++) if (k.at(gx + i, y) == k.col) { cnt++; VF_CHECK(y >= y0 - 1 && y <= y1 + 1, "stray", "(%d, %d) shows a datum, but column %d has [%d, %d]", gx + i, y, i, y0, y1); } if (!t.draw_curve) VF_CHECK(cnt <= 1, "stray", "column %d has %u points", i, cnt); }
    if (t.draw_curve && !real) for (int i = 0; i + 1 < vis; i++) { if (has_acc && (abs(i - acc) <= 4)) continue; int y0 = std::min(row[i], row[i + 1]) + 1, y1 = std::max(row[i], row[i + 1]) - 1; for (int y = y0; y <= y1; y++) VF_CHECK(k.at(gx + i, y) == k.col || k.at(gx + i + 1, y) == k.col, "curve", "the curve has no pixel on row %d, between columns %d and %d", y, i, i + 1); }
    if (has_acc) { c.count("accents"); for (int y = gy; y < gy + gh; y++) VF_CHECK(k.at(gx + acc, y) == k.col, "accent", "(%d, %d), on the accented datum's rule, is %08x", gx + acc, y, k.at(gx + acc, y)); for (int y = row[acc] - 2; y <= row[acc] + 2; y++) for (int x = gx + acc - 3; x <= gx + acc + 3; x++) if (x >= gx && x < gx + gw && y >= gy && y < gy + gh) VF_CHECK(k.at(x, y) == k.col, "accent", "(%d, %d), by the accented datum at (%d, %d), is %08x", x, y, gx + acc, row[acc], k.at(x, y)); }
    if (t.draw_grid && t.major_grid_x && gh > 6 && !has_acc && !t.draw_curve) { uint32_t gc = 0x202020 & k.m; int M = t.major_grid_x; for (int i = 0; i < gw; i++) { int cnt = 0; for (int y = gy; y < gy + gh; y++) cnt += k.at(gx + i, y) == gc; bool due = t.grid_lock_x ? i % M == 0 : i > 0 && (i + t.offset_x) % M == 0; if (!due) { if (!t.major_grid_y) VF_CHECK(!cnt, "grid", "column %d of %d has a grid line, every %d from %u", i, gw, M, t.offset_x); } else if (i < (gw / M) * M - M) VF_CHECK(cnt >= gh - 1, "grid", "column %d of %d has no grid line, every %d from %u", i, gw, M, t.offset_x); } c.count("grids"); }
    c.count("graphs_judged"); c.feat(mix(31, real * 8 + t.autoscale_y * 4 + t.draw_curve * 2 + has_acc)); }
  else { for (int y = b.y; y < b.y + b.h; y++) for (int x = b.x; x < b.x + b.w; x++) { uint32_t v = k.at(x, y); VF_CHECK(v == k.bg || v == k.fg, "empty", "a graph of nothing has (%d, %d) of %08x", x, y, v); } }
  free(d);
}
template <class T> static void labels(Ctx& c, Rng& r, bool real) {   // The same graph with its labels, and without them and with them added.
  Canvas k(c, r, 100 + (int)r.below(r.chance(1, 4) ? 330 : 160), 54 + (int)r.below(r.chance(1, 4) ? 260 : 80)); if (k.W < 100) return;
  Box b; b.w = std::min(k.W, 90 + (int)r.below(k.W - 89)); b.h = std::min(k.H, 50 + (int)r.below(k.H - 49)); b.x = r.below(k.W - b.w + 1); b.y = r.below(k.H - b.h + 1);
  unsigned n = 1 + r.below(r.chance(1, 3) ? 400 : 60); std::vector<T> d(n); T base = (T)r.below(r.chance(1, 4) ? 60000 : 300), amp = (T)(1 + r.below(r.chance(1, 2) ? 50 : 5000)); if (real && r.chance(1, 3)) base = -base; for (T& q : d) { q = base + (r.chance(1, 12) ? (T)0 : (T)r.below((uint32_t)amp + 1)); if (real) q += (T)(r.below(1000) / 1000.0f); }
  ImageGraph<T> g(b.w, b.h); g.fg_color = k.fg; g.bg_color = k.bg; ImageGraphTrace<T>& t = g.trace0; t.color = k.col; t.dataset = d.data(); t.data_len = n; t.enabled = true; t.autoscale_y = r.chance(1, 2); t.draw_curve = r.chance(1, 3); t.offset_x = r.chance(1, 2) ? 0 : r.below(5000);
  const bool xr = r.chance(1, 2), yr = r.chance(1, 2), val = r.chance(1, 2), acc = r.chance(1, 2); k.i.setTextSize(1); k.i.textWrap(false); const int FW = k.i.getFontWidth(), TH = k.i.getFontHeight();
  c.op("labels<%s> of (%d %d %d %d) on %dx%d f%d n%u off %u scale %d curve %d x %d y %d value %d accent %d", real ? "float" : "u32", b.x, b.y, b.w, b.h, k.W, k.H, (int)k.f, n, t.offset_x, t.autoscale_y, t.draw_curve, xr, yr, val, acc);
  const uint32_t ink = 0x05050505 & k.m, paper = 0x06060606 & k.m; g.drawGraph(&k.i, b.x, b.y); const int gx = b.x + 1, gy = b.y + 1, gw = b.w - 2, gh = b.h - 2, vis = (int)std::min<unsigned>(gw, n); const T last = d[vis - 1]; const double lo = (double)t.minValue(), hi = (double)t.maxValue(), vs = t.v_scale(); char s[64]; const volatile float rise = (float)(last - (T)lo) * (float)vs; int px = gx + vis - 1, py = gy + gh - (int)rise;
  auto write = [&](int x, int y) { k.i.setCursor(x, y); k.i.writeString(s); };
  k.i.setTextColor(ink, paper); if (acc) { int x0 = std::max(gx, px - 3), x1 = std::min(gx + gw, px + 4), y0 = std::max(gy, py - 3), y1 = std::min(gy + gh, py + 4); for (int y = y0; y < y1; y++) for (int x = x0; x < x1; x++) k.i.setPixel(x, y, k.col); for (int y = gy; y < gy + gh; y++) k.i.setPixel(px, y, k.col);
    if (real) snprintf(s, sizeof(s), "%u: %.3f", (unsigned)(t.offset_x + vis - 1), (double)last); else snprintf(s, sizeof(s), "(%u, %u)", (unsigned)(t.offset_x + vis - 1), (unsigned)last); int w = (FW + 1) * strlen(s), x = x1 + 1, y = y0 - gy > TH ? y0 - TH : gy; if (x + w > gx + gw) { x = std::max(gx, x0 - w); c.count(x == gx ? "accent_labels_at_the_edge" : "accent_labels_left"); } else c.count("accent_labels_right"); write(x, y); }
  k.i.setTextColor(k.fg, k.bg); if (xr && !real) { snprintf(s, sizeof(s), "%u", (unsigned)t.offset_x); write(gx + 1, b.y + b.h - TH); snprintf(s, sizeof(s), "%u", (unsigned)(t.offset_x + n)); write(gx + gw - ((int)strlen(s) * FW + 1), gy + gh - TH); c.count("x_labels"); }
  if (yr) { snprintf(s, sizeof(s), real ? "%.2f" : "%.0f", hi); write(gx + 1, gy); snprintf(s, sizeof(s), real ? "%.2f" : "%.0f", lo); write(gx + 1, b.y + b.h - TH - (xr && !real ? TH + 1 : 0)); c.count("y_labels"); }
  if (val) { int y = real ? (int)((float)(b.y + b.h) - rise) : b.y + b.h - (gy + gh - py); y = std::min(y, b.y + b.h - TH); k.i.setTextColor(k.col, k.bg); snprintf(s, sizeof(s), real ? "%.3f" : "%.0f", (double)last); write(gx, y); c.count("value_labels"); }
  Shot want(k.i); for (int y = 0; y < k.H; y++) for (int x = 0; x < k.W; x++) k.i.setPixel(x, y, k.before.at(x, y)); k.i.setTextColor(ink, paper); t.show_x_range = xr; t.show_y_range = yr; t.show_value = val; t.accented_idx = acc ? vis - 1 : -1; g.drawGraph(&k.i, b.x, b.y);
  for (int y = 0; y < k.H; y++) for (int x = 0; x < k.W; x++) if (!(acc && x == px && y == gy + gh)) VF_CHECK(k.at(x, y) == want.at(x, y), "label", "pixel (%d, %d) of the labelled graph is %08x, should be %08x", x, y, k.at(x, y), want.at(x, y));
  c.nontrivial = true; c.count("labelled_graphs"); c.feat(mix(57, xr | yr << 1 | val << 2 | acc << 3 | real << 4));
}
static void misc(Ctx& c, Rng& r) {   // What's only to be safe.
  Image i(1 + r.below(60), 1 + r.below(60)); make(i, r, true); UIGfxWrapper u(&i); VF_CHECK(u.img() == &i, "wrapper", "img() isn't the image"); VF_CHECK(u.bg_color == 0 && u.fg_color == i.convertColor(0x00FFFFFF) && u.active_color == i.convertColor(0xCCCC) && u.inactive_color == i.convertColor(0x505050), "wrapper", "the default colours aren't what they should be"); i.setTextSize(r.below(3)); auto v = [&]() { return (PixUInt)r.edgyBits(r.chance(1, 4) ? 16 : 7, false); }; auto k = [&]() { return (DataVis)r.below(7); };
  PixUInt x = v(), y = v(), w = r.below(200), h = r.below(200); c.op("anywhere (%u %u %u %u) of %ux%u f%d", x, y, w, h, i.x(), i.y(), (int)i.format());
  switch (r.below(6)) { case 0: u.draw_data_view_selector(x, y, w, h, k(), k(), k(), k(), k(), k(), k()); break; case 1: u.drawCompass(x, y, w, h, true, true, r.below(1000), 0); break; case 2: u.drawVector(x, y, w, h, r.u32(), true, true, fraction(r), -fraction(r), 0); break; case 3: u.drawProgressBarH(x, y, w, h, r.u32(), true, true, fraction(r)); break; case 4: u.drawZoomBarV(x, y, w, h, r.u32(), true, fraction(r), fraction(r)); break; default: u.drawProgressBarV(x, y, w, h, r.u32(), true, true, fraction(r)); }
  static const char* const N[] = {"NONE", "GRAPH", "VECTOR", "COMPASS", "FIELD", "TEXT", "UNKNOWN"}; for (unsigned q = 0; q < 7; q++) VF_CHECK(!strcmp(getDataVisString((DataVis)q), N[q]), "name", "DataVis %u is called %s", q, getDataVisString((DataVis)q)); c.count("anywhere");
}
void vf_case(Ctx& c) {
  Rng& r = c.rng; for (unsigned n = 1 + r.below(5); n; n--) switch (r.below(8)) { case 0: case 1: case 2: scaling(c, r); break; case 3: bars(c, r); break; case 4: compass(c, r); break; case 5: vector(c, r); break; case 6: r.chance(1, 2) ? graph<uint32_t>(c, r, false) : graph<float>(c, r, true); break; default: r.chance(1, 3) ? labels<uint32_t>(c, r, false) : r.chance(1, 3) ? labels<float>(c, r, true) : r.chance(1, 3) ? misc(c, r) : r.chance(1, 2) ? graph<uint32_t>(c, r, false) : graph<float>(c, r, true); }
}
