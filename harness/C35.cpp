/* C35: images against a model of their pixels. Shapes whose exact pixels a formula gives are compared with it; the others are drawn on a blank twin first and judged by geometry. */
#include "sbmodel.h"
#include "Image/Image.h"
#include "C3PValue/KeyValuePair.h"
#include <algorithm>
#include <set>
#include <math.h>
#include "Image/Fonts/FreeMono12pt7b.h"
#include "Image/Fonts/FreeMono18pt7b.h"
#include "Image/Fonts/FreeMono24pt7b.h"
#include "Image/Fonts/FreeMono9pt7b.h"
#include "Image/Fonts/FreeMonoBold12pt7b.h"
#include "Image/Fonts/FreeMonoBold18pt7b.h"
#include "Image/Fonts/FreeMonoBold24pt7b.h"
#include "Image/Fonts/FreeMonoBold9pt7b.h"
#include "Image/Fonts/FreeMonoBoldOblique12pt7b.h"
#include "Image/Fonts/FreeMonoBoldOblique18pt7b.h"
#include "Image/Fonts/FreeMonoBoldOblique24pt7b.h"
#include "Image/Fonts/FreeMonoBoldOblique9pt7b.h"
#include "Image/Fonts/FreeMonoOblique12pt7b.h"
#include "Image/Fonts/FreeMonoOblique18pt7b.h"
#include "Image/Fonts/FreeMonoOblique24pt7b.h"
#include "Image/Fonts/FreeMonoOblique9pt7b.h"
#include "Image/Fonts/FreeSans12pt7b.h"
#include "Image/Fonts/FreeSans18pt7b.h"
#include "Image/Fonts/FreeSans24pt7b.h"
#include "Image/Fonts/FreeSans9pt7b.h"
#include "Image/Fonts/FreeSansBold12pt7b.h"
#include "Image/Fonts/FreeSansBold18pt7b.h"
#include "Image/Fonts/FreeSansBold24pt7b.h"
#include "Image/Fonts/FreeSansBold9pt7b.h"
#include "Image/Fonts/FreeSansBoldOblique12pt7b.h"
#include "Image/Fonts/FreeSansBoldOblique18pt7b.h"
#include "Image/Fonts/FreeSansBoldOblique24pt7b.h"
#include "Image/Fonts/FreeSansBoldOblique9pt7b.h"
#include "Image/Fonts/FreeSansOblique12pt7b.h"
#include "Image/Fonts/FreeSansOblique18pt7b.h"
#include "Image/Fonts/FreeSansOblique24pt7b.h"
#include "Image/Fonts/FreeSansOblique9pt7b.h"
#include "Image/Fonts/FreeSerif12pt7b.h"
#include "Image/Fonts/FreeSerif18pt7b.h"
#include "Image/Fonts/FreeSerif24pt7b.h"
#include "Image/Fonts/FreeSerif9pt7b.h"
#include "Image/Fonts/FreeSerifBold12pt7b.h"
#include "Image/Fonts/FreeSerifBold18pt7b.h"
#include "Image/Fonts/FreeSerifBold24pt7b.h"
#include "Image/Fonts/FreeSerifBold9pt7b.h"
#include "Image/Fonts/FreeSerifBoldItalic12pt7b.h"
#include "Image/Fonts/FreeSerifBoldItalic18pt7b.h"
#include "Image/Fonts/FreeSerifBoldItalic24pt7b.h"
#include "Image/Fonts/FreeSerifBoldItalic9pt7b.h"
#include "Image/Fonts/FreeSerifItalic12pt7b.h"
#include "Image/Fonts/FreeSerifItalic18pt7b.h"
#include "Image/Fonts/FreeSerifItalic24pt7b.h"
#include "Image/Fonts/FreeSerifItalic9pt7b.h"
#include "Image/Fonts/Org_01.h"
#include "Image/Fonts/Picopixel.h"
const char* VF_PROPERTY = "C35";
const char* VF_RULE = "A case is an image of any size to 60 x 60 (seldom to 300 or to the largest), format, orientation and mirroring, in its own memory or exactly as much as it was lent, and a history of drawing calls with coordinates on, at, beyond and before its edges, of writing text in any font and size, of changes of its memory, size and format, and of trips through its serialized form, whole, damaged and hostile. Distinct by the history.";
using namespace vf;
typedef ImgBufferFormat F;
static const F FMTS[] = {F::MONOCHROME, F::GREY_24, F::GREY_16, F::GREY_8, F::GREY_4, F::R8_G8_B8_ALPHA, F::R8_G8_B8, F::R5_G6_B5, F::R3_G3_B2};
static const GFXfont* FONTS[] = {&FreeMono12pt7b, &FreeMono18pt7b, &FreeMono24pt7b, &FreeMono9pt7b, &FreeMonoBold12pt7b, &FreeMonoBold18pt7b, &FreeMonoBold24pt7b, &FreeMonoBold9pt7b, &FreeMonoBoldOblique12pt7b, &FreeMonoBoldOblique18pt7b, &FreeMonoBoldOblique24pt7b, &FreeMonoBoldOblique9pt7b, &FreeMonoOblique12pt7b, &FreeMonoOblique18pt7b, &FreeMonoOblique24pt7b, &FreeMonoOblique9pt7b, &FreeSans12pt7b, &FreeSans18pt7b, &FreeSans24pt7b, &FreeSans9pt7b, &FreeSansBold12pt7b, &FreeSansBold18pt7b, &FreeSansBold24pt7b, &FreeSansBold9pt7b, &FreeSansBoldOblique12pt7b, &FreeSansBoldOblique18pt7b, &FreeSansBoldOblique24pt7b, &FreeSansBoldOblique9pt7b, &FreeSansOblique12pt7b, &FreeSansOblique18pt7b, &FreeSansOblique24pt7b, &FreeSansOblique9pt7b, &FreeSerif12pt7b, &FreeSerif18pt7b, &FreeSerif24pt7b, &FreeSerif9pt7b, &FreeSerifBold12pt7b, &FreeSerifBold18pt7b, &FreeSerifBold24pt7b, &FreeSerifBold9pt7b, &FreeSerifBoldItalic12pt7b, &FreeSerifBoldItalic18pt7b, &FreeSerifBoldItalic24pt7b, &FreeSerifBoldItalic9pt7b, &FreeSerifItalic12pt7b, &FreeSerifItalic18pt7b, &FreeSerifItalic24pt7b, &FreeSerifItalic9pt7b, &Org_01, &Picopixel};
static uint8_t GLYPH[256][5];   // The built-in font, as drawn on a blank image.
static int bpp(F f) { switch (f) { case F::MONOCHROME: return 1; case F::GREY_4: return 4; case F::GREY_8: case F::R3_G3_B2: return 8; case F::GREY_16: case F::R5_G6_B5: return 16; case F::GREY_24: case F::R8_G8_B8: return 24; case F::R8_G8_B8_ALPHA: return 32; default: return 0; } }
static uint32_t trunc(F f, uint32_t c) { switch (bpp(f)) { case 1: return c ? 0xFFFFFFFFu : 0; case 8: return c & 0xFF; case 16: return c & 0xFFFF; case 24: return c & 0xFFFFFF; case 32: return c; default: return 0; } }
static uint64_t need(int w, int h, F f) { return ((uint64_t)w * h * bpp(f) + 7) / 8; }
typedef std::pair<int, int> P; typedef std::set<P> S;

struct Model {
  int w = 0, h = 0, rot = 0; bool fx = false, fy = false; F f = F::UNALLOCATED; bool has = false, own = false; std::vector<uint32_t> px;
  bool map(uint16_t& x, uint16_t& y) const {   // From the caller's to the stored address.
    if (rot == 1 || rot == 3) std::swap(x, y); if (rot == 2) x = w - 1 - x; if (rot == 2 || rot == 3) y = h - 1 - y; if (fx) x = w - 1 - x; if (fy) y = h - 1 - y; return x < w && y < h; }
  bool in(uint16_t x, uint16_t y) const { return has && map(x, y); }
  bool set(int X, int Y, uint32_t c) { uint16_t x = X, y = Y; if (!has || !map(x, y) || bpp(f) == 4 || !bpp(f)) return false; px[y * w + x] = trunc(f, c); return true; }
  uint32_t get(int X, int Y) const { uint16_t x = X, y = Y; if (!has || !map(x, y)) return 0; return px[y * w + x]; }
  void blank() { px.assign(w * h, 0); }
};
struct Lent { uint8_t* b = nullptr; size_t n = 0; ~Lent() { free(b); } uint8_t* take(size_t m) { free(b); n = m; return b = (uint8_t*)malloc(m); } };

/* The stored bytes are what drivers send to their displays. */
static bool raw_px(const Image& I, const Model& m, int x, int y, uint32_t& out) {
  const uint8_t* b = ((Image&)I).buffer(); size_t i = (size_t)y * m.w + x;
  switch (bpp(m.f)) { case 8: out = b[i]; return true; case 16: out = b[2 * i] << 8 | b[2 * i + 1]; return true; case 24: out = b[3 * i] << 16 | b[3 * i + 1] << 8 | b[3 * i + 2]; return true; case 32: out = b[4 * i] | b[4 * i + 1] << 8 | b[4 * i + 2] << 16 | (uint32_t)b[4 * i + 3] << 24; return true;
    case 1: if (m.h % 8) return false; { int pages = m.h / 8; uint8_t by = b[x * pages + (pages - 1 - y / 8)]; out = by >> (7 - y % 8) & 1 ? 0xFFFFFFFFu : 0; return true; } }
  return false;
}
static void agree(Ctx& c, Image& i, const Model& m, const char* what) {
  VF_CHECK(i.x() == m.w && i.y() == m.h && i.format() == m.f && i.allocated() == m.has, "shape", "%s: it's %u x %u, format %d, %sallocated; should be %d x %d, %d, %sallocated", what, i.x(), i.y(), (int)i.format(), i.allocated() ? "" : "not ", m.w, m.h, (int)m.f, m.has ? "" : "not ");
  VF_CHECK(i.pixels() == (uint32_t)m.w * m.h && i.bitsPerPixel() == bpp(m.f), "shape", "%s: it claims %u pixels of %u bits", what, i.pixels(), i.bitsPerPixel());
  uint64_t n = need(m.w, m.h, m.f); VF_CHECK(i.bytesUsed() == (n > 0xFFFFFFFFull ? 0xFFFFFFFFu : (uint32_t)n), "shape", "%s: bytesUsed() is %u, should be %llu", what, i.bytesUsed(), (unsigned long long)n);
  VF_CHECK(!i.locked(), "lock", "%s: it was left locked", what); VF_CHECK(i.isColor() == (m.f == F::R8_G8_B8_ALPHA || m.f == F::R8_G8_B8 || m.f == F::R5_G6_B5 || m.f == F::R3_G3_B2), "shape", "%s: isColor() is %d", what, i.isColor());
  VF_CHECK((int)i.orientation() == m.rot && i.flipX() == m.fx && i.flipY() == m.fy, "shape", "%s: orientation %d, flips %d %d", what, (int)i.orientation(), i.flipX(), i.flipY());
  if (!m.has) { VF_CHECK(i.getPixel(0, 0) == 0, "pixel", "%s: a pixel of nothing isn't 0", what); return; }
  if (bpp(m.f) == 4) return; int e = std::max(m.w, m.h) + 1; bool wide = e > 80;
  for (int y = 0; y < e; y += wide && y + 3 < e ? 1 + c.rng.below(2) : 1) for (int x = 0; x < e; x++) { uint32_t g = i.getPixel(x, y), w = m.get(x, y); VF_CHECK(g == w, "pixel", "%s: pixel (%d, %d) of %d x %d is %08x, should be %08x", what, x, y, m.w, m.h, g, w); }
  for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) { uint32_t g; if (raw_px(i, m, x, y, g)) VF_CHECK(g == m.px[y * m.w + x], "stored", "%s: the stored pixel (%d, %d) of %d x %d is %08x, should be %08x", what, x, y, m.w, m.h, g, m.px[y * m.w + x]); }
  c.count("comparisons");
}
static uint16_t coord(Rng& r, int n) { switch (r.below(12)) { case 0: return r.edgyBits(16, false); case 1: return (uint16_t)(-(int)r.below(12)); case 2: case 3: return (uint16_t)(n - 3 + (int)r.below(6)); case 4: return r.below(3); case 5: return (uint16_t)(-(int)r.below(n + 30)); case 6: return r.below(2 * n + 20); default: return n ? r.below(n) : 0; } }
static uint16_t ext(Rng& r, int n) { switch (r.below(12)) { case 0: return 0; case 1: return 1 + r.below(2); case 2: return n; case 3: return r.below(3 * n + 30); case 4: return r.chance(1, 6) ? r.below(30000) : 0; default: return r.below(n + 4); } }
static uint32_t colour(Rng& r) { switch (r.below(6)) { case 0: return 0; case 1: return 0xFFFFFFFFu; case 2: return 1u << r.below(32); default: return r.u32(); } }

/* Sets of (16-bit) addresses. Those off the image are dropped when they're compared. */
static int W16(int v) { return (uint16_t)v; }
static void add(S& s, const Model& m, int x, int y) { if (m.in(W16(x), W16(y))) s.insert({W16(x), W16(y)}); }
static void rect(S& s, const Model& m, int x, int y, int w, int h) { int e = std::max(m.w, m.h); for (int j = 0; j < h; j++) { int Y = W16(y + j); if (Y >= e) continue; for (int i = 0; i < w; i++) { int X = W16(x + i); if (X < e) add(s, m, X, Y); } } }
static int arc_y(int x, int r, int from) { return from * from - from + x * x - r * r >= 0 ? from - 1 : from; }   // The row of a circle at column x.
template <class T> static void octant(int r, T emit) { int x = 0, y = r; while (x < y) { x++; y = arc_y(x, r, y); emit(x, y); } }
static void quads(S& s, const Model& m, int x0, int y0, int r, int q) { octant(r, [&](int x, int y) { if (q & 4) { add(s, m, x0 + x, y0 + y); add(s, m, x0 + y, y0 + x); } if (q & 2) { add(s, m, x0 + x, y0 - y); add(s, m, x0 + y, y0 - x); } if (q & 8) { add(s, m, x0 - y, y0 + x); add(s, m, x0 - x, y0 + y); } if (q & 1) { add(s, m, x0 - y, y0 - x); add(s, m, x0 - x, y0 - y); } }); }
static void circle(S& s, const Model& m, int x0, int y0, int r) { add(s, m, x0, y0 + r); add(s, m, x0, y0 - r); add(s, m, x0 + r, y0); add(s, m, x0 - r, y0); quads(s, m, x0, y0, r, 15); }
/* For each column right of the center, the highest row of the outline. The extremity is r itself. */
static std::vector<int> heights(int r) { std::vector<int> h(r + 1, 0); h[0] = r; octant(r, [&](int x, int y) { if (x <= r) h[x] = std::max(h[x], y); if (y <= r) h[y] = std::max(h[y], x); }); return h; }
static void lobes(S& s, const Model& m, int x0, int y0, int r, int corners, int delta) { std::vector<int> h = heights(r); for (int d = 1; d <= r; d++) { int top = y0 - h[d], n = 2 * h[d] + delta + 1; if (n == 0 && r == 1) { top--; n = 2; } if (corners & 1) rect(s, m, x0 + d, top, 1, n); if (corners & 2) rect(s, m, x0 - d, top, 1, n); } }
static void tri(S& s, const Model& m, int64_t x0, int64_t y0, int64_t x1, int64_t y1, int64_t x2, int64_t y2) {
  if (y0 > y1) { std::swap(y0, y1); std::swap(x0, x1); } if (y1 > y2) { std::swap(y1, y2); std::swap(x1, x2); } if (y0 > y1) { std::swap(y0, y1); std::swap(x0, x1); } int e = std::max(m.w, m.h);
  for (int64_t y = y0; y <= y2 && y < e; y++) { int64_t a, b; if (y0 == y2) { a = std::min({x0, x1, x2}); b = std::max({x0, x1, x2}); } else { b = x0 + (x2 - x0) * (y - y0) / (y2 - y0); if (y < y1 || y1 == y2) a = x0 + (x1 - x0) * (y - y0) / (y1 - y0); else a = x1 + (x2 - x1) * (y - y1) / (y2 - y1); } if (a > b) std::swap(a, b); for (int64_t x = a; x <= b && x < e; x++) add(s, m, x, y); }
}
/* A twin of the image, blank, on which DRAW is done in a visible colour. What came of it is S. */
template <class T> static void painted(Ctx& c, const Model& m, S& s, T draw) {
  Image t(m.w, m.h, m.f); uint64_t n = need(m.w, m.h, m.f); uint8_t* b = (uint8_t*)malloc(n); memset(b, 0, n); t.setBuffer(b); t.orientation((ImgOrientation)m.rot); t.flipX(m.fx); t.flipY(m.fy); draw(t); int e = std::max(m.w, m.h);
  for (int y = 0; y < e; y++) for (int x = 0; x < e; x++) { uint32_t g = t.getPixel(x, y); if (g) { VF_CHECK(g == trunc(m.f, 0xFFFFFFFFu), "paint", "pixel (%d, %d) was painted %08x", x, y, g); s.insert({x, y}); } } free(b); c.count("twins");
}
static void line_ok(const Model& m, const S& s, int x0, int y0, int x1, int y1, S* all = nullptr) {
  bool steep = abs(y1 - y0) > abs(x1 - x0); int a0 = steep ? y0 : x0, b0 = steep ? x0 : y0, a1 = steep ? y1 : x1, b1 = steep ? x1 : y1; if (a0 > a1) { std::swap(a0, a1); std::swap(b0, b1); } size_t n = 0; int e = std::max(m.w, m.h);
  for (int a = a0; a <= a1 && a < e; a++) { int64_t num = (int64_t)(b1 - b0) * (a - a0), den = a1 - a0 ? a1 - a0 : 1; int lo, hi; double y = b0 + (double)num / den; if ((2 * num) % (2 * den) != 0 && (2 * num) % den == 0) { lo = (int)floor(y); hi = lo + 1; } else lo = hi = (int)floor(y + 0.5); bool in = false, out = false; size_t got = 0;
    for (int b = lo; b <= hi; b++) { int X = steep ? b : a, Y = steep ? a : b; if (m.in(X, Y)) { in = true; if (s.count({X, Y})) { got++; if (all) all->insert({X, Y}); } } else out = true; }
    VF_CHECK(got <= 1 && (got == 1 || !in || out), "line", "line (%d, %d)-(%d, %d): %zu pixels at %d of its course, nearest to %d", x0, y0, x1, y1, got, a, lo); n += got; }
  if (!all) VF_CHECK(n == s.size(), "line", "line (%d, %d)-(%d, %d): %zu pixels beside its course", x0, y0, x1, y1, s.size() - n);
}
static void same(const S& got, const S& want, const char* what) { if (got == want) return; for (auto& p : want) VF_CHECK(got.count(p), "cover", "%s: pixel (%d, %d) wasn't painted", what, p.first, p.second); for (auto& p : got) VF_CHECK(want.count(p), "beyond", "%s: pixel (%d, %d) was painted", what, p.first, p.second); }

struct Text { int cx = 0, cy = 0, size = 0; const GFXfont* f = nullptr; bool wrap = false, cp = false; uint32_t fg = 0, bg = 0; };
static void put_char(Model& m, const Text& t, int x, int y, uint8_t ch, uint32_t fg, uint32_t bg, int size) {
  x = W16(x); y = W16(y);
  auto cell = [&](int X, int Y, uint32_t col) { for (int j = 0; j < size; j++) for (int i = 0; i < size; i++) m.set(W16(X + i), W16(Y + j), col); };
  if (!t.f) { if (x >= m.w || y >= m.h) return; if (!t.cp && ch >= 176) ch++; for (int i = 0; i < 6; i++) for (int j = 0; j < 8; j++) { bool on = i < 5 && (GLYPH[ch][i] >> j & 1); if (on) cell(x + i * size, y + j * size, fg); else if (bg != fg) cell(x + i * size, y + j * size, bg); } return; }
  const GFXglyph& g = t.f->glyph[ch - t.f->first]; unsigned bit = 0; const uint8_t* b = t.f->bitmap + g.bitmapOffset; for (int j = 0; j < g.height; j++) for (int i = 0; i < g.width; i++, bit++) if (b[bit / 8] >> (7 - bit % 8) & 1) cell(x + (g.xOffset + i) * size, y + (g.yOffset + j) * size, fg);
}
struct Box { int x0 = INT32_MAX, y0 = INT32_MAX, x1 = INT32_MIN, y1 = INT32_MIN; void add(int x, int y, int w, int h) { x0 = std::min(x0, x); y0 = std::min(y0, y); x1 = std::max(x1, x + w - 1); y1 = std::max(y1, y + h - 1); } };
/* One character at the cursor. M is nullptr if it's only to be measured. */
static void put_text(Model* m, const Model& dim, Text& t, uint8_t ch, Box& box) {
  int s = t.size;
  if (!t.f) { if (ch == '\n') { t.cy = W16(t.cy + s * 8); t.cx = 0; return; } if (ch == '\r') return; for (int k = ch == '\t' ? 2 : 1; k; k--) { if (t.wrap && t.cx + s * 6 > dim.w) { t.cx = 0; t.cy = W16(t.cy + s * 8); } if (m) put_char(*m, t, t.cx, t.cy, ch == '\t' ? ' ' : ch, t.fg, t.bg, s); box.add(t.cx, t.cy, s * 6, s * 8); t.cx = W16(t.cx + s * 6); if (k == 1) break; } return; }
  if (ch == '\n') { t.cx = 0; t.cy = W16(t.cy + s * t.f->yAdvance); return; } if (ch == '\r' || ch < t.f->first || ch > t.f->last) return; const GFXglyph& g = t.f->glyph[ch - t.f->first];
  if (g.width && g.height) { if (t.wrap && t.cx + s * (g.xOffset + g.width) > dim.w) { t.cx = 0; t.cy = W16(t.cy + s * t.f->yAdvance); } if (m) put_char(*m, t, t.cx, t.cy, ch, t.fg, t.bg, s); }
  box.add(t.cx + g.xOffset * s, t.cy + g.yOffset * s, g.width * s, g.height * s); t.cx = W16(t.cx + s * g.xAdvance);
}
static std::string text(Rng& r, bool any) { std::string s; for (unsigned n = r.below(r.chance(1, 6) ? 40 : 8); n; n--) { unsigned k = r.below(14); s += k == 0 ? '\n' : k == 1 ? '\r' : k == 2 ? '\t' : k == 3 && any ? (char)(1 + r.below(255)) : (char)(32 + r.below(95)); } return s; }

void vf_setup() {
  for (int ch = 0; ch < 256; ch++) { Image i(6, 8, F::GREY_8); i.reallocate(); i.cp437(true); i.drawChar(0, 0, ch, 1, 1, 1); for (int x = 0; x < 5; x++) { GLYPH[ch][x] = 0; for (int y = 0; y < 8; y++) GLYPH[ch][x] |= (i.getPixel(x, y) ? 1 : 0) << y; } }
}
static void fonts_ok() {   // Known glyphs, and a digest of the whole font as it's published.
  static const uint8_t A[] = {0x7C, 0x12, 0x11, 0x12, 0x7C}, z[] = {0x44, 0x64, 0x54, 0x4C, 0x44}, n7[] = {0x41, 0x21, 0x11, 0x09, 0x07}, sp[] = {0, 0, 0, 0, 0}, blk[] = {0xFF, 0xFF, 0xFF, 0xFF, 0xFF};
  VF_CHECK(!memcmp(GLYPH['A'], A, 5) && !memcmp(GLYPH['z'], z, 5) && !memcmp(GLYPH['7'], n7, 5) && !memcmp(GLYPH[' '], sp, 5) && !memcmp(GLYPH[219], blk, 5), "font", "the built-in font's glyphs aren't what they should be"); VF_CHECK(fnv(GLYPH, sizeof GLYPH) == 0xbd5d9bf705c4d7faull, "font", "the built-in font's digest is %016llx", (unsigned long long)fnv(GLYPH, sizeof GLYPH));
}
static uint32_t conv(F from, F to, uint32_t c) {   // Among formats of colour, and monochrome.
  if (from == to) return c; uint32_t r, g, b, a = 0; switch (from) { case F::R8_G8_B8_ALPHA: r = c >> 24; g = c >> 16 & 255; b = c >> 8 & 255; a = c & 255; break; case F::R8_G8_B8: r = c >> 16 & 255; g = c >> 8 & 255; b = c & 255; break; case F::R5_G6_B5: r = (c >> 11 & 31) << 3; g = (c >> 5 & 63) << 2; b = (c & 31) << 3; break; case F::R3_G3_B2: r = (c >> 5 & 7) << 5; g = (c >> 2 & 7) << 5; b = (c & 3) << 6; break; default: r = g = b = a = c ? 255 : 0; }
  switch (to) { case F::R8_G8_B8_ALPHA: return r << 24 | g << 16 | b << 8 | a; case F::R8_G8_B8: return r << 16 | g << 8 | b; case F::R5_G6_B5: return (r >> 3) << 11 | (g >> 2) << 5 | b >> 3; case F::R3_G3_B2: return (r >> 5) << 5 | (g >> 5) << 2 | b >> 6; default: return c ? 0xFFFFFFFFu : 0; }
}
static void draw_op(Ctx& c, Image& i, Model& m) {
  Rng& r = c.rng; uint32_t col = colour(r); uint16_t x = coord(r, m.w), y = coord(r, m.h); S s; int D = std::max(m.w, m.h); bool twin = m.has && bpp(m.f) != 4; unsigned k = r.below(19);
  auto apply = [&]() { for (auto& p : s) m.set(p.first, p.second, col); }; const char* what = "";
  auto exact = [&](auto draw) { S got; if (twin) { painted(c, m, got, [&](Image& t) { draw(t, 0xFFFFFFFFu); }); same(got, s, what); } draw(i, col); apply(); };
  switch (k) {
    case 0: { bool ok = i.setPixel(x, y, col), want = m.set(x, y, col); what = "setPixel"; c.op("setPixel %u %u %08x: %d", x, y, col, ok); VF_CHECK(ok == want, "return", "setPixel(%u, %u) of %d x %d returned %d", x, y, m.w, m.h, ok); if (want) VF_CHECK(i.getPixel(x, y) == trunc(m.f, col), "readback", "pixel (%u, %u) was set to %08x and reads %08x", x, y, col, i.getPixel(x, y)); c.count(want ? "pixels_set" : "pixels_refused"); break; }
    case 1: { uint8_t R = r.edgyBits(8, false), G = r.edgyBits(8, false), B = r.edgyBits(8, false); bool ok = i.setPixel(x, y, R, G, B), in = m.in(x, y); what = "setPixel(r, g, b)"; c.op("setPixel %u %u %u,%u,%u: %d", x, y, R, G, B, ok); uint16_t X = x, Y = y; m.map(X, Y); uint32_t g = i.getPixel(x, y); if (!in) VF_CHECK(!ok, "return", "setPixel(%u, %u, r, g, b) of %d x %d was taken", x, y, m.w, m.h); else if (m.f == F::R8_G8_B8 || m.f == F::R5_G6_B5 || m.f == F::R3_G3_B2) { VF_CHECK(ok, "return", "setPixel(r, g, b) was refused"); uint32_t w = conv(F::R8_G8_B8, m.f, R << 16 | G << 8 | B); VF_CHECK(g == w, "rgb", "%u, %u, %u gave %08x, should be %08x", R, G, B, g, w); m.set(x, y, w); } else if (m.f == F::MONOCHROME) { VF_CHECK(ok && g == (R | G | B ? 0xFFFFFFFFu : 0), "rgb", "%u, %u, %u gave %08x", R, G, B, g); m.set(x, y, R | G | B); } else if (ok) { VF_CHECK(g == trunc(m.f, g), "rgb", "beyond its format"); if (bpp(m.f) != 4) m.px[Y * m.w + X] = g; } c.count("rgb_pixels"); break; }
    case 2: { uint16_t w = ext(r, m.w); what = "drawFastHLine"; c.op("hline %u %u %u %08x", x, y, w, col); rect(s, m, x, y, w, 1); exact([&](Image& t, uint32_t q) { t.drawFastHLine(x, y, w, q); }); break; }
    case 3: { uint16_t h = ext(r, m.h); what = "drawFastVLine"; c.op("vline %u %u %u %08x", x, y, h, col); rect(s, m, x, y, 1, h); exact([&](Image& t, uint32_t q) { t.drawFastVLine(x, y, h, q); }); break; }
    case 4: { uint16_t w = ext(r, m.w), h = ext(r, m.h); if ((uint32_t)w * h > 60000) h = 1 + h % 20; what = "fillRect"; c.op("fillRect %u %u %u %u %08x", x, y, w, h, col); rect(s, m, x, y, w, h); exact([&](Image& t, uint32_t q) { t.fillRect(x, y, w, h, q); }); break; }
    case 5: { uint16_t w = ext(r, m.w), h = ext(r, m.h); what = "drawRect"; c.op("drawRect %u %u %u %u %08x", x, y, w, h, col); if (w && h) { rect(s, m, x, y, w, 1); rect(s, m, x, y + h - 1, w, 1); rect(s, m, x, y, 1, h); rect(s, m, x + w - 1, y, 1, h); } exact([&](Image& t, uint32_t q) { t.drawRect(x, y, w, h, q); }); break; }
    case 6: case 7: { uint16_t x1 = coord(r, m.w), y1 = coord(r, m.h); what = "drawLine"; if (r.chance(1, 6)) y1 = y; else if (r.chance(1, 6)) x1 = x; c.op("line %u %u %u %u %08x", x, y, x1, y1, col); if (twin) { painted(c, m, s, [&](Image& t) { t.drawLine(x, y, x1, y1, 0xFFFFFFFFu); }); line_ok(m, s, x, y, x1, y1); } i.drawLine(x, y, x1, y1, col); apply(); c.count("lines"); break; }
    case 8: case 9: { uint16_t rad = r.chance(1, 20) ? r.below(3000) : r.below(r.chance(1, 2) ? D + 10 : D / 2 + 2); bool fill = k == 9; what = fill ? "fillCircle" : "drawCircle"; c.op("%s %u %u %u %08x", what, x, y, rad, col); if (fill) { rect(s, m, x, y - rad, 1, 2 * rad + 1); lobes(s, m, x, y, rad, 3, 0); } else circle(s, m, x, y, rad); exact([&](Image& t, uint32_t q) { if (fill) t.fillCircle(x, y, rad, q); else t.drawCircle(x, y, rad, q); });
      for (auto& p : s) { double dx = (int16_t)(p.first - x), dy = (int16_t)(p.second - y), d = sqrt(dx * dx + dy * dy); VF_CHECK(fill ? d < rad + 0.75 : fabs(d - rad) < 0.75, "round", "(%g, %g) belongs to a circle of %u", dx, dy, rad); } c.count("circles"); break; }
    case 10: { uint16_t rad = r.below(D + 4), delta = r.below(r.chance(1, 3) ? D + 5 : 3); int q = r.below(16); what = "circle helpers"; c.op("helper %u %u %u %d %u %08x", x, y, rad, q, delta, col); if (r.chance(1, 2)) { quads(s, m, x, y, rad, q); exact([&](Image& t, uint32_t cc) { t.drawCircleHelper(x, y, rad, q, cc); }); } else { lobes(s, m, x, y, rad, q & 3, delta); exact([&](Image& t, uint32_t cc) { t.fillCircleHelper(x, y, rad, q & 3, delta, cc); }); } break; }
    case 11: case 12: { uint16_t w = ext(r, m.w), h = ext(r, m.h), rad = r.chance(1, 3) ? ext(r, D) : r.below(8); if (w > 2000) w = 2000; if (h > 2000) h = 2000; bool fill = k == 12; what = fill ? "fillRoundRect" : "drawRoundRect"; c.op("%s %u %u %u %u %u %08x", what, x, y, w, h, rad, col); int q = std::min((int)rad, std::min(w, h) / 2);
      if (w && h) { S o; rect(o, m, x + q, y, w - 2 * q, 1); rect(o, m, x + q, y + h - 1, w - 2 * q, 1); rect(o, m, x, y + q, 1, h - 2 * q); rect(o, m, x + w - 1, y + q, 1, h - 2 * q); quads(o, m, x + q, y + q, q, 1); quads(o, m, x + w - q - 1, y + q, q, 2); quads(o, m, x + w - q - 1, y + h - q - 1, q, 4); quads(o, m, x + q, y + h - q - 1, q, 8); if (fill) { rect(s, m, x + q, y, w - 2 * q, h); lobes(s, m, x + w - q - 1, y + q, q, 1, h - 2 * q - 1); lobes(s, m, x + q, y + q, q, 2, h - 2 * q - 1); for (auto& p : o) VF_CHECK(s.count(p) || (q == 1 && w == 2), "roundrect", "the outline isn't in the filled reference"); } else s = o; S box; rect(box, m, x, y, w, h); for (auto& p : s) VF_CHECK(box.count(p), "roundrect", "the reference is out of its box"); }
      exact([&](Image& t, uint32_t cc) { if (fill) t.fillRoundRect(x, y, w, h, rad, cc); else t.drawRoundRect(x, y, w, h, rad, cc); }); c.count("round_rects"); break; }
    case 13: case 14: { int far = r.chance(1, 30) ? 4000 : 2 * D + 6; int q[6]; for (int j = 0; j < 6; j++) q[j] = r.chance(1, 5) ? r.below(far) : r.below(D + 3); if (r.chance(1, 4)) q[3] = q[1]; if (r.chance(1, 5)) q[5] = q[3]; if (r.chance(1, 8)) q[1] = 0; if (r.chance(1, 8)) q[3] = 0; bool fill = k == 14; what = fill ? "fillTriangle" : "drawTriangle"; c.op("%s %d,%d %d,%d %d,%d %08x", what, q[0], q[1], q[2], q[3], q[4], q[5], col);
      if (fill) { tri(s, m, q[0], q[1], q[2], q[3], q[4], q[5]); exact([&](Image& t, uint32_t cc) { t.fillTriangle(q[0], q[1], q[2], q[3], q[4], q[5], cc); }); } else { if (twin) { S got; painted(c, m, got, [&](Image& t) { t.drawTriangle(q[0], q[1], q[2], q[3], q[4], q[5], 0xFFFFFFFFu); }); for (int j = 0; j < 3; j++) { S one; int a = 2 * j, b = (2 * j + 2) % 6; painted(c, m, one, [&](Image& t) { t.drawLine(q[a], q[a + 1], q[b], q[b + 1], 0xFFFFFFFFu); }); line_ok(m, one, q[a], q[a + 1], q[b], q[b + 1]); s.insert(one.begin(), one.end()); } same(got, s, what); } i.drawTriangle(q[0], q[1], q[2], q[3], q[4], q[5], col); apply(); } c.count("triangles"); break; }
    case 15: { uint16_t v = r.below(r.chance(1, 3) ? 2 * D + 5 : D / 2 + 3), h = r.below(r.chance(1, 3) ? 2 * D + 5 : D / 2 + 3); float deg = r.chance(1, 2) ? 0 : r.chance(1, 2) ? 90.0f * (int)(r.below(9)) - 360 : (float)((int)r.below(7200) - 3600) / 10; what = "drawEllipse"; c.op("ellipse %u %u v %u h %u at %g %08x", x, y, v, h, deg, col);
      if (twin) { painted(c, m, s, [&](Image& t) { t.drawEllipse(x, y, v, h, deg, 0xFFFFFFFFu); }); double th = deg * 3.14159265358979 / 180, C = cos(th), Sn = sin(th), a = h, b = v; if (v == h) { S w; circle(w, m, x, y, v); same(s, w, what); } else { double hx = sqrt(a * a * C * C + b * b * Sn * Sn);
        auto ends = [&](double dx, double& t, double& bt) { double E = hx * hx; if (E < 1) { t = -sqrt(a * a * Sn * Sn + b * b * C * C); bt = -t; } else { double mid = dx * (a * a - b * b) * Sn * C / E, d = a * b * sqrt(std::max((double)0, E - dx * dx)) / E; t = mid - d; bt = mid + d; } };
        for (auto& p : s) { int dx = (int16_t)(p.first - x), dy = (int16_t)(p.second - y); VF_CHECK(abs(dx) <= hx + 0.51, "ellipse", "column %d is beyond the extent of %g", dx, hx); double t, bt; ends(std::max(-hx, std::min(hx, (double)dx)), t, bt); VF_CHECK(fabs(dy - t) <= 1.01 || fabs(dy - bt) <= 1.01, "ellipse", "(%d, %d) isn't on it: %g %g", dx, dy, t, bt); }
        for (int dx = -(int)(hx - 0.01); dx <= hx - 0.01; dx++) { double t, bt; ends(dx, t, bt); for (double e : {t, bt}) { bool hit = false, off = false; for (int yy = (int)floor(e) - 1; yy <= (int)floor(e) + 2; yy++) if (fabs(yy - e) <= 1.01) { if (!m.in(W16(x + dx), W16(y + yy))) off = true; else if (s.count({W16(x + dx), W16(y + yy)})) hit = true; } VF_CHECK(hit || off, "ellipse", "nothing at column %d, row %g of it", dx, e); } } } }
      i.drawEllipse(x, y, v, h, deg, col); apply(); c.count("ellipses"); break; }
    case 16: { what = "fill"; c.op("fill %08x", col); i.fill(col); if (m.has && bpp(m.f) != 4) for (auto& p : m.px) p = trunc(m.f, col); c.count("fills"); break; }
    case 17: { uint16_t w = r.below(12), h = r.below(12); std::string b = rnd_bytes(r, w * h, 0); uint8_t* q = (uint8_t*)malloc(b.size() ? b.size() : 1); memcpy(q, b.data(), b.size()); what = "drawBitmap"; c.op("bitmap %u %u %u %u %s", x, y, w, h, hex(b.data(), b.size(), 40).c_str()); if (bpp(m.f) > 8) { free(q); q = (uint8_t*)malloc(2 * b.size() + 1); memset(q, 0xA5, 2 * b.size() + 1); } i.drawBitmap(x, y, q, w, h); free(q); for (int yy = 0; yy < h; yy++) for (int xx = 0; xx < w; xx++) { if (bpp(m.f) > 8) { if (m.in(W16(x + xx), W16(y + yy))) m.set(W16(x + xx), W16(y + yy), i.getPixel(x + xx, y + yy)); } else m.set(W16(x + xx), W16(y + yy), (uint8_t)b[yy * w + xx]); } c.count("bitmaps"); break; }
    case 18: {   // Reading, as other formats.
      what = "reading"; F to = FMTS[r.below(9)]; uint32_t g = i.getPixel(x, y), q = i.getPixelAsFormat(x, y, to); VF_CHECK(g == m.get(x, y), "pixel", "(%u, %u) of %d x %d reads %08x, should be %08x", x, y, m.w, m.h, g, m.get(x, y)); bool cs = i.isColor() || m.f == F::MONOCHROME, ct = to == F::R8_G8_B8_ALPHA || to == F::R8_G8_B8 || to == F::R5_G6_B5 || to == F::R3_G3_B2 || to == F::MONOCHROME;
      if (m.f == to) VF_CHECK(q == g, "convert", "as its own format %08x is %08x", g, q); else if (cs && ct) VF_CHECK(q == conv(m.f, to, g), "convert", "%08x of format %d as %d is %08x, should be %08x", g, (int)m.f, (int)to, q, conv(m.f, to, g)); else if (bpp(to) < 32 && bpp(to) > 1) VF_CHECK(q < 1u << bpp(to), "convert", "%08x of format %d as %d is %08x, more than %d bits", g, (int)m.f, (int)to, q, bpp(to));
      if (cs && to != m.f && !ct && (g & (m.f == F::R8_G8_B8_ALPHA ? 0xFFFFFF00u : 0xFFFFFFFFu)) == 0) VF_CHECK(q == 0, "convert", "black isn't black"); if (cs && to != m.f && !ct && bpp(to) > 4) { uint32_t v = conv(m.f, F::R8_G8_B8, g); if (m.f == F::MONOCHROME && g) v = 0xFFFFFF; double top = (1u << bpp(to)) - 1, lum = ((v >> 16) * (double)30 + (v >> 8 & 255) * (double)59 + (v & 255) * (double)11) / 25500 * top; VF_CHECK(fabs(q - lum) <= 1 + top / 500000, "convert", "%08x of format %d as grey %d is %08x, its luminance is %g", g, (int)m.f, (int)to, q, lum); } F from = FMTS[r.below(9)]; q = i.convertColor(col, from); if (from == m.f) VF_CHECK(q == col, "convert", "the own format's colour is converted"); else if (from == F::MONOCHROME) VF_CHECK(q == (col ? 0xFFFFFFFFu : 0), "convert", "monochrome %08x is %08x", col, q); c.op("read %u %u as %d: %08x; convert %d: %08x", x, y, (int)to, g, (int)from, q); c.count("reads"); break; }
  }
  c.feat(mix(mix(k, (uint64_t)m.f), mix(m.rot, s.empty()))); agree(c, i, m, what);
}
static void text_op(Ctx& c, Image& i, Model& m, Text& t) {
  Rng& r = c.rng; switch (r.below(9)) {
    case 0: t.f = r.chance(1, 2) ? nullptr : FONTS[r.below(sizeof FONTS / sizeof *FONTS)]; i.setFont(t.f); c.op("font %d", t.f ? t.f->yAdvance : 0); VF_CHECK(i.getFont() == t.f, "text", "another font"); break;
    case 1: { int s = r.below(r.chance(1, 6) ? 20 : 4); i.setTextSize(s); t.size = s ? s : 1; c.op("text size %d", s); break; }
    case 2: t.fg = t.bg = colour(r); if (r.chance(1, 2)) { t.bg = colour(r); i.setTextColor(t.fg, t.bg); } else i.setTextColor(t.fg); c.op("text colour %08x %08x", t.fg, t.bg); break;
    case 3: t.wrap = r.chance(1, 2); t.cp = r.chance(1, 2); i.textWrap(t.wrap); i.cp437(t.cp); c.op("wrap %d cp437 %d", t.wrap, t.cp); VF_CHECK(i.textWrap() == t.wrap && i.cp437() == t.cp, "text", "the text flags aren't kept"); break;
    case 4: t.cx = coord(r, m.w); t.cy = coord(r, m.h); i.setCursor(t.cx, t.cy); c.op("cursor %d %d", t.cx, t.cy); break;
    case 5: { uint16_t x = coord(r, m.w), y = coord(r, m.h); int s = 1 + r.below(r.chance(1, 8) ? 30 : 4); uint8_t ch = r.u32(); if (t.f) ch = t.f->first + r.below(t.f->last - t.f->first + 1); uint32_t fg = colour(r), bg = r.chance(1, 2) ? fg : colour(r); c.op("char %u at %u %u size %d %08x %08x", ch, x, y, s, fg, bg); i.drawChar(x, y, ch, fg, bg, s); put_char(m, t, x, y, ch, fg, bg, s); c.count("chars"); agree(c, i, m, "drawChar"); break; }
    case 6: { Text q = t; Box b; std::string s = text(r, true); uint16_t x = r.chance(1, 6) ? r.below(2000) : r.below(m.w + 20), y = r.chance(1, 6) ? r.below(2000) : r.below(m.h + 20); q.cx = x; q.cy = y; for (char ch : s) put_text(nullptr, m, q, ch, b); uint16_t o[4] = {7, 7, 7, 7}; int how = r.below(3); if (how == 0) i.getTextBounds(s.c_str(), x, y, o, o + 1, o + 2, o + 3); else if (how == 1) i.getTextBounds((const uint8_t*)s.c_str(), x, y, o, o + 1, o + 2, o + 3); else { StringBuilder sb; sb_build(r, &sb, s, 4); i.getTextBounds(&sb, x, y, o, o + 1, o + 2, o + 3); }
      uint16_t w[4] = {x, y, 0, 0}; if (b.x1 >= b.x0) { w[0] = b.x0; w[2] = b.x1 - b.x0 + 1; } if (b.y1 >= b.y0) { w[1] = b.y0; w[3] = b.y1 - b.y0 + 1; } c.op("bounds of %s at %u %u: %u %u %u %u", quote(s.data(), s.size()).c_str(), x, y, o[0], o[1], o[2], o[3]); VF_CHECK(!memcmp(o, w, 8), "bounds", "%s at %u %u, font %d, size %d: bounds are %u %u %u %u, should be %u %u %u %u", quote(s.data(), s.size()).c_str(), x, y, t.f ? t.f->yAdvance : 0, t.size, o[0], o[1], o[2], o[3], w[0], w[1], w[2], w[3]); c.count("bounds"); break; }
    default: { std::string s = text(r, true); Box b; c.op("write %s", quote(s.data(), s.size()).c_str()); int how = r.below(3); if (how == 0) i.writeString(s.c_str()); else if (how == 1) { StringBuilder sb; sb_build(r, &sb, s, 4); if (s.empty()) sb.concat("\r"); i.writeString(&sb); } else for (char ch : s) i.writeChar(ch); for (char ch : s) put_text(&m, m, t, ch, b); VF_CHECK(i.getCursorX() == t.cx && i.getCursorY() == t.cy, "cursor", "after %s the cursor is at %u %u, should be %d %d", quote(s.data(), s.size()).c_str(), i.getCursorX(), i.getCursorY(), t.cx, t.cy); c.count("texts"); c.feat(mix(mix(99, t.size), mix((uintptr_t)t.f, t.wrap))); agree(c, i, m, "writeString"); break; }
  }
  int fw = t.f ? t.f->glyph->xAdvance * t.size : t.size * 6, fh = t.f ? t.f->yAdvance * t.size : t.size * 8; VF_CHECK(i.getFontWidth() == fw && i.getFontHeight() == fh, "text", "the font is %u x %u, should be %d x %d", i.getFontWidth(), i.getFontHeight(), fw, fh);
}
static void randomize(Ctx& c, Image& i, Model& m) { if (!m.has || bpp(m.f) == 4) return; for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) { uint16_t X = x, Y = y; Model n = Model(); (void)n; uint32_t col = c.rng.u32(); if (m.rot & 1) std::swap(X, Y); if (m.in(X, Y)) { i.setPixel(X, Y, col); m.set(X, Y, col); } } }
static void load_px(Model& m, const uint8_t* b) {   // What a buffer of others means. Only called where the bytes are laid out plainly.
  m.blank(); for (size_t k = 0; k < m.px.size(); k++) switch (bpp(m.f)) { case 8: m.px[k] = b[k]; break; case 16: m.px[k] = b[2 * k] << 8 | b[2 * k + 1]; break; case 24: m.px[k] = b[3 * k] << 16 | b[3 * k + 1] << 8 | b[3 * k + 2]; break; case 32: m.px[k] = b[4 * k] | b[4 * k + 1] << 8 | b[4 * k + 2] << 16 | (uint32_t)b[4 * k + 3] << 24; break; }
}
static void adopt(Ctx& c, Image& i, Model& m, const uint8_t* b) { if (bpp(m.f) > 4) { load_px(m, b); return; } m.blank(); if (bpp(m.f) == 1) for (int y = 0; y < std::max(m.w, m.h); y++) for (int x = 0; x < std::max(m.w, m.h); x++) if (m.in(x, y)) m.set(x, y, i.getPixel(x, y)); }
static void memory_op(Ctx& c, Image& i, Model& m, Lent& lent, Lent& prev) {
  Rng& r = c.rng; switch (r.below(7)) {
    case 0: case 1: {   // Another size.
      int w = r.below(r.chance(1, 8) ? 200 : 40), h = r.below(r.chance(1, 8) ? 200 : 40); bool huge = r.chance(1, 12) && bpp(m.f) > 8; if (huge) { w = 65535 - r.below(20); h = 65535 - r.below(20); if (need(w, h, m.f) <= 0xFFFFFFFFull) return; } bool ok = i.setSize(w, h), want = bpp(m.f) && !huge && !(m.has && !m.own); c.op("setSize %d %d: %d", w, h, ok); VF_CHECK(ok == want, "resize", "setSize(%d, %d) of format %d, %s memory, returned %d", w, h, (int)m.f, m.own ? "own" : m.has ? "lent" : "no", ok);
      if (ok) { m.w = w; m.h = h; m.has = m.own = true; m.blank(); c.count("resizes"); } else { c.count("resizes_refused"); bool kept = m.has && !(huge && m.own && !i.allocated()); if (!kept) { m.has = m.own = false; m.w = w; m.h = h; m.px.clear(); i.setSize(3, 3); m.w = m.h = 3; if (bpp(m.f)) { m.has = m.own = true; m.blank(); } } } break; }
    case 2: { bool ok = i.reallocate(), want = bpp(m.f) && !(m.has && !m.own); c.op("reallocate: %d", ok); VF_CHECK(ok == want, "resize", "reallocate() returned %d", ok); if (ok) { m.has = m.own = true; m.blank(); } break; }
    case 3: case 4: {   // Lend it memory.
      F f = r.chance(1, 12) ? F::UNALLOCATED : FMTS[r.below(9)]; bool withf = r.chance(1, 2) || !bpp(m.f); if (!withf) f = m.f; if (f == F::UNALLOCATED) { if (m.f != F::UNALLOCATED) return; uint8_t* q = (uint8_t*)&c; VF_CHECK(!i.setBuffer(q), "lend", "memory was taken for no format"); break; }
      std::swap(lent.b, prev.b); std::swap(lent.n, prev.n); uint8_t* b = lent.take(need(m.w, m.h, f)); for (size_t k = 0; k < lent.n; k++) b[k] = r.u32(); std::string before((char*)b, lent.n); bool ok = withf ? i.setBuffer(b, f) : i.setBuffer(b); c.op("setBuffer of format %d: %d", (int)f, ok); VF_CHECK(ok && i.buffer() == b, "lend", "setBuffer() returned %d", ok); m.f = f; m.has = true; m.own = false; adopt(c, i, m, b); VF_CHECK(!memcmp(b, before.data(), lent.n), "lend", "the lent content was changed"); c.count("lent"); break; }
    case 5: {   // Take a copy.
      F f = r.chance(1, 2) && bpp(m.f) ? m.f : FMTS[r.below(9)]; size_t n = need(m.w, m.h, f); uint8_t* b = (uint8_t*)malloc(n ? n : 1); for (size_t k = 0; k < n; k++) b[k] = r.u32(); bool same_f = f == m.f && r.chance(1, 2); bool ok = same_f ? i.setBufferByCopy(b) : i.setBufferByCopy(b, f); bool want = !m.has || m.own || bpp(f) == bpp(m.f); c.op("setBufferByCopy of format %d: %d", (int)f, ok); VF_CHECK(ok == want, "copy", "setBufferByCopy(%d) onto format %d, %s memory, returned %d", (int)f, (int)m.f, m.own ? "own" : m.has ? "lent" : "no", ok); if (ok) { VF_CHECK(i.buffer() != b && !memcmp(i.buffer(), b, n), "copy", "it isn't a copy"); if (!m.has) m.own = true; m.f = f; m.has = true; memset(b, 0, n); Model q = m; adopt(c, i, m, i.buffer()); c.count("copies"); } else c.count("copies_refused"); free(b); break; }
    default: { i.wipe(); c.op("wipe"); VF_CHECK(!i.allocated() && i.format() == F::UNALLOCATED && !i.x() && !i.y(), "wipe", "something remains"); int rot = m.rot; m = Model(); m.rot = rot; i.textWrap(false); break; }
  }
  agree(c, i, m, "after a change of memory");
}
static void trip_op(Ctx& c, Image& i, Model& m, bool wrap, bool cp) {
  Rng& r = c.rng; StringBuilder o; int8_t ret = i.serialize(&o); uint64_t n = need(m.w, m.h, m.f); VF_CHECK((ret == 0) == (m.has && bpp(m.f)), "serialize", "serialize() returned %d", ret); if (ret) { VF_CHECK(o.length() == 0, "serialize", "something was written"); return; }
  std::string s((char*)o.string(), o.length()); VF_CHECK(s.size() == n + 10, "serialize", "%zu bytes for %llu", s.size(), (unsigned long long)n); VF_CHECK(!memcmp(s.data() + 10, i.buffer(), n), "serialize", "the content isn't what is stored"); uint8_t hd[9] = {0, 0, (uint8_t)(m.w >> 8), (uint8_t)m.w, 0, 0, (uint8_t)(m.h >> 8), (uint8_t)m.h, (uint8_t)m.f}; VF_CHECK(!memcmp(s.data(), hd, 9), "serialize", "the header is %s", hex(s.data(), 10).c_str());
  { uint8_t* b = (uint8_t*)malloc(n + 10); uint32_t len = 0; VF_CHECK(i.serialize(b, &len) == 0 && len == n + 10 && !memcmp(b, s.data(), len), "serialize", "the two ways differ"); memset(b, 0xEE, n + 10); VF_CHECK(i.serializeWithoutBuffer(b, &len) == 0 && len == 10 && !memcmp(b, s.data(), 10) && (n == 0 || b[10] == 0xEE), "serialize", "the header alone differs"); free(b); }
  std::string in = s; unsigned how = r.below(7); bool valid = true; if (how == 1) { in.resize(r.below(in.size())); valid = false; } else if (how == 2) { in += rnd_bytes(r, 1 + r.below(9), 0); valid = false; } else if (how == 3) { for (unsigned k = 1 + r.below(3); k; k--) in[r.below(10)] = (char)r.u32(); } else if (how == 4) in = rnd_bytes(r, r.below(40), 0); else if (how == 5) { in = std::string(10, '\0'); for (int k : {0, 4}) for (int j = 0; j < 4; j++) in[k + j] = r.chance(1, 2) ? r.u32() : 0; in[8] = r.below(11); in[9] = r.u32(); in += rnd_bytes(r, r.below(6), 0); } else if (how == 6 && in.size() > 10) in[10 + r.below(in.size() - 10)] ^= 1 << r.below(8);
  uint64_t X = 0, Y = 0; int B = 0; if (in.size() >= 10) { for (int k = 0; k < 4; k++) { X = X << 8 | (uint8_t)in[k]; Y = Y << 8 | (uint8_t)in[4 + k]; } B = (uint8_t)in[8] < 10 ? bpp((F)in[8]) : 0; } valid = in.size() >= 10 && B && X < 65536 && Y < 65536 && (X * Y * B + 7) / 8 == in.size() - 10;
  uint8_t* b = (uint8_t*)malloc(in.size() ? in.size() : 1); memcpy(b, in.data(), in.size()); Image q; ret = q.deserialize(b, in.size()); c.op("trip %u: %d", how, ret); VF_CHECK((ret == 0) == valid, "deserialize", "%s gave %d, should be %s", hex(in.data(), in.size(), 30).c_str(), ret, valid ? "taken" : "refused"); memset(b, 0x55, in.size()); free(b);
  if (ret) { Model e; agree(c, q, e, "refused"); c.count("trips_refused"); }
  else { VF_CHECK(q.x() == X && q.y() == Y && (uint8_t)q.format() == (uint8_t)in[8] && q.allocated() && !memcmp(q.buffer(), in.data() + 10, in.size() - 10), "deserialize", "what was taken isn't what was sent"); VF_CHECK(q.flipX() == !!(in[9] & 0x40) && q.flipY() == !!(in[9] & 0x80), "deserialize", "mirroring isn't kept"); if (in == s) { q.orientation((ImgOrientation)m.rot); VF_CHECK(q.textWrap() == wrap && q.cp437() == cp, "deserialize", "text flags aren't kept"); agree(c, q, m, "after a trip"); } StringBuilder o2; q.serialize(&o2); if ((uint8_t)in[9] & 2) q.fill(0); else { std::string e = in; e[9] = (e[9] & ~1) | 1; sb_expect(&o2, e, "serialize", "serialized again"); } VF_CHECK(q.deserialize((uint8_t*)s.data(), s.size()) == -1, "deserialize", "an image in use was overwritten"); c.count("trips"); }
  c.feat(mix(mix(55, how), mix(ret, (uint64_t)m.f)));
  if (r.chance(1, 3)) {   // In a map.
    KeyValuePair kv("img", &i); kv.append((uint8_t)77, "after"); StringBuilder cb; ret = kv.serialize(&cb, TCode::CBOR); if (n > 0) { std::string e((char*)cb.string(), cb.length()); KeyValuePair* back = KeyValuePair::unserialize((uint8_t*)e.data(), e.size(), TCode::CBOR); c.op("map %d: %zu bytes", ret, e.size()); VF_CHECK(back, "map", "the map with an image can't be read: %s", hex(e.data(), e.size(), 60).c_str()); Image* g = nullptr; KeyValuePair* k = back->valueWithKey("img"); VF_CHECK(k && k->tcode() == TCode::IMAGE && k->get_as(&g) == 0 && g, "map", "no image in the map"); g->orientation((ImgOrientation)m.rot); agree(c, *g, m, "from a map"); uint8_t after = 0; k = back->valueWithKey("after"); VF_CHECK(k && k->get_as(&after) == 0 && after == 77, "map", "what follows the image is lost"); delete back; c.count("maps"); } }
}
void vf_case(Ctx& c) {
  Rng& r = c.rng; fonts_ok(); Model m; Lent lent, prev; Text t; int top = r.chance(1, 25) ? 300 : r.chance(1, 3) ? 60 : 24; m.w = r.chance(1, 15) ? r.below(2) : 1 + r.below(top); m.h = r.chance(1, 3) ? 8 * r.below(top / 8 + 1) : r.chance(1, 15) ? r.below(2) : 1 + r.below(top); m.f = FMTS[r.below(9)]; if (m.f == F::GREY_4 && r.chance(2, 3)) m.f = F::MONOCHROME; unsigned how = r.below(8); Image* i;
  if (how < 4) { i = new Image(m.w, m.h, m.f, lent.take(need(m.w, m.h, m.f))); memset(lent.b, 0, lent.n); m.has = true; m.blank(); } else if (how < 7) { i = new Image(m.w, m.h, m.f); agree(c, *i, m, "not allocated"); VF_CHECK(i->reallocate(), "resize", "can't be allocated"); m.has = m.own = true; m.blank(); } else if (r.chance(1, 2)) { i = new Image(m.w, m.h); m.f = F::UNALLOCATED; } else { i = new Image(); m.w = m.h = 0; m.f = F::UNALLOCATED; }
  c.op("image %d x %d format %d %s", m.w, m.h, (int)m.f, m.own ? "own" : m.has ? "lent" : "none"); agree(c, *i, m, "new");
  { StringBuilder o; i->printImageInfo(&o); char e[80]; snprintf(e, sizeof e, "(%u x %u) %s\n", m.w, m.h, Image::formatString(m.f)); sb_expect(&o, e, "print", "printImageInfo"); }
  auto turn = [&]() { m.rot = r.below(4); m.fx = r.chance(1, 3); m.fy = r.chance(1, 3); i->orientation((ImgOrientation)m.rot); i->flipX(m.fx); i->flipY(m.fy); c.op("turn %d %d %d", m.rot, m.fx, m.fy); VF_CHECK(Image::rotationAngle((ImgOrientation)m.rot) == 90.0f * m.rot, "turn", "the angle is %g", Image::rotationAngle((ImgOrientation)m.rot)); agree(c, *i, m, "turned"); };
  if (r.chance(1, 3)) turn(); if (r.chance(1, 2)) { randomize(c, *i, m); agree(c, *i, m, "randomized"); } unsigned mode = r.below(3);
  for (unsigned n = (c.thorough ? 20 : 8) + r.below(10); n; n--) { unsigned k = r.below(20); if (k < 14) { if (mode == 0 || (mode == 2 && r.chance(1, 2))) draw_op(c, *i, m); else text_op(c, *i, m, t); } else if (k < 17) memory_op(c, *i, m, lent, prev); else if (k < 18) turn(); else { trip_op(c, *i, m, t.wrap, t.cp); } if (i->x() == 0 && i->y() == 0 && !m.has) { t.wrap = i->textWrap(); t.cp = i->cp437(); } c.nontrivial = true; if (m.has && (int64_t)m.w * m.h > 40000) { if (n > 3) n = 3; } }
  delete i;
}
