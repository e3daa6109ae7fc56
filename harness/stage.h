#ifndef VF_STAGE_H
#define VF_STAGE_H
/* An image with an element's place on it, and what can be read from it. */
#include "vf.h"
#include "Image/ImageUtils.h"
#include "Image/GfxUI.h"
#include <algorithm>
#include <string>
#include <vector>
using namespace vf;
typedef GfxUIEvent E; typedef PriorityQueue<GfxUIElement*> PQ;
static const uint32_t GROUND = 0x13579B;
struct Box { int x, y, w, h; };
// The search itself goes without instrumentation: it reads a copy's worth of pixels, and it is most of the time spent.
#define RAW __attribute__((no_sanitize("address", "undefined"), optimize("O2")))
RAW static bool scan(const uint8_t* px, int W, int y1, int x1, int x0, int y0, const int* on, size_t ons, const uint8_t* ref, int n, int hh, uint32_t fg, int* ax, int* ay) {
  const uint8_t f0 = fg >> 16, f1 = fg >> 8, f2 = fg; 
  for (int y = y0; y <= y1; y++) for (int x = x0; x <= x1; x++) {
    bool ok = true; for (size_t i = 0; ok && i < ons; i++) { const uint8_t* q = px + 3 * ((size_t)(y + on[i] / n) * W + x + on[i] % n); ok = q[0] == f0 && q[1] == f1 && q[2] == f2; }
    if (!ok) continue;
    for (int j = 0; ok && j < hh; j++) for (int i = 0; ok && i < n; i++) if (!ref[(size_t)j * n + i]) { const uint8_t* q = px + 3 * ((size_t)(y + j) * W + x + i); ok = q[0] != f0 || q[1] != f1 || q[2] != f2; }
    if (ok) { if (ax) *ax = x; if (ay) *ay = y; return true; } }
  return false;
}
RAW static void blank(uint8_t* q, size_t n) { for (size_t i = 0; i < n; i++, q += 3) { q[0] = GROUND >> 16 & 0xFF; q[1] = GROUND >> 8 & 0xFF; q[2] = GROUND & 0xFF; } }
RAW static bool ground(const uint8_t* px, int W, int H, const Box& all, int* bx, int* by) {
  for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) if (x < all.x || y < all.y || x >= all.x + all.w || y >= all.y + all.h) { const uint8_t* q = px + 3 * ((size_t)y * W + x); if ((((uint32_t)q[0] << 16) | ((uint32_t)q[1] << 8) | q[2]) != GROUND) { *bx = x; *by = y; return false; } }
  return true;
}
struct Stage { int W, H; Image img; UIGfxWrapper gfx; Box all, in; int m[4], b[4];
  Stage(Rng& r, int w, int h, int iw, int ih, bool at0 = false) : W(w), H(h), img(w, h, ImgBufferFormat::R8_G8_B8), gfx(&img) { img.reallocate(); wipe(); for (int i = 0; i < 4; i++) { m[i] = at0 || r.chance(1, 2) ? 0 : r.below(4); b[i] = at0 || r.chance(1, 2) ? 0 : r.below(3); } all.w = iw + m[2] + m[3] + b[2] + b[3]; all.h = ih + m[0] + m[1] + b[0] + b[1]; all.x = at0 || all.w >= W ? 0 : r.below(W - all.w); all.y = at0 || all.h >= H ? 0 : r.below(H - all.h); inner(); }
  void wipe() { uint8_t* q = img.buffer(); if (!q) broken("no buffer"); blank(q, (size_t)W * H); }
  void inner() { in = {all.x + m[2] + b[2], all.y + m[0] + b[0], all.w - m[2] - m[3] - b[2] - b[3], all.h - m[0] - m[1] - b[0] - b[1]}; }
  GfxUILayout lay() const { return GfxUILayout(all.x, all.y, all.w, all.h, m[0], m[1], m[2], m[3], b[0], b[1], b[2], b[3]); }
  // Where S is written in FG within AREA; its ground may be any one color.
  bool seen(const std::string& s, Box a, uint8_t size, uint32_t fg, int* ax = nullptr, int* ay = nullptr) { const int n = (int)s.size() * 6 * size, hh = 8 * size; if (!n) return true; static std::vector<uint8_t> ref; ref.assign((size_t)n * hh, 0); Image one(n, hh, ImgBufferFormat::R8_G8_B8); one.reallocate(); one.fillRect(0, 0, n, hh, 0); one.setTextSize(size); one.setTextColor(0xFFFFFF, 0); one.setCursor(0, 0); for (char ch : s) one.writeChar((uint8_t)ch); std::vector<int> on; for (int y = 0; y < hh; y++) for (int x = 0; x < n; x++) if ((ref[(size_t)y * n + x] = one.getPixel(x, y) != 0)) on.push_back(y * n + x);
    return scan(img.buffer(), W, std::min(H, a.y + a.h) - hh, std::min(W, a.x + a.w) - n, a.x, a.y, on.data(), on.size(), ref.data(), n, hh, fg, ax, ay); }
  void dump() { if (const char* f = getenv("VF_SHOT")) { FILE* o = fopen(f, "w"); fprintf(o, "P6 %d %d 255\n", W, H); fwrite(img.buffer(), 1, (size_t)W * H * 3, o); fclose(o); } }
  void outside(const char* who) { dump(); int x = 0, y = 0; VF_CHECK(ground(img.buffer(), W, H, all, &x, &y), "beyond", "%s (%d %d %d %d) drew (%d, %d)", who, all.x, all.y, all.w, all.h, x, y); }
};
static GfxUIStyle style(Rng& r, uint8_t size) { uint32_t q[7]; for (auto& v : q) v = r.u32() & 0xFFFFFF; q[0] &= 0x3F3F3F; for (int i = 1; i < 7; i++) q[i] |= 0x404040; return GfxUIStyle(q[0], q[1], q[2], q[3], q[4], q[5], q[6], size); }
static std::string word(Rng& r, unsigned lo, unsigned hi) { std::string s; for (unsigned n = lo + r.below(hi - lo + 1); n; n--) s += (char)('a' + r.below(26)); return s; }
#endif
