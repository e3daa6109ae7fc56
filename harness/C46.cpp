/* C46: plots of binary data, against an independent account of where each byte belongs. */
#include "sbmodel.h"
#include "AbstractPlatform.h"
#include "Image/Image.h"
#include "Image/ImageUtils/BlobPlotter.h"
#include "C3PValue/C3PValue.h"
#include <set>
#include <map>
#include <algorithm>
const char* VF_PROPERTY = "C46";
const char* VF_RULE = "A case is an image of noise of any size to 90 x 90 (sometimes to 420 wide or high) and any format, a blob of 0 to 5000 (there 70000) bytes (or none), a styler (heat, entropy, or up to some 300 fences), a linear or Hilbert plotter with or without an array for its mapping, and a history of plots to areas within and beyond the image while blob, styler and area change. Distinct by the history.";
using namespace vf;
typedef ImgBufferFormat F;
static const F FMTS[] = {F::GREY_24, F::GREY_16, F::GREY_8, F::R8_G8_B8_ALPHA, F::R8_G8_B8, F::R5_G6_B5, F::R3_G3_B2};
/* The Hilbert curve of 2^n squares by side (Wikipedia). */
static void hilbert(unsigned n, uint32_t d, uint32_t* x, uint32_t* y) {
  uint32_t t = d; *x = *y = 0; for (uint32_t s = 1; s < 1u << n; s *= 2) { uint32_t rx = 1 & (t / 2), ry = 1 & (t ^ rx); if (!ry) { if (rx) { *x = s - 1 - *x; *y = s - 1 - *y; } std::swap(*x, *y); } *x += s * rx; *y += s * ry; t /= 4; }
}
struct Shot { int w, h; std::vector<uint32_t> p; Shot(Image& i) : w(i.x()), h(i.y()), p(w * h) { for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) p[y * w + x] = i.getPixel(x, y); } };
struct Blob { std::string s; bool given = true, ptr = true; C3PValue* v = nullptr; ~Blob() { delete v; } };
static void fill(Blob& b, Rng& r, unsigned most) {
  delete b.v; b.v = nullptr; b.given = !r.chance(1, 25); unsigned n = r.chance(1, 20) ? 0 : 1 + r.below(r.chance(1, 3) ? 16 : r.chance(1, 2) ? 300 : most); if (r.chance(1, 3)) { unsigned k = r.below(6); n = 1u << (2 * k); n += (int)r.below(3) - 1; }
  b.s.resize(n); for (auto& ch : b.s) ch = (char)r.u32(); if (b.given) b.v = new C3PValue((uint8_t*)b.s.data(), (uint32_t)n);
}
void vf_setup() {}
void vf_case(Ctx& c) {
  Rng& r = c.rng; bool big = r.chance(1, 8), vast = r.chance(1, 60); auto side = [&]() { return (PixUInt)(vast || r.chance(1, 40) ? 200 + r.below(220) : 1 + r.below(big ? 90 : 40)); }; PixUInt iw = side(), ih = side(); Image img(iw, ih, FMTS[r.below(7)]); if (iw > 199 || ih > 199) c.count("wide_images"); if (vast) c.count("vast_images"); img.reallocate(); bool gone = r.chance(1, 40); if (gone) img.setBuffer(nullptr);
  Image one(1, 1, img.format()); one.reallocate(); const int W = img.x(), H = img.y(); auto shown = [&](uint32_t col) { one.fillRect(0, 0, 1, 1, col); return one.getPixel(0, 0); };
  Blob b; fill(b, r, 5000); std::map<uint32_t, uint32_t> fences; BlobStylerHeatMap heat(&img, r.u32(), r.u32()); BlobStylerEntropyMap entropy(&img); BlobStylerExplicitFencing fence(&img); BlobStyler* stylers[] = {&heat, &entropy, &fence};
  VF_CHECK(heat.stylerID() == BlobStylerID::HEAT && entropy.stylerID() == BlobStylerID::ENTROPY && fence.stylerID() == BlobStylerID::FENCING && !heat.renderByteFrames(), "styler", "a styler has the wrong identity");
  unsigned st = r.below(3); bool styled = true, hil = r.chance(1, 2); int x = 0, y = 0, w = W, h = H; uint16_t *map = nullptr; size_t mapn = 0;
  auto area = [&]() { x = r.below(W); y = r.below(H); w = 1 + r.below(W - x); h = 1 + r.below(H - y); if (r.chance(1, 2)) { x = y = 0; w = W; h = H; } switch (r.below(20)) { case 0: w = r.below(W + 4); break; case 1: h = r.below(H + 4); break; case 2: x = (int)r.edgyBits(16, false); break; case 3: y = (int)r.edgyBits(16, false); break; case 4: w = 65535 - (int)r.below(3); x = 1 + r.below(4); break; default: break; } };
  area(); BlobPlotter* p; if (hil) p = new BlobPlotterHilbertCurve(&heat, b.v, &img, (PixUInt)x, (PixUInt)y, (PixUInt)w, (PixUInt)h); else p = new BlobPlotterLinear(&heat, b.v, &img, (PixUInt)x, (PixUInt)y, (PixUInt)w, (PixUInt)h); st = 0;
  VF_CHECK(p->plotterID() == (hil ? BlobPlotterID::HILBERT : BlobPlotterID::LINEAR), "plotter", "a plotter has the wrong identity"); c.op("%s on %dx%d f%d at (%d %d %d %d), %zu bytes", hil ? "Hilbert" : "linear", W, H, (int)img.format(), x, y, w, h, b.s.size());
  for (unsigned k = 2 + r.below(8); k; k--) {
    switch (r.below(8)) {
      case 0: case 1: area(); p->setParameters((PixUInt)x, (PixUInt)y, (PixUInt)w, (PixUInt)h); c.op("at (%d %d %d %d)", x, y, w, h); break;
      case 2: fill(b, r, (unsigned)std::min(w > 199 || h > 199 ? 70000 : 5000, w * h + 1)); p->setBlob(b.v); c.op("blob of %zu%s", b.s.size(), b.given ? "" : " absent"); break;
      case 3: { if (r.chance(1, 12)) { p->setStyler(nullptr); styled = false; } else { st = r.below(3); p->setStyler(stylers[st]); styled = true; } break; }
      case 4: { if (r.chance(1, 5)) { fence.wipe(); fences.clear(); c.count("wipes"); } for (unsigned n = r.chance(1, 12) ? 100 + r.below(260) : r.below(6); n; n--) { uint32_t at = r.below((uint32_t)b.s.size() + 3), col = r.chance(1, 6) ? 0 : r.u32() & 0xFFFFFF; int8_t ret = fence.addOffset(at, col); VF_CHECK(ret == (fences.count(at) ? -1 : 0), "fence", "a fence at %u gave %d", at, ret); fences.emplace(at, col); } if (fences.size() > 255) c.count("many_fences"); st = 2; p->setStyler(&fence); styled = true; break; }
      case 5: { delete[] map; map = nullptr; mapn = 0; if (r.chance(3, 4)) { mapn = r.chance(1, 6) ? r.below((uint32_t)b.s.size() * 2 + 2) : b.s.size() * 2 + r.below(3); map = new uint16_t[mapn + 1]; } p->setMapMem(map, (uint32_t)mapn); c.op("map of %zu", mapn); break; }
      default: break;
    }
    if (!gone && r.chance(1, 2)) for (int Y = 0; Y < H; Y++) for (int X = 0; X < W; X++) img.setPixel(X, Y, r.u32() | 0x10101);
    auto colour = [&](size_t i) -> uint32_t { if (st < 2) return (uint8_t)b.s[i] * 0x10101u; auto f = fences.upper_bound((uint32_t)i); return f == fences.begin() ? 0 : std::prev(f)->second; };
    if (map) memset(map, 0xEE, (mapn + 1) * 2); Shot A(gone ? one : img); int8_t ret = p->apply(true); Shot Z(gone ? one : img); size_t N = b.s.size(); c.op("apply %d", ret); c.count("plots");
    bool in = x + w <= W && y + h <= H && w && h && !gone && styled; int want = !b.given ? 0 : !in ? -1 : N == 0 ? 0 : (size_t)w * h < N ? -4 : 99;
    unsigned n = 1; while ((1ull << (2 * n)) < N) n++; int s = 0, bw = 0, bh = 0;
    if (want == 99) { if (hil) { s = std::min(w, h) >> n; bw = bh = 1 << n; want = s ? 0 : -5; } else { for (s = std::min(w, h); s > 1 && (size_t)(w / s) * (h / s) < N; s--); bw = w / s; bh = (int)((N + bw - 1) / bw); want = 0; } }
    VF_CHECK(ret == want || (hil && want == 0 && ret == -5 && s == 0), "return", "apply() of %zu bytes to (%d %d %d %d) gave %d, should be %d", N, x, y, w, h, ret, want);
    bool drawn = ret == 0 && s; if (!drawn) { VF_CHECK(A.p == Z.p, "refused", "a plot that wasn't made (%d) changed the image", ret); c.count(ret ? "refused" : "nothing"); if (map) for (size_t i = 0; i <= mapn; i++) VF_CHECK(map[i] == 0xEEEE, "map", "a plot that wasn't made wrote to the mapping"); c.feat(mix(3, 10 + ret)); continue; }
    c.count(hil ? "hilberts" : "linears"); c.nontrivial = true; VF_CHECK(p->renderLength() == N, "length", "the plot's length is %u, should be %zu", p->renderLength(), N); if (!hil) VF_CHECK((int)p->bytesWide() == bw && (int)p->bytesHigh() == bh, "field", "the field is %u x %u, should be %d x %d", p->bytesWide(), p->bytesHigh(), bw, bh);
    bool mapped = map && mapn >= N * 2; if (map) for (size_t i = mapped ? N * 2 : 0; i <= mapn; i++) VF_CHECK(map[i] == 0xEEEE, "map", "the mapping was written beyond its %s", mapped ? "data" : "length"); c.count(mapped ? "mapped" : "unmapped");
    std::string why; bool ok = false;
    for (int turn = 0; turn < (hil ? 2 : 1) && !ok; turn++) {
      ok = true; std::vector<uint32_t> e = A.p; size_t bad = N;
      for (size_t i = 0; i < N; i++) { uint32_t u, v; if (hil) { hilbert(n, (uint32_t)i, &u, &v); if (turn) std::swap(u, v); } else { u = (uint32_t)(i % bw); v = (uint32_t)(i / bw); } u *= s; v *= s; if (mapped && bad == N && (map[2 * i] != u || map[2 * i + 1] != v)) { bad = i; if (!turn) { char m[140]; snprintf(m, sizeof m, "byte %zu is mapped to (%u, %u), should be (%u, %u)", i, map[2 * i], map[2 * i + 1], u, v); why = m; } ok = false; } uint32_t px = shown(colour(i)); for (int q = 0; q < s; q++) for (int t = 0; t < s; t++) e[(y + v + q) * W + x + u + t] = px; }
      for (size_t j = 0; j < e.size() && ok; j++) if (e[j] != Z.p[j]) { ok = false; int X = (int)(j % W), Y = (int)(j / W); char m[200]; snprintf(m, sizeof m, "pixel (%d, %d), %s the area (%d %d %d %d), is %08x, should be %08x (squares of %d)", X, Y, X < x || Y < y || X >= x + w || Y >= y + h ? "outside" : "in", x, y, w, h, Z.p[j], e[j], s); if (why.empty()) why = m; }
    }
    VF_CHECK(ok, hil ? "hilbert" : "linear", "%s (%zu bytes, styler %u)", why.c_str(), N, st); c.count(st == 2 ? "fenced" : "shaded"); c.feat(mix(mix(hil, s), mix(n, st)));
  }
  c.hash(b.s.data(), b.s.size()); delete p; delete[] map;
}
