/* C41: helpers. */
#include "sbmodel.h"
#include "CppPotpourri.h"
#include "AbstractPlatform.h"
const char* VF_PROPERTY = "C41";
const char* VF_RULE = "A case evaluates every helper on boundary-biased arguments (min, max, swap, absolute difference, saturation, wrapped difference in all widths), a reference-count history, random fills of one generator, and one random-art picture. Distinct by the arguments drawn.";
using namespace vf;
void vf_setup() {}

template <typename T> static void helpers(Ctx& c, const char* nm) {
  Rng& r = c.rng; const bool sg = (T)-1 < (T)0; const unsigned bits = sizeof(T) * 8;
  T a, b, m;
  if (bits < 64) { a = (T)r.edgyBits(bits, sg); b = (T)r.edgyBits(bits, sg); m = (T)r.edgyBits(bits, sg); }
  else { a = (T)r.edgy64(); b = (T)r.edgy64(); m = (T)r.edgy64(); }
  if (r.chance(1, 6)) b = a;
  if (r.chance(1, 6)) b = (T)(uint64_t)((uint64_t)a + 1);
  const __int64_t la = (__int64_t)a, lb = (__int64_t)b;
  c.hash(&a, sizeof a); c.hash(&b, sizeof b);
  const bool lt = a < b;
  VF_CHECK(strict_min(a, b) == (lt ? a : b) && strict_max(a, b) == (lt ? b : a), "min-max", "%s: min/max of %lld and %lld", nm, (long long)la, (long long)lb);
  T x = a, y = b; strict_swap(&x, &y); VF_CHECK(x == b && y == a, "swap", "%s: swap of %lld and %lld", nm, (long long)la, (long long)lb);
  T lo = lt ? a : b, hi = lt ? b : a;
  T want = m < lo ? lo : m > hi ? hi : m, got = strict_range_bind(m, lo, hi);
  VF_CHECK(got == want, "range-bind", "%s: %lld bound to [%lld, %lld] gave %lld", nm, (long long)m, (long long)lo, (long long)hi, (long long)got);
  // |a-b|, where it can be represented.
  uint64_t d = (uint64_t)hi - (uint64_t)lo;
  uint64_t top = sg ? ((1ULL << (bits - 1)) - 1) : (bits == 64 ? ~0ULL : (1ULL << (bits & 63)) - 1);
  if (d <= top) { T g = strict_abs_delta(a, b); VF_CHECK((uint64_t)g == d, "abs-delta", "%s: |%lld - %lld| gave %lld", nm, (long long)la, (long long)lb, (long long)g); g = strict_abs_delta(b, a); VF_CHECK((uint64_t)g == d, "abs-delta", "%s: |%lld - %lld| gave %lld", nm, (long long)lb, (long long)la, (long long)g); }
  c.count("integer_helpers");
}
template <typename T> static void wrapped(Ctx& c, const char* nm) {
  Rng& r = c.rng; T a = (T)r.edgy64(), b = r.chance(1, 3) ? (T)(a + (T)r.range(-3, 3)) : (T)r.edgy64();
  T g = delta_assume_wrap(a, b); T w = (T)((uint64_t)a - (uint64_t)b); c.hash(&a, sizeof a); c.hash(&b, sizeof b);
  VF_CHECK(g == w, "wrap-delta", "%s: from %llu to %llu is %llu, should be %llu", nm, (unsigned long long)b, (unsigned long long)a, (unsigned long long)g, (unsigned long long)w);
  VF_CHECK((T)(b + g) == a, "wrap-delta", "%s: from %llu to %llu is not additive", nm, (unsigned long long)b, (unsigned long long)a);
}
template <typename T> static void floats(Ctx& c) {
  Rng& r = c.rng; T a = (T)r.edgyFloat(), b = (T)r.edgyFloat(), m = (T)r.edgyFloat();
  if (a != a || b != b || m != m) return;
  T lo = a < b ? a : b, hi = a < b ? b : a;
  VF_CHECK(strict_min(a, b) == lo && strict_max(a, b) == hi, "min-max", "floating min/max of %g and %g", (double)a, (double)b);
  T x = a, y = b; strict_swap(&x, &y); VF_CHECK(x == b && y == a, "swap", "floating swap");
  VF_CHECK(strict_range_bind(m, lo, hi) == (m < lo ? lo : m > hi ? hi : m), "range-bind", "floating %g bound to [%g, %g]", (double)m, (double)lo, (double)hi);
  if (!__builtin_isinf(a) && !__builtin_isinf(b)) VF_CHECK(strict_abs_delta(a, b) == hi - lo, "abs-delta", "floating |%g - %g|", (double)a, (double)b);
}

void vf_case(Ctx& c) {
  Rng& r = c.rng;
  for (int i = 0; i < 12; i++) {
    helpers<uint64_t>(c, "u64"); helpers<uint32_t>(c, "u32"); helpers<uint16_t>(c, "u16"); helpers<uint8_t>(c, "u8");
    helpers<int64_t>(c, "i64"); helpers<int32_t>(c, "i32"); helpers<int16_t>(c, "i16"); helpers<int8_t>(c, "i8");
    wrapped<uint64_t>(c, "u64"); wrapped<uint32_t>(c, "u32"); wrapped<uint16_t>(c, "u16"); wrapped<uint8_t>(c, "u8");
    floats<float>(c); floats<double>(c);
  }
  { // References
    uint32_t start = r.chance(1, 2) ? r.below(5) : (r.chance(1, 2) ? 63995 + r.below(5) : r.below(64000)), n = start;
    C3PRefCounter rc((uint16_t)start);
    VF_CHECK(rc.refCount() == start, "references", "a counter started at %u shows %u", start, rc.refCount());
    for (int i = 0; i < 30; i++) {
      if (r.chance(1, 2)) { bool g = rc.refTake(), w = n < C3PRefCounter::MAXIMUM_REFS; if (w) n++; VF_CHECK(g == w, "references", "taking reference %u gave %d", n, g); if (!w) c.count("references_refused"); }
      else { if (n) n--; bool g = rc.refRelease(); VF_CHECK(g == (n == 0), "references", "a release down to %u gave %d", n, g); if (!n) c.count("last_releases"); }
      VF_CHECK(rc.refCount() == n, "references", "the count is %u, should be %u", rc.refCount(), n);
    }
    c.op("references %u..%u", start, n);
  }
  { // Generators: the same seed gives the same stream, and a fill stays in its buffer.
    uint64_t seed = r.edgy64() | 1; C3P_pRNG g1, g2; g1.init(seed); g2.init(seed);
    // Reference: pcg32, stream 7
    uint64_t st = 0, inc = (7ULL << 1) | 1; auto next = [&]() { uint64_t o = st; st = o * 6364136223846793005ULL + inc; uint32_t xs = (uint32_t)(((o >> 18) ^ o) >> 27), rot = (uint32_t)(o >> 59); return (xs >> rot) | (xs << ((-rot) & 31)); };
    next(); st += seed; next();
    for (int i = 0; i < 4; i++) {
      uint32_t n = r.below(r.chance(1, 60) ? r.chance(1, 4) ? 70000 : 700 : 40); uint8_t *a = (uint8_t*)malloc(n ? n : 1), *b = (uint8_t*)malloc(n ? n : 1); memset(a, 0, n); memset(b, 1, n);
      g1.fill(a, n); g2.fill(b, n);
      VF_CHECK(0 == memcmp(a, b, n), "rng-deterministic", "two generators of one seed differ in a fill of %u", n);
      for (uint32_t q = 0; q + 4 <= n; q += 4) { uint32_t w = next(), v; memcpy(&v, a + q, 4); VF_CHECK(v == w, "rng-stream", "a fill of %u has %08x at %u, pcg32 gives %08x", n, v, q, w); }
      { uint32_t w = next(); for (uint32_t q = n & ~3u; q < n; q++) { VF_CHECK(a[q] == (uint8_t)w, "rng-stream", "a fill of %u has %02x at %u", n, a[q], q); w >>= 8; } }
      free(a); free(b); c.count("fills");
    }
    for (int i = 0; i < 6; i++) { uint64_t w = 0, v = 0; uint32_t n; switch (r.below(4)) { case 0: v = g1.randomUInt8(); n = 1; break; case 1: v = g1.randomUInt16(); n = 2; break; case 2: v = g1.randomUInt32(); n = 4; break; default: v = g1.randomUInt64(); n = 8; } g2.fill((uint8_t*)&w, n); VF_CHECK(v == w, "rng-integer", "a random integer of %u bytes is %llx, the stream has %llx", n, (unsigned long long)v, (unsigned long long)w); c.count("random_integers"); }
    { bool b = g1.randomBool(); uint8_t w = 0; g2.fill(&w, 1); VF_CHECK(b == (w & 1), "rng-integer", "a random bool isn't the stream's bit"); }
    c.op("rng %llx", (unsigned long long)seed);
  }
  { // Random art
    unsigned n = 1 + r.below(r.chance(1, 20) ? 70000 : 300); std::string d = rnd_bytes(r, (int)n, r.chance(1, 3) ? 2 : 0); if (r.chance(1, 4)) d.assign(n, r.chance(1, 2) ? '\x33' : '\xcc');
    uint8_t* e = (uint8_t*)malloc(n); memcpy(e, d.data(), n);
    StringBuilder o; o.concat("*"); int g = randomArt(e, n, "A title", &o); std::string t = sb_read(&o);
    VF_CHECK(g == 0 && t[0] == '*', "art", "random art of %u bytes gave %d", n, g);
    std::vector<std::string> lines; size_t i = 1; while (i < t.size()) { size_t z = t.find('\n', i); VF_CHECK(z != std::string::npos, "art", "random art ends without a line end"); lines.push_back(t.substr(i, z - i)); i = z + 1; }
    VF_CHECK(lines.size() == 11, "art", "random art has %u lines", (unsigned)lines.size());
    // The drunken bishop's walk.
    uint32_t cell[153] = {}; int px = 76 % 17, py = 76 / 17;
    for (unsigned q = 0; q < n; q++) for (int s = 0; s < 8; s += 2) { int v = ((uint8_t)d[q] >> s) & 3, nx = px + ((v & 1) ? 1 : -1), ny = py + ((v & 2) ? 1 : -1); if (nx < 0) nx = 0; if (nx > 16) nx = 16; if (ny < 0) ny = 0; if (ny > 8) ny = 8; if (nx != px || ny != py) { px = nx; py = ny; cell[py * 17 + px]++; } }
    int blanks = 0;
    for (int y = 0; y < 9; y++) {
      const std::string& l = lines[y + 1];
      VF_CHECK(l.size() == 19 && l[0] == '|' && l[18] == '|', "art", "a line of random art is \"%s\"", l.c_str());
      for (int x = 0; x < 17; x++) { VF_CHECK(strchr(" .-:+=R^v<>*&#XoO", l[x + 1]) && l[x + 1], "art", "random art shows %02x", l[x + 1]); if (cell[y * 17 + x] == 0 && !(x == px && y == py) && y * 17 + x != 76) { VF_CHECK(l[x + 1] == ' ', "art-walk", "random art marks cell %d,%d that was not visited", x, y); blanks++; } }
    }
    VF_CHECK(lines[5][76 % 17 + 1] == 'o', "art-walk", "the start of random art is not marked");
    if (!(px == 76 % 17 && py == 76 / 17)) VF_CHECK(lines[py + 1][px + 1] == 'O', "art-walk", "the end of random art is not marked");
    VF_CHECK(randomArt(e, 0, "t", &o) == -1, "art", "random art of nothing was not refused");
    free(e); c.op("art %u", n); c.hash(d.data(), d.size()); c.count("pictures"); c.feat(blanks);
  }
  c.nontrivial = true;
}
