/* C02: search, compare and replace do not depend on fragmentation. */
#include "sbmodel.h"
#include <ctype.h>
const char* VF_PROPERTY = "C02";
const char* VF_RULE = "A case is one content (random, periodic, or assembled from the needle and its near-misses) in a random fragmentation, with 12-40 queries and replacements judged by std::string; non-trivial if the content was in several fragments and both hits and misses were seen. Distinct by the text of the history.";
using namespace vf;
void vf_setup() {}

static std::string gen(Rng& r, std::string& seedneedle, bool huge) {
  if (huge) { std::string s = rnd_bytes(r, (int)r.below(3000), 2), n = rnd_bytes(r, 2 + (int)r.below(7), 1); seedneedle = n; unsigned far = r.chance(1, 2) ? 60000 + r.below(12000) : 240 + r.below(5000); std::string f = rnd_bytes(r, 1 + (int)r.below(300), r.chance(1, 2) ? 2 : 0); while (s.size() < far) { s += f; if (r.chance(1, 20)) s += n; } s += n; s += rnd_bytes(r, (int)r.below(40), 1); return s; }
  const int mode = (int)r.below(6);
  std::string s;
  switch (mode) {
    case 0: s = rnd_bytes(r, (int)r.below(200), 2); break;
    case 1: s = rnd_bytes(r, (int)r.below(120), 0); break;
    case 2: { std::string p = rnd_bytes(r, 1 + (int)r.below(4), 2); while (s.size() < 60) s += p; if (r.chance(1, 2)) s += rnd_bytes(r, 3, 2); break; }
    case 3: { std::string n = rnd_bytes(r, 1 + (int)r.below(7), 2); seedneedle = n; int k = (int)r.below(14); for (int i = 0; i < k; i++) { switch (r.below(4)) { case 0: s += n; break; case 1: s += n.substr(0, r.below((uint32_t)n.size() + 1)); break; case 2: s += n.substr(r.below((uint32_t)n.size())); break; default: s += rnd_bytes(r, (int)r.below(3), 2); } } break; }
    case 4: { std::string n = rnd_bytes(r, 1 + (int)r.below(9), 1); seedneedle = n; int k = (int)r.below(9); for (int i = 0; i < k; i++) { s += r.chance(1, 2) ? n : n.substr(0, r.below((uint32_t)n.size() + 1)); s += rnd_bytes(r, (int)r.below(6), 1); } break; }
    default: s = rnd_bytes(r, (int)r.below(700), r.below(5)); break;
  }
  return s;
}
static std::string needle(Ctx& c, Rng& r, const std::string& x, const std::string& sn) {
  std::string n;
  switch (r.below(6)) {
    case 0: if (sn.size()) return sn; /* fall through */
    case 1: case 2: if (x.size()) { size_t o = r.below((uint32_t)x.size()); n = x.substr(o, 1 + r.below(r.chance(1, 4) ? 60 : r.chance(1, 25) ? 700 : 6)); if (n.size() > 127) c.count("long_needles"); if (r.chance(1, 3)) n[r.below((uint32_t)n.size())] ^= (char)(1 << r.below(3)); if (r.chance(1, 8)) n += "a"; } break;
    case 3: n = rnd_bytes(r, 1 + (int)r.below(5), 2); break;
    case 4: n = rnd_bytes(r, 1 + (int)r.below(3), 0); break;
    default: n = rnd_bytes(r, 1 + (int)r.below(8), 1); break;
  }
  return n;
}
static int sgn(int v) { return (v > 0) - (v < 0); }

void vf_case(Ctx& c) {
  Rng& r = c.rng;
  const bool huge = r.chance(1, 300); std::string sn, x = gen(r, sn, huge); if (huge) c.count("long_contents");
  StringBuilder sb;
  const int frag = huge ? (r.chance(1, 2) ? 70000 : 900 + (int)r.below(5000)) : (int[]){1, 2, 3, 7, 40, 1000}[r.below(6)];
  sb_build(r, &sb, x, frag);
  c.op("content %s in %d fragments", quote(x.data(), x.size(), 300).c_str(), sb.count());
  bool hit = false, miss = false, fragged = sb.count() > 1;
  const int steps = huge ? 6 + (int)r.below(8) : 12 + (int)r.below(30);
  for (int st = 0; st < steps; st++) {
    const uint32_t k = r.below(20);
    std::string n = needle(c, r, x, sn);
    const bool mf = sb.count() > 1;
    if (k < 9) {
      int off = r.chance(1, 3) ? 0 : (int)r.below((uint32_t)x.size() + 3);
      int got = sb.locate((const uint8_t*)n.data(), (int)n.size(), off);
      size_t w = n.empty() ? std::string::npos : x.find(n, (size_t)off);
      int want = w == std::string::npos ? -1 : (int)w;
      c.op("locate %s from %d -> %d", quote(n.data(), n.size(), 60).c_str(), off, got);
      VF_CHECK(got == want, "locate", "locate(%s, from %d) in %s gave %d, should be %d", quote(n.data(), n.size()).c_str(), off, quote(x.data(), x.size(), 200).c_str(), got, want);
      (want < 0 ? miss : hit) = true;
      c.count(want < 0 ? "locate_miss" : "locate_hit");
      c.feat(mix(mix(k < 9, mf), mix(want < 0, n.size() > 5 ? 5 : n.size())));
    }
    else if (k < 11) {
      std::string z = n.c_str(); int off = (int)r.below((uint32_t)x.size() + 2);
      int got = sb.locate(z.c_str(), off); size_t w = z.empty() ? std::string::npos : x.find(z, (size_t)off);
      c.op("locate-z %s from %d -> %d", quote(z.data(), z.size(), 60).c_str(), off, got);
      VF_CHECK(got == (w == std::string::npos ? -1 : (int)w), "locate", "locate(text %s, from %d) in %s gave %d", quote(z.data(), z.size()).c_str(), off, quote(x.data(), x.size(), 200).c_str(), got);
      bool g2 = sb.contains(z.c_str()); bool w2 = !z.empty() && x.find(z) != std::string::npos;
      VF_CHECK(g2 == w2, "contains", "contains(%s) in %s gave %d", quote(z.data(), z.size()).c_str(), quote(x.data(), x.size(), 200).c_str(), g2);
    }
    else if (k == 11) {
      char ch = r.chance(1, 2) && x.size() ? x[r.below((uint32_t)x.size())] : (char)r.below(256);
      bool g = sb.contains(ch); c.op("contains %02x -> %d", (uint8_t)ch, g);
      VF_CHECK(g == (x.find(ch) != std::string::npos), "contains-char", "contains(%02x) in %s gave %d", (uint8_t)ch, quote(x.data(), x.size(), 200).c_str(), g);
    }
    else if (k < 15) {
      std::string u = x;
      switch (r.below(5)) { case 0: break; case 1: if (u.size()) u[r.below((uint32_t)u.size())] ^= (char)(1 << r.below(8)); break; case 2: if (u.size()) u.resize(u.size() - 1); break; case 3: u += (char)r.below(3); break; default: if (u.size()) u[u.size() - 1] ^= 1; break; }
      if (!u.size()) u.reserve(8);
      int g = sb.cmpBinString((uint8_t*)u.data(), (int)u.size());
      bool want = (u == x) && !x.empty();
      c.op("cmpBinString %u bytes -> %d", (unsigned)u.size(), g);
      if (!x.empty()) VF_CHECK((g != 0) == want, "compare", "cmpBinString() of %s with %s gave %d", quote(x.data(), x.size(), 200).c_str(), quote(u.data(), u.size(), 200).c_str(), g);
      c.count("compares");
    }
    else if (k < 18) {
      std::string nd = std::string(n.c_str()), rp = std::string(rnd_bytes(r, (int)r.below(4) * (int)r.below(5), r.chance(1, 2) ? 2 : 1));
      if (r.chance(1, 4) && nd.size()) rp = nd + nd;
      if (r.chance(1, 30)) rp = std::string(rnd_bytes(r, 100 + (int)r.below(400), 2).c_str()); bool null_rp = r.chance(1, 10);
      if (null_rp) rp.clear();
      if (x.size() * (rp.size() + 1) > (huge ? 500000 : 20000)) continue;
      std::string y; int want = 0; size_t i = 0;
      if (nd.empty()) y = x;
      else while (i < x.size()) { if (0 == x.compare(i, nd.size(), nd)) { y += rp; i += nd.size(); want++; } else y += x[i++]; }
      if (huge && want > 600) continue;
      int g = sb.replace(nd.c_str(), null_rp ? nullptr : rp.c_str());
      c.op("replace %s by %s -> %d", quote(nd.data(), nd.size(), 60).c_str(), quote(rp.data(), rp.size(), 60).c_str(), g);
      VF_CHECK(g == want, "replace-count", "replace(%s by %s) in %s gave %d, should be %d", quote(nd.data(), nd.size()).c_str(), quote(rp.data(), rp.size()).c_str(), quote(x.data(), x.size(), 300).c_str(), g, want);
      std::string before = x; x = y;
      sb_expect(&sb, x, "replace-content", (std::string("replace(") + nd + " by " + rp + ") in " + before.substr(0, 200)).c_str());
      if (want) { hit = true; c.count("replacements", want); } else c.count("replace_none");
    }
    else {   // Caseless helpers. Both texts ASCII.
      std::string a = rnd_bytes(r, (int)r.below(r.chance(1, 60) ? 400 : 9), 3), b = r.chance(1, 2) ? a : rnd_bytes(r, (int)r.below(4), 3);
      for (auto& ch : b) if (r.chance(1, 3)) ch = (char)(r.chance(1, 2) ? toupper(ch) : tolower(ch));
      if (r.chance(1, 4)) b = b.substr(0, r.below((uint32_t)b.size() + 1));
      if (r.chance(1, 3)) { size_t o = r.below((uint32_t)a.size() + 1); b = b.substr(o < b.size() ? o : b.size()); }
      std::string la = a, lb = b; for (auto& ch : la) ch = (char)toupper(ch); for (auto& ch : lb) ch = (char)toupper(ch);
      int g = StringBuilder::strcasecmp(a.c_str(), b.c_str());
      c.op("strcasecmp %s %s -> %d", quote(a.data(), a.size()).c_str(), quote(b.data(), b.size()).c_str(), g);
      VF_CHECK((g == 0) == (la == lb), "strcasecmp-equal", "strcasecmp(%s, %s) gave %d", a.c_str(), b.c_str(), g);
      VF_CHECK(sgn(g) == sgn(strcmp(la.c_str(), lb.c_str())), "strcasecmp-order", "strcasecmp(%s, %s) gave %d", a.c_str(), b.c_str(), g);
      int g2 = StringBuilder::strcasecmp(b.c_str(), a.c_str());
      VF_CHECK(sgn(g2) == -sgn(g), "strcasecmp-antisymmetric", "strcasecmp(%s, %s) gave %d and %d reversed", a.c_str(), b.c_str(), g, g2);
      if (b.size()) {
        std::string hay = r.chance(1, 2) ? a : rnd_bytes(r, (int)r.below(r.chance(1, 40) ? 600 : 12), 3) + a + a.substr(0, a.size() / 2) + a;
        std::string lh = hay; for (auto& ch : lh) ch = (char)toupper(ch);
        const char* h = hay.c_str(); char* q = StringBuilder::strcasestr(h, b.c_str());
        size_t w = lh.find(lb);
        VF_CHECK((q == nullptr) == (w == std::string::npos) && (!q || (size_t)(q - h) == w), "strcasestr", "strcasestr(%s, %s) gave offset %d, should be %d", h, b.c_str(), q ? (int)(q - h) : -1, w == std::string::npos ? -1 : (int)w);
        c.count(q ? "strcasestr_hit" : "strcasestr_miss");
      }
    }
    if (r.chance(1, 6)) { std::string b = rnd_bytes(r, 1 + (int)r.below(6), 2); if (r.chance(1, 2)) { sb.concat((uint8_t*)b.data(), (int)b.size()); x += b; } else { sb.prepend((uint8_t*)b.data(), (int)b.size()); x = b + x; } c.op("edit +%u", (unsigned)b.size()); }
    if (r.chance(1, 12)) { int n2 = (huge ? 300 : 1) + (int)r.below(5); if (x.size()) sb.chunk(n2); c.op("chunk %d", n2); }
    fragged |= sb.count() > 1;
    sb_expect(&sb, x, "content-after-query", "after a query");
  }
  c.nontrivial = fragged && hit && miss;
}
