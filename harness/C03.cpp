/* C03: tokenization. */
#include "sbmodel.h"
#include <ctype.h>
#include <math.h>
const char* VF_PROPERTY = "C03";
const char* VF_RULE = "A case is one or more rounds of: build a content in random fragments, tokenize it (split, chunk or by appends), read tokens in all forms, drop some, implode; judged by a vector of strings. Non-trivial if two or more tokens were produced and read. Distinct by the text of the history.";
using namespace vf;
void vf_setup() {}
typedef std::vector<std::string> Toks;

static void expect_tokens(Ctx& c, StringBuilder& sb, const Toks& t, const char* key, const char* what) {
  VF_CHECK(sb.count() == t.size(), key, "%s: %u tokens, should be %u", what, sb.count(), (unsigned)t.size());
  int mx = 0, tot = 0;
  for (size_t i = 0; i < t.size(); i++) {
    int l = -1; uint8_t* p = sb.position((int)i, &l);
    VF_CHECK(p && l == (int)t[i].size() && 0 == memcmp(p, t[i].data(), (size_t)l), key, "%s: token %u is %s, should be %s", what, (unsigned)i, quote(p, (size_t)(l < 0 ? 0 : l)).c_str(), quote(t[i].data(), t[i].size()).c_str());
    char* z = sb.position((int)i);
    VF_CHECK(z && 0 == strcmp(z, t[i].c_str()), key, "%s: token %u as text is \"%s\", should be \"%s\"", what, (unsigned)i, z ? z : "(null)", t[i].c_str());
    if (l > mx) mx = l; tot += l;
  }
  VF_CHECK(sb.length() == tot && sb.maximumFragmentLength() == mx, key, "%s: length %d / longest %d, should be %d / %d", what, sb.length(), sb.maximumFragmentLength(), tot, mx);
  int l = 7; uint8_t* p = sb.position((int)t.size(), &l);
  VF_CHECK(l == 0 && (!p || !*p), "index-range", "%s: token %u exists", what, (unsigned)t.size());
  char* z = sb.position((int)t.size() + 3);
  VF_CHECK(!z || !*z, "index-range", "%s: a token beyond the last is \"%s\"", what, z);
  c.count("token_lists");
}
static std::string trim_model(const std::string& s0) {
  std::string s = s0.c_str(); size_t a = 0, b = s.size();
  while (a < b && isspace((unsigned char)s[a])) a++;
  while (b > a && isspace((unsigned char)s[b - 1])) b--;
  return s.substr(a, b - a);
}

void vf_case(Ctx& c) {
  Rng& r = c.rng;
  bool rich = false;
  const int rounds = 1 + (int)r.below(4);
  for (int rd = 0; rd < rounds; rd++) {
    StringBuilder sb; Toks t;
    const uint32_t how = r.below(5);
    if (how == 0 || how == 1) {        // split
      static const char* const DEL[] = {" ", ",", " ,", "\t ", "\r\n", "ab", ";:|", "a"};
      std::string d = DEL[r.below(8)], s;
      const bool many = r.chance(1, 150), vast = r.chance(1, 300); if (many) c.count("many_tokens"); int n = many ? 300 + (int)r.below(900) : (int)r.below(r.chance(1, 8) ? 120 : 14);
      for (int i = 0; i < n; i++) { switch (r.below(4)) { case 0: case 1: s += d[r.below((uint32_t)d.size())]; break; case 2: s += rnd_bytes(r, 1 + (int)r.below(8), 4); break; default: s += rnd_bytes(r, 1 + (int)r.below(4), 2); } if (vast && r.chance(1, 4) && s.size() < 150000) s += rnd_bytes(r, (int)r.below(70000), 4); }
      if (r.chance(1, 10) && s.size()) s[r.below((uint32_t)s.size())] = 0;
      sb_build(r, &sb, s, s.size() > 5000 ? 70000 : (int[]){1, 3, 1000}[r.below(3)]);
      std::string z = s.c_str();
      for (size_t i = 0; i < z.size();) { size_t a = z.find_first_not_of(d, i); if (a == std::string::npos) break; size_t b = z.find_first_of(d, a); if (b == std::string::npos) b = z.size(); t.push_back(z.substr(a, b - a)); i = b; }
      int g = sb.split(d.c_str());
      c.op("split %s by %s -> %d", quote(s.data(), s.size(), 100).c_str(), quote(d.data(), d.size()).c_str(), g);
      VF_CHECK(g == (int)t.size(), "split-count", "split(%s) of %s gave %d, should be %u", quote(d.data(), d.size()).c_str(), quote(s.data(), s.size()).c_str(), g, (unsigned)t.size());
      if (t.empty()) { sb_expect(&sb, s, "split-none", "split without tokens"); c.count("split_none"); continue; }
      expect_tokens(c, sb, t, "split-tokens", "after split");
      c.count("splits");
    }
    else if (how == 2) {   // chunk
      std::string s = rnd_bytes(r, r.chance(1, 100) ? 300 + (int)r.below(2000) : rnd_len(r), r.below(5)); int n = r.chance(1, 5) ? (int)r.range(-1, (int)s.size() + 2) : 1 + (int)r.below(9);
      sb_build(r, &sb, s, (int[]){1, 3, 1000}[r.below(3)]);
      int g = sb.chunk(n);
      c.op("chunk %s by %d -> %d", quote(s.data(), s.size(), 100).c_str(), n, g);
      if (n <= 0) { VF_CHECK(g < 0, "chunk-refused", "chunk(%d) gave %d", n, g); sb_expect(&sb, s, "chunk-refused", "refused chunk"); continue; }
      for (size_t i = 0; i < s.size(); i += (size_t)n) t.push_back(s.substr(i, (size_t)n));
      if (s.size()) VF_CHECK(g == (int)t.size(), "chunk-count", "chunk(%d) of %u bytes gave %d, should be %u", n, (unsigned)s.size(), g, (unsigned)t.size());
      sb_expect(&sb, s, "chunk-content", "after chunk");
      if (s.empty()) continue;
      expect_tokens(c, sb, t, "chunk-tokens", "after chunk");
      c.count("chunks");
    }
    else if (how == 3) {   // numerals
      int n = 1 + (int)r.below(8);
      for (int i = 0; i < n; i++) {
        char b[80];
        switch (r.below(8)) {
          case 0: snprintf(b, 80, "%d", (int)r.edgyBits(32, true)); break;
          case 1: snprintf(b, 80, "%llu", (unsigned long long)r.edgy64()); break;
          case 2: snprintf(b, 80, "0x%x", r.u32() >> r.below(32)); break;
          case 3: snprintf(b, 80, "0x%llX", (unsigned long long)r.edgy64()); break;
          case 4: snprintf(b, 80, "%.6g", (double)r.range(-1000000, 1000000) / 64); break;
          case 5: snprintf(b, 80, " %d ", (int)r.range(-9999, 9999)); break;
          case 6: snprintf(b, 80, "%d%s", (int)r.range(0, 9999), "xyz"); break;
          default: snprintf(b, 80, "%s", rnd_bytes(r, 1 + (int)r.below(5), 1).c_str()); break;
        }
        t.push_back(b); sb.concat(b);
      }
      for (int i = 0; i < n; i++) {
        const std::string& s = t[i];
        const bool hex = s.size() > 2 && s[0] == '0' && s[1] == 'x';
        size_t digits = 0; if (hex) while (2 + digits < s.size() && isxdigit((unsigned char)s[2 + digits])) digits++;
        c.op("numeral %s", s.c_str());
        if (hex) {
          if (digits <= 8) { int g = sb.position_as_int(i), w = (int)(uint32_t)strtoul(s.c_str() + 2, nullptr, 16); if (!digits) w = 0; VF_CHECK(g == w, "as-int", "\"%s\" as int is %d, should be %d", s.c_str(), g, w); }
          if (digits <= 16) { uint64_t g = sb.position_as_uint64(i), w = digits ? strtoull(s.c_str() + 2, nullptr, 16) : 0; VF_CHECK(g == w, "as-uint64", "\"%s\" as uint64 is %llu, should be %llu", s.c_str(), (unsigned long long)g, (unsigned long long)w); }
        }
        else {
          long long w = strtoll(s.c_str(), nullptr, 10);
          if (w == (int)w) { int g = sb.position_as_int(i); VF_CHECK(g == (int)w, "as-int", "\"%s\" as int is %d, should be %lld", s.c_str(), g, w); c.count("ints_read"); }
          if (s.find('-') == std::string::npos) { uint64_t g = sb.position_as_uint64(i), wu = strtoull(s.c_str(), nullptr, 10); VF_CHECK(g == wu, "as-uint64", "\"%s\" as uint64 is %llu, should be %llu", s.c_str(), (unsigned long long)g, (unsigned long long)wu); }
        }
        if (!hex) { double g = sb.position_as_double(i), w = strtod(s.c_str(), nullptr); VF_CHECK(g == w || (g != g && w != w), "as-double", "\"%s\" as double is %.17g, should be %.17g", s.c_str(), g, w); }
      }
      VF_CHECK(sb.position_as_int(n) == 0 && sb.position_as_uint64(n + 1) == 0 && sb.position_as_double(n) == 0.0, "index-range", "a number beyond the last token is not 0");
      expect_tokens(c, sb, t, "read-tokens", "after reading numbers");
    }
    else {   // tokens by appends, with whitespace
      int n = r.chance(1, 200) ? 130 + (int)r.below(400) : 1 + (int)r.below(9);
      for (int i = 0; i < n; i++) {
        std::string s;
        for (int q = (int)r.below(4); q > 0; q--) s += " \t\n\r\v\f"[r.below(6)];
        s += rnd_bytes(r, (int)r.below(6), r.chance(1, 2) ? 1 : 4);
        for (int q = (int)r.below(4); q > 0; q--) s += " \t\n\r\v\f"[r.below(6)];
        if (s.empty()) s = "x";
        t.push_back(s); sb.concat((uint8_t*)s.data(), (int)s.size());
      }
      c.op("appends %d", n);
      for (auto& s : t) c.hash(s.data(), s.size());
      expect_tokens(c, sb, t, "append-tokens", "after appends");
      int i = (int)r.below((uint32_t)n);
      std::string w = trim_model(t[i]), orig = t[i];
      char* p = sb.position_trimmed(i);
      c.op("trimmed %d", i);
      VF_CHECK(p && w == p, "trimmed", "token %s trimmed is \"%s\"", quote(orig.data(), orig.size()).c_str(), p ? p : "(null)");
      // The trimmed form may be made in place. Other tokens must not notice.
      for (int q = 0; q < n; q++) if (q != i) { int l; uint8_t* z = sb.position(q, &l); VF_CHECK(l == (int)t[q].size() && 0 == memcmp(z, t[q].data(), (size_t)l), "trimmed-others", "trimming token %d changed token %d", i, q); }
      { std::string tt = orig; tt += '\0'; char* cp = (char*)malloc(tt.size()); memcpy(cp, tt.data(), tt.size()); char* q = StringBuilder::trim(cp); VF_CHECK(q && w == q, "trim-static", "trim(%s) gave \"%s\"", quote(orig.data(), orig.size()).c_str(), q); free(cp); }
      char* z = sb.position_trimmed(n); VF_CHECK(!z || !*z, "index-range", "a trimmed token beyond the last is not empty");
      { int l; sb.position(i, &l); t[i] = std::string((char*)sb.position(i), 0); uint8_t* q = sb.position(i, &l); t[i].assign((char*)q, (size_t)l); }
    }
    if (t.size() > 1) rich = true;
    c.feat(mix(how, t.size() > 8 ? 8 : t.size()));
    // Drops.
    int drops = (int)r.below(4);
    for (int q = 0; q < drops; q++) {
      uint32_t i = r.below((uint32_t)t.size() + 2);
      bool g = sb.drop_position(i), w = i < t.size();
      if (w) t.erase(t.begin() + i);
      c.op("drop %u -> %d", i, g); c.count(w ? "drops" : "drops_refused");
      VF_CHECK(g == w, "drop-result", "drop_position(%u) gave %d with %u tokens left", i, g, (unsigned)t.size());
      expect_tokens(c, sb, t, "drop", "after a drop");
    }
    if (r.chance(2, 3)) {
      std::string d = rnd_bytes(r, r.chance(1, 40) ? 100 + (int)r.below(500) : (int)r.below(5), 1), w; if (d.size() > 127) c.count("long_delimiters"); size_t tot = 0;
      for (size_t i = 0; i < t.size(); i++) { if (i) w += d; w += t[i]; tot += t[i].size(); }
      int g = sb.implode(d.c_str());
      c.op("implode %s -> %d", quote(d.data(), d.size()).c_str(), g);
      if (t.size() > 1 && d.size()) {
        VF_CHECK(g == (int)t.size(), "implode-count", "implode(%s) of %u tokens gave %d", d.c_str(), (unsigned)t.size(), g);
        sb_expect(&sb, w, "implode", "after implode"); c.count("implodes");
      }
      else { std::string s; for (auto& y : t) s += y; sb_expect(&sb, s, "implode-nothing", "after an implode of nothing"); }
      // Imploded content splits back, when the delimiter does not occur in the tokens.
      if (t.size() > 1 && d.size() == 1) {
        bool clean = true; for (auto& y : t) if (y.find(d) != std::string::npos || y.find('\0') != std::string::npos || y.empty()) clean = false;
        if (clean) { int g2 = sb.split(d.c_str()); VF_CHECK(g2 == (int)t.size(), "implode-split", "implode then split gave %d of %u tokens", g2, (unsigned)t.size()); expect_tokens(c, sb, t, "implode-split", "after implode and split"); c.count("implode_split"); }
      }
    }
  }
  c.nontrivial = rich;
}
