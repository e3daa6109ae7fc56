/* Reference-model helpers for StringBuilder harnesses. */
#ifndef SBMODEL_H
#define SBMODEL_H
#include "vf.h"
#include "StringBuilder.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>

// Content of a StringBuilder, without changing it. Through copyToBuffer().
static inline std::string sb_read(StringBuilder* sb) {
  const int L = sb->length();
  VF_CHECK(L >= 0 && L < (1 << 26), "length-sane", "length() gave %d", L);
  std::string r((size_t)L, '\xA5');
  if (L) {
    int n = sb->copyToBuffer((uint8_t*)&r[0], (uint32_t)L, 0);
    VF_CHECK(n == L, "copyToBuffer-count", "copyToBuffer() of all %d bytes gave %d", L, n);
  }
  return r;
}
static inline void sb_expect(StringBuilder* sb, const std::string& m, const char* key, const char* what) {
  VF_CHECK(sb->length() == (int)m.size(), key, "%s: length() is %d, should be %u (%s)", what, sb->length(), (unsigned)m.size(), vf::quote(m.data(), m.size()).c_str());
  std::string got = sb_read(sb);
  if (got != m) {
    size_t d = 0; while (d < m.size() && got[d] == m[d]) d++;
    vf::fail(key, "%s: content differs at byte %u: is %s, should be %s", what, (unsigned)d, vf::quote(got.data(), got.size()).c_str(), vf::quote(m.data(), m.size()).c_str());
  }
}
static inline std::string rnd_bytes(vf::Rng& r, int n, int alpha) {
  // alpha: 0 any byte, 1 printable, 2 {a,b}, 3 mixed case letters + space, 4 any but NUL
  std::string s((size_t)n, 0);
  for (int i = 0; i < n; i++) {
    switch (alpha) {
      case 0: s[i] = (char)r.below(256); break;
      case 1: s[i] = (char)(32 + r.below(95)); break;
      case 2: s[i] = (char)('a' + r.below(2)); break;
      case 3: { static const char t[] = "aAbBzZ yY09_-\t@[`{"; s[i] = t[r.below(sizeof t - 1)]; break; }
      default: s[i] = (char)(1 + r.below(255)); break;
    }
  }
  return s;
}
static inline int rnd_len(vf::Rng& r) {
  switch (r.below(10)) {
    case 0: return 0;
    case 1: case 2: return 1;
    case 3: case 4: case 5: return 1 + (int)r.below(6);
    case 6: case 7: return 1 + (int)r.below(20);
    case 8: return 1 + (int)r.below(80);
    default: return 1 + (int)r.below(300);
  }
}
// Builds SB so that its content is S, in random fragments, by way of random operations.
static inline void sb_build(vf::Rng& r, StringBuilder* sb, const std::string& s, int max_frag) {
  size_t i = 0;
  while (i < s.size()) {
    size_t n = 1 + r.below((uint32_t)max_frag);
    if (i + n > s.size()) n = s.size() - i;
    switch (r.below(3)) {
      default: sb->concat((uint8_t*)s.data() + i, (int)n); break;
      case 1: { uint8_t* b = (uint8_t*)malloc(n + 1); memcpy(b, s.data() + i, n); b[n] = 0; sb->concatHandoff(b, (int)n); break; }
      case 2: { StringBuilder t; t.concat((uint8_t*)s.data() + i, (int)n); sb->concatHandoff(&t); break; }
    }
    i += n;
  }
}
#endif
