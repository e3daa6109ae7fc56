/* C01: a StringBuilder is a flat byte string, whatever was done to it. */
#include "sbmodel.h"
#include <math.h>
const char* VF_PROPERTY = "C01";
const char* VF_RULE = "A case is a random history of 6-70 public editing operations over three StringBuilders, mirrored on flat byte strings; non-trivial if at least one builder was observed with several fragments and three kinds of edits were made. Distinct by the text of the history.";
using namespace vf;
void vf_setup() {}

static const int N = 3;

void vf_case(Ctx& c) {
  Rng& r = c.rng;
  const int alpha = (int)r.below(5); const bool huge = r.chance(1, 300); if (huge) c.count("long_contents");
  StringBuilder* sb[N]; std::string m[N];
  for (int i = 0; i < N; i++) {
    std::string s = rnd_bytes(r, rnd_len(r), alpha);
    switch (r.below(4)) {
      case 0: sb[i] = new StringBuilder(); break;
      case 1: sb[i] = new StringBuilder((uint8_t*)s.data(), (int)s.size()); m[i] = s; break;
      case 2: sb[i] = new StringBuilder((const uint8_t*)s.data(), (int)s.size()); m[i] = s; break;
      default: sb[i] = new StringBuilder((const char*)s.c_str()); m[i] = s.c_str(); break;
    }
    c.op("new %d %s", i, quote(m[i].data(), m[i].size(), 40).c_str());
  }
  const int steps = huge ? 6 + (int)r.below(16) : 6 + (int)r.below(c.thorough ? 120 : 64);
  uint32_t kinds = 0; bool fragged = false;
  for (int st = 0; st < steps; st++) {
    const int i = (int)r.below(N); int j = (int)r.below(N);
    StringBuilder* s = sb[i]; std::string& x = m[i];
    const uint32_t k = r.below(32);
    std::string b = rnd_bytes(r, huge && r.chance(1, 3) ? (int)r.below(70000) : rnd_len(r), alpha);
    if (x.size() > (huge ? 200000 : 6000)) { s->clear(); x.clear(); c.op("clear-big %d", i); }
    kinds |= 1u << k;
    switch (k) {
      case 0: case 1: case 2:
        s->concat((uint8_t*)b.data(), (int)b.size()); x += b; c.op("concat %d %s", i, quote(b.data(), b.size(), 40).c_str()); break;
      case 3: s->concat((const char*)b.c_str()); x += b.c_str(); c.op("concat-z %d %s", i, quote(b.data(), b.size(), 40).c_str()); break;
      case 4: case 5: s->prepend((uint8_t*)b.data(), (int)b.size()); x = b + x; c.op("prepend %d %s", i, quote(b.data(), b.size(), 40).c_str()); break;
      case 6: s->prepend((const char*)b.c_str()); x = std::string(b.c_str()) + x; c.op("prepend-z %d %s", i, quote(b.data(), b.size(), 40).c_str()); break;
      case 7: s->concat(sb[j]); x += std::string(m[j]); c.op("concat-sb %d<-%d", i, j); break;
      case 8: { char ch = (char)r.below(256); s->concat(ch); if (ch) x += ch; c.op("concat-char %d %02x", i, (uint8_t)ch); break; }
      case 9: { uint8_t ch = (uint8_t)r.below(256); s->concat(ch); x += (char)ch; c.op("concat-u8 %d %02x", i, ch); break; }
      case 10: { int v = (int)r.edgyBits(32, true); char t[32]; snprintf(t, 32, "%d", v); s->concat(v); x += t; c.op("concat-int %d %d", i, v); break; }
      case 11: { unsigned v = (unsigned)r.edgyBits(32, false); char t[32]; snprintf(t, 32, "%u", v); s->concat(v); x += t; c.op("concat-uint %d %u", i, v); break; }
      case 12: { bool v = r.chance(1, 2); s->concat(v); x += v ? "T" : "F"; c.op("concat-bool %d %d", i, v); break; }
      case 13: { uint32_t v = r.u32() >> r.below(32); char t[64]; int n = snprintf(t, 64, "<%x|%5d>", v, (int)(v & 0xfff)); int g = s->concatf("<%x|%5d>", v, (int)(v & 0xfff)); x += t; c.op("concatf %d %s", i, t);
        VF_CHECK(g == n, "concatf-count", "concatf() gave %d for %d characters", g, n); break; }
      case 14: if (i != j) { s->concatHandoff(sb[j]); x += m[j]; m[j].clear(); c.op("concatHandoff %d<-%d", i, j); } break;
      case 15: if (i != j) { s->prependHandoff(sb[j]); x = m[j] + x; m[j].clear(); c.op("prependHandoff %d<-%d", i, j); } break;
      case 16: if (i != j) { uint32_t L = r.chance(1, 6) ? r.u32() >> r.below(2) : r.below((uint32_t)m[j].size() + 4); s->concatHandoffLimit(sb[j], L); size_t n = L < m[j].size() ? L : m[j].size(); x += m[j].substr(0, n); m[j].erase(0, n); c.op("concatHandoffLimit %d<-%d %u", i, j, L); } break;
      case 17: { uint32_t L = r.chance(1, 6) ? r.u32() >> r.below(2) : r.below((uint32_t)m[j].size() + 4); std::string t = m[j].substr(0, L); s->concatLimit(sb[j], L); x += t; c.op("concatLimit %d<-%d %u", i, j, L); break; }
      case 18: case 19: { size_t n = b.size(); uint8_t* p = (uint8_t*)malloc(n + 1); memcpy(p, b.data(), n); p[n] = 0; if (n) s->concatHandoff(p, (int)n); else free(p); x += b; c.op("concatHandoff-buf %d %s", i, quote(b.data(), b.size(), 40).c_str()); break; }
      case 20: case 21: { int n = (int)r.range(-2, (int)x.size() + 3); if (r.chance(1, 2)) n = (int)r.below(8); s->cull(n); if (n > 0) x.erase(0, (size_t)n < x.size() ? (size_t)n : x.size()); c.op("cull %d %d", i, n); break; }
      case 22: case 23: { int o = (int)r.range(0, (int)x.size() + 1), n = (int)r.range(0, (int)x.size() + 1); if (r.chance(1, 2)) o = (int)r.below((uint32_t)x.size() + 1), n = (int)r.below((uint32_t)x.size() - o + 1);
        s->cull(o, n); if (n == 0) x.clear(); else if (o + n <= (int)x.size()) x = x.substr((size_t)o, (size_t)n); c.op("cull %d %d,%d", i, o, n); break; }
      case 24: s->toUpper(); for (auto& ch : x) if (ch >= 'a' && ch <= 'z') ch -= 32; c.op("toUpper %d", i); break;
      case 25: s->toLower(); for (auto& ch : x) if (ch >= 'A' && ch <= 'Z') ch += 32; c.op("toLower %d", i); break;
      case 26: if (r.chance(1, 3)) { s->clear(); x.clear(); c.op("clear %d", i); } break;
      case 27: { int n = (huge ? 200 : 1) + (int)r.below(12); if (x.size()) s->chunk(n); c.op("chunk %d %d", i, n); break; }
      case 28: if (i != j) { uint32_t p = r.below(4), n = r.below(4); uint32_t cnt = sb[j]->count(); std::string t; size_t off = 0, len = 0; for (uint32_t q = 0; q < cnt; q++) { int l = 0; sb[j]->position((int)q, &l); if (q < p) off += l; else if (q < p + n) len += l; }
        s->concatHandoffPositions(sb[j], p, n); x += m[j].substr(off, len); m[j].erase(off, len); c.op("concatHandoffPositions %d<-%d %u+%u", i, j, p, n); } break;
      case 29: { double v = r.chance(1, 2) ? r.edgyDouble() : (double)r.range(-100000, 100000) / 8; char t[400]; snprintf(t, sizeof t, "%f", v); s->concat(v); x += t; c.op("concat-double %d %s", i, t); break; }
      case 30: { std::string big = rnd_bytes(r, (int)r.below(huge ? 70000 : 1400), 1); for (auto& ch : big) if (ch == '%') ch = '.'; int g = s->concatf("[%s]", big.c_str()); x += "[" + big + "]"; c.op("concatf-s %d %u", i, (unsigned)big.size()); c.hash(big.data(), big.size());
        VF_CHECK(g == (int)big.size() + 2, "concatf-count", "concatf() gave %d for %u characters", g, (unsigned)big.size() + 2); break; }
      default: {   // The contiguous view.
        uint8_t* p = s->string(); c.op("string %d", i);
        VF_CHECK(p, "string-null", "string() gave nullptr");
        VF_CHECK(0 == memcmp(p, x.data(), x.size()), "string-content", "string() is %s, should be %s", quote(p, x.size()).c_str(), quote(x.data(), x.size()).c_str());
        VF_CHECK(p[x.size()] == 0, "string-terminated", "string() of %u bytes is not followed by a NUL (%02x)", (unsigned)x.size(), p[x.size()]);
        if (r.chance(1, 3) && x.size() < 9000) { std::string want; char t[8]; for (uint8_t ch : x) { snprintf(t, sizeof t, "%02x ", ch); want += t; } StringBuilder o("is "); s->printDebug(&o); sb_expect(&o, "is " + want, "print", "printDebug()"); c.count("printed"); }
        break; }
    }
    // Monitors, after each operation.
    for (int q = 0; q < N; q++) {
      StringBuilder* o = sb[q]; const std::string& y = m[q];
      const int cnt = o->count();
      if (cnt > 1) fragged = true;
      c.feat(mix(mix(k, cnt > 6 ? 6 : cnt), mix(q == i, y.size() > 3 ? 4 : y.size())));
      sb_expect(o, y, "content", "after an operation");
      VF_CHECK(o->isEmpty() == y.empty(), "isEmpty", "isEmpty() is %d for %u bytes", o->isEmpty(), (unsigned)y.size());
      VF_CHECK(o->isEmpty(false) == (y.empty() || (y.size() == 1 && y[0] == 0)), "isEmpty-lax", "isEmpty(false) is %d for %s", o->isEmpty(false), quote(y.data(), y.size()).c_str());
      // The fragments tile the content.
      size_t tot = 0; int mx = 0;
      for (int f = 0; f < cnt; f++) { int l = 0; uint8_t* p = o->position(f, &l); VF_CHECK(tot + l <= y.size() && 0 == memcmp(p, y.data() + tot, l), "fragments", "fragment %d of %d does not match the content", f, cnt); tot += l; if (l > mx) mx = l; }
      VF_CHECK(tot == y.size(), "fragments", "the fragments hold %u bytes of %u", (unsigned)tot, (unsigned)y.size());
      VF_CHECK(o->maximumFragmentLength() == mx, "max-fragment", "maximumFragmentLength() is %d, should be %d", o->maximumFragmentLength(), mx);
      VF_CHECK(o->memoryCost() >= (int)y.size(), "memory-cost", "memoryCost() is %d for %u bytes", o->memoryCost(), (unsigned)y.size());
    }
    // Point reads.
    for (int t = 0; t < 2; t++) {
      int off = (int)r.below((uint32_t)x.size() + 3) - (r.chance(1, 8) ? 3 : 0);
      uint8_t want = (off >= 0 && off < (int)x.size()) ? (uint8_t)x[off] : 0, got = s->byteAt(off);
      VF_CHECK(got == want, "byteAt", "byteAt(%d) of %u bytes is %02x, should be %02x", off, (unsigned)x.size(), got, want);
    }
    if (r.chance(1, 2)) {
      uint32_t off = r.below((uint32_t)x.size() + 3), lim = r.below((uint32_t)x.size() + 4);
      std::string g(lim + 1, '\x5A');
      int n = s->copyToBuffer((uint8_t*)&g[0], lim, off);
      std::string want = off < x.size() ? x.substr(off, lim) : std::string();
      VF_CHECK(n == (int)want.size(), "copyToBuffer-count", "copyToBuffer(limit %u, offset %u) of %u bytes gave %d", lim, off, (unsigned)x.size(), n);
      VF_CHECK(g.substr(0, n) == want && (uint8_t)g[n] == 0x5A, "copyToBuffer-content", "copyToBuffer(limit %u, offset %u) of %u bytes wrote the wrong bytes", lim, off, (unsigned)x.size());
    }
    c.count("operations");
  }
  for (int i = 0; i < N; i++) {
    uint8_t* p = sb[i]->string();
    VF_CHECK(0 == memcmp(p, m[i].data(), m[i].size()) && p[m[i].size()] == 0, "string-content", "the final string() is wrong");
    delete sb[i];
  }
  c.nontrivial = fragged && __builtin_popcount(kinds) >= 3;
}
