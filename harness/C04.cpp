/* C04: transfers conserve bytes and ownership. */
#include "sbmodel.h"
const char* VF_PROPERTY = "C04";
const char* VF_RULE = "A case is a network of 2-6 builders with random contents and fragmentations among which 4-40 transfers (whole, limited, by position, prepended, copied) happen, with edits and destructions between. Monitors: per-builder content, total bytes, and the donor's prefix/suffix split. Non-trivial if a limited or positional transfer split a donor. Distinct by the text of the history.";
using namespace vf;
void vf_setup() {}

void vf_case(Ctx& c) {
  Rng& r = c.rng;
  const int N = 2 + (int)r.below(5); const bool huge = r.chance(1, 250); if (huge) c.count("long_contents");
  StringBuilder* sb[6]; std::string m[6];
  for (int i = 0; i < N; i++) {
    sb[i] = new StringBuilder(); m[i] = rnd_bytes(r, huge ? (int)r.below(100000) : r.chance(1, 100) ? (int)r.below(1500) : rnd_len(r), (int)r.below(5));
    sb_build(r, sb[i], m[i], huge ? 1000 + (int)r.below(70000) : (int[]){1, 2, 5, 1000}[r.below(4)]);
    c.op("builder %d: %u bytes, %d fragments", i, (unsigned)m[i].size(), sb[i]->count()); c.hash(m[i].data(), m[i].size());
  }
  bool split = false;
  const int steps = huge ? 4 + (int)r.below(10) : 4 + (int)r.below(36);
  for (int st = 0; st < steps; st++) {
    int i = (int)r.below((uint32_t)N), j = (int)r.below((uint32_t)N - 1); if (j >= i) j++;
    StringBuilder *d = sb[i], *s = sb[j];
    // Limits that like the fragment boundaries of the donor.
    uint32_t nf = s->count(); uint32_t lim = r.below((uint32_t)m[j].size() + 3);
    if (nf && r.chance(1, 2)) { uint32_t k = r.below(nf + 1); lim = 0; for (uint32_t q = 0; q < k; q++) { int l; s->position((int)q, &l); lim += l; } lim += (uint32_t)(r.range(-1, 1)); if (lim > 0x7ffffff0u) lim = 0; }
    if (r.chance(1, 20)) lim = 0x7fffffff - r.below(4);
    const uint32_t k = r.below(16);
    if (k < 5) {
      size_t n = lim < m[j].size() ? lim : m[j].size();
      d->concatHandoffLimit(s, lim); m[i] += m[j].substr(0, n); m[j].erase(0, n);
      c.op("limit %d<-%d %u (moved %u)", i, j, lim, (unsigned)n); if (n && m[j].size()) split = true; c.count("limited_handoffs");
      c.feat(mix(1, mix(n == 0, mix(m[j].empty(), nf > 3 ? 3 : nf))));
    }
    else if (k < 8) {
      uint32_t p = r.below(nf + 2), n = r.below(nf + 2);
      size_t off = 0, len = 0; int moved = 0;
      for (uint32_t q = 0; q < nf; q++) { int l = 0; s->position((int)q, &l); if (q < p) off += (size_t)l; else if (q < p + n) { len += (size_t)l; moved++; } }
      int g = n == 1 && r.chance(1, 2) ? d->concatHandoffPositions(s, p) : d->concatHandoffPositions(s, p, n);
      VF_CHECK(g == moved, "positions-count", "moving %u tokens from %u of %u gave %d, should be %d", n, p, nf, g, moved);
      m[i] += m[j].substr(off < m[j].size() ? off : m[j].size(), len); if (len) m[j].erase(off, len);
      VF_CHECK(s->count() == nf - moved, "positions-left", "moving %d of %u tokens left %u", moved, nf, s->count());
      c.op("positions %d<-%d %u+%u", i, j, p, n); if (moved && moved < (int)nf) split = true; c.count("positional_handoffs");
    }
    else if (k < 10) { d->concatLimit(s, lim); m[i] += m[j].substr(0, lim); c.op("copy-limit %d<-%d %u", i, j, lim); c.count("limited_copies"); }
    else if (k == 10) { d->concat(s); m[i] += m[j]; c.op("copy %d<-%d", i, j); }
    else if (k == 11) { d->concatHandoff(s); m[i] += m[j]; m[j].clear(); c.op("handoff %d<-%d", i, j); c.count("handoffs"); }
    else if (k == 12) { d->prependHandoff(s); m[i] = m[j] + m[i]; m[j].clear(); c.op("prepend %d<-%d", i, j); c.count("prepends"); }
    else if (k == 13) {  // Edit one, in place where possible. The other must not notice.
      d->toUpper(); for (auto& ch : m[i]) if (ch >= 'a' && ch <= 'z') ch -= 32; c.op("upper %d", i);
      int l; uint8_t* p = d->position(0, &l); if (l) { int at = (int)r.below((uint32_t)l); p[at] ^= 0x11; m[i][at] ^= 0x11; c.op("poke %d %d", i, at); }
    }
    else if (k == 14) { delete sb[i]; sb[i] = new StringBuilder(); m[i] = rnd_bytes(r, rnd_len(r), 0); sb_build(r, sb[i], m[i], 1 + (int)r.below(9)); c.op("destroy %d, new with %u bytes", i, (unsigned)m[i].size()); c.count("destructions"); }
    else { if (r.chance(1, 2)) { d->string(); c.op("flatten %d", i); } else if (m[i].size()) { int n = (huge ? 900 : 1) + (int)r.below(5); d->chunk(n); c.op("chunk %d %d", i, n); } }
    if (m[i].size() > (huge ? 300000 : 4000)) { d->clear(); m[i].clear(); c.op("clear %d", i); }
    for (int q = 0; q < N; q++) {
      sb_expect(sb[q], m[q], q == i ? "recipient" : q == j ? "donor" : "bystander", "after a transfer");
      size_t tot = 0; for (int f = 0; f < sb[q]->count(); f++) { int l = 0; uint8_t* p = sb[q]->position(f, &l); VF_CHECK(l > 0 && tot + l <= m[q].size() && 0 == memcmp(p, m[q].data() + tot, (size_t)l) , "fragments", "fragment %d of builder %d is wrong", f, q);
        tot += (size_t)l; }
    }
    c.count("steps");
  }
  // Destruction in a random order; each survivor is read after each.
  bool gone[6] = {};
  for (int n = 0; n < N; n++) {
    int i; do i = (int)r.below((uint32_t)N); while (gone[i]);
    delete sb[i]; gone[i] = true; c.op("destroy %d", i);
    for (int q = 0; q < N; q++) if (!gone[q]) sb_expect(sb[q], m[q], "survivor", "after another was destroyed");
  }
  c.nontrivial = split;
}
