/* C15: UUIDs. */
#include "sbmodel.h"
#include "uuid.h"
#include <string>
const char* VF_PROPERTY = "C15";
const char* VF_RULE = "A case is a batch of UUIDs (random, edge bytes, differing in a single bit) that are compared, copied, printed into buffers of every length, and parsed back from clean, differently punctuated, cased, truncated, over-long and arbitrary text held in exact allocations. Distinct by bytes and texts.";
using namespace vf;
void vf_setup() {}
static int hexv(unsigned char ch) { if (ch >= '0' && ch <= '9') return ch - '0'; if (ch >= 'a' && ch <= 'f') return ch - 'a' + 10; if (ch >= 'A' && ch <= 'F') return ch - 'A' + 10; return -1; }
struct Exact { char* p; Exact(const std::string& s) { p = (char*)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); } ~Exact() { free(p); } };
static std::string canon(const uint8_t* b) { static const char H[] = "0123456789abcdef"; std::string s; for (int i = 0; i < 16; i++) { if (i == 4 || i == 6 || i == 8 || i == 10) s += '-'; s += H[b[i] >> 4]; s += H[b[i] & 15]; } return s; }
static void parse(Ctx& c, const std::string& t) {
  UUID u; uint8_t before[16]; for (int i = 0; i < 16; i++) before[i] = u.id[i] = (uint8_t)c.rng.u32(); Exact e(t); uint8_t want[16]; memcpy(want, before, 16);
  int n = 0, hi = -1; for (unsigned char ch : t) { if (n == 16) break; int h = hexv(ch); if (h < 0) continue; if (hi < 0) hi = h; else { want[n++] = (uint8_t)(hi * 16 + h); hi = -1; } }
  uuid_from_str(e.p, &u); VF_CHECK(!memcmp(u.id, want, 16), "parse", "%s parses to %s, should be %s", quote(t.data(), t.size()).c_str(), hex(u.id, 16).c_str(), hex(want, 16).c_str());
  c.hash(t.data(), t.size()); c.count(n == 16 ? "parsed_full" : "parsed_partial"); c.feat(mix(n, hi >= 0));
}
static void rnd(Rng& r, UUID& u) { for (int i = 0; i < 16; i++) u.id[i] = r.chance(1, 4) ? (r.chance(1, 2) ? 0 : 0xFF) : (uint8_t)r.u32(); }
void vf_case(Ctx& c) {
  Rng& r = c.rng;
  for (int k = 0; k < 6; k++) {
    UUID a, b; rnd(r, a); rnd(r, b); switch (r.below(4)) { case 0: memcpy(b.id, a.id, 16); break; case 1: memcpy(b.id, a.id, 16); b.id[r.below(16)] ^= 1u << r.below(8); break; } if (r.chance(1, 12)) memset(a.id, 0, 16);
    bool eq = !memcmp(a.id, b.id, 16); c.op("%s %s", hex(a.id, 16).c_str(), hex(b.id, 16).c_str());
    UUID a0 = a, b0 = b; VF_CHECK((uuid_compare(&a, &b) == 0) == eq && (uuid_compare(&b, &a) == 0) == eq && uuid_compare(&a, &a) == 0, "compare", "equal %d, compared %d and %d", eq, uuid_compare(&a, &b), uuid_compare(&b, &a)); c.count(eq ? "equal" : "unequal");
    UUID d[3]; rnd(r, d[0]); rnd(r, d[1]); rnd(r, d[2]); UUID d0 = d[0], d2 = d[2]; uuid_copy(&a, &d[1]); VF_CHECK(!memcmp(d[1].id, a0.id, 16) && uuid_compare(&a, &d[1]) == 0, "copy", "a copy differs"); VF_CHECK(!memcmp(&d[0], &d0, 16) && !memcmp(&d[2], &d2, 16) && !memcmp(a.id, a0.id, 16) && !memcmp(b.id, b0.id, 16), "copy", "something else changed");
    const std::string want = canon(a.id);
    for (int len : {(int)r.below(37), 36, 37, 38, 37 + (int)r.below(30), 0, -1}) {
      int sz = len > 0 ? len : 1; char* p = (char*)malloc(sz); memset(p, 0x7E, sz); uuid_to_str(&a, p, len);
      if (len >= 37) VF_CHECK(!strcmp(p, want.c_str()), "print", "%s printed as %s", want.c_str(), p); else for (int i = 0; i < sz; i++) VF_CHECK(p[i] == 0x7E, "print-short", "a buffer of %d was written", len);
      for (int i = 37; i < sz; i++) VF_CHECK(p[i] == 0x7E, "print", "more than 37 bytes were written"); free(p); c.count(len >= 37 ? "prints" : "short_prints"); }
    { StringBuilder o("pre:"); uuid_to_sb(&a, &o); sb_expect(&o, "pre:" + want, "print", "uuid_to_sb"); }
    VF_CHECK(!memcmp(a.id, a0.id, 16), "print", "printing changed the UUID");
    parse(c, want); { UUID z; rnd(r, z); Exact e(want); uuid_from_str(e.p, &z); VF_CHECK(uuid_compare(&z, &a) == 0, "round-trip", "%s does not parse back", want.c_str()); c.count("round_trips"); }
    std::string t = want; for (char& ch : t) if (r.chance(1, 2)) ch = (char)toupper(ch); parse(c, t);
    t.clear(); for (char ch : want) { if (ch == '-' && r.chance(1, 2)) continue; if (r.chance(1, 12)) t += " {}-:zxG@`/"[r.below(11)]; t += ch; } parse(c, t);
    parse(c, want.substr(0, r.below(37))); parse(c, want + canon(b.id)); if (r.chance(1, 3)) { std::string g = rnd_bytes(r, r.below(90), 4); parse(c, g); }
    UUID g[2]; rnd(r, g[0]); g[1] = g[0]; uuid_gen(&g[0]); VF_CHECK((g[0].id[6] & 0xF0) == 0x40 && (g[0].id[8] & 0xC0) == 0x80, "generated", "generated %s is no version 4", hex(g[0].id, 16).c_str()); UUID h; uuid_gen(&h); VF_CHECK(uuid_compare(&g[0], &h) != 0, "generated", "the same UUID twice"); c.count("generated", 2);
    // Every bit but the six fixed ones is drawn.
    if (k == 0 && r.chance(1, 8)) { uint8_t o[16] = {0}, n[16]; memset(n, 0xFF, 16); for (int i = 0; i < 64; i++) { UUID x; uuid_gen(&x); for (int j = 0; j < 16; j++) { o[j] |= x.id[j]; n[j] &= x.id[j]; } } for (int j = 0; j < 16; j++) { uint8_t fixed = j == 6 ? 0xF0 : j == 8 ? 0xC0 : 0; VF_CHECK((uint8_t)(o[j] & ~n[j] & ~fixed) == (uint8_t)~fixed, "generated", "byte %d of generated UUIDs has bits that never change", j); } c.count("spreads"); }
  }
  c.nontrivial = true;
}
