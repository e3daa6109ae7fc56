/* C19: hostile, damaged and truncated CBOR offered to the value decoder and to KeyValuePair::unserialize(). */
#include "cborref.h"
const char* VF_PROPERTY = "C19";
const char* VF_RULE = "A case is one input: an arbitrary item (any major type, nested, with non-minimal lengths, unknown and vendor tags, empty collections, odd keys), whole, with junk or other items after it, cut at up to 40 places, or with bytes changed, inserted, removed or repeated; or a bomb (deep nesting, long collections, length lies up to 2^64-1), or random bytes. Distinct by the bytes.";
using namespace vf; using namespace cb;
void vf_setup() {}
static void wide(Rng& r, std::string& o, int maj, uint64_t n) { head(o, maj, n, r.chance(1, 8) ? 1 << r.below(4) : 0); }
static void vec(Rng& r, std::string& o, int lie) { int tc = (int)VT[r.below(8)], tag, len = vecinfo(tc, tag); wide(r, o, 6, 0xE900 | (lie == 1 ? r.below(256) : (unsigned)tc)); wide(r, o, 6, lie == 2 ? r.below(100) : (unsigned)tag); std::string s = rnd_bytes(r, lie == 3 ? r.below(30) : (unsigned)len, 0); wide(r, o, lie == 4 ? (int)r.below(4) : 2, s.size()); o += s; }
static void item(Rng& r, std::string& o, int depth, bool nice) {
  unsigned k = r.below(depth > 6 ? 8 : nice ? 12 : 16);
  switch (k) {
    case 0: wide(r, o, 0, num(r)); break; case 1: wide(r, o, 1, nice ? num(r) >> 1 : num(r)); break;
    case 2: case 3: { std::string s = rnd_bytes(r, r.chance(1, 20) ? r.below(700) : r.below(30), k == 2 ? 0 : nice ? 4 : r.below(5)); wide(r, o, (int)k, s.size()); o += s; break; }
    case 4: o += (char)0xFA; be(o, r.u32(), 4); break; case 5: o += (char)0xFB; be(o, r.u64(), 8); break; case 6: o += (char)(0xF4 + r.below(2)); break; case 7: vec(r, o, 0); break;
    case 8: case 9: { unsigned n = (nice ? 1 : 0) + r.below(5); wide(r, o, 4, n); while (n--) item(r, o, depth + 1, nice); break; }
    case 10: case 11: { unsigned n = (nice ? 1 : 0) + r.below(5); wide(r, o, 5, n); while (n--) { if (!nice && r.chance(1, 12)) item(r, o, depth + 1, nice); else { std::string s = rnd_bytes(r, r.below(8), r.chance(1, 10) ? 0 : 1); wide(r, o, 3, s.size()); o += s; } item(r, o, depth + 1, nice); } break; }
    case 12: o += (char)(0xE0 + r.below(28)); if ((uint8_t)o.back() >= 0xF8) be(o, r.u64(), 1 << ((uint8_t)o.back() - 0xF8)); break;
    case 13: wide(r, o, 6, r.chance(1, 2) ? 0xE900 | r.below(256) : num(r)); item(r, o, depth + 1, nice); break;
    case 14: vec(r, o, 1 + r.below(4)); break;
    default: o += (char)(r.below(8) << 5 | (28 + r.below(4))); break;
  }
}
static std::string bomb(Rng& r) {
  std::string o; unsigned n = 20 + r.below(r.chance(1, 10) ? 24000 : 60);
  switch (r.below(8)) {
    case 0: for (unsigned i = 0; i < n; i++) o += (char)0x81; if (r.chance(1, 2)) o += (char)7; break;
    case 1: for (unsigned i = 0; i < n; i++) { o += (char)0xA1; o += (char)0x61; o += 'k'; } if (r.chance(1, 2)) o += (char)7; break;
    case 2: for (unsigned i = 0; i < n; i++) { switch (r.below(3)) { case 0: wide(r, o, 6, 0xE900 | r.below(256)); break; case 1: wide(r, o, 6, r.below(100)); break; default: o += (char)0x82; o += (char)1; } } o += (char)7; break;
    case 3: head(o, 4, n); for (unsigned i = 0; i < n; i++) o += (char)r.below(24); break;
    case 4: head(o, 5, n); for (unsigned i = 0; i < n; i++) { o += (char)0x61; o += (char)('a' + i % 26); o += (char)r.below(24); } break;
    case 5: { static const uint64_t lie[] = {0x7FFFFFFF, 0x80000000ull, 0xFFFFFFFFull, 0x100000000ull, 0x100000001ull, 0x7FFFFFFFFFFFFFFFull, 0x8000000000000000ull, ~0ull, ~0ull - 8}; head(o, 2 + r.below(4), lie[r.below(9)] - r.below(3)); o += rnd_bytes(r, n > 400 ? 400 : n, 0); break; }
    case 6: { size_t p = n > 300 ? 300 : n; head(o, 2 + r.below(4), p + 1 + r.below(4)); o += rnd_bytes(r, p, 0); break; }
    default: head(o, 5, 1 + r.below(3)); head(o, 3, r.chance(1, 2) ? n : n + 0x100000000ull); o += rnd_bytes(r, n, 1); o += (char)1; break;
  }
  return o;
}
static void fill(Rng& r, StringBuilder& in, const std::string& s) { size_t at = 0; unsigned k = 0; while (at < s.size()) { size_t m = ++k > 30 || r.chance(1, 3) ? s.size() - at : 1 + r.below((uint32_t)(r.chance(1, 2) && s.size() - at > 3 ? 3 : s.size() - at)); in.concat((uint8_t*)s.data() + at, (int)m); at += m; } }
static void judge(Ctx& c, const std::string& s, bool consume = false) {
  Rng& r = c.rng; It it; size_t ext = 0; std::vector<Nd> m; bool wf = parse(s, ext, it); Can can = wf ? meaning(it, m) : NO; StringBuilder in; fill(r, in, s); c.count(!wf ? "not_one_item" : can == NO ? "no_such_value" : can == YES ? "values" : "may_be_values"); c.feat(mix(can, wf * 64 + (s.size() ? (uint8_t)s[0] >> 2 : 64)));
  c.op("%s %zu: %s", !wf ? "malformed" : can == NO ? "refuse" : can == YES ? "accept" : "either", s.size(), hex(s.data(), s.size()).c_str());
  C3PValueDecoder dec(&in); C3PValue* v = consume || r.chance(1, 2) ? dec.next(consume) : C3PValue::deserialize(&in, TCode::CBOR);
  if (v) { VF_CHECK(wf, "incomplete", "input that isn't a whole item gave a %s", typecodeToStr(v->tcode())); VF_CHECK(can != NO, "accepted", "an item with no such value gave a %s", typecodeToStr(v->tcode())); }
  else VF_CHECK(can != YES, "refused", "a good item was refused");
  if (v || !consume) sb_expect(&in, v ? s.substr(ext) : s, "consumed", v ? "what follows the item" : "the refused input");
  else { int n = in.length(); VF_CHECK(n >= 0 && (size_t)n <= s.size(), "consumed", "%d bytes are left of %zu", n, s.size()); sb_expect(&in, s.substr(s.size() - n), "consumed", "what's left of unparsable input"); c.count("unparsable_consumed"); }
  if (v) { if (can == YES) same(v, m, "decoded"); if (s.size() < 3000) { StringBuilder t; v->toString(&t); StringBuilder o; v->serialize(&o, TCode::CBOR); } delete v; }
  /* The same decoder goes on with good input. */
  in.clear(); std::string g; std::vector<Nd> gm; It gi; size_t gp = 0; item(r, g, 4, true); if (parse(g, gp, gi) && meaning(gi, gm) == YES) { fill(r, in, g); v = dec.next(); VF_CHECK(v != nullptr, "afterwards", "good input was refused after this: %s", hex(g.data(), g.size()).c_str()); same(v, gm, "afterwards"); sb_expect(&in, "", "afterwards", "the input"); delete v; c.count("good_input_afterwards"); }
}
static void unser(Ctx& c, const std::string& s) {
  uint8_t* b = (uint8_t*)malloc(s.size() ? s.size() : 1); memcpy(b, s.data(), s.size()); KeyValuePair* k = KeyValuePair::unserialize(b, (unsigned)s.size(), TCode::CBOR); free(b); c.count(k ? "unserialized" : "not_unserialized");
  if (k) { unsigned n = 0; for (C3PValue* p = k; p; p = p->nextValue()) { VF_CHECK(++n <= s.size() + 4, "invented", "more values than bytes"); } if (n < 2000) { StringBuilder t; k->printDebug(&t); } delete k; }
}
/* A flat map, some of the values of which can't be had: those that can are found under the keys they came with. */
static void flat(Ctx& c) {
  Rng& r = c.rng; std::string o; unsigned n = 1 + r.below(8); std::vector<Nd> want(n); head(o, 5, n); unsigned odd = 0;
  for (unsigned i = 0; i < n; i++) { Nd& d = want[i]; d.keyed = true; d.key = "k" + std::to_string(i) + rnd_bytes(r, r.below(5), 4); for (auto& ch : d.key) if (!ch) ch = 'z'; head(o, 3, d.key.size()); o += d.key; d.k = "isbfdBv?"[r.below(8)];
    switch (d.k) { case 'i': d.n = num(r); d.neg = r.chance(1, 2); if (d.neg) d.n >>= 1; break; case 's': d.s = rnd_bytes(r, r.below(20), 4); for (auto& ch : d.s) if (!ch) ch = 'y'; break; case 'b': d.s = rnd_bytes(r, r.below(20), 0); break; case 'f': d.n = r.u32() & 0x3FFFFFFF; break; case 'd': d.n = r.u64() >> 2; break; case 'B': d.n = r.below(2); break; case 'v': d.k = 'i'; d.n = i; break; default: break; }
    if (d.k != '?') { write(d, o); continue; }
    odd++; if (r.chance(2, 3)) head(o, 6, 0xE900 | (r.chance(1, 2) ? 1 + r.below(40) : r.below(256))); else head(o, 6, r.below(100)); Nd x; x.k = "bbbisfB"[r.below(7)]; x.n = r.below(2); if (x.k == 's' || x.k == 'b') x.s = rnd_bytes(r, r.below(20), 4); write(x, o); }
  c.op("flat %u, %u odd: %s", n, odd, hex(o.data(), o.size()).c_str()); c.hash(o.data(), o.size()); uint8_t* b = (uint8_t*)malloc(o.size()); memcpy(b, o.data(), o.size()); KeyValuePair* k = KeyValuePair::unserialize(b, (unsigned)o.size(), TCode::CBOR); free(b);
  for (auto& d : want) if (d.k != '?') { KeyValuePair* f = nullptr; for (C3PValue* p = k; p; p = p->nextValue()) { const char* key = p->has_key() ? ((KeyValuePair*)p)->getKey() : nullptr; if (key && d.key == key) { VF_CHECK(!f, "displaced", "two values under one key"); f = (KeyValuePair*)p; } }
    VF_CHECK(f, "displaced", "an entry is missing from a map of %u with %u that can't be had", n, odd); same1(f, d, "flat", 0); }
  unsigned m = 0; for (C3PValue* p = k; p; p = p->nextValue()) { m++; VF_CHECK(p->has_key(), "displaced", "a value without a key, from a map"); } VF_CHECK(m <= n, "invented", "%u values from %u entries", m, n); if (k) delete k; c.count("flat_maps"); if (odd) c.count("flat_odd"); c.nontrivial = true;
}
void vf_case(Ctx& c) {
  if (c.rng.chance(1, 8)) { flat(c); return; }
  Rng& r = c.rng; std::string s; unsigned kind = r.below(10);
  if (kind < 6) { bool nice = r.chance(1, 2); item(r, s, 0, nice); }
  else if (kind < 8) { s = bomb(r); c.count("bombs"); }
  else if (kind == 8) s = rnd_bytes(r, r.below(60), 0);
  else { unsigned n = r.below(40); while (s.size() < n) { uint8_t mj = r.below(8), mi = r.chance(2, 3) ? r.below(6) : r.below(32); s += (char)(mj << 5 | mi); } }
  c.hash(s.data(), s.size()); c.nontrivial = s.size() > 1;
  judge(c, s, r.chance(1, 5));
  if (r.chance(1, 2)) { std::string f = s; if (r.chance(1, 2)) item(r, f, 2, true); else f += rnd_bytes(r, 1 + r.below(20), 0); judge(c, f); c.count("followed"); }
  if (s.size() < 3000) for (unsigned i = 0, n = s.size() < 40 ? (unsigned)s.size() : 40; i < n; i++) { if (r.chance(1, 3)) continue; size_t at = s.size() < 40 ? i : r.below((uint32_t)s.size()); judge(c, s.substr(0, at)); c.count("prefixes"); }
  for (int i = 0; i < 4 && s.size() && s.size() < 3000; i++) { std::string m = s; unsigned n = 1 + r.below(3); while (n-- && m.size()) { size_t at = r.chance(1, 2) ? r.below(m.size() < 4 ? (uint32_t)m.size() : 4) : r.below((uint32_t)m.size()); switch (r.below(5)) { case 0: m[at] = (char)r.u32(); break; case 1: m[at] ^= (char)(1 << r.below(8)); break; case 2: m.insert(at, 1, (char)r.u32()); break; case 3: m.erase(at, 1 + r.below(3)); break; default: m.insert(at, m.substr(at, 1 + r.below(20))); } } judge(c, m, r.chance(1, 6)); c.count("mutants"); if (r.chance(1, 2)) unser(c, m); }
  unser(c, s); if (s.size() > 1 && r.chance(1, 2)) unser(c, s.substr(0, r.below((uint32_t)s.size())));
}
