/* An independent CBOR writer and reader, and the meaning that the typed-value decoder gives to each item. */
#pragma once
#include "sbmodel.h"
#include "C3PValue/C3PValue.h"
#include "C3PValue/KeyValuePair.h"
#include <vector>
#include <string>
#include <cmath>
namespace cb {
using namespace vf;
static inline void be(std::string& o, uint64_t n, int w) { for (int i = w - 1; i >= 0; i--) o += (char)(uint8_t)(n >> (8 * i)); }
static inline void head(std::string& o, int major, uint64_t n, int atleast = 0) { int w = n < 24 ? 0 : n < 256 ? 1 : n < 65536 ? 2 : n < 0x100000000ull ? 4 : 8; while (w < atleast) w = w ? w * 2 : 1; o += (char)(uint8_t)(major << 5 | (w == 0 ? (int)n : w == 1 ? 24 : w == 2 ? 25 : w == 4 ? 26 : 27)); if (w) be(o, n, w); }
struct It { int maj = 0, w = 0; uint64_t n = 0; std::string s; std::vector<It> kids; };
/* One well-formed, definite-length item at p. Depth is bounded by the caller's patience. */
static inline bool parse(const std::string& in, size_t& p, It& o, int depth = 0) {
  if (p >= in.size() || depth > 3000) return false; uint8_t t = in[p]; size_t q = p + 1; o.maj = t >> 5; int mi = t & 31; if (mi > 27) return false; o.w = mi < 24 ? 0 : 1 << (mi - 24); o.n = mi; if (q + o.w > in.size()) return false; if (o.w) { o.n = 0; for (int i = 0; i < o.w; i++) o.n = o.n << 8 | (uint8_t)in[q + i]; q += o.w; }
  if (o.maj == 2 || o.maj == 3) { if (o.n > in.size() - q) return false; o.s = in.substr(q, (size_t)o.n); q += (size_t)o.n; }
  else if (o.maj == 4 || o.maj == 5) { uint64_t k = o.n; if (k > in.size()) return false; if (o.maj == 5) k *= 2; for (uint64_t i = 0; i < k; i++) { It x; if (!parse(in, q, x, depth + 1)) return false; o.kids.push_back(std::move(x)); } }
  else if (o.maj == 6) { It x; if (!parse(in, q, x, depth + 1)) return false; o.kids.push_back(std::move(x)); }
  p = q; return true;
}
/* A value as the library holds it. 'i' integer, 's' text, 'b' bytes, 'f' 'd' reals, 'B' boolean, 'N' none, 'v' vector, 'M' map (chain). */
struct Nd { char k = 'N'; bool keyed = false; std::string key; bool neg = false; uint64_t n = 0; std::string s; int tc = 0; std::vector<Nd> kids; };
enum Can { NO = 0, YES = 1, MAYBE = 2 };
static inline int vecinfo(int tc, int& tag) { switch ((TCode)tc) { case TCode::VECT_3_INT8: tag = 72; return 3; case TCode::VECT_3_UINT8: tag = 64; return 3; case TCode::VECT_3_INT16: tag = 77; return 6; case TCode::VECT_3_UINT16: tag = 69; return 6; case TCode::VECT_3_INT32: tag = 78; return 12; case TCode::VECT_3_UINT32: tag = 70; return 12; case TCode::VECT_3_FLOAT: tag = 85; return 12; case TCode::VECT_3_DOUBLE: tag = 86; return 24; default: return 0; } }
static inline Can meaning(const It& i, std::vector<Nd>& out, int depth = 0) {
  Nd d; Can can = depth > 28 ? MAYBE : YES;
  auto both = [](Can a, Can b) { return a == NO || b == NO ? NO : a == MAYBE || b == MAYBE ? MAYBE : YES; };
  switch (i.maj) {
    case 0: d.k = 'i'; d.n = i.n; break;
    case 1: if (i.n >> 63) return NO; d.k = 'i'; d.n = i.n; d.neg = true; break;
    case 2: d.k = 'b'; d.s = i.s; break;
    case 3: d.k = 's'; d.s = i.s.c_str(); break;
    case 4: { if (i.kids.empty()) return MAYBE; Can all = can; for (auto& x : i.kids) { Can e = meaning(x, out, depth + 1); all = both(all, e); } return all; }
    case 5: { if (i.kids.empty()) return MAYBE; Can all = can; for (size_t k = 0; k + 1 < i.kids.size(); k += 2) { if (i.kids[k].maj != 3) { all = NO; continue; } std::vector<Nd> ch; Can e = meaning(i.kids[k + 1], ch, depth + 1); all = both(all, e); if (ch.empty()) continue; if (ch[0].k == 'N') all = both(all, MAYBE);
      Nd m; if (ch[0].keyed) { m.k = 'M'; m.kids.swap(ch); m.keyed = true; m.key = i.kids[k].s.c_str(); out.push_back(m); } else { ch[0].keyed = true; ch[0].key = i.kids[k].s.c_str(); for (auto& y : ch) out.push_back(std::move(y)); } } return all; }
    case 6: { if ((i.n & ~0xFFull) != 0xE900) return MAYBE; int tag = 0, len = vecinfo((int)(i.n & 0xFF), tag); const It& x = i.kids[0]; if (!len) return MAYBE; if (x.maj != 6 || x.n != (uint64_t)tag || x.kids[0].maj != 2) return MAYBE; if ((int)x.kids[0].s.size() != len) return NO; d.k = 'v'; d.tc = (int)(i.n & 0xFF); d.s = x.kids[0].s; break; }
    default: if (i.w == 4) { d.k = 'f'; d.n = i.n; } else if (i.w == 8) { d.k = 'd'; d.n = i.n; } else if (i.w) return NO; else if (i.n == 20 || i.n == 21) { d.k = 'B'; d.n = i.n == 21; } else if (i.n == 22 || i.n == 23) d.k = 'N'; else return NO;
  }
  out.push_back(std::move(d)); return can;
}
static inline void write(const Nd& d, std::string& o);
static inline void write_map(const std::vector<Nd>& v, std::string& o) { size_t n = 0; for (auto& x : v) n += x.keyed && !x.key.empty(); head(o, 5, n); for (auto& x : v) if (x.keyed && !x.key.empty()) { head(o, 3, x.key.size()); o += x.key; write(x, o); } }
static inline void write(const Nd& d, std::string& o) { switch (d.k) { case 'i': head(o, d.neg, d.n); break; case 's': head(o, 3, d.s.size()); o += d.s; break; case 'b': head(o, 2, d.s.size()); o += d.s; break; case 'f': o += (char)0xFA; be(o, d.n, 4); break; case 'd': o += (char)0xFB; be(o, d.n, 8); break; case 'B': o += (char)(d.n ? 0xF5 : 0xF4); break; case 'N': o += (char)0xF6; break; case 'v': { int tag = 0; vecinfo(d.tc, tag); head(o, 6, 0xE900 | d.tc); head(o, 6, tag); head(o, 2, d.s.size()); o += d.s; break; } case 'M': write_map(d.kids, o); } }
static inline bool isnanbits(uint64_t n, bool d) { return d ? (n & 0x7FF0000000000000ull) == 0x7FF0000000000000ull && (n & 0xFFFFFFFFFFFFFull) : (n & 0x7F800000) == 0x7F800000 && (n & 0x7FFFFF); }
static inline void same(C3PValue* v, const std::vector<Nd>& want, const char* what, int depth = 0);
static inline void same1(C3PValue* v, const Nd& d, const char* what, int depth) {
  VF_CHECK(v->has_key() == d.keyed, "key", "%s: has_key() is %d, should be %d", what, v->has_key(), d.keyed);
  if (d.keyed) { const char* k = ((KeyValuePair*)v)->getKey(); VF_CHECK(k && d.key == k, "key", "%s: key is %s, should be %s", what, k ? quote(k, strlen(k)).c_str() : "null", quote(d.key.data(), d.key.size()).c_str()); }
  TCode t = v->tcode();
  switch (d.k) {
    case 'i': { bool num = t == TCode::INT8 || t == TCode::INT16 || t == TCode::INT32 || t == TCode::INT64 || t == TCode::UINT8 || t == TCode::UINT16 || t == TCode::UINT32 || t == TCode::UINT64; VF_CHECK(num, "type", "%s: an integer became a %s", what, typecodeToStr(t)); int8_t ok = 0; if (d.neg) { int64_t g = v->get_as_int64(&ok); VF_CHECK(ok && g == -1 - (int64_t)d.n, "value", "%s: integer is %lld, should be -1-%llu", what, (long long)g, (unsigned long long)d.n); } else { uint64_t g = v->get_as_uint64(&ok); VF_CHECK(ok && g == d.n, "value", "%s: integer is %llu, should be %llu", what, (unsigned long long)g, (unsigned long long)d.n); } break; }
    case 's': { VF_CHECK(t == TCode::STR, "type", "%s: text became a %s", what, typecodeToStr(t)); char* g = nullptr; VF_CHECK(v->get_as(&g) == 0 && g && d.s == g, "value", "%s: text is %s, should be %s", what, g ? quote(g, strlen(g)).c_str() : "null", quote(d.s.data(), d.s.size()).c_str()); break; }
    case 'b': { VF_CHECK(t == TCode::BINARY, "type", "%s: a buffer became a %s", what, typecodeToStr(t)); uint8_t* p = nullptr; uint32_t n = 99; VF_CHECK(v->get_as(&p, &n) == 0 && n == d.s.size() && (!n || !memcmp(p, d.s.data(), n)), "value", "%s: buffer of %u is %s, should be %s", what, n, p ? hex((char*)p, n < 200 ? n : 200).c_str() : "null", hex(d.s.data(), d.s.size() < 200 ? d.s.size() : 200).c_str()); break; }
    case 'f': { VF_CHECK(t == TCode::FLOAT, "type", "%s: a float became a %s", what, typecodeToStr(t)); float f = 0; uint32_t u; VF_CHECK(v->get_as(TCode::FLOAT, &f) == 0, "value", "%s: float unreadable", what); memcpy(&u, &f, 4); VF_CHECK(u == d.n || (isnanbits(u, false) && isnanbits(d.n, false)), "value", "%s: float bits %08x, should be %08x", what, u, (unsigned)d.n); break; }
    case 'd': { VF_CHECK(t == TCode::DOUBLE, "type", "%s: a double became a %s", what, typecodeToStr(t)); double f = 0; uint64_t u; VF_CHECK(v->get_as(TCode::DOUBLE, &f) == 0, "value", "%s: double unreadable", what); memcpy(&u, &f, 8); VF_CHECK(u == d.n || (isnanbits(u, true) && isnanbits(d.n, true)), "value", "%s: double bits %016llx, should be %016llx", what, (unsigned long long)u, (unsigned long long)d.n); break; }
    case 'B': { VF_CHECK(t == TCode::BOOLEAN, "type", "%s: a boolean became a %s", what, typecodeToStr(t)); bool b = !d.n; VF_CHECK(v->get_as(TCode::BOOLEAN, &b) == 0 && b == (bool)d.n, "value", "%s: boolean is %d", what, b); break; }
    case 'N': VF_CHECK(t == TCode::NONE, "type", "%s: none became a %s", what, typecodeToStr(t)); break;
    case 'v': { VF_CHECK((int)t == d.tc, "type", "%s: a vector of type %d became a %s", what, d.tc, typecodeToStr(t)); uint8_t raw[32]; memset(raw, 0xA5, sizeof raw); VF_CHECK(v->get_as(t, raw) == 0 && !memcmp(raw, d.s.data(), d.s.size()) && raw[d.s.size()] == 0xA5, "value", "%s: vector is %s, should be %s", what, hex((char*)raw, d.s.size()).c_str(), hex(d.s.data(), d.s.size()).c_str()); break; }
    case 'M': { VF_CHECK(t == TCode::KVP, "type", "%s: a map became a %s", what, typecodeToStr(t)); int8_t ok = 0; KeyValuePair* k = v->get_as_kvp(&ok); VF_CHECK(ok && k, "value", "%s: a map is unreadable", what); same(k, d.kids, what, depth + 1); break; }
  }
}
static inline void same(C3PValue* v, const std::vector<Nd>& want, const char* what, int depth) { size_t i = 0; for (C3PValue* p = v; p; p = p->nextValue(), i++) { VF_CHECK(i < want.size(), "count", "%s: more than %zu values at depth %d", what, want.size(), depth); same1(p, want[i], what, depth); } VF_CHECK(i == want.size(), "count", "%s: %zu values of %zu at depth %d", what, i, want.size(), depth); }
static inline uint64_t num(Rng& r) { switch (r.below(4)) { case 0: return r.below(30); case 1: { static const uint64_t e[] = {23, 24, 127, 128, 254, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 0x7FFFFFFE, 0x7FFFFFFF, 0x80000000ull, 0x80000001ull, 0xFFFFFFFEull, 0xFFFFFFFFull, 0x100000000ull, 0x7FFFFFFFFFFFFFFEull, 0x7FFFFFFFFFFFFFFFull, 0x8000000000000000ull, ~0ull - 1, ~0ull}; return e[r.below(25)]; } case 2: return r.u64() >> r.below(64); default: return r.edgy64(); } }
static const TCode VT[] = {TCode::VECT_3_INT8, TCode::VECT_3_UINT8, TCode::VECT_3_INT16, TCode::VECT_3_UINT16, TCode::VECT_3_INT32, TCode::VECT_3_UINT32, TCode::VECT_3_FLOAT, TCode::VECT_3_DOUBLE};
}
