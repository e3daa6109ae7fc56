/* C20: the CBOR encoder against an independent RFC 8949 head writer, the event decoder against an independent reader, over every input source and every cut of the input. */
#include "sbmodel.h"
#include "cbor-cpp/cbor.h"
#include <vector>
#include <string>
#include <cmath>
const char* VF_PROPERTY = "C20";
const char* VF_RULE = "A case is a sequence of encoder calls (every integer width with extremes, strings and bytes of zero to thousands of bytes, tags, arrays, maps, simple values, reals, typed arrays) written to a growing or a fixed buffer, or a stream of well-formed, non-shortest, truncated or random CBOR bytes read through a fixed, retained, consumed or self-deleting source, whole or in random cuts. Distinct by the bytes.";
using namespace vf; using namespace cbor;
void vf_setup() {}
/* An integer event is kept as sign + 64-bit magnitude (CBOR argument), so that 32-bit builds need no 128-bit type. */
struct Ev { char k; bool neg; uint64_t n; std::string s; };
static Ev ev(char k, uint64_t n = 0, const std::string& s = "", bool neg = false) { Ev e; e.k = k; e.n = n; e.s = s; e.neg = neg; return e; }
static std::string show(const Ev& e) { char b[80]; snprintf(b, sizeof b, "%c%s%llu", e.k, e.neg ? "-1-" : "", (unsigned long long)e.n); return std::string(b) + (e.s.empty() ? "" : " " + quote(e.s.data(), e.s.size())); }
static bool nanbits(uint64_t n, bool d) { return d ? (n & 0x7FF0000000000000ull) == 0x7FF0000000000000ull && (n & 0xFFFFFFFFFFFFFull) : (n & 0x7F800000) == 0x7F800000 && (n & 0x7FFFFF); }
static bool eq(const Ev& a, const Ev& b) { if (a.k != b.k) return false; if (a.k == 'f' || a.k == 'd') if (nanbits(a.n, a.k == 'd') && nanbits(b.n, b.k == 'd')) return true; return a.n == b.n && a.neg == b.neg && a.s == b.s; }
struct Log : listener {
  std::vector<Ev> v;
  void si(int64_t x) { if (x < 0) v.push_back(ev('i', (uint64_t)(-(x + 1)), "", true)); else v.push_back(ev('i', (uint64_t)x)); }
  void on_integer(int8_t x) override { si(x); } void on_integer(int16_t x) override { si(x); } void on_integer(int32_t x) override { si(x); } void on_integer(int64_t x) override { si(x); }
  void on_integer(uint8_t x) override { v.push_back(ev('i', x)); } void on_integer(uint16_t x) override { v.push_back(ev('i', x)); } void on_integer(uint32_t x) override { v.push_back(ev('i', x)); } void on_integer(uint64_t x) override { v.push_back(ev('i', x)); }
  void on_float32(float x) override { uint32_t u; memcpy(&u, &x, 4); v.push_back(ev('f', u)); } void on_double(double x) override { uint64_t u; memcpy(&u, &x, 8); v.push_back(ev('d', u)); }
  void on_bytes(uint8_t* d, int n) override { v.push_back(ev('b', (uint64_t)n, n > 0 ? std::string((char*)d, n) : "")); } void on_string(char* s) override { v.push_back(ev('s', 0, s)); }
  void on_array(int n) override { v.push_back(ev('a', (uint64_t)(int64_t)n)); } void on_map(int n) override { v.push_back(ev('m', (uint64_t)(int64_t)n)); }
  void on_tag(unsigned t) override { v.push_back(ev('t', t)); } void on_special(unsigned t) override { v.push_back(ev('x', t)); } void on_bool(bool b) override { v.push_back(ev('B', b)); } void on_null() override { v.push_back(ev('N')); } void on_undefined() override { v.push_back(ev('U')); }
  void on_error(const char*) override { v.push_back(ev('E')); } void on_extra_integer(uint64_t x, int sign) override { v.push_back(ev('i', x, "", sign < 0)); } void on_extra_tag(uint64_t t) override { v.push_back(ev('t', t)); } void on_extra_special(uint64_t t) override { v.push_back(ev('x', t)); }
};
static void be(std::string& o, uint64_t n, int w) { for (int i = w - 1; i >= 0; i--) o += (char)(uint8_t)(n >> (8 * i)); }
static void head(std::string& o, int major, uint64_t n, int atleast = 0) {
  int w = n < 24 ? 0 : n < 256 ? 1 : n < 65536 ? 2 : n < 0x100000000ull ? 4 : 8; while (w < atleast) w = w ? w * 2 : 1;
  o += (char)(uint8_t)(major << 5 | (w == 0 ? (int)n : w == 1 ? 24 : w == 2 ? 25 : w == 4 ? 26 : 27)); if (w) be(o, n, w);
}
/* What a reader must report for these bytes. Returns false if it must have failed; `used` is where the last whole item (or the error) ended. */
static bool read_ref(const std::string& in, std::vector<Ev>& o) {
  size_t p = 0; while (p < in.size()) {
    uint8_t t = in[p]; int maj = t >> 5, mi = t & 31; size_t q = p + 1; uint64_t n = mi;
    if (mi >= 28 || (maj == 7 && mi >= 28)) { o.push_back(ev('E')); return false; }
    int w = mi < 24 ? 0 : 1 << (mi - 24); if (q + w > in.size()) return true; if (w) { n = 0; for (int i = 0; i < w; i++) n = n << 8 | (uint8_t)in[q + i]; q += w; }
    if (maj >= 2 && maj <= 5 && (w == 8 || n > 0x7FFFFFFF)) { o.push_back(ev('E')); return false; }
    switch (maj) {
      case 0: o.push_back(ev('i', n)); break; case 1: o.push_back(ev('i', n, "", true)); break;
      case 2: case 3: if (n > in.size() - q) return true; { std::string s = in.substr(q, (size_t)n); q += (size_t)n; if (maj == 3) o.push_back(ev('s', 0, s.c_str())); else o.push_back(ev('b', n, s)); } break;
      case 4: o.push_back(ev('a', n)); break; case 5: o.push_back(ev('m', n)); break; case 6: o.push_back(ev('t', n)); break;
      default: if (w == 4) o.push_back(ev('f', n)); else if (w == 8) o.push_back(ev('d', n)); else if (w) o.push_back(ev('x', n)); else if (n == 20 || n == 21) o.push_back(ev('B', n == 21)); else if (n == 22) o.push_back(ev('N')); else if (n == 23) o.push_back(ev('U')); else o.push_back(ev('x', n));
    }
    p = q;
  }
  return true;
}
static uint64_t num(Rng& r) { switch (r.below(4)) { case 0: return r.below(30); case 1: { static const uint64_t e[] = {23, 24, 127, 128, 254, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537, 0x7FFFFFFE, 0x7FFFFFFF, 0x80000000ull, 0x80000001ull, 0xFFFFFFFEull, 0xFFFFFFFFull, 0x100000000ull, 0x7FFFFFFFFFFFFFFEull, 0x7FFFFFFFFFFFFFFFull, 0x8000000000000000ull, ~0ull - 1, ~0ull}; return e[r.below(26)]; } case 2: return r.u64() >> r.below(64); default: return r.edgy64(); } }
static size_t slen(Rng& r) { switch (r.below(12)) { case 0: return 0; case 1: return 22 + r.below(4); case 2: return 254 + r.below(4); case 3: return r.chance(1, 10) ? 65534 + r.below(4) : r.below(3000); default: return r.below(40); } }
static void encode(Ctx& c) {
  Rng& r = c.rng; std::string want; StringBuilder sb; output_stringbuilder os(&sb); bool fixed = r.chance(1, 3), tight = fixed && r.chance(1, 3);
  struct St { int k; uint64_t n; std::string s; std::vector<uint8_t> raw; }; std::vector<St> st; unsigned cnt = 1 + r.below(12);
  std::vector<size_t> ends;
  for (unsigned i = 0; i < cnt; i++) { St e; e.k = r.below(20); e.n = num(r); char b[16];
    switch (e.k) {
      case 0: head(want, 0, (uint8_t)e.n); break; case 1: head(want, 0, (uint16_t)e.n); break; case 2: head(want, 0, (uint32_t)e.n); break; case 3: head(want, 0, e.n); break;
      case 4: { int8_t v = (int8_t)e.n; head(want, v < 0, v < 0 ? (uint64_t)(-1 - v) : v); break; } case 5: { int16_t v = (int16_t)e.n; head(want, v < 0, v < 0 ? (uint64_t)(-1 - v) : v); break; } case 6: { int32_t v = (int32_t)e.n; head(want, v < 0, v < 0 ? (uint64_t)(-1 - (int64_t)v) : v); break; } case 7: { int64_t v = (int64_t)e.n; head(want, v < 0, v < 0 ? (uint64_t)(-1 - v) : v); break; }
      case 8: { e.s = rnd_bytes(r, slen(r), 0); head(want, 2, e.s.size()); want += e.s; break; } case 9: { e.s = rnd_bytes(r, slen(r), 4); head(want, 3, e.s.size()); want += e.s; break; } case 10: { e.s = rnd_bytes(r, slen(r), 0); head(want, 3, e.s.size()); want += e.s; break; }
      case 11: head(want, 6, (uint32_t)e.n); break; case 12: head(want, 4, (uint32_t)e.n); break; case 13: head(want, 5, (uint32_t)e.n); break;
      case 14: e.n = r.chance(1, 2) ? r.below(24) : 32 + r.below(224); head(want, 7, e.n); break; case 15: e.n &= 1; want += (char)(e.n ? 0xF5 : 0xF4); break;
      case 16: { float f = r.edgyFloat(); uint32_t u; memcpy(&u, &f, 4); if (nanbits(u, false)) u = 0x7FC00000; e.n = u; want += (char)0xFA; be(want, u, 4); break; } case 17: { double f = r.edgyDouble(); uint64_t u; memcpy(&u, &f, 8); if (nanbits(u, true)) u = 0x7FF8000000000000ull; e.n = u; want += (char)0xFB; be(want, u, 8); break; }
      default: { static const int tags[] = {64, 69, 70, 71, 72, 77, 78, 79, 85, 86}, ws[] = {1, 2, 4, 8, 1, 2, 4, 8, 4, 8}; int t = r.below(10); unsigned m = r.chance(1, 10) ? 20 + r.below(400) : r.chance(1, 600) ? 8000 + r.below(60000) : r.below(9); if (m * ws[t] > 65535) c.count("large_arrays"); e.k = 100 + t; e.n = m; e.s = rnd_bytes(r, m * ws[t], 0); if (m) { head(want, 6, tags[t]); head(want, 2, e.s.size()); want += e.s; } } (void)b;
    }
    ends.push_back(want.size()); st.push_back(e); c.count(e.k < 100 ? "encoded" : "typed_arrays"); c.op("put %d %llu +%u", e.k, (unsigned long long)e.n, (unsigned)e.s.size()); c.feat(mix(e.k, e.n < 24 ? 0 : e.n < 256 ? 1 : e.n < 65536 ? 2 : e.n >> 32 ? 4 : 3)); }
  uint32_t cap = tight ? (uint32_t)(want.size() ? r.below((uint32_t)want.size()) : 0) : (uint32_t)want.size() + r.below(3); bool own = r.chance(1, 2); uint8_t* mem = fixed && !own ? (uint8_t*)malloc(cap ? cap : 1) : nullptr;
  output_static* ofx = fixed ? (own ? new output_static(cap) : new output_static(cap, mem)) : nullptr; encoder e(fixed ? (output&)*ofx : (output&)os);
  for (auto& x : st) { uint8_t* q = (uint8_t*)malloc(x.s.size() + 1); memcpy(q, x.s.data(), x.s.size()); q[x.s.size()] = 0; int8_t ret = 0;
    switch (x.k) { case 0: e.write_int((uint8_t)x.n); break; case 1: e.write_int((uint16_t)x.n); break; case 2: e.write_int((uint32_t)x.n); break; case 3: e.write_int((uint64_t)x.n); break; case 4: e.write_int((int8_t)x.n); break; case 5: e.write_int((int16_t)x.n); break; case 6: e.write_int((int32_t)x.n); break; case 7: e.write_int((int64_t)x.n); break;
      case 8: e.write_bytes(q, x.s.size()); break; case 9: e.write_string((char*)q); break; case 10: e.write_string((char*)q, x.s.size()); break; case 11: e.write_tag((uint32_t)x.n); break; case 12: e.write_array((uint32_t)x.n); break; case 13: e.write_map((uint32_t)x.n); break; case 14: e.write_special((uint32_t)x.n); break; case 15: e.write_bool(x.n); break;
      case 16: { uint32_t u = (uint32_t)x.n; float f; memcpy(&f, &u, 4); e.write_float(f); break; } case 17: { double d; memcpy(&d, &x.n, 8); e.write_double(d); break; }
      case 100: ret = e.write_typed_array((uint8_t*)q, x.n); break; case 101: ret = e.write_typed_array((uint16_t*)q, x.n); break; case 102: ret = e.write_typed_array((uint32_t*)q, x.n); break; case 103: ret = e.write_typed_array((uint64_t*)q, x.n); break; case 104: ret = e.write_typed_array((int8_t*)q, x.n); break; case 105: ret = e.write_typed_array((int16_t*)q, x.n); break; case 106: ret = e.write_typed_array((int32_t*)q, x.n); break; case 107: ret = e.write_typed_array((int64_t*)q, x.n); break; case 108: ret = e.write_typed_array((float*)q, x.n); break; case 109: ret = e.write_typed_array((double*)q, x.n); break; }
    if (x.k >= 100) VF_CHECK((ret == 0) == (x.n > 0) && ret <= 0, "typed-array", "a typed array of %llu gave %d", (unsigned long long)x.n, ret); free(q); }
  c.hash(want.data(), want.size()); c.nontrivial = true;
  if (!fixed) { VF_CHECK(os.size() == want.size(), "encode-size", "size() is %u of %zu", os.size(), want.size()); sb_expect(&sb, want, "encode", "encoded bytes"); VF_CHECK(want.empty() || !memcmp(os.data(), want.data(), want.size()), "encode", "data() differs"); }
  else { VF_CHECK(ofx->size() <= cap && (tight || ofx->size() == want.size()), "encode-size", "fixed output holds %u of %zu in %u", ofx->size(), want.size(), cap); if (!tight) VF_CHECK(want.empty() || !memcmp(ofx->data(), want.data(), want.size()), "encode", "fixed output is %s, should be %s", hex((char*)ofx->data(), want.size()).c_str(), hex(want.data(), want.size()).c_str()); else if (!st.empty()) { size_t k = 0; while (k < ends.size() && ends[k] <= cap) k++; size_t whole = k ? ends[k - 1] : 0; VF_CHECK(ofx->size() >= whole && (!whole || !memcmp(ofx->data(), want.data(), whole)), "encode", "a full output lost what fitted"); c.count("outputs_overflowed"); }
    VF_CHECK(own || ofx->data() == mem, "encode", "the caller's buffer was replaced"); delete ofx; free(mem); }
}
static void rnd_item(Rng& r, std::string& o, bool& simple) {
  switch (r.below(9)) { case 0: head(o, 0, num(r), r.chance(1, 4) ? 1 << r.below(4) : 0); break; case 1: head(o, 1, num(r), r.chance(1, 4) ? 1 << r.below(4) : 0); break; case 2: case 3: { size_t n = slen(r); head(o, 2 + r.below(2), n, r.chance(1, 5) ? 1 << r.below(3) : 0); o += rnd_bytes(r, n, r.below(2) ? 0 : 4); break; } case 4: head(o, 4, num(r) >> (r.chance(9, 10) ? 33 : 0)); break; case 5: head(o, 5, num(r) >> (r.chance(9, 10) ? 33 : 0)); break; case 6: head(o, 6, num(r)); break;
    case 7: { unsigned k = r.below(3); if (k == 0) o += (char)(0xE0 | r.below(24)); else if (k == 1) { o += (char)0xF8; o += (char)(32 + r.below(224)); } else { o += (char)0xF9; be(o, r.u32(), 2); } break; }
    default: if (r.chance(1, 2)) { float f = r.edgyFloat(); uint32_t u; memcpy(&u, &f, 4); o += (char)0xFA; be(o, u, 4); } else { double d = r.edgyDouble(); uint64_t u; memcpy(&u, &d, 8); o += (char)0xFB; be(o, u, 8); } }
  (void)simple;
}
static void decode(Ctx& c) {
  Rng& r = c.rng; std::string in; bool s = true; unsigned kind = r.below(4);
  if (kind == 3) { in = rnd_bytes(r, r.below(60), 0); if (r.chance(1, 2)) for (auto& x : in) if (r.chance(1, 2)) x &= 0xE7; } else { unsigned n = r.below(16); for (unsigned i = 0; i < n; i++) rnd_item(r, in, s); if (kind == 1 && in.size()) in.resize(r.below((uint32_t)in.size())); if (kind == 2 && in.size()) { unsigned m = 1 + r.below(3); while (m--) in[r.below((uint32_t)in.size())] = (char)r.u32(); } }
  std::vector<Ev> want; bool ok = read_ref(in, want); c.hash(in.data(), in.size()); c.nontrivial = true; c.count(kind == 3 ? "random_streams" : kind == 0 ? "wellformed_streams" : "damaged_streams"); c.count("bytes_decoded", in.size());
  unsigned src = r.below(4); c.op("decode %s via %u", hex(in.data(), in.size() > 300 ? 300 : in.size()).c_str(), src); Log log;
  if (src == 0) { uint8_t* m = (uint8_t*)malloc(in.size() ? in.size() : 1); memcpy(m, in.data(), in.size()); input_static is(m, in.size()); decoder* d; if (r.chance(1, 2)) d = new decoder(is, log); else { d = new decoder(is); d->set_listener(log); } d->run(); VF_CHECK(d->failed() != ok, "failed", "failed() is %d", d->failed()); if (r.chance(1, 2)) { size_t k = log.v.size(); d->run(); VF_CHECK(log.v.size() == k, "rerun", "running again with nothing new gave more events"); } delete d; free(m); }
  else { StringBuilder* sb = new StringBuilder(); bool cont = src == 3, cons = src >= 2; bool whole = cont || r.chance(1, 3);
    if (whole) { size_t at = 0; while (at < in.size()) { size_t n = 1 + r.below((uint32_t)(in.size() - at)); sb->concat((uint8_t*)in.data() + at, n); at += n; } }
    { input_stringbuilder is(sb, cons, cont); decoder d(is, log);
      if (whole) d.run(); else { size_t at = 0; d.run(); while (at < in.size()) { size_t n = r.chance(1, 3) ? 1 : 1 + r.below((uint32_t)(in.size() - at)); sb->concat((uint8_t*)in.data() + at, n); at += n; d.run(); std::vector<Ev> part; read_ref(in.substr(0, at), part); VF_CHECK(log.v.size() == part.size(), "chunks", "%zu events after %zu bytes, should be %zu", log.v.size(), at, part.size()); c.count("cuts"); } }
      VF_CHECK(d.failed() != ok, "failed", "failed() is %d", d.failed());
      if (!cont && !cons) sb_expect(sb, in, "source", "a retained source");
      if (cons && !cont && ok) VF_CHECK((size_t)sb->length() <= in.size(), "source", "consumed source grew"); }
    if (!cont) delete sb; }
  for (size_t i = 0; i < log.v.size() || i < want.size(); i++) VF_CHECK(i < log.v.size() && i < want.size() && eq(log.v[i], want[i]), "events", "event %zu is %s, should be %s", i, i < log.v.size() ? show(log.v[i]).c_str() : "missing", i < want.size() ? show(want[i]).c_str() : "nothing");
  c.count("events", want.size()); if (!ok) c.count("errors_reported"); for (auto& e : want) c.feat(mix(300 + e.k, e.neg * 8 + (e.n < 24 ? 0 : e.n < 256 ? 1 : e.n < 65536 ? 2 : e.n >> 32 ? 4 : 3)));
}
void vf_case(Ctx& c) { if (c.rng.chance(2, 5)) encode(c); else decode(c); }
