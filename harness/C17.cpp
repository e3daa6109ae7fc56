/* C17: typed values. Every conversion is judged against exact arithmetic (long double holds every 64-bit integer, float and double). */
#include "sbmodel.h"
#include "C3PValue/C3PValue.h"
#include "C3PValue/KeyValuePair.h"
#include "TimerTools/TimerTools.h"
#include <vector>
#include <string>
#include <cmath>
const char* VF_PROPERTY = "C17";
const char* VF_RULE = "A case is a history on one typed value: constructed empty or from a value, set from values of all numeric types (extremes, the limits of every type and their neighbours, random) directly, through another typed value or through a generic pointer, and read as every type; or the same for strings, buffers, vectors, string builders and other references, including replacement of owned content. Distinct by type and history.";
using namespace vf;
void vf_setup() {}
typedef long double LD;
static const TCode NT[] = {TCode::UINT8, TCode::UINT16, TCode::UINT32, TCode::UINT64, TCode::INT8, TCode::INT16, TCode::INT32, TCode::INT64, TCode::BOOLEAN, TCode::FLOAT, TCode::DOUBLE};
static const unsigned W[] = {1, 2, 4, 8, 1, 2, 4, 8, 1, 4, 8};
static bool isint(int t) { return t < 8; }
struct Raw { alignas(16) uint8_t b[16]; };
static LD val(int t, const void* p) { union { uint8_t a; uint16_t b; uint32_t c; uint64_t d; int8_t e; int16_t f; int32_t g; int64_t h; float i; double j; } u; memcpy(&u, p, W[t]); switch (t) { case 0: return u.a; case 1: return u.b; case 2: return u.c; case 3: return u.d; case 4: return u.e; case 5: return u.f; case 6: return u.g; case 7: return u.h; case 8: return u.a ? 1 : 0; case 9: return u.i; default: return u.j; } }
static void gen(Rng& r, int t, Raw& o) { memset(&o, 0x5A, sizeof o); if (t < 8) { uint64_t v = r.chance(1, 3) ? r.edgy64() >> (64 - W[t] * 8) : r.edgy64(); if (r.chance(1, 3)) { static const int e[] = {7, 8, 15, 16, 31, 32, 63}; v = (1ull << e[r.below(7)]) + (uint64_t)(int64_t)((int)r.below(3) - 1); if (r.chance(1, 2)) v = 0 - v; } else if (r.chance(1, 6)) v = r.below(300); else if (r.chance(1, 8)) v = (uint64_t)-(int64_t)r.below(300); memcpy(o.b, &v, W[t]); } else if (t == 8) o.b[0] = (uint8_t)r.chance(1, 2); else if (t == 9) { float f = r.chance(1, 6) ? (float)(int64_t)r.edgy64() : r.edgyFloat(); if (r.chance(1, 8)) f = r.chance(1, 2) ? 0.0f : -0.0f; memcpy(o.b, &f, 4); } else { double d = r.chance(1, 6) ? (double)(int64_t)r.edgy64() : r.edgyDouble(); if (r.chance(1, 8)) d = r.chance(1, 2) ? 0.0 : -0.0; memcpy(o.b, &d, 8); } }
static bool fits(int t, LD v) { switch (t) { case 0: return v >= 0 && v <= 0xFF; case 1: return v >= 0 && v <= 0xFFFF; case 2: return v >= 0 && v <= 0xFFFFFFFFu; case 3: return v >= 0; case 4: return v >= -128 && v <= 127; case 5: return v >= -32768 && v <= 32767; case 6: return v >= (LD)INT32_MIN && v <= (LD)INT32_MAX; case 7: return v <= (LD)INT64_MAX; default: return true; } }
/* 1 must succeed, 0 must be refused, -1 not specified. Integers are only ever sources for other numbers; real numbers convert to BOOLEAN and wider reals. */
static int want(int from, int to, LD v, bool get) {
  if (from == to || to == 8) return 1;
  if (from == 8) return 1;
  if (from <= 7 && to <= 7) return fits(to, v) ? 1 : 0;
  if (from <= 7 && to >= 9) { if (to == 9 && W[from] == 8) return 0; return 1; }
  if (from == 9 && to == 10) return 1;
  return 0;
}
static bool same(int to, LD got, LD v) { if (to == 8) return got == (LD)(v != 0 ? 1 : 0); if (to == 9) { float f = (float)v; return f == (float)got || (std::isnan(f) && std::isnan((float)got)); } if (to == 10) { double d = (double)v; return d == (double)got || (std::isnan(d) && std::isnan((double)got)); } return got == v; }
static const char* nm(int t) { return typecodeToStr(NT[t]); }
static C3PValue* mk(int t, const Raw& x) {
  switch (t) { case 0: { uint8_t v; memcpy(&v, x.b, 1); return new C3PValue(v); } case 1: { uint16_t v; memcpy(&v, x.b, 2); return new C3PValue(v); } case 2: { uint32_t v; memcpy(&v, x.b, 4); return new C3PValue(v); } case 3: { uint64_t v; memcpy(&v, x.b, 8); return new C3PValue(v); } case 4: { int8_t v; memcpy(&v, x.b, 1); return new C3PValue(v); } case 5: { int16_t v; memcpy(&v, x.b, 2); return new C3PValue(v); } case 6: { int32_t v; memcpy(&v, x.b, 4); return new C3PValue(v); } case 7: { int64_t v; memcpy(&v, x.b, 8); return new C3PValue(v); } case 8: return new C3PValue((bool)x.b[0]); case 9: { float v; memcpy(&v, x.b, 4); return new C3PValue(v); } default: { double v; memcpy(&v, x.b, 8); return new C3PValue(v); } } }
static C3PValue* mkk(int t, const Raw& x) {
  const char* k = "key"; switch (t) { case 0: { uint8_t v; memcpy(&v, x.b, 1); return new KeyValuePair(k, v); } case 1: { uint16_t v; memcpy(&v, x.b, 2); return new KeyValuePair(k, v); } case 2: { uint32_t v; memcpy(&v, x.b, 4); return new KeyValuePair(k, v); } case 3: { uint64_t v; memcpy(&v, x.b, 8); return new KeyValuePair(k, v); } case 4: { int8_t v; memcpy(&v, x.b, 1); return new KeyValuePair(k, v); } case 5: { int16_t v; memcpy(&v, x.b, 2); return new KeyValuePair(k, v); } case 6: { int32_t v; memcpy(&v, x.b, 4); return new KeyValuePair(k, v); } case 7: { int64_t v; memcpy(&v, x.b, 8); return new KeyValuePair(k, v); } case 8: return new KeyValuePair(k, (bool)x.b[0]); case 9: { float v; memcpy(&v, x.b, 4); return new KeyValuePair(k, v); } default: { double v; memcpy(&v, x.b, 8); return new KeyValuePair(k, v); } } }
static int8_t setx(C3PValue* v, int t, Raw& x) {
  switch (t) { case 0: { uint8_t a; memcpy(&a, x.b, 1); return v->set(a); } case 1: { uint16_t a; memcpy(&a, x.b, 2); return v->set(a); } case 2: { uint32_t a; memcpy(&a, x.b, 4); return v->set(a); } case 3: { uint64_t a; memcpy(&a, x.b, 8); return v->set(a); } case 4: { int8_t a; memcpy(&a, x.b, 1); return v->set(a); } case 5: { int16_t a; memcpy(&a, x.b, 2); return v->set(a); } case 6: { int32_t a; memcpy(&a, x.b, 4); return v->set(a); } case 7: { int64_t a; memcpy(&a, x.b, 8); return v->set(a); } case 8: return v->set((bool)x.b[0]); case 9: { float a; memcpy(&a, x.b, 4); return v->set(a); } default: { double a; memcpy(&a, x.b, 8); return v->set(a); } } }
static void check_num(Ctx& c, C3PValue* v, int t, LD m) {
  Rng& r = c.rng; VF_CHECK(v->tcode() == NT[t] && v->is_numeric() && v->is_fixed_length() && v->length() == W[t], "identity", "type %u length %u of a %s", (unsigned)v->tcode(), v->length(), nm(t));
  for (int k = 0; k < 5; k++) {
    int d = k ? (int)r.below(11) : t; Raw o; memset(&o, 0xC3, sizeof o); int8_t ret = v->get_as(NT[d], o.b); int w = want(t, d, m, true);
    VF_CHECK((ret == 0) == (w == 1), "get-outcome", "reading %s %.21Lg as %s %s", nm(t), m, nm(d), ret == 0 ? "succeeded" : "failed");
    if (ret == 0) VF_CHECK(same(d, val(d, o.b), m), "get-value", "%s %.21Lg reads as %s %.21Lg", nm(t), m, nm(d), val(d, o.b)); else VF_CHECK(ret < 0, "get-outcome", "failure code %d", ret);
    for (unsigned i = ret == 0 ? W[d] : 0; i < 16; i++) VF_CHECK(o.b[i] == 0xC3, "get-bounds", "reading %s as %s (%d) wrote byte %u of the destination", nm(t), nm(d), ret, i);
    c.count(ret == 0 ? d == t ? "reads_same" : "reads_converted" : "reads_refused"); c.feat(mix(t * 16 + d, ret == 0));
    int risk = C3PType::conversionRisk(NT[t], NT[d]); if (risk == 0) VF_CHECK(w == 1, "risk", "converting %s %.21Lg to %s is said to be always possible", nm(t), m, nm(d)); else if (risk < 0) VF_CHECK(w != 1, "risk", "converting %s %.21Lg to %s is said to be impossible", nm(t), m, nm(d)); else VF_CHECK(risk <= 3, "risk", "risk is %d", risk);
    if (t < 8 && d < 8) { bool lo = fits(d, t < 4 ? 0 : -powl(2, W[t] * 8 - 1)), hi = fits(d, powl(2, W[t] * 8 - (t >= 4)) - 1); int e = t >= 4 && d < 4 ? (hi ? 2 : 3) : (lo && hi ? 0 : 1); VF_CHECK(risk == e, "risk", "risk of %s to %s is %d, should be %d", nm(t), nm(d), risk, e); }
    if (t == d) VF_CHECK(risk == 0, "risk", "risk to self is %d", risk);
  }
  for (int k = 0; k < 2; k++) { int8_t s = 77; int8_t* sp = r.chance(1, 5) ? nullptr : &s; LD g = 0; int d = 0;
    switch (r.below(7)) { case 0: d = 2; g = v->get_as_uint(sp); break; case 1: d = 6; g = v->get_as_int(sp); break; case 2: d = 3; g = v->get_as_uint64(sp); break; case 3: d = 7; g = v->get_as_int64(sp); break; case 4: d = 9; g = v->get_as_float(sp); break; case 5: d = 10; g = v->get_as_double(sp); break; default: d = 8; g = v->get_as_bool(sp); }
    int w = want(t, d, m, true); if (sp) VF_CHECK((s == 1) == (w == 1) && (s == 0 || s == 1), "get-short", "%s %.21Lg as %s says %d", nm(t), m, nm(d), s); VF_CHECK(w == 1 ? same(d, g, m) : g == 0, "get-short", "%s %.21Lg as %s gives %.21Lg", nm(t), m, nm(d), g); }
  if (r.chance(1, 3)) { StringBuilder o; v->toString(&o, false); char b[420]; if (isint(t)) { if (m < 0) snprintf(b, sizeof b, "%lld", (long long)m); else snprintf(b, sizeof b, "%llu", (unsigned long long)m); } else if (t == 8) strcpy(b, m ? "true" : "false"); else snprintf(b, sizeof b, t == 9 ? "%.4f" : "%.6f", (double)m); if (strlen(b) < 250) sb_expect(&o, b, "text", "a printed number"); c.count("prints"); }
}
static void numbers(Ctx& c) {
  Rng& r = c.rng; int t = r.below(11); Raw x; LD m = 0; C3PValue* v; bool keyed = r.chance(1, 4);
  unsigned how = r.below(4); if (how == 0) { v = keyed ? new KeyValuePair(NT[t], "key") : new C3PValue(NT[t]); c.op("new %s", nm(t)); } else { gen(r, t, x); m = val(t, x.b); v = keyed ? mkk(t, x) : mk(t, x); c.op("new %s %.21Lg", nm(t), m); }
  uint16_t tr = v->trace(), seen = tr; VF_CHECK(keyed == v->has_key() && !v->memError(), "identity", "key %d", v->has_key());
  check_num(c, v, t, m);
  unsigned n = 1 + r.below(8);
  for (unsigned i = 0; i < n; i++) {
    int s = r.chance(1, 4) ? t : (int)r.below(11); gen(r, s, x); LD a = val(s, x.b); c.op("set %s %.21Lg", nm(s), a); int8_t ret; unsigned o = r.below(3); Raw in = x; int w = want(s, t, a, false);
    if (o == 0) ret = setx(v, s, x);
    else if (o == 1) { uint8_t* e = (uint8_t*)malloc(W[s]); memcpy(e, x.b, W[s]); ret = v->set_from(NT[s], e); VF_CHECK(!memcmp(e, in.b, W[s]), "set-source", "setting changed the source"); free(e); }
    else { C3PValue* u = r.chance(1, 3) ? mkk(s, x) : mk(s, x); ret = v->set(u); Raw g; VF_CHECK(u->get_as(NT[s], g.b) == 0 && same(s, val(s, g.b), a), "set-source", "setting changed the source from %.21Lg to %.21Lg", a, val(s, g.b)); delete u; c.count("sets_from_value"); }
    VF_CHECK((ret == 0) == (w == 1), "set-outcome", "setting a %s from %s %.21Lg %s", nm(t), nm(s), a, ret == 0 ? "succeeded" : "failed"); VF_CHECK(ret <= 0, "set-outcome", "setting gave %d", ret);
    if (ret == 0) { m = t == 8 ? (LD)(a != 0) : t == 9 ? (LD)(float)a : t == 10 ? (LD)(double)a : a; tr++; }
    VF_CHECK(v->trace() == tr, "trace", "the change count is %u, should be %u", v->trace(), tr); c.count(ret == 0 ? "sets" : "sets_refused"); c.feat(mix(1000 + t * 16 + s, ret == 0)); c.hash(&a, 10);
    if (r.chance(1, 2)) { bool d = v->dirty(&seen); static uint16_t last; (void)last; VF_CHECK(seen == tr, "trace", "dirty() left the marker at %u of %u", seen, tr); bool d2 = v->dirty(&seen); VF_CHECK(!d2, "trace", "dirty twice"); (void)d; }
    if (r.chance(1, 8)) { v->markDirty(); tr++; VF_CHECK(v->dirty(&seen) && !v->dirty(&seen) && !v->dirty(nullptr), "trace", "markDirty"); }
    check_num(c, v, t, m);
    if (r.chance(1, 10)) { char* p = nullptr; Vector3f vf3; StringBuilder* sb = nullptr; uint8_t* bp = nullptr; uint32_t bl = 0; VF_CHECK(v->get_as(&bp, &bl) < 0 && v->set((uint8_t*)"abc", 3) < 0, "get-outcome", "a number reads as a buffer"); VF_CHECK(v->get_as(&p) < 0 && v->get_as(&vf3) < 0 && v->get_as(&sb) < 0, "get-outcome", "a number reads as something else"); Vector3f q(1, 2, 3); VF_CHECK(v->set(&q) < 0 && v->set_from(TCode::STR, (void*)"x") < 0 && v->set((C3PValue*)nullptr) < 0, "set-outcome", "a number was set from something else"); check_num(c, v, t, m); }
  }
  delete v;
}
static std::string text(Rng& r) { return rnd_bytes(r, rnd_len(r), r.chance(1, 2) ? 1 : 4); }
static void check_str(Ctx& c, C3PValue* v, const std::string& m) {
  char* g = nullptr; VF_CHECK(v->get_as(&g) == 0 && g && m == g, "string", "a string reads as %s", g ? quote(g, strlen(g)).c_str() : "null"); const char* h = nullptr; VF_CHECK(v->get_as(&h) == 0 && h && m == h, "string", "a string reads differently as const");
  VF_CHECK(v->length() == m.size() + 1 && !v->is_numeric() && !v->is_fixed_length(), "string", "length %u", v->length()); StringBuilder o("<"); StringBuilder* op = &o; VF_CHECK(v->get_as(&op) == 0 && op == &o, "string", "reading into a builder failed"); sb_expect(&o, "<" + m, "string", "a string read into a builder"); StringBuilder p; v->toString(&p); sb_expect(&p, m, "text", "a printed string");
  uint32_t u = 5; VF_CHECK(v->get_as(&u) < 0 && u == 5, "get-outcome", "a string reads as a number"); c.count("strings");
}
static void strings(Ctx& c) {
  Rng& r = c.rng; std::vector<char*> keep; auto own = [&](const std::string& s) { char* p = (char*)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); keep.push_back(p); return p; };
  std::string m = text(r); C3PValue* v; unsigned how = r.below(4); c.op("string %u %s", how, quote(m.data(), m.size()).c_str()); bool keyed = r.chance(1, 4);
  if (how == 0) { char* p = (char*)malloc(m.size() + 1); memcpy(p, m.c_str(), m.size() + 1); v = new C3PValue(p); memset(p, '#', m.size()); free(p); VF_CHECK(v->reapValue(), "ownership", "a copied string is not owned"); c.count("strings_copied"); }
  else if (how == 1) { v = keyed ? (C3PValue*)new KeyValuePair("key", (const char*)own(m)) : new C3PValue((const char*)own(m)); VF_CHECK(!v->reapValue(), "ownership", "a referenced string is owned"); }
  else if (how == 2) { v = new C3PValue((const char*)strdup(m.c_str())); v->reapValue(true); c.count("strings_given"); }
  else { v = keyed ? new KeyValuePair(TCode::STR, "key") : new C3PValue(TCode::STR); const char* g = "x"; VF_CHECK(v->length() == 0 && v->get_as(&g) == 0 && g == nullptr, "string", "an empty string value has content"); VF_CHECK(v->set((const char*)own(m)) == 0, "set-outcome", "setting a string failed"); }
  check_str(c, v, m); uint16_t tr = v->trace();
  for (unsigned i = 0, n = r.below(4); i < n; i++) { std::string s = text(r); c.op("replace %s", quote(s.data(), s.size()).c_str()); switch (r.below(4)) { case 0: VF_CHECK(v->set((const char*)own(s)) == 0, "set-outcome", "setting a string failed"); m = s; tr++; break; case 1: VF_CHECK(v->set(own(s)) == 0, "set-outcome", "setting a string failed"); m = s; tr++; break; case 2: { C3PValue u((const char*)own(s)); VF_CHECK(v->set(&u) == 0, "set-outcome", "setting a string from a value failed"); m = s; tr++; break; } default: VF_CHECK(v->set((uint32_t)7) < 0 && v->set(1.5f) < 0, "set-outcome", "a string was set from a number"); } c.count("strings_replaced"); VF_CHECK(v->trace() == tr, "trace", "the change count is %u, should be %u", v->trace(), tr); check_str(c, v, m); }
  c.hash(m.data(), m.size()); delete v; for (char* p : keep) free(p);
}
static void check_bin(Ctx& c, C3PValue* v, const std::string& m) {
  uint8_t* b = (uint8_t*)1; uint32_t l = 99999; VF_CHECK(v->get_as(&b, &l) == 0 && l == m.size() && (l == 0 || !memcmp(b, m.data(), l)), "binary", "a buffer of %zu reads as %u bytes", m.size(), l); int8_t s = 7; C3PBinBinder q = v->get_as_ptr_len(&s); VF_CHECK(s == 1 && q.len == m.size() && (q.len == 0 || !memcmp(q.buf, m.data(), q.len)), "binary", "a buffer of %zu reads as %u bytes", m.size(), q.len); VF_CHECK(v->length() == m.size() && v->is_ptr_len() && !v->is_numeric(), "binary", "length %u", v->length()); uint32_t u = 5; VF_CHECK(v->get_as(&u) < 0 && u == 5, "get-outcome", "a buffer reads as a number"); c.count("buffers");
}
static void buffers(Ctx& c) {
  Rng& r = c.rng; std::string m = rnd_bytes(r, rnd_len(r), 0); std::vector<uint8_t*> keep; auto mem = [&](const std::string& s, bool k) { uint8_t* p = (uint8_t*)malloc(s.size() ? s.size() : 1); memcpy(p, s.data(), s.size()); if (k) keep.push_back(p); return p; };
  bool give = r.chance(1, 2), keyed = r.chance(1, 3); c.op("buffer %zu %s", m.size(), give ? "given" : "lent"); C3PValue* v; unsigned how = r.below(4);
  if (how == 3) { v = keyed ? new KeyValuePair(TCode::BINARY, "key") : new C3PValue(TCode::BINARY); give = false; check_bin(c, v, ""); VF_CHECK(v->set(mem(m, true), m.size()) == 0, "set-outcome", "setting a buffer failed"); } else v = keyed ? (C3PValue*)new KeyValuePair("key", mem(m, !give), m.size()) : new C3PValue(mem(m, !give), m.size());
  if (give) v->reapValue(true); check_bin(c, v, m); if (keyed) VF_CHECK(v->has_key() && !strcmp(((KeyValuePair*)v)->getKey(), "key"), "binary", "the key is gone");
  if (r.chance(1, 2)) { std::string s = rnd_bytes(r, rnd_len(r), 0); uint16_t tr = v->trace(); c.op("replace %zu", s.size()); if (r.chance(1, 2)) { C3PValue u(mem(s, true), s.size()); VF_CHECK(v->set(&u) == 0, "set-outcome", "setting a buffer from a value failed"); check_bin(c, &u, s); c.count("buffers_from_value"); } else VF_CHECK(v->set(mem(s, true), s.size()) == 0, "set-outcome", "setting a buffer failed"); VF_CHECK(v->trace() == (uint16_t)(tr + 1), "trace", "the change count is %u", v->trace()); check_bin(c, v, s); if (keyed) VF_CHECK(v->has_key() && !strcmp(((KeyValuePair*)v)->getKey(), "key"), "binary", "the key is gone"); }
  c.hash(m.data(), m.size()); delete v; for (uint8_t* p : keep) free(p);
}
template <class E> static void vectors(Ctx& c, TCode tc) {
  Rng& r = c.rng; typedef Vector3<E> V; auto rv = [&](V& q) { Raw b; for (int i = 0; i < 3; i++) { uint64_t x = r.edgy64(); E e; if (std::is_floating_point<E>::value) e = (E)r.edgyDouble(); else memcpy(&e, &x, sizeof e); (i == 0 ? q.x : i == 1 ? q.y : q.z) = e; } (void)b; }; auto eq = [](E a, E b) { return a == b || (a != a && b != b); };
  V m, q; rv(m); bool keyed = r.chance(1, 3); C3PValue* v; c.op("vector %s", typecodeToStr(tc)); if (r.chance(1, 3)) { m = V(); v = keyed ? new KeyValuePair(tc, "key") : new C3PValue(tc); } else { V tmp(m); v = keyed ? (C3PValue*)new KeyValuePair("key", &tmp) : new C3PValue(&tmp); rv(tmp); }
  for (int i = 0; i < 3; i++) {
    c.hash(&m, sizeof m); rv(q); VF_CHECK(v->get_as(&q) == 0 && eq(q.x, m.x) && eq(q.y, m.y) && eq(q.z, m.z), "vector", "a %s changed", typecodeToStr(tc)); VF_CHECK(v->length() == 3 * sizeof(E) && !v->is_numeric() && v->is_fixed_length(), "vector", "length %u", v->length()); uint32_t u = 5; Vector3<uint32_t> a(7, 7, 7); Vector3<int8_t> b(7, 7, 7); VF_CHECK(v->get_as(&u) < 0 && u == 5, "get-outcome", "a vector reads as a number"); if (tc != TCode::VECT_3_UINT32) VF_CHECK(v->get_as(&a) < 0 && a.x == 7, "get-outcome", "a vector reads as another type"); if (tc != TCode::VECT_3_INT8) VF_CHECK(v->get_as(&b) < 0 && b.x == 7, "get-outcome", "a vector reads as another type");
    uint16_t tr = v->trace(); V n; rv(n); switch (r.below(4)) { case 0: VF_CHECK(v->set(&n) == 0, "set-outcome", "setting a vector failed"); m = n; tr++; break; case 1: { C3PValue w(&n); VF_CHECK(v->set(&w) == 0, "set-outcome", "setting a vector from a value failed"); m = n; tr++; break; } case 2: { E f[3] = {n.x, n.y, n.z}; C3PValue w((uint8_t*)f, sizeof f); VF_CHECK(v->set(&w) == 0, "set-outcome", "setting a vector from a buffer failed"); m = n; tr++; break; } default: if (tc != TCode::VECT_3_INT8) VF_CHECK(v->set(&b) < 0 && v->set((uint32_t)5) < 0, "set-outcome", "a vector was set from another type"); { unsigned l = r.below(3 * sizeof(E)); uint8_t* p = (uint8_t*)malloc(l ? l : 1); memset(p, 1, l ? l : 1); C3PValue w(p, l); VF_CHECK(v->set(&w) < 0, "set-outcome", "a vector was set from %u bytes", l); free(p); c.count("vectors_short"); } }
    VF_CHECK(v->trace() == tr, "trace", "the change count is %u, should be %u", v->trace(), tr); c.count("vectors"); }
  delete v; c.feat(mix(77, (int)tc));
}
static void refs(Ctx& c) {
  Rng& r = c.rng; bool keyed = r.chance(1, 3), give = r.chance(1, 2); unsigned k = r.below(3); c.op("reference %u %d", k, give);
  if (k == 0) { std::string m; StringBuilder* s = new StringBuilder(); m = text(r); s->concat((uint8_t*)m.data(), m.size()); StringBuilder other; std::string om = text(r); other.concat((uint8_t*)om.data(), om.size());
    C3PValue* v = keyed ? (C3PValue*)new KeyValuePair("key", s) : new C3PValue(s); if (give) v->reapValue(true); StringBuilder* g = nullptr; VF_CHECK(v->get_as(&g) == 0 && g == s, "reference", "a builder reads as another"); StringBuilder o("<"); g = &o; VF_CHECK(v->get_as(&g) == 0 && g == &o, "reference", "a builder is not appended"); sb_expect(&o, "<" + m, "reference", "an appended builder"); StringBuilder p; v->toString(&p); sb_expect(&p, m, "text", "a printed builder"); VF_CHECK(v->length() == m.size(), "reference", "length %u", v->length()); sb_expect(s, m, "reference", "the builder itself");
    if (r.chance(1, 2)) { if (r.chance(1, 2)) { C3PValue u(&other); VF_CHECK(v->set(&u) == 0, "set-outcome", "setting a builder from a value failed"); } else VF_CHECK(v->set(&other) == 0, "set-outcome", "setting a builder failed"); g = nullptr; VF_CHECK(v->get_as(&g) == 0 && g == &other, "reference", "a replaced builder reads as another"); StringBuilder p2; v->toString(&p2); sb_expect(&p2, om, "text", "a printed builder"); c.count("references_replaced"); }
    delete v; if (!give) delete s; }
  else if (k == 1) { StopWatch* s = new StopWatch(); StopWatch s2; C3PValue* v = keyed ? (C3PValue*)new KeyValuePair("key", s) : new C3PValue(s); if (give) v->reapValue(true); StopWatch* g = nullptr; VF_CHECK(v->get_as(&g) == 0 && g == s, "reference", "a stopwatch reads as another"); if (r.chance(1, 2)) { VF_CHECK(v->set(&s2) == 0, "set-outcome", "setting a stopwatch failed"); VF_CHECK(v->get_as(&g) == 0 && g == &s2, "reference", "a replaced stopwatch reads as another"); c.count("references_replaced"); } delete v; if (!give) delete s; }
  else { KeyValuePair* s = new KeyValuePair("a", (uint8_t)5); C3PValue* v = keyed ? (C3PValue*)new KeyValuePair("key", s) : new C3PValue(s); if (give) v->reapValue(true); KeyValuePair* g = nullptr; VF_CHECK(v->get_as(&g) == 0 && g == s, "reference", "a map reads as another"); int8_t ok = 0; VF_CHECK(v->get_as_kvp(&ok) == s && ok == 1, "reference", "a map reads as another"); delete v; if (!give) delete s; }
  c.count("references");
}
void vf_case(Ctx& c) {
  Rng& r = c.rng; switch (r.below(10)) { case 0: case 1: case 2: case 3: case 4: numbers(c); break; case 5: strings(c); break; case 6: buffers(c); break; case 7: refs(c); break; default: switch (r.below(8)) { case 0: vectors<int8_t>(c, TCode::VECT_3_INT8); break; case 1: vectors<int16_t>(c, TCode::VECT_3_INT16); break; case 2: vectors<int32_t>(c, TCode::VECT_3_INT32); break; case 3: vectors<uint8_t>(c, TCode::VECT_3_UINT8); break; case 4: vectors<uint16_t>(c, TCode::VECT_3_UINT16); break; case 5: vectors<uint32_t>(c, TCode::VECT_3_UINT32); break; case 6: vectors<float>(c, TCode::VECT_3_FLOAT); break; default: vectors<double>(c, TCode::VECT_3_DOUBLE); } }
  c.nontrivial = true;
}
