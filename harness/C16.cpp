/* C16: enumeration tables, flag containers, unit and line-ending names. */
#include "sbmodel.h"
#include "EnumWrapper.h"
#include "FlagContainer.h"
#include "EnumeratedTypeCodes.h"
#include <vector>
#include <string>
const char* VF_PROPERTY = "C16";
const char* VF_RULE = "A case is one random enumeration table (0 to 20 entries and sometimes 100 to 600, 8-, 16- or 32-bit values, repeated values and names, any flags and contexts) questioned about declared, neighbouring and random values and names; or a history on one flag container of 8 to 64 bits; or unit strings. Distinct by the table or the history.";
using namespace vf;
void vf_setup() {}
template <class T> static void tables(Ctx& c) {
  Rng& r = c.rng; const bool wide = r.chance(1, 60); const unsigned n = wide ? 100 + r.below(500) : r.chance(1, 12) ? 0 : 1 + r.below(r.chance(1, 2) ? 4 : 20); struct E { uint32_t v; std::string s; uint8_t f, x; }; std::vector<E> m; std::string d;
  for (unsigned i = 0; i < n; i++) { E e; e.v = (uint32_t)(T)(wide ? r.below(1000) : r.chance(1, 2) ? r.below(16) : r.edgy64()); if (i && r.chance(1, 8)) e.v = m[r.below(i)].v; e.s = r.chance(1, 10) ? "" : rnd_bytes(r, 1 + r.below(r.chance(1, 3) ? 2 : 9), r.chance(1, 2) ? 2 : 1); if (i && r.chance(1, 8)) e.s = m[r.below(i)].s; e.f = r.chance(1, 2) ? 0 : (uint8_t)(r.chance(1, 2) ? r.below(4) : r.u32()); e.x = (uint8_t)r.u32(); m.push_back(e); d += " " + std::to_string(e.v) + "=" + e.s + "/" + std::to_string(e.f); }
  EnumDef<T>* defs = (EnumDef<T>*)malloc((n ? n : 1) * sizeof(EnumDef<T>)); for (unsigned i = 0; i < n; i++) new (defs + i) EnumDef<T>((T)m[i].v, m[i].s.c_str(), m[i].f, m[i].x);
  const EnumDefList<T> L(defs, n, "name"); c.op("table%s", quote(d.data(), d.size()).c_str()); VF_CHECK(L.COUNT == n && !strcmp(L.LIST_NAME, "name"), "count", "COUNT %u", L.COUNT);
  { StringBuilder k; L.exportKeys(&k); std::string want; uint32_t vc = 0; for (E& e : m) if (!(e.f & 2)) { want += e.s; vc++; } sb_expect(&k, want, "export", "exportKeys"); VF_CHECK(L.exportCount() == vc, "export", "exportCount is %u of %u valid", L.exportCount(), vc); }
  for (int k = 0; k < 40; k++) {
    uint32_t v = (uint32_t)(T)(n && r.chance(2, 3) ? m[r.below(n)].v + (r.chance(1, 4) ? 1 : 0) : (r.chance(1, 2) ? r.below(16) : r.edgy64())); int at = -1; for (unsigned i = 0; i < n && at < 0; i++) if (m[i].v == v) at = (int)i;
    VF_CHECK(L.enumValid((T)v) == (at >= 0 && !(m[at].f & 2)), "valid", "%u is said to be %svalid", v, L.enumValid((T)v) ? "" : "in");
    VF_CHECK(!strcmp(L.enumStr((T)v), at >= 0 ? m[at].s.c_str() : "<NO ENUM>"), "by-value", "%u is %s", v, L.enumStr((T)v)); VF_CHECK(L.enumExtra((T)v) == (at >= 0 ? m[at].x : 0), "by-value", "the context of %u is %u", v, L.enumExtra((T)v)); VF_CHECK(L.enumDef((T)v) == (at >= 0 ? defs + at : nullptr), "by-value", "the definition of %u is another", v); c.count(at >= 0 ? "values_found" : "values_missing");
    std::string s = n && r.chance(2, 3) ? m[r.below(n)].s : rnd_bytes(r, r.below(5), 2); if (r.chance(1, 3)) for (char& ch : s) ch = (char)(r.chance(1, 2) ? toupper(ch) : tolower(ch)); if (r.chance(1, 5)) s += r.chance(1, 2) ? " " : "x"; if (r.chance(1, 6) && !s.empty()) s.erase(s.size() - 1);
    at = -1; int all = -1; for (unsigned i = 0; i < n && at < 0; i++) { bool same = m[i].s.size() == s.size(); for (size_t j = 0; same && j < s.size(); j++) same = tolower((unsigned char)m[i].s[j]) == tolower((unsigned char)s[j]); if (same) at = (int)i; if (m[i].f & 1) all = (int)i; }
    const EnumDef<T>* g = L.getEnumDefByStr(s.c_str()); VF_CHECK(g == (at >= 0 ? defs + at : all >= 0 ? defs + all : nullptr), "by-name", "%s is found as %d, should be %d (catch-all %d)", quote(s.data(), s.size()).c_str(), g ? (int)(g - defs) : -1, at, all);
    if (n) { int8_t f = 77; const bool ask = !r.chance(1, 4); T t = L.getEnumByStr(s.c_str(), ask ? &f : nullptr); VF_CHECK(f == (ask ? at >= 0 : 77), "by-name", "found is %d", f); VF_CHECK((uint32_t)t == m[at >= 0 ? at : all >= 0 ? all : (int)n - 1].v, "by-name", "%s gives %u", quote(s.data(), s.size()).c_str(), (uint32_t)t); }
    c.count(at >= 0 ? "names_found" : all >= 0 ? "names_catch_all" : "names_missing"); c.hash(&v, 4); c.hash(s.data(), s.size());
  }
  if (wide) c.count("wide_tables"); free(defs); c.feat(mix(n, sizeof(T)));
}
template <class F, class U> static void flags(Ctx& c) {
  Rng& r = c.rng; U m = (U)r.edgy64(); struct { U a; F f; U b; } x; x.a = (U)0xA5A5A5A5A5A5A5A5ull; x.b = (U)0x5A5A5A5A5A5A5A5Aull; if (r.chance(1, 3)) { m = 0; x.f = F(); } else x.f = F(m); c.op("%zu flags %llx", sizeof(U) * 8, (unsigned long long)m);
  for (int k = 0; k < 60; k++) {
    U b = r.chance(1, 2) ? (U)((U)1 << r.below(sizeof(U) * 8)) : (U)r.edgy64(); if (r.chance(1, 10)) b = (U)r.u64(); unsigned o = r.below(6); bool v = r.chance(1, 2); c.op("%u %llx %d", o, (unsigned long long)b, v);
    switch (o) { case 0: x.f.set(b); m |= b; break; case 1: x.f.clear(b); m &= (U)~b; break; case 2: x.f.flip(b); m ^= b; break; case 3: case 4: x.f.set(b, v); m = v ? (U)(m | b) : (U)(m & ~b); break; default: x.f.raw = b; m = b; }
    VF_CHECK(x.f.raw == m, "flags-word", "the word is %llx, should be %llx", (unsigned long long)x.f.raw, (unsigned long long)m); for (unsigned i = 0; i < sizeof(U) * 8; i++) VF_CHECK(x.f.value((U)((U)1 << i)) == (bool)(m >> i & 1), "flags-bit", "bit %u reads wrongly", i);
    U q = r.chance(1, 2) ? (U)(m & r.u64()) : (U)r.edgy64(); VF_CHECK(x.f.all_set(q) == ((m & q) == q) && x.f.value(q) == ((m & q) != 0), "flags-mask", "mask %llx of %llx", (unsigned long long)q, (unsigned long long)m);
    VF_CHECK(x.a == (U)0xA5A5A5A5A5A5A5A5ull && x.b == (U)0x5A5A5A5A5A5A5A5Aull, "flags-word", "a neighbour changed"); c.count("flag_ops"); c.feat(mix(sizeof(U), o * 2 + v)); }
}
struct Un { uint8_t code; const char *sym, *name; };
static const Un U_[] = {{0, "", "(unitless)"}, {1, "s", "seconds"}, {2, "m", "meters"}, {3, "g", "grams"}, {4, "A", "Amps"}, {5, "K", "Kelvin"}, {6, "mol", "mol"}, {7, "cd", "candela"}, {8, "", "counts"}, {9, "deg", "degrees"}, {10, "rad", "radians"}, {11, "str", "steradians"}, {12, "pH", "pH"}, {13, "dB", "dB"}, {14, "g's", "g's"},
  {0x40, "Q", "Coulombs"}, {0x41, "V", "Volts"}, {0x42, "F", "Farads"}, {0x43, "Ohms", "Ohms"}, {0x44, "Wb", "Webers"}, {0x45, "T", "Teslas"}, {0x46, "lm", "lumens"}, {0x47, "Hz", "Hertz"}, {0x48, "N", "Newtons"}, {0x49, "Pa", "Pascals"}, {0x4A, "J", "Joules"}, {0x4B, "W", "Watts"}, {0x4C, "C", "Celcius"}, {0xC0, "pi", "pi"}, {0xC1, "e", "e"}, {0xC2, "c", "c"}, {0xC3, "G", "G"}, {0xF9, "+", "+"}, {0xFA, "-", "-"}, {0xFB, "*", "*"}, {0xFC, "/", "/"}, {0xFD, "(", "("}, {0xFE, ")", ")"}};
struct Pf { int8_t o; const char *sym, *name; };
static const Pf P_[] = {{-15, "f", "femto"}, {-12, "p", "pico"}, {-9, "n", "nano"}, {-6, "u", "micro"}, {-3, "m", "milli"}, {-2, "c", "centi"}, {-1, "d", "deci"}, {0, "", ""}, {1, "da", "deca"}, {2, "h", "hecto"}, {3, "k", "kilo"}, {6, "M", "mega"}, {9, "G", "giga"}, {12, "T", "tera"}, {15, "P", "peta"}};
static void units(Ctx& c) {
  Rng& r = c.rng; const unsigned NU = sizeof U_ / sizeof *U_, NP = sizeof P_ / sizeof *P_;
  for (int k = 0; k < 12; k++) { bool sym = r.chance(1, 2); const Un& u = U_[r.below(NU)]; VF_CHECK(!strcmp(SIUnitToStr((SIUnit)u.code, sym), sym ? u.sym : u.name), "unit", "unit %02x is printed as %s", u.code, SIUnitToStr((SIUnit)u.code, sym)); VF_CHECK((uint8_t)IntToSIUnit(SIUnitToInt((SIUnit)u.code)) == u.code, "unit", "unit %02x changes as an integer", u.code);
    std::string s, want; if (r.chance(1, 5)) { s += (char)u.code; want = sym ? u.sym : u.name; } else { s += (char)0xF7; unsigned n = r.below(8); for (unsigned i = 0; i < n; i++) { if (r.chance(1, 3)) { const Pf& p = P_[r.below(NP)]; s += (char)0xF0; s += (char)p.o; want += sym ? p.sym : p.name; } const Un& x = U_[1 + r.below(NU - 1)]; s += (char)x.code; want += sym ? x.sym : x.name; } s += (char)0; }
    char* e = (char*)malloc(s.size()); memcpy(e, s.data(), s.size()); StringBuilder o; SIUnitToStr((const SIUnit*)e, &o, sym); sb_expect(&o, want, "unit-string", "a unit string"); free(e); c.op("%s %d", hex(s.data(), s.size()).c_str(), sym); c.count("unit_strings"); }
  struct { LineTerm t; const char *n, *l; uint8_t len; } LT[] = {{LineTerm::ZEROBYTE, "ZEROBYTE", "", 1}, {LineTerm::CR, "CR", "\r", 1}, {LineTerm::LF, "LF", "\n", 1}, {LineTerm::CRLF, "CRLF", "\r\n", 2}, {LineTerm::INVALID, "", "", 0}, {(LineTerm)77, "", "", 0}};
  for (auto& x : LT) { VF_CHECK(!strcmp(lineTerminatorNameStr(x.t), x.n) && !memcmp(lineTerminatorLiteralStr(x.t), x.l, strlen(x.l) + 1) && lineTerminatorLength(x.t) == x.len, "line-ending", "line ending %u is wrong", (unsigned)x.t); }
}
enum class E8 : uint8_t {}; enum class E16 : uint16_t {}; enum class E32 : uint32_t {};
void vf_case(Ctx& c) { switch (c.rng.below(8)) { case 0: tables<E8>(c); break; case 1: tables<E32>(c); break; case 7: tables<E16>(c); break; case 2: flags<FlagContainer8, uint8_t>(c); break; case 3: flags<FlagContainer16, uint16_t>(c); break; case 4: flags<FlagContainer32, uint32_t>(c); break; case 5: flags<FlagContainer64, uint64_t>(c); break; default: units(c); } c.nontrivial = true; }
