/* Random key-value maps and values, with the tree that each should be read back as. */
#ifndef KVGEN_H
#define KVGEN_H
#include "cborref.h"
#include <deque>
using namespace vf; using namespace cb;
struct Own { std::deque<std::string> text; std::vector<void*> mem; std::deque<StringBuilder> sbs; std::vector<KeyValuePair*> kv; ~Own() { for (auto p : kv) delete p; for (auto p : mem) free(p); } };
static char* keep(Own& o, const std::string& s) { char* p = (char*)malloc(s.size() + 1); memcpy(p, s.data(), s.size()); p[s.size()] = 0; o.mem.push_back(p); return p; }
static size_t slen(Rng& r) { switch (r.below(12)) { case 0: return 0; case 1: return 22 + r.below(4); case 2: return 254 + r.below(4); case 3: return r.chance(1, 40) ? 65534 + r.below(4) : r.below(700); default: return r.below(30); } }
static C3PValue* mkval(Ctx& c, Own& o, Nd& d, const char* ck, char* vk, bool keyed, int depth);
static bool kv_many = false;   // Maps of hundreds are wanted, sometimes.
static KeyValuePair* mkmap(Ctx& c, Own& o, std::vector<Nd>& kids, int depth) {
  Rng& r = c.rng; unsigned n = 1 + r.below(r.chance(1, 6) ? 30 : depth ? 4 : 10); if (kv_many && !depth && r.chance(1, 300)) { n = 100 + r.below(300); c.count("maps_of_hundreds"); } KeyValuePair* root = nullptr; std::vector<std::string> used;
  for (unsigned i = 0; i < n; i++) { Nd d; d.keyed = !root || !r.chance(1, 10); std::string k = used.size() && r.chance(1, 10) ? used[r.below((uint32_t)used.size())] : rnd_bytes(r, r.chance(1, 12) ? (r.chance(1, 2) ? 24 : 260) + r.below(9) : 1 + r.below(9), r.chance(1, 2) ? 1 : 4); if (d.keyed && r.chance(1, 25)) k = ""; used.push_back(k); d.key = k; char* kk = keep(o, k); bool copyk = r.chance(1, 2);
    C3PValue* v = mkval(c, o, d, copyk ? nullptr : kk, copyk ? kk : nullptr, d.keyed, depth); if (copyk && d.keyed && r.chance(1, 2)) memset(kk, 'z', k.size());
    if (!root) root = (KeyValuePair*)v; else root->link(v); kids.push_back(d); }
  return root;
}
template <class T> static C3PValue* mk(bool keyed, const char* ck, char* vk, T v) { if (!keyed) return new C3PValue(v); if (ck) return new KeyValuePair(ck, v); return new KeyValuePair(vk, v); }
template <class T> static C3PValue* mkv(bool keyed, const char* ck, char* vk, const std::string& s) { Vector3<T> v; memcpy((void*)&v.x, s.data(), s.size()); if (!keyed) return new C3PValue(&v); if (ck) return new KeyValuePair(ck, &v); return new KeyValuePair(vk, &v); }
static C3PValue* mkval(Ctx& c, Own& o, Nd& d, const char* ck, char* vk, bool keyed, int depth) {
  Rng& r = c.rng; unsigned k = r.below(depth > 3 || !keyed ? 17 : 20); uint64_t n = num(r); d.k = 'i'; auto si = [&](int64_t v) { d.neg = v < 0; d.n = v < 0 ? (uint64_t)(-1 - v) : (uint64_t)v; };
  c.feat(mix(k, keyed * 4 + depth)); c.count(k < 8 ? "integers" : k < 11 ? "reals_and_booleans" : k < 13 ? "texts" : k == 13 ? "buffers" : k < 17 ? "vectors_or_builders" : "maps");
  switch (k) {
    case 0: d.n = (uint8_t)n; return mk(keyed, ck, vk, (uint8_t)n); case 1: d.n = (uint16_t)n; return mk(keyed, ck, vk, (uint16_t)n); case 2: d.n = (uint32_t)n; return mk(keyed, ck, vk, (uint32_t)n); case 3: d.n = n; return mk(keyed, ck, vk, (uint64_t)n);
    case 4: si((int8_t)n); return mk(keyed, ck, vk, (int8_t)n); case 5: si((int16_t)n); return mk(keyed, ck, vk, (int16_t)n); case 6: si((int32_t)n); return mk(keyed, ck, vk, (int32_t)n); case 7: si((int64_t)n); return mk(keyed, ck, vk, (int64_t)n);
    case 8: d.k = 'B'; d.n = n & 1; return mk(keyed, ck, vk, (bool)(n & 1));
    case 9: { d.k = 'f'; float f = r.edgyFloat(); uint32_t u; if (std::isnan(f)) f = NAN; memcpy(&u, &f, 4); d.n = u; return mk(keyed, ck, vk, f); } case 10: { d.k = 'd'; double f = r.edgyDouble(); if (std::isnan(f)) f = NAN; memcpy(&d.n, &f, 8); return mk(keyed, ck, vk, f); }
    case 11: d.k = 's'; d.s = rnd_bytes(r, slen(r), r.chance(1, 2) ? 1 : 4); return mk(keyed, ck, vk, (const char*)keep(o, d.s)); case 12: d.k = 's'; d.s = rnd_bytes(r, slen(r), 4); return mk(keyed, ck, vk, keep(o, d.s));
    case 13: { d.k = 'b'; d.s = rnd_bytes(r, slen(r), 0); uint8_t* p = (uint8_t*)keep(o, d.s); if (!keyed) return new C3PValue(p, (uint32_t)d.s.size()); if (ck) return new KeyValuePair(ck, p, d.s.size()); return new KeyValuePair(vk, p, d.s.size()); }
    case 14: { d.k = 's'; d.s = rnd_bytes(r, slen(r), 4); o.sbs.emplace_back(); StringBuilder* s = &o.sbs.back(); for (size_t at = 0; at < d.s.size();) { size_t m = 1 + r.below((uint32_t)(d.s.size() - at)); s->concat((uint8_t*)d.s.data() + at, m); at += m; } return mk(keyed, ck, vk, s); }
    case 15: case 16: { d.k = 'v'; unsigned t = r.below(8); d.tc = (int)VT[t]; int tag; d.s = rnd_bytes(r, vecinfo(d.tc, tag), 0); if (t >= 6) for (int i = 0; i < 3; i++) { if (t == 6) { float f = r.edgyFloat(); if (std::isnan(f)) f = 1; memcpy(&d.s[i * 4], &f, 4); } else { double f = r.edgyDouble(); if (std::isnan(f)) f = 1; memcpy(&d.s[i * 8], &f, 8); } }
      switch (t) { case 0: return mkv<int8_t>(keyed, ck, vk, d.s); case 1: return mkv<uint8_t>(keyed, ck, vk, d.s); case 2: return mkv<int16_t>(keyed, ck, vk, d.s); case 3: return mkv<uint16_t>(keyed, ck, vk, d.s); case 4: return mkv<int32_t>(keyed, ck, vk, d.s); case 5: return mkv<uint32_t>(keyed, ck, vk, d.s); case 6: return mkv<float>(keyed, ck, vk, d.s); default: return mkv<double>(keyed, ck, vk, d.s); } }
    default: { d.k = 'M'; KeyValuePair* m; if (r.chance(1, 25)) { m = nullptr; Nd leaf; leaf.keyed = true; leaf.key = "leaf"; leaf.k = 'i'; leaf.n = 7; unsigned deep = 2 + r.below(24 - depth); d.kids.push_back(leaf); m = new KeyValuePair("leaf", (uint8_t)7); for (unsigned i = 0; i < deep; i++) { KeyValuePair* up = new KeyValuePair("deep", m); up->reapValue(true); Nd x; x.k = 'M'; x.keyed = true; x.key = "deep"; x.kids.swap(d.kids); d.kids.push_back(x); m = up; } c.count("deep_maps"); } else m = mkmap(c, o, d.kids, depth + 1);
      KeyValuePair* v = (KeyValuePair*)mk(true, ck, vk, m); if (r.chance(1, 2)) v->reapValue(true); else o.kv.push_back(m); return v; }
  }
}
/* What is left after a trip: entries without a (non-empty) key are not part of a map. */
static bool anykey(const std::vector<Nd>& v) { for (auto& x : v) if (x.keyed && !x.key.empty()) return true; return false; }
static bool clean(std::vector<Nd>& v, bool top) { std::vector<Nd> o; for (auto& x : v) { if (!x.keyed || x.key.empty()) continue; if (x.k == 'M') { if (!anykey(x.kids) || !clean(x.kids, false)) return false; } o.push_back(x); } v.swap(o); return top || !v.empty(); }
static bool flat(const std::vector<Nd>& v) { for (auto& x : v) if (x.k == 'M' || x.key.empty()) return false; return true; }
#endif
