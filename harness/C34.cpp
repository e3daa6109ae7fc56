/* C34: configuration records against a model of their keys' values; their images against an independent reader, whole, damaged, foreign and hostile. */
#include "kvgen.h"
#include "Storage/RecordTypes/ConfRecord.h"
#include <algorithm>
#include <deque>
#include <memory>
const char* VF_PROPERTY = "C34";
const char* VF_RULE = "A case is a plain record of up to 200000 (seldom 16 M) bytes, or a configuration plan of 1 to 24 keys of integer, boolean, real, text and vector types, and a history of sets and gets of any type by key, number or text, known and unknown, saves under names of up to 600 characters, and loads (from a buffer, or text in any fragmentation) of whole images, of images damaged in any covered byte, cut, spliced, of another tag, type, plan, or made of arbitrary bytes, by the same record, another, or one never used. Distinct by the plan and history.";
using namespace vf; using namespace cb;
void vf_setup() {}
enum class K : uint16_t {};
static const TCode TYPES[] = {TCode::UINT8, TCode::UINT16, TCode::UINT32, TCode::UINT64, TCode::INT8, TCode::INT16, TCode::INT32, TCode::INT64, TCode::BOOLEAN, TCode::FLOAT, TCode::DOUBLE, TCode::STR, TCode::VECT_3_FLOAT, TCode::VECT_3_DOUBLE, TCode::VECT_3_INT8, TCode::VECT_3_UINT8, TCode::VECT_3_INT16, TCode::VECT_3_UINT16, TCode::VECT_3_INT32, TCode::VECT_3_UINT32};
enum { NT = 20, NINT = 8, T_BOOL = 8, T_FLOAT, T_DOUBLE, T_STR, T_VEC };
static const int W[] = {1, 2, 4, 8, 1, 2, 4, 8, 1, 4, 8, 0, 12, 24, 3, 3, 6, 6, 12, 12};
static bool sgn(int t) { return t >= 4 && t < 8; }
struct Val { bool null = true; std::string b; bool operator==(const Val& o) const { return null == o.null && b == o.b; } };   // Native bytes, or text.
struct Plan {
  std::vector<std::string> keys; std::vector<int> ty; std::string name; std::vector<std::string> odd; std::vector<EnumDef<K>> defs; std::unique_ptr<EnumDefList<K>> list; std::vector<size_t> at;
  void build(Rng& r) { defs.reserve(keys.size() + 3); bool any = r.chance(2, 3); size_t pos = r.below(keys.size() + 1); at.clear();
    for (size_t i = 0; i <= keys.size(); i++) { if (any && i == pos) { odd.push_back("INVALID"); defs.emplace_back((K)9999, "INVALID", ENUM_FLAG_MASK_INVALID_CATCHALL, (uint8_t)TCode::NONE); } if (i < keys.size()) { defs.emplace_back((K)(i * 3 + 1), keys[i].c_str(), 0, (uint8_t)TYPES[ty[i]]); } }
    list.reset(new EnumDefList<K>(defs.data(), defs.size(), name.c_str())); }
};
static std::string lower(std::string s) { for (auto& x : s) if (x >= 'A' && x <= 'Z') x += 32; return s; }
static void mkplan(Rng& r, Plan& p) {
  unsigned n = 1 + (r.chance(1, 4) ? r.below(24) : r.below(7)); p.name = r.chance(1, 2) ? "ExampleConf" : "L" + rnd_bytes(r, r.below(r.chance(1, 10) ? 300 : 20), 1); std::vector<std::string> low{"invalid", "<no enum>"}; bool ints = r.chance(1, 3);
  while (p.keys.size() < n) { std::string k = r.chance(1, 12) ? (r.chance(1, 3) ? "meta" : r.chance(1, 2) ? "ts" : "type") : r.chance(1, 12) ? p.name : rnd_bytes(r, 1 + r.below(r.chance(1, 20) ? 300 : 8), r.chance(1, 2) ? 2 : 4); if (k.empty() || std::find(low.begin(), low.end(), lower(k)) != low.end()) continue; low.push_back(lower(k)); p.keys.push_back(k); p.ty.push_back(ints ? r.below(NINT) : r.chance(1, 4) ? (int)T_STR : r.below(NT)); }
  p.build(r);
}
static std::string rval(Rng& r, int t) { std::string b; if (t == T_STR) return rnd_bytes(r, r.below(r.chance(1, 10) ? 700 : 24), 4); if (t == T_BOOL) return std::string(1, (char)r.below(2)); if (t == T_FLOAT) { float f = r.edgyFloat(); b.assign((char*)&f, 4); return b; } if (t == T_DOUBLE) { double f = r.edgyDouble(); b.assign((char*)&f, 8); return b; }
  if (t < NINT) { uint64_t v = r.edgyBits(W[t] * 8, sgn(t)); b.assign((char*)&v, W[t]); return b; }
  if (t == T_VEC) { for (int i = 0; i < 3; i++) { float f = r.edgyFloat(); b.append((char*)&f, 4); } return b; } if (t == T_VEC + 1) { for (int i = 0; i < 3; i++) { double f = r.edgyDouble(); b.append((char*)&f, 8); } return b; } return rnd_bytes(r, W[t], 0); }
static bool as_num(int t, const std::string& b, bool& neg, uint64_t& v) { v = 0; memcpy(&v, b.data(), W[t]); neg = false; if (sgn(t) && W[t] < 8 && v >> (W[t] * 8 - 1)) v |= ~0ull << (W[t] * 8); if (sgn(t) && v >> 63) neg = true; return true; }
static bool convert(int from, const std::string& b, int to, std::string& out) { bool neg; uint64_t v; as_num(from, b, neg, v); int bits = W[to] * 8; if (sgn(to)) { int64_t lo = bits == 64 ? INT64_MIN : -(1ll << (bits - 1)), hi = bits == 64 ? INT64_MAX : (1ll << (bits - 1)) - 1; if (neg ? (int64_t)v < lo : v > (uint64_t)hi) return false; } else { if (neg || (bits < 64 && v >> bits)) return false; } out.assign((char*)&v, W[to]); return true; }
typedef ConfRecordValidation<K> Base;
struct Rec : Base { Rec(uint32_t tag, const EnumDefList<K>* l) : Base(tag, l) {} };
struct Raw : SimpleDataRecord { std::string body; StorageRecordType t; Raw(StorageRecordType t) : SimpleDataRecord(0, t) {} int8_t serialize(StringBuilder* o, TCode) override { o->concat((uint8_t*)body.data(), body.size()); return 0; } int8_t deserialize(StringBuilder* i, TCode) override { body.assign((char*)i->string(), i->length()); return 0; } };
static std::string image(const std::string& body, uint32_t tag, StorageRecordType t = StorageRecordType::CONFIG_OBJ) { Raw w(t); w.body = body; StringBuilder o; VF_CHECK(w.save(tag, "raw", &o) == 0, "save", "a plain record can't be saved"); return std::string((char*)o.string(), o.length()); }
template <class T> static int8_t do_set(Rec& c, const Plan& p, size_t k, bool num, const char* s, T v) { return num ? c.setConf((K)(k * 3 + 1), v) : ((ConfRecord&)c).setConf(s, v); }
static int8_t set(Rec& c, const Plan& p, size_t k, bool num, const char* s, int t, const std::string& b, std::deque<std::string>& keep) {
  switch (t) {
    #define N(i, T) case i: { T v; memcpy(&v, b.data(), sizeof v); return do_set(c, p, k, num, s, v); }
    N(0, uint8_t) N(1, uint16_t) N(2, uint32_t) N(3, uint64_t) N(4, int8_t) N(5, int16_t) N(6, int32_t) N(7, int64_t) N(9, float) N(10, double)
    #undef N
    case T_BOOL: return do_set(c, p, k, num, s, (bool)b[0]);
    case T_STR: keep.push_back(b); if (b.size() & 1) return do_set(c, p, k, num, s, (const char*)keep.back().c_str()); return do_set(c, p, k, num, s, (char*)keep.back().c_str());
    case T_VEC: { float f[3]; memcpy(f, b.data(), 12); Vector3f v(f[0], f[1], f[2]); return do_set(c, p, k, num, s, &v); }
    default: { KeyValuePair* kv = c.getKVP(); kv = kv ? kv->valueWithKey(p.keys[k].c_str()) : nullptr; if (!kv) return -9; uint64_t raw[4]; memcpy(raw, b.data(), b.size()); return kv->set_from(TYPES[t], raw); }
  }
}
/* Reads the value as type t. The room around it must stay untouched; on failure all of it must. */
static int8_t get(Rec& c, const Plan& p, size_t k, bool num, const char* s, int t, Val& out) {
  alignas(16) uint8_t m[64]; memset(m, 0xC7, sizeof m); uint8_t* d = m + 16; int8_t ret; size_t w = t == T_STR ? sizeof(char*) : W[t];
  #define G(T) ret = num ? c.getConf((K)(k * 3 + 1), (T*)d) : ((ConfRecord&)c).getConf(s, (T*)d)
  switch (t) {
    case 0: G(uint8_t); break; case 1: G(uint16_t); break; case 2: G(uint32_t); break; case 3: G(uint64_t); break; case 4: G(int8_t); break; case 5: G(int16_t); break; case 6: G(int32_t); break; case 7: G(int64_t); break; case T_BOOL: d[0] = 1; G(bool); if (ret) d[0] = 0xC7; break; case T_FLOAT: G(float); break; case T_DOUBLE: G(double); break; case T_STR: G(char*); break; case T_VEC: { Vector3f v(1.5f, 2.5f, 3.5f); ret = num ? c.getConf((K)(k * 3 + 1), &v) : ((ConfRecord&)c).getConf(s, &v); if (ret == 0) { memcpy(d, &v.x, 4); memcpy(d + 4, &v.y, 4); memcpy(d + 8, &v.z, 4); } else VF_CHECK(v.x == 1.5f && v.y == 2.5f && v.z == 3.5f, "get-untouched", "a failed get of a vector wrote to its target"); break; }
    default: { KeyValuePair* kv = c.getKVP(); kv = kv ? kv->valueWithKey(s) : nullptr; if (!kv) return -2; ret = kv->get_as(TYPES[t], d) ? -3 : 0; }
  }
  #undef G
  for (size_t i = 0; i < 64; i++) if ((i < 16 || i >= 16 + w) || (ret && i >= 16)) VF_CHECK(m[i] == 0xC7, "get-untouched", "a get of type %s that returned %d wrote at %d of its target of %zu", typecodeToStr(TYPES[t]), ret, (int)i - 16, w);
  out = Val(); if (!ret) { if (t == T_STR) { char* q; memcpy(&q, d, sizeof q); if (q) { out.null = false; out.b = q; } } else { out.null = false; out.b.assign((char*)d, w); } } return ret;
}
static bool same_val(int t, const Val& a, const Val& b) { if (a.null || b.null || a.b.size() != b.b.size()) return a == b; if (t == T_FLOAT || t == T_VEC) { for (size_t i = 0; i < a.b.size(); i += 4) { uint32_t x, y; memcpy(&x, &a.b[i], 4); memcpy(&y, &b.b[i], 4); if (x != y && !(isnanbits(x, false) && isnanbits(y, false))) return false; } return true; } if (t == T_DOUBLE || t == T_VEC + 1) { for (size_t i = 0; i < a.b.size(); i += 8) { uint64_t x, y; memcpy(&x, &a.b[i], 8); memcpy(&y, &b.b[i], 8); if (x != y && !(isnanbits(x, true) && isnanbits(y, true))) return false; } return true; } return a == b; }
struct Model { std::vector<Val> v; bool loaded = false; int clean = -1; };   // clean: 1 it's as last saved or loaded, 0 it isn't, -1 neither is known.
static void reset_model(const Plan& p, Model& m) { m = Model(); m.v.resize(p.keys.size()); for (size_t i = 0; i < m.v.size(); i++) if (p.ty[i] != T_STR) { m.v[i].null = false; m.v[i].b.assign(W[p.ty[i]], '\0'); } }
static void agree(Ctx& c, Rec& x, const Plan& p, const Model& m, const char* what) {
  for (size_t i = 0; i < p.keys.size(); i++) { Val g; int8_t ret = get(x, p, i, false, p.keys[i].c_str(), p.ty[i], g); VF_CHECK(ret == 0, "get", "%s: key %s can't be read as its own type %s (%d)", what, quote(p.keys[i].data(), p.keys[i].size()).c_str(), typecodeToStr(TYPES[p.ty[i]]), ret); VF_CHECK(same_val(p.ty[i], g, m.v[i]), "value", "%s: key %s of type %s is %s, should be %s", what, quote(p.keys[i].data(), p.keys[i].size()).c_str(), typecodeToStr(TYPES[p.ty[i]]), g.null ? "unset" : hex(g.b.data(), g.b.size(), 60).c_str(), m.v[i].null ? "unset" : hex(m.v[i].b.data(), m.v[i].b.size(), 60).c_str()); }
  VF_CHECK(x.wasLoaded() == m.loaded, "was-loaded", "%s: wasLoaded() is %d", what, x.wasLoaded()); VF_CHECK(x.recordType() == StorageRecordType::CONFIG_OBJ, "type", "%s: record type is %d", what, (int)x.recordType());
  if (m.clean >= 0) VF_CHECK(x.isDirty() == !m.clean, "dirty", "%s: isDirty() is %d", what, x.isDirty());
  VF_CHECK(x.keyCount() == p.keys.size() && x.allocated(), "plan", "%s: has %u keys of %zu, allocated %d", what, x.keyCount(), p.keys.size(), x.allocated()); KeyValuePair* kv = x.getKVP(); VF_CHECK(kv && kv->count() == p.keys.size(), "plan", "%s: holds %u values, should hold %zu", what, kv ? kv->count() : 0, p.keys.size()); for (auto& k : p.keys) { KeyValuePair* q = kv->valueWithKey(k.c_str()); VF_CHECK(q && q->tcode() == TYPES[p.ty[&k - p.keys.data()]], "plan", "%s: key %s has type %s", what, quote(k.data(), k.size()).c_str(), q ? typecodeToStr(q->tcode()) : "none"); }
  c.count("agreements");
}
static Nd node(int t, const Val& v) { Nd d; if (t < NINT) { bool neg; uint64_t n; as_num(t, v.b, neg, n); d.k = 'i'; d.neg = neg; d.n = neg ? ~n : n; } else if (t == T_BOOL) { d.k = 'B'; d.n = v.b[0]; } else if (t == T_FLOAT) { uint32_t u; memcpy(&u, v.b.data(), 4); d.k = 'f'; d.n = u; } else if (t == T_DOUBLE) { d.k = 'd'; memcpy(&d.n, v.b.data(), 8); } else if (t == T_STR) { d.k = 's'; d.s = v.b; } else { d.k = 'v'; d.tc = (int)TYPES[t]; d.s = v.b; } return d; }
/* The body of an image must be one well formed map, that has the list by name, with exactly the keys that are set. */
static void check_body(const std::string& b, const Plan& p, const Model& m) {
  It it; size_t pos = 0; VF_CHECK(parse(b, pos, it) && pos == b.size(), "image", "the image isn't one well formed item: %s", hex(b.data(), b.size(), 300).c_str()); VF_CHECK(it.maj == 5, "image", "the image isn't a map"); size_t set = 0; for (auto& v : m.v) set += !v.null; bool seen = false;
  for (size_t i = 0; i + 1 < it.kids.size(); i += 2) if (it.kids[i].s == p.name) { seen = true; const It* l = &it.kids[i + 1]; if (l->maj == 4 && l->kids.size() == 1) l = &l->kids[0]; VF_CHECK(l->maj == 5 && l->kids.size() == 2 * set, "image", "the image lists %zu values of %zu", l->kids.size() / 2, set);
    for (size_t k = 0; k + 1 < l->kids.size(); k += 2) { size_t w = std::find(p.keys.begin(), p.keys.end(), l->kids[k].s) - p.keys.begin(); VF_CHECK(w < p.keys.size(), "image", "the image has the unknown key %s", quote(l->kids[k].s.data(), l->kids[k].s.size()).c_str()); std::vector<Nd> got; VF_CHECK(meaning(l->kids[k + 1], got) == YES && got.size() == 1, "image", "the image's value isn't plain"); std::string a, e; write(got[0], a); Nd want = node(p.ty[w], m.v[w]); if ((got[0].k == 'f' || got[0].k == 'd') && want.k == got[0].k && isnanbits(want.n, want.k == 'd') && isnanbits(got[0].n, want.k == 'd')) continue; write(want, e); VF_CHECK(a == e, "image", "the image's value of key %s is %s, should be %s", quote(p.keys[w].data(), p.keys[w].size()).c_str(), hex(a.data(), a.size(), 60).c_str(), hex(e.data(), e.size(), 60).c_str()); } }
  VF_CHECK(seen || !set, "image", "the image has no list %s", quote(p.name.data(), p.name.size()).c_str());
}
static std::string save(Ctx& c, Rec& x, const Plan& p, Model& m, uint32_t tag) {
  Rng& r = c.rng; std::string nm = rnd_bytes(r, r.chance(1, 10) ? 256 * (1 + r.below(2)) : 1 + r.below(r.chance(1, 8) ? 600 : 20), 4); if (nm.empty()) nm = "n"; StringBuilder o; int8_t ret = x.save(tag, nm.c_str(), &o); VF_CHECK(ret == 0, "save", "save() as %s returned %d", quote(nm.data(), nm.size()).c_str(), ret); std::string img((char*)o.string(), o.length());
  VF_CHECK(img.size() > DATARECORD_BASE_SIZE, "image", "the image is %zu bytes", img.size()); check_body(img.substr(DATARECORD_BASE_SIZE), p, m);
  char key[16]; memset(key, 0, 16); memcpy(key, nm.data(), nm.size() < 16 ? nm.size() : 16); VF_CHECK(!memcmp(img.data() + 8, key, 16), "image", "the image's name is %s, should be %s", hex(img.data() + 8, 16).c_str(), hex(key, 16).c_str()); uint32_t t = (uint8_t)img[0] | (uint8_t)img[1] << 8 | (uint8_t)img[2] << 16 | (uint32_t)(uint8_t)img[3] << 24; VF_CHECK(t == tag, "image", "the image's tag is %08x, should be %08x", t, tag); uint32_t len = (uint8_t)img[24] | (uint8_t)img[25] << 8 | (uint8_t)img[26] << 16 | (uint32_t)(uint8_t)img[27] << 24; VF_CHECK(len + DATARECORD_BASE_SIZE == img.size(), "image", "the image claims %u bytes of %zu", len, img.size() - DATARECORD_BASE_SIZE);
  m.clean = 1; VF_CHECK(!x.isDirty(), "dirty", "a record that was just saved is dirty"); if (r.chance(1, 20)) { StringBuilder o2; VF_CHECK(x.save(tag, "", &o2) == -1, "save-name", "an empty name was taken"); } c.count("saves"); return img;
}
template <class R> static int8_t load(Ctx& c, R& x, uint32_t tag, const std::string& img, bool sb) { Rng& r = c.rng; if (sb) { StringBuilder s; sb_build(r, &s, img, 9); return x.load(tag, &s); } uint8_t* b = (uint8_t*)malloc(img.size() ? img.size() : 1); memcpy(b, img.data(), img.size()); int8_t ret = x.load(tag, b, img.size()); memset(b, '?', img.size()); free(b); return ret; }
static std::string build_body(const std::string& list, const std::vector<std::pair<std::string, std::string>>& kv, bool meta = true) { std::string o, l; head(o, 5, 1 + meta); if (meta) { o += "\x64meta"; head(o, 5, 2); o += "\x64type\x6a" "CONFIG_OBJ\x62ts"; head(o, 0, 12345); } head(o, 3, list.size()); o += list; head(o, 5, kv.size()); for (auto& x : kv) { head(o, 3, x.first.size()); o += x.first; o += x.second; } return o; }
/* Records of other kinds, of any length and time of creation. */
static void plain(Ctx& c) {
  Rng& r = c.rng; const StorageRecordType T = r.chance(1, 2) ? StorageRecordType::LOG : StorageRecordType::FIRMWARE_BLOB; const uint32_t tag = r.u32(); const bool large = r.chance(1, 12); Raw a(T), b(T), d(T == StorageRecordType::LOG ? StorageRecordType::FIRMWARE_BLOB : StorageRecordType::LOG); a.body = rnd_bytes(r, 1 + r.below(300), 0); if (large) { const size_t n = r.chance(1, c.thorough ? 10 : 30) ? (1u << 24) - 50 + r.below(100) : r.chance(1, 2) ? 65486 + r.below(100) : 1000 + r.below(200000); std::string s; while (s.size() < n) s += a.body; s.resize(n); a.body = s; c.count("large_records"); }
  StringBuilder o; VF_CHECK(a.save(tag, "plain", &o) == 0, "save", "a plain record of %zu can't be saved", a.body.size()); std::string img((char*)o.string(), o.length()); c.op("plain record of %zu", a.body.size()); VF_CHECK(img.size() == a.body.size() + DATARECORD_BASE_SIZE && img.compare(DATARECORD_BASE_SIZE, std::string::npos, a.body) == 0 && !a.isDirty(), "image", "the image of %zu bytes isn't a descriptor and the body", img.size()); uint32_t len; memcpy(&len, &img[24], 4); VF_CHECK(len == a.body.size(), "image", "the image claims %u bytes of %zu", len, a.body.size());
  uint64_t ts = r.edgy64(); memcpy(&img[28], &ts, 8); b.body = "?"; VF_CHECK(d.load(tag, (uint8_t*)img.data(), img.size()) == -1, "refuse", "an image of another type was loaded"); const size_t cut = r.chance(1, 2) ? img.size() - 1 : DATARECORD_BASE_SIZE + r.below((uint32_t)(img.size() - DATARECORD_BASE_SIZE)); int8_t ret = b.load(tag, (uint8_t*)img.data(), cut); VF_CHECK(ret == (cut > DATARECORD_BASE_SIZE ? -3 : -1) && b.body == "?" && b.timestamp() == 0 && !b.wasLoaded(), "refuse", "an image of %zu cut to %zu gave %d", img.size(), cut, ret);
  if (img.size() > 65000) { const uint32_t less = len - (1u << (r.chance(1, 2) && len >= 1u << 17 ? 16 + r.below(len >> 24 ? 8 : 1) : r.below(16))); std::string bad = img; memcpy(&bad[24], &less, 4); VF_CHECK(b.load(tag, (uint8_t*)bad.data(), bad.size()) == -3, "refuse", "an image that claims %u bytes of %u was loaded", less, len); }
  if (img.size() > 4000 || r.chance(1, 2)) ret = b.load(tag, (uint8_t*)img.data(), img.size()); else ret = load(c, b, tag, img, true); VF_CHECK(ret == 0 && b.body == a.body && b.timestamp() == ts && b.wasLoaded() && !b.isDirty() && b.recordType() == T, "load", "a plain record of %zu from %llu loads with %d: %zu bytes, from %llu", a.body.size(), (unsigned long long)ts, ret, b.body.size(), (unsigned long long)b.timestamp());
  StringBuilder o2; VF_CHECK(b.save(tag, "plain", &o2) == 0, "save", "a loaded record can't be saved"); std::string again((char*)o2.string(), o2.length()); again[5] = img[5]; VF_CHECK(again == img, "image", "a loaded record's image is another"); b.body += "."; VF_CHECK(b.isDirty(), "dirty", "a changed record isn't dirty"); c.nontrivial = true; c.feat(mix(31, large)); c.count("plain_records");
}
void vf_case(Ctx& c) {
  if (c.rng.chance(1, 25)) { plain(c); return; } Rng& r = c.rng; Plan p; mkplan(r, p); std::deque<std::string> keep; uint32_t tag = r.u32(); std::string img, img2; Model im, im2; c.op("plan %s of %zu, tag %08x", quote(p.name.data(), p.name.size()).c_str(), p.keys.size(), tag); for (size_t i = 0; i < p.keys.size(); i++) c.op("key %s %s", quote(p.keys[i].data(), p.keys[i].size()).c_str(), typecodeToStr(TYPES[p.ty[i]]));
  std::unique_ptr<Rec> x(new Rec(tag, p.list.get())); Model m; reset_model(p, m); bool touched = false; uint32_t itag = 0, itag2 = 0; VF_CHECK(x->keyCount() == p.keys.size(), "plan", "counts %u keys", x->keyCount()); { StringBuilder kl; x->keyList(&kl); VF_CHECK(kl.count() == p.keys.size(), "plan", "lists %d keys of %zu", kl.count(), p.keys.size()); for (size_t i = 0; i < p.keys.size(); i++) VF_CHECK(p.keys[i] == (char*)kl.position(i), "plan", "lists other keys"); }
  if (r.chance(1, 2)) { VF_CHECK(!x->allocated(), "plan", "allocated from the start"); VF_CHECK(x->allocated(true), "plan", "can't be allocated"); touched = true; agree(c, *x, p, m, "new"); }
  for (unsigned n = 4 + r.below(c.thorough ? 60 : 26); n; n--) {
    unsigned kind = r.below(20);
    if (kind < 6) {
      size_t k = r.below(p.keys.size()); int t = r.chance(2, 3) ? p.ty[k] : r.chance(1, 2) ? r.below(NINT) : r.below(T_VEC + 1); std::string b = rval(r, t); bool num = r.chance(1, 2); int8_t ret = set(*x, p, k, num, p.keys[k].c_str(), t, b, keep); touched = true; c.op("set %zu %s %s: %d", k, typecodeToStr(TYPES[t]), hex(b.data(), b.size(), 40).c_str(), ret); VF_CHECK(ret == 0 || ret == -3, "set", "a set of a known key returned %d", ret);
      std::string want; Val old = m.v[k]; if (t == p.ty[k]) { VF_CHECK(ret == 0, "set", "a %s wasn't taken by its own key", typecodeToStr(TYPES[t])); m.v[k].null = false; m.v[k].b = b; }
      else if (t < NINT && p.ty[k] < NINT) { bool fits = convert(t, b, p.ty[k], want); VF_CHECK((ret == 0) == fits, "set", "a %s of %s for a key of %s: %d", typecodeToStr(TYPES[t]), hex(b.data(), b.size()).c_str(), typecodeToStr(TYPES[p.ty[k]]), ret); if (fits) m.v[k].b = want; c.count(fits ? "conversions" : "refused_conversions"); }
      else if (t == T_STR || p.ty[k] == T_STR || (t >= T_VEC) != (p.ty[k] >= T_VEC)) { VF_CHECK(ret == -3, "set", "a %s was taken for a key of %s", typecodeToStr(TYPES[t]), typecodeToStr(TYPES[p.ty[k]])); c.count("refused_conversions"); }
      else if (ret == 0) { Val g; VF_CHECK(get(*x, p, k, false, p.keys[k].c_str(), p.ty[k], g) == 0, "get", "a key can't be read as its own type"); m.v[k] = g; c.count("conversions"); }
      if (!same_val(p.ty[k], old, m.v[k]) || !(old == m.v[k])) { m.clean = m.clean == 1 ? 0 : -1; }
      c.feat(mix(mix(t, p.ty[k]), ret)); agree(c, *x, p, m, "after a set");
    } else if (kind < 10) {
      size_t k = r.below(p.keys.size()); int t = r.below(T_VEC + 1); Val g; int8_t ret = get(*x, p, k, r.chance(1, 2), p.keys[k].c_str(), t, g); touched = true; c.op("get %zu as %s: %d", k, typecodeToStr(TYPES[t]), ret); VF_CHECK(ret == 0 || ret == -3, "get", "a get of a known key returned %d", ret); std::string want;
      if (t == p.ty[k]) VF_CHECK(ret == 0 && same_val(t, g, m.v[k]), "value", "a get returned %d or another value", ret);
      else if (t < NINT && p.ty[k] < NINT) { bool fits = convert(p.ty[k], m.v[k].b, t, want); VF_CHECK((ret == 0) == fits && (!fits || g.b == want), "get", "%s of %s as %s: %d %s", typecodeToStr(TYPES[p.ty[k]]), hex(m.v[k].b.data(), m.v[k].b.size()).c_str(), typecodeToStr(TYPES[t]), ret, hex(g.b.data(), g.b.size()).c_str()); }
      else if (t == T_STR || p.ty[k] == T_STR || (t >= T_VEC) != (p.ty[k] >= T_VEC)) VF_CHECK(ret == -3, "get", "a %s was given as %s", typecodeToStr(TYPES[p.ty[k]]), typecodeToStr(TYPES[t]));
      c.feat(mix(mix(t, p.ty[k]), ret + 100)); c.count("gets");
    } else if (kind < 12) {   // Unknown keys.
      int t = r.below(T_VEC + 1); std::string k = r.chance(1, 3) ? p.keys[r.below(p.keys.size())] : rnd_bytes(r, r.below(6), 4); if (r.chance(1, 2)) k += 'x'; else if (!k.empty()) k.pop_back(); if (r.chance(1, 5)) k = "INVALID"; if (std::find(p.keys.begin(), p.keys.end(), k) != p.keys.end()) continue; bool nul = r.chance(1, 10), num = r.chance(1, 4); std::string b = rval(r, t); Val g; int8_t a, d; size_t nk = r.chance(1, 2) ? 3333 - 1 : p.keys.size() + 40; const char* ks = nul ? nullptr : k.c_str();
      if (num && p.odd.empty() && std::find(p.keys.begin(), p.keys.end(), "<NO ENUM>") != p.keys.end()) continue;
      if (t == T_STR && nul) nul = false, ks = k.c_str(); a = set(*x, p, nk, num, ks, t, b, keep); d = get(*x, p, nk, num, ks, t, g); touched = true; c.op("unknown key %s %d: %d %d", ks ? quote(k.data(), k.size()).c_str() : "null", num, a, d); VF_CHECK(a == -2 && d == -2, "unknown", "an unknown key was set with %d and got with %d", a, d); agree(c, *x, p, m, "after an unknown key"); c.count("unknown_keys");
    } else if (kind < 14) { if (!touched) { StringBuilder o; VF_CHECK(x->save(tag, "early", &o) == -2 || x->allocated(), "save", "a record that isn't ready was saved"); x->allocated(true); touched = true; } if (!img.empty()) { img2 = img; im2 = im; itag2 = itag; } itag = r.chance(3, 4) ? tag : r.u32(); img = save(c, *x, p, m, itag); im = m; c.op("save: %zu %s", img.size(), hex(img.data() + DATARECORD_BASE_SIZE, img.size() - DATARECORD_BASE_SIZE, 80).c_str()); agree(c, *x, p, m, "after a save"); }
    else if (kind < 15) { StringBuilder o; if (r.chance(1, 2)) x->printConfRecord(&o); else x->printConfRecord(&o, p.keys[r.below(p.keys.size())].c_str()); x->printDebug(&o); c.count("prints"); VF_CHECK(o.length() > 0, "print", "nothing printed"); }
    else if (img.empty()) { continue; }
    else {
      if (r.chance(1, 4)) { x.reset(new Rec(r.u32(), p.list.get())); reset_model(p, m); touched = false; c.op("another record"); }
      bool sb = r.chance(1, 2); unsigned how = r.below(12); std::string in = img; uint32_t lt = itag;
      if (how < 4) {   // Whole.
        if (r.chance(1, 3)) in += rnd_bytes(r, 1 + r.below(60), 0); int8_t ret = load(c, *x, lt, in, sb); c.op("load whole (+%zu): %d", in.size() - img.size(), ret); VF_CHECK(ret == 0, "load", "a whole image gave %d", ret); bool all = true; for (size_t i = 0; i < m.v.size(); i++) if (!im.v[i].null) m.v[i] = im.v[i]; else if (!m.v[i].null) all = false; m.loaded = true; m.clean = all ? 1 : 0; touched = true; agree(c, *x, p, m, "loaded"); c.count("loads"); if (all) { StringBuilder o; VF_CHECK(x->serialize(&o, TCode::CBOR) == 0, "save", "a loaded record can't be serialized"); sb_expect(&o, img.substr(DATARECORD_BASE_SIZE), "image", "a loaded record serialized"); } if (!all) { m.clean = -1; } continue;
      }
      int want = 0; const char* what = "";   // A load that must be refused.
      switch (how) {
        case 4: lt = r.chance(1, 2) ? lt ^ (1u << r.below(32)) : r.u32(); if (lt == itag) lt++; want = -2; what = "with another tag"; break;
        case 5: { in.resize(r.chance(1, 3) ? r.below(DATARECORD_BASE_SIZE + 1) : DATARECORD_BASE_SIZE + 1 + r.below(in.size() - DATARECORD_BASE_SIZE - 1)); want = in.size() > DATARECORD_BASE_SIZE ? -3 : -1; what = "cut"; break; }
        case 6: { size_t at = DATARECORD_BASE_SIZE + r.below(in.size() - DATARECORD_BASE_SIZE); in[at] ^= r.chance(1, 2) ? 1 << r.below(8) : 1 + r.below(255); want = -3; what = "with a damaged payload"; break; }
        case 7: { static const uint8_t AT[] = {0, 1, 2, 3, 4, 6, 7, 24, 25, 26, 27, 36, 37, 38, 39}; size_t at = AT[r.below(15)]; in[at] ^= r.chance(1, 2) ? 1 << r.below(8) : 1 + r.below(255); want = at < 4 ? -2 : at == 4 || at == 6 ? -1 : at == 7 ? -4 : -3; what = "with a damaged descriptor"; break; }
        case 8: { size_t at = DATARECORD_BASE_SIZE + r.below(in.size() - DATARECORD_BASE_SIZE); if (r.chance(1, 2)) { char g = in[at]; in.erase(at, 1); (void)g; } else in.insert(at, 1, (char)r.u32()); if (in.compare(0, img.size(), img) == 0) continue; want = -3; what = "with a missing or extra byte"; break; }
        case 9: { if (!img2.empty() && r.chance(1, 2)) { std::string b1 = img.substr(DATARECORD_BASE_SIZE), b2 = img2.substr(DATARECORD_BASE_SIZE); if (b2.compare(0, b1.size(), b1) == 0) continue; in = img.substr(0, DATARECORD_BASE_SIZE) + b2; want = -3; what = "with the payload of another"; } else { std::string b = img.substr(DATARECORD_BASE_SIZE); in = image(b, lt, r.chance(1, 2) ? StorageRecordType::LOG : (StorageRecordType)r.below(256)); if ((uint8_t)in[6] == (uint8_t)StorageRecordType::CONFIG_OBJ) continue; want = -1; what = "of another type"; } break; }
        case 10: {   // A whole image that was made by others, with other types, missing or additional keys.
          Model nm = m; bool ok = true; std::string body; std::vector<std::pair<std::string, std::string>> kv; std::string list = p.name; for (size_t i = 0; i < p.keys.size(); i++) if (r.chance(2, 3)) { int t = r.chance(1, 2) || p.ty[i] >= NINT ? p.ty[i] : r.below(NINT); Val v; v.null = false; v.b = rval(r, t); if (r.chance(1, 12)) { t = p.ty[i] == T_STR ? 2 : (int)T_STR; v.b = rval(r, t); } std::string e; write(node(t, v), e); kv.push_back({p.keys[i], e}); std::string out; if (t == p.ty[i]) nm.v[i] = v; else if (t < NINT && p.ty[i] < NINT && convert(t, v.b, p.ty[i], out)) nm.v[i].b = out; else ok = false; }
          for (unsigned k = r.below(3); k; k--) { std::string y = "unk" + std::to_string(r.below(99)) + "!", e; Val v; v.null = false; int t = r.below(NT); v.b = rval(r, t); write(node(t, v), e); kv.insert(kv.begin() + r.below(kv.size() + 1), {y, e}); } for (size_t k = kv.size(); k > 1; k--) std::swap(kv[k - 1], kv[r.below(k)]);
          if (kv.empty()) continue; if (r.chance(1, 8)) { list += "z"; ok = false; if (r.chance(1, 2) && list.size() > 2) list.resize(list.size() - 2); } bool tail = r.chance(1, 10); body = build_body(list, kv, list != p.name || r.chance(3, 4)); if (tail) { body += rnd_bytes(r, 1 + r.below(4), 0); ok = false; } in = image(body, lt); int8_t ret = load(c, *x, lt, in, sb); c.op("load made by others %s: %d", hex(body.data(), body.size(), 300).c_str(), ret); VF_CHECK(ret == (ok ? 0 : -4), "foreign", "a foreign image that %s gave %d", ok ? "fits" : "doesn't fit", ret); touched = true; bool was = m.loaded; if (ok) { m = nm; m.loaded = true; } else m.loaded = was; m.clean = ok ? -1 : m.clean; x->allocated(true); agree(c, *x, p, m, ok ? "loaded from others" : "refused from others"); c.count(ok ? "foreign_loads" : "foreign_refused"); continue; }
        default: {   // Arbitrary bytes that are a whole image.
          std::string body = img.substr(DATARECORD_BASE_SIZE); switch (r.below(4)) { case 0: body = rnd_bytes(r, 1 + r.below(200), 0); break; case 1: for (unsigned k = 1 + r.below(3); k; k--) body[r.below(body.size())] = (char)r.u32(); break; case 2: body.resize(1 + r.below(body.size())); break; default: { size_t a = r.below(body.size()), b2 = r.below(body.size()); body.insert(a, body.substr(b2, 1 + r.below(20))); } }
          in = image(body, lt); Model old = m; int8_t ret = load(c, *x, lt, in, sb); c.op("load hostile %s: %d", hex(body.data(), body.size(), 300).c_str(), ret); VF_CHECK(ret == 0 || ret == -4, "hostile", "a whole image of arbitrary bytes gave %d", ret); touched = true; x->allocated(true); if (ret == 0) { m.loaded = true; m.clean = -1; for (size_t i = 0; i < p.keys.size(); i++) { Val g; VF_CHECK(get(*x, p, i, false, p.keys[i].c_str(), p.ty[i], g) == 0, "get", "after a hostile image a key can't be read as its own type"); m.v[i] = g; } c.count("hostile_taken"); } else c.count("hostile_refused"); agree(c, *x, p, m, "after a hostile image"); continue; }
      }
      int8_t ret = load(c, *x, lt, in, sb); c.op("load %s: %d", what, ret); VF_CHECK(ret != 0, "refuse", "an image %s was loaded", what); VF_CHECK(ret == want, "code", "an image %s was refused with %d, should be %d", what, ret, want); if (!touched) { x->allocated(true); touched = true; } agree(c, *x, p, m, "after a refused load"); c.count("refused_loads"); c.feat(mix(777, mix(how, ret)));
      if (r.chance(1, 4)) { save(c, *x, p, m, r.u32()); agree(c, *x, p, m, "saved after a refused load"); }
    }
    c.nontrivial = true;
  }
}
