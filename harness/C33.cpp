/* C33: identities against a reference record of name, flags and UUID; their bytes against an independent writer and parser. */
#include "kvgen.h"
#include "Identity/Identity.h"
#include "Identity/IdentityUUID.h"
#include "m2mrig.h"
#include <memory>
const char* VF_PROPERTY = "C33";
const char* VF_RULE = "A case is a UUID identity with a name of 0 to 70000 characters, generated, from text or from bytes with any flags, serialized into buffers of any length, read back and sent in a map; or a string of up to 400 bytes (well formed, truncated, overlong, damaged, of another format or random) offered as an identity, alone or tagged in a map; or two links that tell each other who they are, or don't. Distinct by the bytes.";
using namespace vf; using namespace cb;
void vf_setup() {}
static const uint16_t DROP = MANUVR_IDENT_FLAG_VALID | MANUVR_IDENT_FLAG_RESERVED_0 | MANUVR_IDENT_FLAG_DIRTY;
struct Rec { std::string name; uint16_t flags = 0; std::string id; };
static std::string ref(const Rec& x, bool raw = false) { std::string o; be(o, x.name.size() + 6 + 16, 2); be(o, raw ? x.flags : x.flags & ~DROP, 2); o += (char)IdentFormat::UUID; o += x.name; o += '\0'; return o + x.id; }
static bool ref_read(const std::string& b, Rec& x) { if (b.size() < 7) return false; size_t n = (uint8_t)b[0] << 8 | (uint8_t)b[1]; if (n > b.size() || b[4] != (char)IdentFormat::UUID || n < 6) return false; size_t z = b.find('\0', 5); if (z == std::string::npos || z >= n || n - z - 1 < 16) return false; x.name = b.substr(5, z - 5); x.flags = (uint16_t)((uint8_t)b[2] << 8 | (uint8_t)b[3]); x.id = b.substr(z + 1, 16); return true; }
static std::string uuid_text(const std::string& id) { std::string o; for (int i = 0; i < 16; i++) { if (i == 4 || i == 6 || i == 8 || i == 10) o += '-'; char t[3]; snprintf(t, 3, "%02x", (uint8_t)id[i]); o += t; } return o; }
static std::string rname(Rng& r) { unsigned k = r.below(60); return rnd_bytes(r, k == 0 ? 65000 + r.below(281) : k < 4 ? r.below(2000) : k < 8 ? 220 + r.below(60) : r.below(24), r.chance(1, 2) ? 1 : 4); }
static void agree(Ctx& c, Identity* i, const Rec& x, const char* what) {
  Rng& r = c.rng; std::string b = ref(x); VF_CHECK(i->identityType() == IdentFormat::UUID, "type", "%s: type is %d", what, (int)i->identityType()); VF_CHECK(x.name == i->getHandle(), "name", "%s: name is %zu characters, should be %zu", what, strlen(i->getHandle()), x.name.size());
  VF_CHECK(i->isDirty() == !!(x.flags & MANUVR_IDENT_FLAG_DIRTY) && i->isValid() == !!(x.flags & MANUVR_IDENT_FLAG_VALID) && i->isSelf() == !!(x.flags & MANUVR_IDENT_FLAG_OUR_OWN), "flags", "%s: dirty %d, valid %d, self %d, should be as in %04x", what, i->isDirty(), i->isValid(), i->isSelf(), x.flags);
  char raw[20]; memset(raw, 0x5A, sizeof raw); ((IdentityUUID*)i)->copyRaw((uint8_t*)raw + 2); VF_CHECK(std::string(raw + 2, 16) == x.id && raw[1] == 0x5A && raw[18] == 0x5A, "uuid", "%s: UUID is %s, should be %s", what, hex(raw + 2, 16).c_str(), hex(x.id.data(), 16).c_str());
  VF_CHECK(i->length() == (int)b.size(), "length", "%s: length() is %d, should be %zu", what, i->length(), b.size());
  { uint8_t* m = (uint8_t*)malloc(b.size()); memset(m, 0xEE, b.size()); int n = r.chance(1, 2) ? i->toBuffer(m) : i->serialize(m, (uint16_t)b.size()); VF_CHECK(n == (int)b.size() && std::string((char*)m, b.size()) == b, "bytes", "%s: serialized to %d bytes %s, should be %s", what, n, hex((char*)m, b.size() < 80 ? b.size() : 80).c_str(), hex(b.data(), b.size() < 80 ? b.size() : 80).c_str()); free(m); }
  for (int k = 0; k < 2; k++) { uint16_t n = k ? (uint16_t)b.size() - 1 - r.below(b.size() < 30 ? b.size() : 30) : r.below((uint32_t)b.size()); uint8_t* m = (uint8_t*)malloc(n ? n : 1); memset(m, 0xEE, n); VF_CHECK(i->serialize(m, n) == 0, "short-buffer", "%s: serialized %zu bytes into %u", what, b.size(), n); free(m); c.count("short_buffers"); }
  if (b.size() < 65000) { uint16_t n = b.size() + r.below(40); uint8_t* m = (uint8_t*)malloc(n); memset(m, 0xEE, n); VF_CHECK(i->serialize(m, n) == (int)b.size() && std::string((char*)m, b.size()) == b, "bytes", "%s: serialized into a longer buffer", what); for (uint16_t k = b.size(); k < n; k++) VF_CHECK(m[k] == 0xEE, "bytes", "%s: serialize() wrote past its length", what); free(m); }
  StringBuilder t; i->toString(&t); sb_expect(&t, uuid_text(x.id), "text", what); if (r.chance(1, 4)) { StringBuilder o; Identity::staticToString(i, &o); std::string s((char*)o.string(), o.length()); VF_CHECK(s.find(uuid_text(x.id)) != std::string::npos && s.find(x.name) != std::string::npos && s.find("UUID") != std::string::npos && (s.find("pass:         YES") != std::string::npos) == i->isValid() && (s.find("Dirty") != std::string::npos || x.name.find("Dirty") != std::string::npos) == i->isDirty(), "text", "%s: printed as %s", what, quote(s.data(), s.size() < 300 ? s.size() : 300).c_str()); c.count("prints"); }
  std::string other = x.name + "x"; std::string copy = x.name; VF_CHECK(i->getIdentity(copy.c_str()) == i && i->getIdentity(other.c_str()) == nullptr, "find", "%s: not found by its name, or found by another", what); VF_CHECK(i->getIdentity(IdentFormat::UUID) == i && i->getIdentity(IdentFormat::USER) == nullptr, "find", "%s: not found by its format, or found by another", what);
}
static Identity* offer(const std::string& b, int len) { uint8_t* m = (uint8_t*)malloc(b.size() ? b.size() : 1); memcpy(m, b.data(), b.size()); Identity* i = Identity::fromBuffer(m, len); free(m); return i; }
static KeyValuePair* unmap(const std::string& b) { uint8_t* m = (uint8_t*)malloc(b.size() ? b.size() : 1); memcpy(m, b.data(), b.size()); KeyValuePair* k = KeyValuePair::unserialize(m, b.size(), TCode::CBOR); free(m); return k; }
static void through(Ctx& c, Identity* i, const Rec& x) {
  c.feat(mix(x.name.size() < 30 ? x.name.size() : x.name.size() < 234 ? 30 : x.name.size() < 60000 ? 31 : 32, x.flags >> 13));
  std::string b = ref(x), want; Rng& r = c.rng; Rec back = x; back.flags &= ~DROP;
  { std::unique_ptr<Identity> j(offer(b, b.size())); VF_CHECK(!!j, "parse", "its own bytes aren't read back"); agree(c, j.get(), back, "read back"); c.count("read_back"); }
  if (b.size() > 60000) return; uint32_t before = r.u32(); StringBuilder out; bool single = r.chance(1, 3);
  { KeyValuePair k(single ? "ident" : "before", single ? 1u : before); if (single) { KeyValuePair k1("ident", i); VF_CHECK(k1.serialize(&out, TCode::CBOR) == 0, "map", "a map with an identity can't be serialized"); head(want, 5, 1); want += "\x65ident"; } else { k.append(i, "ident"); KeyValuePair* z = k.append((uint32_t)7, "z"); (void)z; VF_CHECK(k.serialize(&out, TCode::CBOR) == 0, "map", "a map with an identity can't be serialized"); head(want, 5, 3); want += "\x66" "before"; head(want, 0, before); want += "\x65ident"; for (C3PValue* v = k.nextValue(); v;) { C3PValue* n = v->nextValue(); k.unlink(v, false); delete v; v = n ? k.nextValue() : nullptr; } } }
  head(want, 6, 0xE900 | (int)TCode::IDENTITY); head(want, 2, b.size()); want += b; if (!single) { want += "\x61z"; want += (char)7; } sb_expect(&out, want, "map", "a map with an identity");
  std::unique_ptr<KeyValuePair> k(unmap(want)); VF_CHECK(!!k, "map", "a map with an identity isn't read back"); KeyValuePair* v = k->valueWithKey("ident"); VF_CHECK(v && v->tcode() == TCode::IDENTITY, "map", "an identity in a map was read back as %s", v ? typecodeToStr(v->tcode()) : "nothing"); Identity* j = nullptr; VF_CHECK(v->get_as(&j) == 0 && j, "map", "an identity in a map can't be taken from it"); agree(c, j, back, "read back from a map"); c.count("maps");
  if (!single) { uint32_t y = 0; KeyValuePair* q = k->valueWithKey("before"); VF_CHECK(q && q->get_as(&y) == 0 && y == before, "map", "an identity's neighbour isn't as sent"); q = k->valueWithKey("z"); VF_CHECK(q && q->get_as(&y) == 0 && y == 7, "map", "an identity's neighbour isn't as sent"); }
  if (r.chance(1, 3)) { v->reapValue(false); k.reset(); agree(c, j, back, "kept after its map"); delete j; c.count("kept"); }
}
static void made(Ctx& c) {
  Rng& r = c.rng; Rec x; x.name = rname(r); std::unique_ptr<Identity> i; char* nm = strdup(x.name.c_str());
  switch (r.below(3)) {
    case 0: { i.reset(new IdentityUUID(nm)); x.flags = MANUVR_IDENT_FLAG_VALID | MANUVR_IDENT_FLAG_DIRTY | MANUVR_IDENT_FLAG_ORIG_GEN; uint8_t id[16]; ((IdentityUUID*)i.get())->copyRaw(id); x.id.assign((char*)id, 16); VF_CHECK((id[6] & 0xF0) == 0x40 && (id[8] & 0xC0) == 0x80, "generated", "a generated identity's UUID %s isn't a random one", hex((char*)id, 16).c_str()); c.count("generated"); break; }
    case 1: { x.id = rnd_bytes(r, 16, 0); std::string t = uuid_text(x.id); if (r.chance(1, 4)) { unsigned keep = r.below(16); x.id.resize(keep); t.clear(); for (unsigned k = 0; k < keep; k++) { char h[3]; snprintf(h, 3, "%02X", (uint8_t)x.id[k]); t += h; } x.id.resize(16); c.count("short_text"); } i.reset(new IdentityUUID(nm, (char*)t.c_str())); c.count("from_text"); break; }
    default: { x.id = rnd_bytes(r, 16, 0); x.flags = (uint16_t)r.u32(); std::string b = ref(x, true); i.reset(offer(b, b.size())); VF_CHECK(!!i, "parse", "a well formed identity isn't read"); c.count("from_bytes"); break; }
  }
  memset(nm, '?', x.name.size()); free(nm); if (r.chance(1, 2)) { bool s = r.chance(1, 2); i->isSelf(s); x.flags = s ? x.flags | MANUVR_IDENT_FLAG_OUR_OWN : x.flags & ~MANUVR_IDENT_FLAG_OUR_OWN; }
  c.op("identity named %s flags %04x %s", quote(x.name.data(), x.name.size() < 40 ? x.name.size() : 40).c_str(), x.flags, hex(x.id.data(), 16).c_str()); std::string b = ref(x); c.hash(b.data(), b.size()); agree(c, i.get(), x, "made"); through(c, i.get(), x); c.nontrivial = true;
}
static void hostile(Ctx& c) {
  Rng& r = c.rng; Rec x; x.name = rnd_bytes(r, r.below(30), 4); x.flags = (uint16_t)r.u32(); x.id = rnd_bytes(r, 16, 0); std::string b = ref(x, true);
  switch (r.below(8)) { case 0: b += rnd_bytes(r, r.below(30), 0); break; case 1: b.resize(r.below(b.size() + 1)); break; case 2: { unsigned n = b.size() - 1 - r.below(25 < b.size() - 1 ? 25 : b.size() - 1); b[0] = (char)(n >> 8); b[1] = (char)n; if (r.chance(1, 2)) b.resize(n); break; } case 3: { b += rnd_bytes(r, r.below(60), 0); unsigned n = b.size(); b[0] = (char)(n >> 8); b[1] = (char)n; break; } case 4: b[4] = (char)r.below(70); break; case 5: for (size_t k = 5; k < b.size(); k++) if (!b[k]) b[k] = 'q'; break; case 6: b = rnd_bytes(r, r.below(400), r.chance(1, 2) ? 0 : 4); if (b.size() > 5 && r.chance(1, 2)) { b[0] = 0; b[1] = (char)r.below(b.size() < 250 ? b.size() + 4 : 250); b[4] = 2; } break; default: for (unsigned n = 1 + r.below(3); n; n--) b[r.below(b.size())] = (char)r.u32(); }
  Rec y; bool ok = ref_read(b, y); c.op("offered %s", hex(b.data(), b.size() < 300 ? b.size() : 300).c_str()); c.hash(b.data(), b.size()); c.nontrivial = true;
  { std::unique_ptr<Identity> i(offer(b, b.size())); VF_CHECK(!!i == ok, "parse", "%s bytes gave %s", ok ? "well formed" : "malformed", i ? "an identity" : "nothing"); if (i) agree(c, i.get(), y, "offered"); c.count(ok ? "offered_good" : "offered_bad"); c.feat(mix(b.size() < 40 ? b.size() : 40, ok)); }
  { std::string m; head(m, 5, 2); m += "\x65ident"; head(m, 6, 0xE900 | (int)TCode::IDENTITY); head(m, 2, b.size()); m += b; m += "\x61z"; m += (char)9; std::unique_ptr<KeyValuePair> k(unmap(m)); if (ok) VF_CHECK(!!k, "map", "a map with an identity isn't read"); KeyValuePair* v = k ? k->valueWithKey("ident") : nullptr; Identity* i = nullptr; bool got = v && v->get_as(&i) == 0 && i; VF_CHECK(got == ok, "map", "%s bytes in a map gave %s", ok ? "well formed" : "malformed", got ? "an identity" : "nothing"); if (got) agree(c, i, y, "offered in a map"); c.count("offered_in_maps"); }
}
static void longname(Ctx& c) {   // The length field has 16 bits.
  Rng& r = c.rng; std::string nm = rnd_bytes(r, 65520 + r.below(100) + (r.chance(1, 2) ? r.below(70000) : 0), 1); IdentityUUID i(nm.c_str()); std::string got = i.getHandle(); c.op("a name of %zu", nm.size()); c.hash(nm.data(), nm.size()); VF_CHECK(got.size() < nm.size() && nm.compare(0, got.size(), got) == 0 && got.size() > 60000, "name", "a name of %zu became one of %zu", nm.size(), got.size());
  Rec x; x.name = got; x.flags = MANUVR_IDENT_FLAG_VALID | MANUVR_IDENT_FLAG_DIRTY | MANUVR_IDENT_FLAG_ORIG_GEN; uint8_t id[16]; i.copyRaw(id); x.id.assign((char*)id, 16); agree(c, &i, x, "with a cut name"); through(c, &i, x); c.count("cut_names"); c.nontrivial = true;
}
static void exchange(Ctx& c) {   // Two links tell each other who they are.
  Rng& r = c.rng; Rec x[2]; std::unique_ptr<Identity> id[2]; Rig g(c); bool known[2]; bool both = r.chance(1, 2);
  auto draw = [&](int i) { x[i].name = rnd_bytes(r, r.below(40), 4); x[i].flags = (uint16_t)r.u32(); x[i].id = rnd_bytes(r, 16, 0); std::string b = ref(x[i], true); Identity* was = id[i].release(); id[i].reset(offer(b, b.size())); VF_CHECK(!!id[i], "parse", "a well formed identity isn't read"); known[i] = both || r.chance(1, 2); c.hash(b.data(), b.size()); g.e[i].l->localIdentity(known[i] ? id[i].get() : nullptr); delete was; c.op("end %d %s %s", i, known[i] ? "is" : "doesn't say it is", hex(b.data(), b.size()).c_str()); };
  for (int i = 0; i < 2; i++) { M2MLinkOpts o(3000, 200, 300 + r.below(1000), TCode::CBOR, 0); g.make(i, o); draw(i); }
  for (unsigned s = 1 + r.below(2); s; s--) {
    for (unsigned n = 0; !g.quiet(); n++) { g.shuffle(g.e[0].l->currentState() == M2MLinkState::LIVE && g.e[1].l->currentState() == M2MLinkState::LIVE ? 0 : 30); VF_CHECK(n < 20000, "establish", "not established: %s, %s", g.state(0), g.state(1)); }
    for (int i = 0; i < 2; i++) { Identity* j = g.e[i].l->remoteIdentity(); VF_CHECK(!!j == known[!i], "exchange", "end %d %s the other", i, j ? "was told of" : "wasn't told of"); if (j) { Rec y = x[!i]; y.flags &= ~DROP; agree(c, j, y, "told by a link"); VF_CHECK(j != id[!i].get(), "exchange", "two ends share an identity"); c.count("told_by_links"); } agree(c, id[i].get(), x[i], "lent to a link"); }
    if (s > 1) { VF_CHECK(g.e[r.below(2)].l->hangup() == 0, "hangup", "hangup() failed"); for (unsigned n = 0; g.e[0].l->currentState() != M2MLinkState::HUNGUP || g.e[1].l->currentState() != M2MLinkState::HUNGUP; n++) { g.shuffle(5); VF_CHECK(n < 20000, "hangup", "not hung up"); } for (int i = 0; i < 2; i++) { g.e[i].out.q.clear(); VF_CHECK(g.e[i].l->reset() == 0, "reset", "reset() failed"); both = r.chance(1, 3); draw(i); c.count("changed_identities"); } }
  }
  c.count("exchanges"); c.nontrivial = true;
}
void vf_case(Ctx& c) { unsigned k = c.rng.below(100); if (k < 42) made(c); else if (k < 50) exchange(c); else if (k < 98) hostile(c); else longname(c); }
