/* C18: typed values and maps written as CBOR, read by an independent reader and by the library's two decoders. */
#include "kvgen.h"
const char* VF_PROPERTY = "C18";
const char* VF_RULE = "A case is one to four records, each a typed value (numbers of every type and width, text, buffers, string builders, vectors) or a map of up to 14 of them with nested maps, repeated, empty and long keys and interleaved values without keys, serialized one after the other into one buffer and read back after the buffer was cut at random places. Distinct by the bytes.";
using namespace vf; using namespace cb;
void vf_setup() { kv_many = true; }
void vf_case(Ctx& c) {
  Rng& r = c.rng; unsigned n = 1 + r.below(4); std::string all; std::vector<std::vector<Nd>> rec; std::vector<std::string> bytes; StringBuilder sum;
  for (unsigned i = 0; i < n; i++) {
    Own own; std::vector<Nd> ch; C3PValue* v; bool map = r.chance(1, 2); std::string want; bool fails = false;
    if (map) { v = mkmap(c, own, ch, 0); fails = !clean(ch, true) || ch.empty(); if (!fails) write_map(ch, want); } else { Nd d; v = mkval(c, own, d, nullptr, nullptr, false, 0); ch.push_back(d); write(d, want); }
    std::vector<Nd> before; if (sum.length() && r.chance(1, 2)) c.count("appended"); int len0 = sum.length(); std::string pre((char*)sum.string(), len0);
    c.op("serialize %s of %zu: %s", map ? "map" : "value", ch.size(), hex(want.data(), want.size() < 250 ? want.size() : 250).c_str());
    int8_t ret = r.chance(1, 2) || !map ? v->serialize(&sum, TCode::CBOR) : ((KeyValuePair*)v)->serialize(&sum, TCode::CBOR);
    VF_CHECK((ret == 0) == !fails && ret <= 0, "serialize", "serialize() gave %d", ret); std::string got((char*)sum.string(), sum.length()); VF_CHECK(got.substr(0, len0) == pre, "output", "serialize() changed what the output held"); got = got.substr(len0);
    if (fails) VF_CHECK(got.empty(), "output", "a failed serialization wrote %zu bytes", got.size());
    else { It it; size_t p = 0; VF_CHECK(parse(got, p, it) && p == got.size(), "well-formed", "wrote %s, which is not one whole item", hex(got.data(), got.size() < 300 ? got.size() : 300).c_str()); std::vector<Nd> m; Can can = meaning(it, m); VF_CHECK(can != NO && got == want, "encoding", "wrote %s, should be %s", hex(got.data(), got.size() < 300 ? got.size() : 300).c_str(), hex(want.data(), want.size() < 300 ? want.size() : 300).c_str()); rec.push_back(ch); bytes.push_back(got); all += got; c.count(map ? "map_records" : "value_records"); }
    if (r.chance(1, 4)) { StringBuilder again; VF_CHECK(v->serialize(&again, TCode::CBOR) == ret, "repeat", "a second serialization differs"); sb_expect(&again, got, "repeat", "a second serialization"); }
    delete v;
  }
  c.hash(all.data(), all.size()); if (all.size()) c.nontrivial = true;
  StringBuilder in; for (size_t at = 0; at < all.size();) { size_t m = r.chance(1, 4) ? 1 + r.below(3) : 1 + r.below((uint32_t)(all.size() - at)); if (m > all.size() - at) m = all.size() - at; in.concat((uint8_t*)all.data() + at, m); at += m; c.count("pieces"); if (all.size() > 5000) { in.concat((uint8_t*)all.data() + at, all.size() - at); break; } }
  size_t off = 0; C3PValueDecoder dec(&in);
  for (size_t i = 0; i < rec.size(); i++) {
    if (flat(rec[i]) && rec[i][0].keyed && r.chance(1, 2)) { uint8_t* m = (uint8_t*)malloc(bytes[i].size()); memcpy(m, bytes[i].data(), bytes[i].size()); KeyValuePair* k = KeyValuePair::unserialize(m, bytes[i].size(), TCode::CBOR); free(m); VF_CHECK(k != nullptr, "unserialize", "unserialize() gave nothing"); same(k, rec[i], "unserialized"); delete k; c.count("unserialized"); }
    C3PValue* v = r.chance(1, 2) ? C3PValue::deserialize(&in, TCode::CBOR) : dec.next(r.chance(1, 4)); VF_CHECK(v != nullptr, "deserialize", "record %zu of %zu gave nothing", i, rec.size()); off += bytes[i].size(); sb_expect(&in, all.substr(off), "consumed", "what is left"); same(v, rec[i], "read back"); c.count("read_back");
    if (r.chance(1, 3)) { StringBuilder o; VF_CHECK(v->serialize(&o, TCode::CBOR) == 0, "again", "what was read back can't be serialized"); sb_expect(&o, bytes[i], "again", "what was read back and serialized again"); c.count("round_trips_twice"); }
    delete v;
  }
  VF_CHECK(C3PValue::deserialize(&in, TCode::CBOR) == nullptr && in.length() == 0, "deserialize", "an empty input gave a value");
}
