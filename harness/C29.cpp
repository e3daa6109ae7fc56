/* C29: M2M headers and messages against an independent account of the wire format. */
#include "sbmodel.h"
#include "kvgen.h"
#include "m2mref.h"
const char* VF_PROPERTY = "C29";
const char* VF_RULE = "A case is one message: a header built from a random code, flags, identifier and payload length (around every length at which the header grows), its encoding compared with a reference and parsed back whole, cut short, followed by other bytes and with every value in place of each byte; then a message with a random map as payload, sent, fed to a receiver in pieces, answered, and the answer received. Distinct by the bytes on the wire.";
using namespace vf; using namespace cb;
void vf_setup() {}
static void like(M2MMsgHdr& g, const Ref& h, const char* key, const char* what) {
  VF_CHECK((uint8_t)g.msg_code == h.code && g.flags == h.flags && g.msg_len == h.len && g.msg_id == h.id && g.chk_byte == h.chk, key, "%s: header is code %02x flags %02x length %u id %06x check %02x, should be %02x %02x %u %06x %02x", what, (unsigned)g.msg_code, g.flags, g.msg_len, g.msg_id, g.chk_byte, h.code, h.flags, h.len, h.id, h.chk);
  VF_CHECK(g.header_length() == h.hl() && g.total_length() == (int)h.len && g.payload_length() == (int)h.len - h.hl() && g.len_length() == h.ll() && g.id_length() == h.il() && g.isReply() == !!(h.flags & 2) && g.expectsReply() == !!(h.flags & 1), "lengths", "%s: reports header %d, total %d, payload %d, length bytes %u, id bytes %u", what, g.header_length(), g.total_length(), g.payload_length(), g.len_length(), g.id_length());
  VF_CHECK(g.calc_hdr_chcksm() == sum(h), "checksum", "%s: computed checksum %02x, should be %02x", what, g.calc_hdr_chcksm(), sum(h));
  VF_CHECK(g.isValid() == valid(h), "validity", "%s: isValid() is %d on code %02x flags %02x length %u id %06x check %02x", what, g.isValid(), h.code, h.flags, h.len, h.id, h.chk);
  VF_CHECK(g.isSync() == sync(h), "sync", "%s: isSync() is %d on code %02x flags %02x length %u check %02x", what, g.isSync(), h.code, h.flags, h.len, h.chk);
}
static void parse1(Ctx& c, const std::string& b, const char* what, bool pieces) {
  StringBuilder in; if (pieces) sb_build(c.rng, &in, b, 5); else in.concat((uint8_t*)b.data(), b.size()); M2MMsgHdr g; Ref h; int want = ref_parse(b, h), got = M2MMsg::attempt_header_parse(&g, &in);
  VF_CHECK(got == want, "verdict", "%s: parsing %s gave %d, should be %d", what, hex(b.data(), b.size(), 24).c_str(), got, want); if (want >= 0) like(g, h, "parsed", what); VF_CHECK(in.length() == (int)b.size(), "input", "%s: parsing a header changed the input", what); c.count(want == -3 ? "refused" : want == -2 ? "too_short" : want == 0 ? "incomplete" : want == 1 ? "bare" : "complete"); c.feat(mix(want + 4, b.size() > 1 ? (uint8_t)b[1] : 0));
}
static uint8_t rcode(Rng& r) { if (r.chance(1, 12)) return r.u32(); for (;;) { uint8_t k = r.below(0x20); if (code_ok(k)) return k; } }
static uint32_t rlen(Rng& r) { static const uint32_t e[] = {0, 1, 245, 255, 65520, 65535, 16777200, 16777215}; switch (r.below(4)) { case 0: return r.below(300); case 1: return e[r.below(8)] + r.below(20) - 10 * r.chance(1, 2); case 2: return r.u32() >> r.below(32); default: return 240 + r.below(24); } }
static uint32_t rid(Rng& r) { switch (r.below(6)) { case 0: return 0; case 1: return r.u32() & 0xFF; case 2: return (1u << (8 * (1 + r.below(3)))) - 1 + r.below(2); case 3: return r.u32() & 0xFFFF; case 4: return r.u32(); default: return r.u32() & 0xFFFFFF; } }
static void headers(Ctx& c) {
  Rng& r = c.rng; uint8_t code = rcode(r), f = r.chance(1, 3) ? r.u32() : r.below(4), pl = r.chance(1, 2) ? r.u32() : 240 + r.below(16); uint32_t id = r.chance(1, 4) ? 0 : rid(r);
  c.op("header code %02x payload %u flags %02x id %08x", code, pl, f, id); M2MMsgHdr g((M2MMsgCode)code, pl, f, id); Ref h; h.code = code; h.flags = f & 3; h.id = id & 0xFFFFFF;
  if ((f & 1) && !id && !is_sync_code(code)) { VF_CHECK(g.msg_id <= 0xFFFFFF, "auto-id", "made up identifier %x", g.msg_id); VF_CHECK(g.msg_id != 0, "auto-id", "a message that wants a reply got no identifier"); h.id = g.msg_id; c.count("made_up_ids"); }
  h.flags |= nbytes(h.id) << 6; size_to(h, pl); like(g, h, "constructed", "new header");
  M2MMsgHdr copy(&g); like(copy, h, "constructed", "copied header"); std::string w = wire(h); c.hash(w.data(), w.size());
  for (int pass = 0; pass < 3; pass++) {
    StringBuilder out; out.concat("pre"); bool ok = g.serialize(&out); VF_CHECK(ok == valid(h), "serialize", "serialize() gave %d", ok); sb_expect(&out, ok ? "pre" + w : "pre", "encoding", "the header on the wire"); if (ok) c.count("headers_written");
    if (pass == 2) break; uint32_t n = r.chance(1, 3) ? rlen(r) : r.chance(1, 6) ? 0xFFFFFFFFu - r.below(16) : rlen(r); Ref o = h; bool can = size_to(h, n), did = g.set_payload_length(n); c.op("payload length %u", n); VF_CHECK(did == can, "set-length", "set_payload_length(%u) gave %d", n, did); if (!can) { h = o; c.count("lengths_refused"); } like(g, h, "set-length", "after set_payload_length()"); if (can) VF_CHECK((uint32_t)g.payload_length() == n, "set-length", "payload length %d after setting %u", g.payload_length(), n); w = wire(h); c.hash(w.data(), w.size());
  }
  /* any field at all */
  for (int i = 0; i < 6; i++) { Ref x = h; M2MMsgHdr m(&g); switch (r.below(6)) { case 0: m.flags = x.flags = r.u32(); break; case 1: m.msg_len = x.len = r.chance(1, 2) ? r.below(8) : rlen(r); break; case 2: m.msg_id = x.id = rid(r); break; case 3: x.code = r.u32(); m.msg_code = (M2MMsgCode)x.code; break; case 4: { bool b = r.chance(1, 2); m.isReply(b); x.flags = b ? x.flags | 2 : x.flags & ~2; break; } default: { bool b = r.chance(1, 2); m.expectsReply(b); x.flags = b ? x.flags | 1 : x.flags & ~1; } } if (r.chance(2, 3)) { m.rebuild_checksum(); x.chk = sum(x); } like(m, x, "fields", "edited header"); StringBuilder out; bool ok = m.serialize(&out); VF_CHECK(ok == valid(x), "serialize", "an edited header's serialize() gave %d", ok); sb_expect(&out, ok ? wire(x) : "", "encoding", "an edited header on the wire"); c.count(ok ? "edited_valid" : "edited_invalid"); }
  if (r.chance(1, 8)) { g.wipe(); like(g, Ref(), "wipe", "wiped header"); }
  /* parsing it back: whole, cut, followed by more, and damaged */
  size_t pay = h.len - h.hl(); bool small = pay < 600; std::string body = small ? rnd_bytes(r, pay, 0) : ""; std::string tail = rnd_bytes(r, r.below(12), 0), full = w + body;
  parse1(c, full, "as written", true); parse1(c, full + tail, "followed by other bytes", true); for (size_t n = 0; n < w.size(); n++) parse1(c, w.substr(0, n), "cut short", false); if (small && pay) { parse1(c, full.substr(0, full.size() - 1), "a byte short", false); parse1(c, w, "header alone", false); }
  for (size_t at = 0; at < w.size(); at++) for (int v = 0; v < 256; v++) { if (w.size() > 5 && !c.thorough && !r.chance(1, 3)) continue; std::string d = full.substr(0, w.size() + 8) + tail; d[at] = (char)v; StringBuilder in((uint8_t*)d.data(), (int)d.size()); M2MMsgHdr m; Ref x; int want = ref_parse(d, x), got = M2MMsg::attempt_header_parse(&m, &in); VF_CHECK(got == want, "damaged", "with byte %zu of %s set to %02x: %d, should be %d", at, hex(w.data(), w.size()).c_str(), v, got, want); if (want >= 0) { VF_CHECK(m.isValid() == valid(x), "damaged", "with byte %zu of %s set to %02x: isValid() %d", at, hex(w.data(), w.size()).c_str(), v, m.isValid()); }
    if (valid(h) && (uint8_t)w[at] != v && (at == 0 || at + 1 == w.size() || (int)at == 1 + h.ll())) VF_CHECK(got < 0, "damaged", "byte %zu of %s replaced by %02x was accepted", at, hex(w.data(), w.size()).c_str(), v); c.count("damaged_headers"); }
  for (int i = 0; i < 30; i++) { std::string b = rnd_bytes(r, r.below(14), 0); if (b.size() > 1 && r.chance(2, 3)) b[1] = (char)((uint8_t)b[1] & 0x53); if (b.size() >= 4 && r.chance(3, 4)) { Ref x; if (ref_parse(b, x) != -2 && x.hl()) b[x.hl() - 1] = (char)sum(x); } parse1(c, b, "random bytes", r.chance(1, 3)); }
}
static void tell(Ctx& c, M2MMsg& m, const std::vector<Nd>& want, bool some, const char* what) { KeyValuePair* p = nullptr; int g = m.getPayload(&p); VF_CHECK(g == 0, "payload", "%s: getPayload() gave %d", what, g); VF_CHECK((p != nullptr) == some, "payload", "%s: payload is %s", what, p ? "there" : "missing"); if (p) same(p, want, "payload"); delete p; if (some) c.count("payloads_compared"); }
static KeyValuePair* payload(Ctx& c, Own& own, std::vector<Nd>& ch, size_t& target) {
  Rng& r = c.rng; if (r.chance(1, 2)) { for (;;) { KeyValuePair* k = mkmap(c, own, ch, 4); if (flat(ch) && clean(ch, true) && !ch.empty() && k->has_key()) { return k; } delete k; ch.clear(); } }
  static const size_t e[] = {240, 65520, 65510}; size_t n = r.chance(1, 6) ? e[1 + r.below(2)] + r.below(30) : r.chance(1, 150) ? 0xFFFFFF - 40 + r.below(50) : 225 + r.below(35); Nd d; d.keyed = true; d.key = "b"; d.k = 'b'; d.s.assign(n, 0); for (size_t i = 0; i < n; i += 1 + n / 4000) d.s[i] = (char)r.u32(); char* p = keep(own, d.s); KeyValuePair* k = new KeyValuePair("b", (uint8_t*)p, n); ch.push_back(d); target = n; return k;
}
static void messages(Ctx& c) {
  Rng& r = c.rng; Own own; std::vector<Nd> ch; size_t target = 0; KeyValuePair* k = r.chance(1, 8) ? nullptr : payload(c, own, ch, target); std::string body; if (k) write_map(ch, body);
  uint8_t code = rcode(r); bool wants = r.chance(1, 2); Ref h; h.code = code; h.flags = wants; h.id = wants ? 1 + (rid(r) & 0xFFFFFE) : 0; M2MMsgHdr hdr((M2MMsgCode)code, 0, h.flags, h.id); h.flags |= nbytes(h.id) << 6; bool fits = size_to(h, body.size()) && valid(h);
  c.op("message code %02x id %06x payload %zu", code, h.id, body.size()); c.hash(body.data(), body.size() < 3000 ? body.size() : 3000);
  M2MMsg tx(&hdr, r.chance(1, 3) ? BusOpcode::UNDEF : BusOpcode::TX); VF_CHECK(tx.encoding() == TCode::CBOR, "codec", "a message starts out with another encoding than CBOR"); VF_CHECK(tx.encoding(TCode::STR) == -1 && tx.encoding() == TCode::CBOR && tx.encoding(TCode::CBOR) == 0, "codec", "encoding() accepted what it should not");
  int sp = tx.setPayload(k); VF_CHECK(sp == (fits ? 0 : -2), "set-payload", "setPayload() of %zu bytes gave %d", body.size(), sp); delete k;
  StringBuilder out; if (!fits) { c.count("oversize_or_invalid"); return; }
  std::string w = wire(h) + body; for (int i = 0; i < 2; i++) { StringBuilder o; VF_CHECK(tx.serialize(&o) == 0, "serialize", "serialize() failed"); sb_expect(&o, w, "encoding", "the message on the wire"); } c.count("messages_written");
  VF_CHECK(tx.uniqueId() == h.id && tx.expectsReply() == wants && !tx.isReply() && tx.msgCode() == (M2MMsgCode)code && tx.direction() == BusOpcode::TX && tx.isValidMsg(), "fields", "the sent message's fields changed"); VF_CHECK(tx.reply(nullptr) == -1, "reply", "a sent message could be turned into a reply");
  { VF_CHECK(!tx.wasSent() && !tx.wasACKd(), "marks", "fresh message is marked"); tx.markSent(); advance_us(5000); VF_CHECK(tx.wasSent() && tx.msSinceSend() == 5, "marks", "sent mark wrong"); tx.markACKd(); VF_CHECK(tx.wasACKd() && tx.wasSent(), "marks", "ack mark wrong"); int n = 0; while (tx.attemptRetry() && n < 9) n++; VF_CHECK(n == 3, "marks", "%d retries", n); }
  /* receive it */
  std::string tail = rnd_bytes(r, r.below(10), 0); Ref ph; VF_CHECK(ref_parse(w, ph) >= 1, "reference", "reference refuses the message"); M2MMsg* rx = nullptr; StringBuilder rest; bool whole = r.chance(1, 3);
  if (whole) { StringBuilder in; if (w.size() < 3000) sb_build(r, &in, w + tail, 6); else in.concat((uint8_t*)(w + tail).data(), (int)(w.size() + tail.size())); rx = M2MMsg::unserialize(&in); VF_CHECK(rx != nullptr, "receive", "unserialize() gave nothing"); sb_expect(&in, tail, "leftover", "what follows the message"); c.count("received_whole"); }
  else { size_t at = 0, hl = h.hl(); StringBuilder in; while (!rx) { size_t n = r.chance(1, 2) ? 1 : 1 + r.below(12); if (at + n > w.size()) n = w.size() - at; in.concat((uint8_t*)w.data() + at, (int)n); at += n; int before = in.length(); rx = M2MMsg::unserialize(&in); VF_CHECK((rx != nullptr) == (at >= hl), "receive", "unserialize() of %zu bytes of a %zu byte header gave %s", at, hl, rx ? "a message" : "nothing"); if (!rx) VF_CHECK(in.length() == before, "receive", "unserialize() of part of a header ate it"); else VF_CHECK(in.length() == 0, "receive", "%d bytes left", in.length()); }
    while (at < w.size()) { VF_CHECK(!rx->rxComplete(), "complete", "complete with %zu of %zu bytes", at, w.size()); KeyValuePair* no = (KeyValuePair*)1; VF_CHECK(rx->getPayload(&no) == -1, "payload", "an incomplete message gave its payload"); size_t n = r.chance(1, 3) ? 1 + r.below(3) : 1 + r.below((uint32_t)(w.size() - at)); if (n > w.size() - at) n = w.size() - at; if (w.size() - at > 70000 && n < 20000) n = 20000; else if (w.size() - at > 2000 && n < 800) n = 800; at += n; in.concat((uint8_t*)w.data() + at - n, (int)n); bool last = at == w.size(); if (last) in.concat((uint8_t*)tail.data(), (int)tail.size()); int g = rx->accumulate(&in); VF_CHECK(g == (last ? 1 : 0), "complete", "accumulate() gave %d with %zu of %zu bytes", g, at, w.size()); sb_expect(&in, last ? tail : "", "leftover", "what follows the message"); c.count("pieces"); } }
  VF_CHECK(rx->rxComplete() && rx->direction() == BusOpcode::RX && rx->isValidMsg() && rx->uniqueId() == h.id && rx->msgCode() == (M2MMsgCode)code && rx->expectsReply() == wants && !rx->isReply(), "received", "the received message's fields differ"); VF_CHECK(rx->setPayload(nullptr) == -1, "set-payload", "a received message's payload could be set"); tell(c, *rx, ch, body.size() > 0, "received"); if (r.chance(1, 4)) tell(c, *rx, ch, body.size() > 0, "received, again"); if (body.size() && body.size() < 200 && r.chance(1, 4)) { StringBuilder p; rx->printDebug(&p); }
  { StringBuilder in; in.concat((uint8_t*)tail.data(), (int)tail.size()); VF_CHECK(rx->accumulate(&in) == 1, "complete", "a complete message wants more"); sb_expect(&in, tail, "leftover", "what follows the message"); }
  /* answer it */
  Own own2; std::vector<Nd> ch2; size_t t2 = 0; KeyValuePair* k2 = r.chance(1, 3) ? nullptr : payload(c, own2, ch2, t2); std::string body2; if (k2) write_map(ch2, body2); bool more = r.chance(1, 3); Ref a = h; a.flags = (a.flags & ~3) | 2 | more; bool can = size_to(a, body2.size()) && valid(a); int g = k2 || more || r.chance(1, 2) ? rx->reply(k2, more) : rx->ack(); VF_CHECK(g == (can ? 0 : -2), "reply", "reply() with %zu bytes gave %d", body2.size(), g); delete k2;
  if (can) { std::string w2 = wire(a) + body2; StringBuilder o; VF_CHECK(rx->serialize(&o) == 0, "serialize", "a reply's serialize() failed"); sb_expect(&o, w2, "reply", "the reply on the wire"); VF_CHECK(rx->direction() == BusOpcode::TX && rx->isReply() && rx->expectsReply() == more && rx->uniqueId() == h.id, "reply", "the reply's fields are wrong"); M2MMsg* back = M2MMsg::unserialize(&o); VF_CHECK(back && back->rxComplete() && o.length() == 0 && back->uniqueId() == h.id && back->isReply() && back->expectsReply() == more, "reply", "the reply did not arrive"); tell(c, *back, ch2, body2.size() > 0, "reply"); delete back; c.count("replies"); } else c.count("replies_refused");
  if (r.chance(1, 5)) { rx->wipe(); VF_CHECK(rx->uniqueId() == 0 && !rx->isReply() && !rx->expectsReply() && rx->direction() == BusOpcode::UNDEF && !rx->isValidMsg() && !rx->wasSent(), "wipe", "a wiped message is not blank"); }
  delete rx;
}
void vf_case(Ctx& c) { headers(c); messages(c); c.nontrivial = true; }
