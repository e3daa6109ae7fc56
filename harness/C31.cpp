/* C31: links under noise, loss and hostile peers: nothing but whole, checked messages gets through, what they emit is well formed, and they recover. */
#include "m2mrig.h"
#include "m2mref.h"
#include "Identity/Identity.h"
#include "Identity/IdentityUUID.h"
#include <set>
const char* VF_PROPERTY = "C31";
const char* VF_RULE = "A case is either one link whose peer is the harness, sending noise, valid, damaged, truncated and oversized messages of every code with sane and senseless payloads, in any order and in any pieces, while the application answers, sends, hangs up and resets at random, and which then meets an honest peer; or two links over a transport that now and then drops, duplicates, invents and damages bytes, then is clean again. Distinct by the bytes delivered.";
using namespace vf; using namespace cb;
void vf_setup() {}
struct Svc : public M2MService { Svc(M2MLink* l) : M2MService("svc", l) {} unsigned got = 0, want = 0; int8_t _handle_msg(uint32_t tag, M2MMsg* m) override; };
struct Mess { Ref h; std::string body; };
struct App { std::string in; size_t from = 0; Svc* svc[2] = {nullptr, nullptr}; unsigned handed = 0, emitted = 0, seen = 0; uint32_t mtu = 0; bool honest = false; std::map<uint32_t, int> want[2]; uint32_t serial = 0; int end = 0; std::set<std::pair<int, uint32_t>> asked; unsigned late = 0; std::string who; };
static App* A; static Rig* G;
static uint32_t serial_of(KeyValuePair* p) { for (C3PValue* v = p; v; v = v->nextValue()) if (v->has_key() && ((KeyValuePair*)v)->getKey() && !strcmp(((KeyValuePair*)v)->getKey(), "#n")) { int8_t ok; return v->get_as_uint(&ok); } return 0; }
static std::string rewritten(KeyValuePair* p) { if (!p) return "none"; StringBuilder b; p->serialize(&b, TCode::CBOR); return "kv:" + sb_read(&b); }
/* A message handed over must be among the bytes received, after those handed over before it. */
static void handed(M2MMsg* m, bool svc, int slot) {
  App& a = *A; Rig& g = *G; VF_CHECK(m->rxComplete() && m->direction() == BusOpcode::RX && m->isValidMsg(), "handed", "an incomplete or invalid message was handed over"); unsigned code = (unsigned)m->msgCode(); if (svc) VF_CHECK(code == 0x10u + slot, "service", "service %d was handed a message of code %02x", slot, code); else VF_CHECK(code == 0x0F, "handed", "the application was handed a message of code %02x", code);
  KeyValuePair* p = nullptr; VF_CHECK(m->getPayload(&p) == 0, "handed", "a message handed over has no readable payload"); std::string got = rewritten(p); delete p; size_t best = 0; bool sure = false;
  for (size_t at = a.from; at + 4 <= a.in.size(); at++) { if ((uint8_t)a.in[at] != code) continue; Ref h; int k = ref_parse(a.in.substr(at, 16), h); if (k < 0 || !valid(h) || h.id != m->uniqueId() || !!(h.flags & 1) != m->expectsReply() || !!(h.flags & 2) != m->isReply() || h.len > a.mtu || at + h.len > a.in.size()) continue; std::string body = a.in.substr(at + h.hl(), h.len - h.hl()); KeyValuePair* q = KeyValuePair::unserialize((uint8_t*)&body[0], (unsigned)body.size(), TCode::CBOR); std::string w = rewritten(q); delete q; if (w != got) continue; if (!sure || at + h.len < best) best = at + h.len; sure = true; if (at > best) break; }
  VF_CHECK(sure, "handed", "a message of code %02x id %06x%s%s was handed over, which never arrived whole (after byte %zu of %zu)", code, m->uniqueId(), m->isReply() ? " reply" : "", m->expectsReply() ? " wants reply" : "", a.from, a.in.size()); a.from = best; a.handed++; g.c.count(svc ? "handed_to_service" : "handed_to_application");
}
static void answer(Ctx& c, M2MMsg* m) { Rng& r = c.rng; if (r.chance(1, 2)) return; KeyValuePair kv("a", (uint32_t)r.u32()); int got = r.chance(1, 2) ? m->ack() : m->reply(r.chance(1, 2) ? &kv : nullptr, r.chance(1, 4)); c.count(got == 0 ? "answers" : "answers_refused"); }
int8_t Svc::_handle_msg(uint32_t, M2MMsg* m) { got++; int slot = A->svc[0] == this ? 0 : 1; if (!A->honest) handed(m, true, slot); answer(G->c, m); return 0; }
static void on_msg(Rig& g, End& x, uint32_t tag, M2MMsg* m) {
  App& a = *A; VF_CHECK(tag == x.l->linkTag(), "tag", "wrong tag"); if (!a.honest) { handed(m, false, 0); answer(g.c, m); return; }
  VF_CHECK(m->rxComplete() && m->isValidMsg() && m->msgCode() == M2MMsgCode::APPLICATION, "handed", "a broken message was handed over"); KeyValuePair* p = nullptr; VF_CHECK(m->getPayload(&p) == 0, "handed", "getPayload() failed"); uint32_t s = p ? serial_of(p) : 0; delete p; auto f = a.want[x.idx].find(s); g.c.op("[%llu] end %u gets message %u id %06x%s%s", (unsigned long long)now_us / 1000, x.idx, s, m->uniqueId(), m->isReply() ? " reply" : "", m->expectsReply() ? " wants reply" : ""); if (f != a.want[x.idx].end()) { f->second++; g.c.count("handed_after_recovery"); VF_CHECK(f->second == 1, "twice", "message %u sent after recovery came %d times", s, f->second); if (m->expectsReply()) m->ack(); } else { g.c.count("handed_amid_faults"); if (m->expectsReply() && !m->isReply() && g.r.chance(1, 2)) m->ack(); }
}
/* Whatever a link emits is valid messages, and replies answer something that arrived. */
static void emitted(Ctx& c, App& a, std::string& q, bool was_seen) {
  unsigned n = 0; while (!q.empty()) { Ref h; int k = ref_parse(q, h); VF_CHECK(k >= 1 && valid(h) && (k == 1 || q.size() >= h.len), "emitted", "emitted %s, which is no whole valid message", hex(q.data(), q.size(), 40).c_str()); if ((h.flags & 2) && was_seen) { bool found = false; for (size_t at = 0; at + 4 <= a.in.size() && !found; at++) { if ((uint8_t)a.in[at] != h.code) continue; Ref o; found = ref_parse(a.in.substr(at, 16), o) >= 0 && o.id == h.id; } VF_CHECK(found, "emitted", "emitted a reply (code %02x id %06x) to nothing that arrived", h.code, h.id); c.count("replies_emitted"); } q.erase(0, h.len); n++; c.count("messages_emitted"); c.feat(mix(h.code, h.flags & 3)); }
  VF_CHECK(n <= 8, "flood", "one poll emitted %u messages", n);
}
static std::string message(Rng& r, uint8_t code, uint8_t flags, uint32_t id, const std::string& body) { Ref h; h.code = code; h.id = id; h.flags = (flags & 0x0F) | nbytes(id) << 6; size_to(h, body.size()); return wire(h) + body; }
static std::string sense(Ctx& c, unsigned max) { Own own; for (;;) { std::vector<Nd> ch; KeyValuePair* k = mkmap(c, own, ch, 4); delete k; if (!flat(ch)) continue; std::string w; write_map(ch, w); if (w.size() <= max) return w; } }
static std::string payload(Ctx& c, unsigned max) {
  Rng& r = c.rng; std::string s; switch (r.below(10)) { case 0: case 1: return ""; case 2: case 3: s = sense(c, max); break; case 4: { Nd d; d.keyed = true; d.key = "b"; d.k = r.chance(1, 2) ? 'b' : 's'; d.s = rnd_bytes(r, r.below(60), d.k == 's' ? 1 : 0); std::vector<Nd> v{d}; write_map(v, s); break; }
    case 5: { s = sense(c, max); for (unsigned i = r.below(4) + 1; i-- && !s.empty();) s[r.below((uint32_t)s.size())] = (char)r.u32(); break; } case 6: { s = sense(c, max); s.resize(r.below((uint32_t)s.size() + 1)); break; } case 7: { s = "\xA1"; s += r.chance(1, 2) ? "\x65ident" : "\x61" "b"; s += (char)r.u32(); s += rnd_bytes(r, r.below(50), 0); break; } case 8: { s = "\xA1\x65ident"; s += '\xD9'; s += (char)r.u32(); s += (char)r.below(64); s += (char)(0x40 | r.below(30)); s += rnd_bytes(r, r.below(40), 0); break; } default: s = rnd_bytes(r, r.below(max < 200 ? max : 200), 0); }
  return s;
}
static std::string ident(Rng& r) {   // A map with an identity, perhaps damaged.
  std::string nm = rnd_bytes(r, r.below(12), 1), id = rnd_bytes(r, 16, 0), b; unsigned n = 6 + nm.size() + 16, fl = r.u32(); b += (char)(n >> 8); b += (char)n; b += (char)(fl >> 8); b += (char)fl; b += (char)(r.chance(1, 12) ? r.u32() : 2); b += nm; b += '\0'; b += id; if (r.chance(1, 6)) b[r.below(6)] = (char)r.u32(); if (r.chance(1, 8)) b.resize(r.below((uint32_t)b.size()));
  std::string s = r.chance(1, 8) ? "\xA1\x65other" : "\xA1\x65ident"; s += "\xD9\xE9"; s += (char)0xE2; s += '\x58'; s += (char)b.size(); s += b; if (r.chance(1, 10)) s += rnd_bytes(r, r.below(5), 0); if (r.chance(1, 20)) s[r.below((uint32_t)s.size())] = (char)r.u32(); return s;
}
/* A counterparty's identity is one that it sent, and stays the same for as long as the session. */
static void known(Ctx& c, App& a, M2MLink& l) {
  Identity* i = l.remoteIdentity(); if (!i) { a.who.clear(); return; } char id[18]; memset(id, 0, 18); VF_CHECK(i->identityType() == IdentFormat::UUID, "identity", "the counterparty's identity is of type %u", (unsigned)i->identityType()); ((IdentityUUID*)i)->copyRaw((uint8_t*)id); std::string now = std::string(i->getHandle()) + std::string("\0", 1) + std::string(id, 16); if (a.who == now) return;
  VF_CHECK(a.who.empty(), "identity", "a known counterparty became another"); VF_CHECK(a.in.find(now) != std::string::npos, "identity", "the counterparty is known as %s, which never arrived", quote(now.data(), now.size()).c_str()); a.who = now; c.count("identities_learned");
}
static std::string attack(Ctx& c, App& a, bool synced) {
  Rng& r = c.rng; static const uint8_t codes[] = {1, 2, 3, 4, 5, 6, 7, 8, 8, 9, 9, 0x0E, 0x0F, 0x0F, 0x0F, 0x10, 0x11, 0x12, 0x1F}; uint8_t code = r.chance(1, 40) ? r.u32() : codes[r.below(sizeof codes)]; if (code == 5 && r.chance(3, 4)) code = 0x0F; uint8_t flags = r.chance(1, 30) ? r.u32() : r.below(4); uint32_t id = flags & 3 ? 1 + r.below(r.chance(1, 2) ? 4 : 0xFFFFFF) : 0; if (!a.asked.empty() && r.chance(1, 3)) { auto it = a.asked.begin(); std::advance(it, r.below((uint32_t)a.asked.size())); code = it->first; id = it->second; flags = 2 | r.below(2); } if (code == 1) id = 0; if (r.chance(1, 30)) id = r.u32() & 0xFFFFFF;
  std::string m = message(r, code, flags, id, code == 9 && r.chance(1, 2) ? ident(r) : payload(c, a.mtu)); unsigned what = r.below(synced ? 24 : 8);
  switch (what) { case 0: m.resize(r.below((uint32_t)m.size() + 1)); c.count("cut"); break; case 1: m[r.below((uint32_t)m.size())] = (char)r.u32(); c.count("damaged"); break; case 2: m = rnd_bytes(r, 1 + r.below(40), 0); c.count("noise"); break; case 3: m = message(r, code, flags, id, std::string(a.mtu - 8 + r.below(20), 'x')); c.count("around_the_limit"); break; case 4: { Ref h; h.code = code; h.id = id; h.flags = (flags & 15) | nbytes(id) << 6; h.len = r.chance(1, 2) ? 0xFFFFFF - r.below(3) : a.mtu + 1 + r.below(70000); h.flags |= nbytes(h.len) << 4; h.chk = sum(h); m = wire(h); c.count("huge_lengths"); break; } case 5: { std::string s; for (unsigned i = 1 + r.below(r.chance(1, 6) ? 120 : 5); i--;) s += message(r, 1, r.chance(1, 2) ? 1 : 2, 0, ""); m = s; c.count("syncs"); break; } case 6: m = message(r, 2, r.chance(1, 2) ? 2 : 1, 1 + r.below(0xFFFF), ""); break; case 7: { Ref h; h.code = code; h.flags = r.u32(); h.len = r.below(12); h.chk = r.chance(1, 2) ? sum(h) : r.u32(); m = wire(h); break; } default: c.count("sane_messages"); }
  return m;
}
static void note(App& a, const std::string& q) { std::string s = q; while (s.size() >= 4) { Ref h; if (ref_parse(s, h) < 0) break; if ((h.flags & 1) && h.code != 1) { if (a.asked.size() > 12) a.asked.erase(a.asked.begin()); a.asked.insert({h.code, h.id}); } s.erase(0, h.len); } }
static void poll(Rig& g, App& a, int i) { g.poll(i); if (!a.honest) { note(a, g.e[i].out.q); emitted(g.c, a, g.e[i].out.q, true); } }
static void force_down(Rig& g, int i) { auto& x = g.e[i]; M2MLinkState s = x.l->currentState(); if (s == M2MLinkState::UNINIT || s == M2MLinkState::PENDING_SETUP) { for (int k = 0; k < 5; k++) g.poll(i); s = x.l->currentState(); } int8_t h = x.l->hangup(false); VF_CHECK(h == 0, "forced-hangup", "a forced hangup in state %s gave %d", M2MLink::sessionStateStr(s), h); for (int k = 0; k < 2 && x.l->currentState() != M2MLinkState::HUNGUP; k++) g.poll(i); VF_CHECK(x.l->currentState() == M2MLinkState::HUNGUP && !x.l->isConnected(), "forced-hangup", "a forced hangup in state %s led to state %s", M2MLink::sessionStateStr(s), g.state(i)); x.out.q.clear(); g.c.count("forced_hangups"); }
static void c_show(Ctx& c, StringBuilder& d) { std::string s = sb_read(&d); size_t p = 0; while (p < s.size()) { size_t q = s.find(10, p); if (q == std::string::npos) q = s.size(); c.op("%s", s.substr(p, q - p).c_str()); p = q + 1; } }
/* Both ends get back to where messages pass, and they do. */
static bool recover(Rig& g, App& a, uint32_t ka, const char* what) {
  unsigned n = 0; uint64_t t0 = now_us; Rng& r = g.r; unsigned tick = ka / 3; bool slow = r.chance(1, 2);
  while (!g.quiet()) { for (int i = 0; i < 2; i++) { auto s = g.e[i].l->currentState(); if (s == M2MLinkState::HUNGUP || s == M2MLinkState::PENDING_HANGUP) { g.c.count("hung_up_by_noise"); return false; } size_t m = g.e[!i].out.q.size(); if (slow && m) g.deliver(i, 1 + r.below((uint32_t)m)); else g.deliver(i, 100000); g.poll(i); if (r.chance(1, 2)) g.poll(i); } advance_us(1000 * (r.chance(1, 2) ? tick : 1)); if (++n == 59999) { StringBuilder d; for (int i = 0; i < 2; i++) { g.e[i].l->printDebug(&d); g.e[i].l->printQueues(&d); g.e[i].l->printFSM(&d); } c_show(g.c, d); } VF_CHECK(n < 60000, "recovery", "%s: not back after %u rounds and %llu ms: %s (%zu on the way), %s (%zu)", what, n, (unsigned long long)(now_us - t0) / 1000, g.state(0), g.e[0].out.q.size(), g.state(1), g.e[1].out.q.size()); }
  g.c.count("recoveries"); g.c.feat(mix(77, n < 400 ? n / 20 : 20 + (n > 2000))); unsigned k = 1 + r.below(2); a.want[0].clear(); a.want[1].clear(); while (k--) for (int i = 0; i < 2; i++) { KeyValuePair kv("#n", (uint32_t)++a.serial); Own own; bool w = r.chance(1, 2); int id = g.e[i].l->send(&kv, w); VF_CHECK(w ? id > 0 : id == 0, "send", "%s: send() gave %d", what, id); a.want[!i][a.serial] = 0; g.c.op("[%llu] end %d sends message %u id %06x", (unsigned long long)now_us / 1000, i, a.serial, id); }
  n = 0; auto left = [&] { int l = 0; for (auto& w : a.want) for (auto& e : w) l += !e.second; return l; }; do { for (int i = 0; i < 2; i++) { g.deliver(i, slow ? 3 : 100000); g.poll(i); } if (++n == 2999) { StringBuilder d; for (int i = 0; i < 2; i++) { g.e[i].l->printDebug(&d); g.e[i].l->printQueues(&d); g.e[i].l->printFSM(&d); } c_show(g.c, d); } VF_CHECK(n < 3000, "recovery", "%s: %d messages sent after recovery never came: %s %s", what, left(), g.state(0), g.state(1)); if (slow && n > 400) slow = false; if (n > 600) advance_us(5000); } while (left() || !g.quiet()); a.want[0].clear(); a.want[1].clear();
  for (int i = 0; i < 2; i++) VF_CHECK(g.e[i].l->isConnected(), "recovery", "%s: end %d says it is not connected", what, i); g.c.count("messages_after_recovery", 2); return true;
}
static void down_and_up(Rig& g, App& a, uint32_t ka, const char* what) { for (int i = 0; i < 2; i++) if (g.e[i].l->currentState() != M2MLinkState::HUNGUP) force_down(g, i); for (int i = 0; i < 2; i++) { g.e[i].out.q.clear(); VF_CHECK(g.e[i].l->reset() == 0, "reset", "reset() failed"); g.poll(i); } if (!recover(g, a, ka, what)) VF_CHECK(false, "recovery", "%s: a fresh session hung up by itself", what); g.c.count("fresh_sessions"); }
static void console(Ctx& c, M2MLink* l) { static const char* cmd[] = {"info", "queues", "fsm", "local identity", "local", "remote identity", "remote", "who", "sync", "verbosity 7", "verbosity 0", "verbosity", "local policy", "nonsense", "fsm slowdown"}; StringBuilder in(cmd[c.rng.below(sizeof cmd / sizeof *cmd)]), out; in.split(" "); l->console_handler(&out, &in); c.count("console_commands"); }
static void hostile(Ctx& c) {
  Rng& r = c.rng; Rig g(c); App a; A = &a; G = &g; g.on_msg = on_msg; uint32_t ka = 60 + r.below(200), to = r.chance(1, 2) ? 40 + r.below(100) : 2000; bool auth = r.chance(1, 12), log = r.chance(2, 3); a.mtu = 60 + r.below(540); M2MLinkOpts o(to, ka, a.mtu, r.chance(1, 15) ? TCode::BINARY : TCode::CBOR, M2MLINK_FLAG_SEND_KA | (auth ? M2MLINK_FLAG_AUTH_REQUIRED : 0) | (log ? M2MLINK_FLAG_ALLOW_LOG_WRITE : 0)); if (o.encoding == TCode::BINARY) o.encoding = TCode::CBOR; o.max_outbound = 8 + r.below(20); g.make(0, o); auto& l = *g.e[0].l; IdentityUUID me("me"); if (r.chance(1, 2)) l.localIdentity(&me); Svc s0(&l), s1(&l); unsigned nsvc = r.below(3); if (nsvc) { a.svc[0] = &s0; l.setCallback(&s0); } if (nsvc > 1) { a.svc[1] = &s1; l.setCallback(&s1); VF_CHECK(l.setCallback(&s1) == -1, "service", "more services than slots"); }
  std::string pend; unsigned steps = 40 + r.below(200); bool polite = r.chance(2, 3); g.e[0].out.refuse = 0;
  for (unsigned k = 0; k < steps; k++) {
    if (r.chance(1, 20)) g.e[0].out.refuse = r.chance(2, 3) ? 0 : r.below(10);
    M2MLinkState st = l.currentState(); bool live = st == M2MLinkState::LIVE; if (live) c.count("live_steps");
    if (r.chance(2, 3)) { if (!live && polite && r.chance(1, 2)) pend += message(r, 1, 2, 0, "") + message(r, 1, 1, 0, "") + message(r, 2, 2, 1 + r.below(0xFFFF), ""); else pend += attack(c, a, polite && live); }
    if (!pend.empty() && r.chance(3, 4)) { size_t n = r.chance(1, 2) ? pend.size() : 1 + r.below((uint32_t)pend.size()); StringBuilder b; sb_build(r, &b, pend.substr(0, n), 4); M2MLinkState s = l.currentState(); if (s != M2MLinkState::UNINIT && s != M2MLinkState::PENDING_SETUP && s != M2MLinkState::HUNGUP) a.in += pend.substr(0, n); c.hash(pend.data(), n); pend.erase(0, n); g.give(0, &b); (void)l.bufferAvailable(); }
    for (unsigned p = r.below(4); p--;) { unsigned was = a.handed; poll(g, a, 0); known(c, a, l); VF_CHECK(a.handed - was <= 4, "flood", "one poll handed over %u messages", a.handed - was); }
    if (r.chance(1, 4)) advance_us(1000 * r.below(80)); if (r.chance(1, 200)) advance_us(1000ull * r.below(400000));
    if (r.chance(1, 10)) { std::string t = rnd_bytes(r, r.below(30), 1); KeyValuePair kv("t", (uint32_t)r.u32()); int id = l.send(r.chance(1, 2) ? &kv : nullptr, r.chance(1, 2)); VF_CHECK(id >= -4 && id != -1, "send", "send() gave %d", id); c.count(id >= 0 ? "sent" : "send_refused"); }
    if (r.chance(1, 30)) { StringBuilder b("log line"); l.writeRemoteLog(&b, r.chance(1, 2)); } if (r.chance(1, 40)) console(c, &l); if (r.chance(1, 150)) l.syncCast(r.chance(1, 2));
    if (r.chance(1, 80)) l.hangup(r.chance(1, 2)); if (l.currentState() == M2MLinkState::HUNGUP && r.chance(1, 3)) { VF_CHECK(l.reset() == 0, "reset", "reset() failed"); c.count("resets"); a.from = a.in.size(); if (l.remoteIdentity() == nullptr) a.who.clear(); } else if (r.chance(1, 100)) { M2MLinkState s = l.currentState(); int8_t x = l.reset(); VF_CHECK(x == (s == M2MLinkState::HUNGUP ? 0 : -1), "reset", "reset() gave %d", x); }
    if (!log) VF_CHECK(g.e[0].log.empty(), "log", "a log line was written although that is not allowed"); c.feat(mix(5, (unsigned)l.currentState()));
  }
  if (a.handed) c.count("cases_handing_messages"); g.e[0].out.refuse = 0; c.count("hostile_bytes", a.in.size()); c.nontrivial = true; if (auth) { if (l.currentState() != M2MLinkState::HUNGUP) force_down(g, 0); return; }
  /* An honest peer takes over. */
  a.honest = true; l.verbosity(0); l.syncCast(l.syncCast()); M2MLinkOpts p(to, ka, a.mtu, TCode::CBOR, M2MLINK_FLAG_SEND_KA); g.make(1, p); g.e[1].l->verbosity(0); g.e[0].out.q.clear(); l.poll();
  M2MLinkState st = l.currentState(); c.op("honest peer from state %s", g.state(0)); if (st == M2MLinkState::HUNGUP || st == M2MLinkState::PENDING_HANGUP) down_and_up(g, a, ka, "after a hostile peer"); else if (!recover(g, a, ka, "after a hostile peer")) down_and_up(g, a, ka, "after a hostile peer's hangup");
}
static void noisy(Ctx& c) {
  Rng& r = c.rng; Rig g(c); App a; A = &a; G = &g; g.on_msg = on_msg; a.honest = true; uint32_t ka = 60 + r.below(200), to = r.chance(1, 2) ? 40 + r.below(100) : 2000; for (int i = 0; i < 2; i++) { M2MLinkOpts o(to, ka, 60 + r.below(540), TCode::CBOR, M2MLINK_FLAG_SEND_KA); o.max_outbound = 30; g.make(i, o); g.e[i].l->verbosity(0); }
  if (r.chance(2, 3) && !recover(g, a, ka, "at first")) VF_CHECK(false, "recovery", "a fresh session hung up by itself");
  for (unsigned round = 1 + r.below(4); round--;) {
    unsigned kind = r.below(6), steps = 10 + r.below(80), rate = 1 + r.below(12); c.op("faults of kind %u, one in %u", kind, rate);
    for (unsigned k = 0; k < steps; k++) {
      int i = r.below(2); std::string& q = g.e[!i].out.q; if (r.chance(1, 4)) { KeyValuePair kv("#n", (uint32_t)++a.serial); std::string t = rnd_bytes(r, r.below(20), 0); kv.append((uint8_t*)t.data(), t.size(), "t"); g.e[i].l->send(&kv, r.chance(1, 2)); }
      if (!q.empty() && r.chance(2, 3)) { size_t n = r.chance(1, 3) ? q.size() : 1 + r.below((uint32_t)q.size()); std::string s = q.substr(0, n); q.erase(0, n); if (r.chance(1, rate)) { size_t at = r.below((uint32_t)s.size()), m = 1 + r.below((uint32_t)(s.size() - at)); switch (kind == 5 ? r.below(5) : kind) { case 0: s.erase(at, m); c.count("faults_lost"); break; case 1: s.insert(at, s.substr(at, m)); c.count("faults_doubled"); break; case 2: s.insert(at, rnd_bytes(r, 1 + r.below(20), 0)); c.count("faults_invented"); break; case 3: s[at] ^= 1 << r.below(8); c.count("faults_flipped"); break; default: for (size_t j = at; j < at + m; j++) s[j] = (char)r.u32(); c.count("faults_scrambled"); } } c.hash(s.data(), s.size()); if (!s.empty()) { StringBuilder b; sb_build(r, &b, s, 3); g.give(i, &b); } }
      g.poll(i); if (r.chance(1, 6)) advance_us(1000 * r.below(ka)); if (r.chance(1, 40) && kind == 0) { g.e[0].out.q.clear(); g.e[1].out.q.clear(); advance_us(1000 * r.below(4 * ka)); c.count("outages"); }
    }
    if (!recover(g, a, ka, "after the faults")) down_and_up(g, a, ka, "after a hangup");
    if (r.chance(1, 6)) { for (int i = 0; i < 2; i++) force_down(g, i); down_and_up(g, a, ka, "after hanging up"); }
  }
  c.nontrivial = true;
}
void vf_case(Ctx& c) { if (c.rng.chance(1, 2)) hostile(c); else noisy(c); }
