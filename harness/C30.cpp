/* C30: two links over a lossless transport that cuts and delays: what each application is given against what the other sent. */
#include "m2mrig.h"
#include "m2mref.h"
#include "Identity/Identity.h"
#include "Identity/IdentityUUID.h"
#include <deque>
#include <algorithm>
const char* VF_PROPERTY = "C30";
const char* VF_RULE = "A case is two links joined by byte queues that are delivered in random pieces and at random times: they find each other, exchange application messages with random payloads (bare, wanting a reply, answered with an acknowledgement, a payload or a counter-question, or only after several tries) and log lines in both directions while either end is polled at random, hang up one of four ways, and start over. Some transports refuse at times. Distinct by the sequence of events.";
using namespace vf; using namespace cb;
void vf_setup() {}
struct Msg { uint32_t id = 0, serial = 0; bool reply = false, wants = false, some = false, plain = false; std::vector<Nd> ch; int due = 1, got = 0; int answer = 0; };   // due: deliveries to come.
struct App { std::deque<Msg> to[2]; uint32_t serial = 0; bool ordered = true, retries = false; std::map<uint32_t, int> asked[2]; std::string logs[2]; uint32_t mtu[2]; unsigned delivered = 0, open[2] = {0, 0}; unsigned giveups[2] = {0, 0}; };
static uint32_t serial_of(KeyValuePair* p) { for (C3PValue* v = p; v; v = v->nextValue()) if (v->has_key() && !strcmp(((KeyValuePair*)v)->getKey(), "#n")) { int8_t ok; return v->get_as_uint(&ok); } return 0; }
/* Identifiers that differ in a single bit, none of them twice. */
static std::set<uint32_t> drawn; static uint32_t last_drawn = 0;
static uint32_t related() { for (unsigned n = 0;; n++) { uint32_t v = n > 60 || !last_drawn || vf::C->rng.chance(1, 4) ? vf::C->rng.u32() : last_drawn ^ 1u << vf::C->rng.below(24); if ((v & 0xFFFFFF) && drawn.insert(v & 0xFFFFFF).second) { last_drawn = v; return v; } } }
struct Related { Related(bool on) { drawn.clear(); last_drawn = 0; vf::rand32_hook = on ? related : nullptr; } ~Related() { vf::rand32_hook = nullptr; } };
static KeyValuePair* payload(Rig& g, App& a, Msg& m, Own& own, uint32_t mtu) {
  Rng& r = g.r; m.serial = ++a.serial; Nd s; s.keyed = true; s.key = "#n"; s.k = 'i'; s.n = m.serial; KeyValuePair* k;
  for (;;) {
    m.ch.clear(); k = new KeyValuePair("#n", (uint32_t)m.serial); m.ch.push_back(s); KeyValuePair* x = nullptr; std::vector<Nd> more;
    if (r.chance(1, 2)) { for (;;) { x = mkmap(g.c, own, more, 4); if (flat(more) && clean(more, true) && !more.empty() && x->has_key()) break; delete x; more.clear(); } k->link(x); } else if (r.chance(1, 2)) { Nd d; d.keyed = true; d.key = "b"; d.k = 'b'; std::string w; write_map(m.ch, w); size_t max = mtu - 40; size_t n = r.chance(1, 2) ? max + 30 - r.below(40) : r.below((uint32_t)max); d.s = rnd_bytes(r, n, 0); k->append((uint8_t*)keep(own, d.s), d.s.size(), "b"); more.push_back(d); }
    for (auto& d : more) m.ch.push_back(d); std::string w; write_map(m.ch, w); uint32_t need = (uint32_t)w.size() + 4 + 3; need += (need > 255) + (need > 65534); if (need <= mtu) { if (need == mtu) g.c.count("messages_of_exactly_the_limit"); m.some = true; return k; } delete k;
  }
}
static void received(Rig& g, End& x, uint32_t tag, M2MMsg* msg) {
  App& a = *(App*)g.app; Rng& r = g.r; KeyValuePair* p = nullptr; VF_CHECK(tag == x.l->linkTag(), "tag", "the callback's tag is not the link's"); VF_CHECK(msg->msgCode() == M2MMsgCode::APPLICATION && msg->rxComplete() && msg->direction() == BusOpcode::RX && msg->isValidMsg() && msg->getPayload(&p) == 0, "message", "the application was handed a broken message");
  uint32_t ser = p ? serial_of(p) : 0; auto& q = a.to[x.idx]; size_t at = 0; g.c.op("end %u gets serial %u id %06x%s%s", x.idx, ser, msg->uniqueId(), msg->isReply() ? " reply" : "", msg->expectsReply() ? " wants reply" : ""); g.c.count("messages_delivered"); a.delivered++;
  if (!a.ordered || !p) for (at = 0; at < q.size(); at++) if (p ? q[at].some && q[at].serial == ser : !q[at].some && q[at].id == msg->uniqueId() && q[at].reply == msg->isReply()) break;
  VF_CHECK(at < q.size(), "uninvited", "end %u was handed serial %u id %06x (reply %d), which is not on its way", x.idx, ser, msg->uniqueId(), msg->isReply());
  if (a.ordered && at) VF_CHECK(false, "order", "end %u was handed id %06x ahead of %zu others", x.idx, msg->uniqueId(), at);
  Msg& m = q[at]; VF_CHECK(m.some == (p != nullptr) && (!p || m.serial == ser), "order", "end %u was handed serial %u where %u was next", x.idx, ser, m.serial); VF_CHECK(m.id == msg->uniqueId() && m.reply == msg->isReply() && m.wants == msg->expectsReply(), "fields", "serial %u came as id %06x reply %d wants %d, was sent as %06x %d %d", ser, msg->uniqueId(), msg->isReply(), msg->expectsReply(), m.id, m.reply, m.wants); if (p) same(p, m.ch, "payload"); delete p; m.got++;
  if (m.reply) { auto f = a.asked[x.idx].find(m.id); VF_CHECK(f != a.asked[x.idx].end() && f->second > 0, "reply", "a reply to %06x, which nobody asked for", m.id); if (--f->second == 0) a.asked[x.idx].erase(f); g.c.count("replies_delivered"); }
  if (m.wants && m.got == m.due && m.answer >= 0) {
    Msg out; out.id = m.id; out.reply = true; Own own; KeyValuePair* k = nullptr; out.wants = !m.plain && r.chance(1, 5); if (r.chance(1, 2) && out.id) k = payload(g, a, out, own, a.mtu[!x.idx]); if (out.wants) { out.due = 1; a.asked[x.idx][out.id]++; g.c.count("counter_questions"); }
    int res = !k && !out.wants && r.chance(1, 2) ? msg->ack() : msg->reply(k, out.wants); delete k; VF_CHECK(res == 0, "reply", "reply() gave %d", res); g.c.op("end %u answers %06x serial %u%s", x.idx, out.id, out.serial, out.wants ? " wants reply" : ""); a.to[!x.idx].push_back(out); a.open[x.idx]++;
  } else if (m.wants) g.c.count("left_unanswered");
  if (m.got == m.due) { a.open[!x.idx]--; for (size_t i = 0; i < q.size(); i++) if (&q[i] == &m) { q.erase(q.begin() + i); break; } }
}
static bool send1(Rig& g, App& a, int i, bool expect_full = false) {
  Rng& r = g.r; Msg m; Own own; KeyValuePair* k = nullptr; m.wants = r.chance(1, 2); if (!a.ordered || !r.chance(1, 8)) k = payload(g, a, m, own, a.mtu[!i]); if (m.wants && a.retries) { int n = r.below(7); if (n > 4) n = 1; m.due = n < 1 ? 4 : n; m.answer = n < 1 ? -1 : 0; }
  int id = g.e[i].l->send(k, m.wants); delete k; if (expect_full) { VF_CHECK(id == -3, "full", "a full queue's send() gave %d", id); g.c.count("sends_refused"); return false; } VF_CHECK(m.wants ? id > 0 && id <= 0xFFFFFF : id == 0, "send", "send() gave %d", id);
  m.id = id; if (m.wants) { if (a.asked[i].count(id)) broken("identifier drawn twice"); if (m.answer >= 0) a.asked[i][id]++; else a.giveups[i]++; } g.c.op("end %d sends serial %u id %06x%s due %d", i, m.serial, m.id, m.wants ? " wants reply" : "", m.due); a.to[!i].push_back(m); a.open[i]++; g.c.count("messages_sent"); return true;
}
/* The other end happens to ask a question under the number of one that I asked myself. */
static void collide(Rig& g, App& a, int i) {
  Rng& r = g.r; std::string& q = g.e[!i].out.q; if (!q.empty() || a.to[!i].empty()) return; const Msg& o = a.to[!i].back(); if (!o.wants || o.reply || o.due < 2) return; Msg m; m.id = o.id; m.wants = m.plain = true; m.some = true; m.serial = ++a.serial; Nd s; s.keyed = true; s.key = "#n"; s.k = 'i'; s.n = m.serial; m.ch.push_back(s); std::string body; write_map(m.ch, body);
  Ref h; h.code = (uint8_t)M2MMsgCode::APPLICATION; h.id = m.id; h.flags = 1 | nbytes(h.id) << 6; size_to(h, body.size()); q += wire(h) + body; a.to[i].push_back(m); a.open[!i]++; a.asked[!i][m.id]++; g.c.op("end %d is asked serial %u under the same id %06x", i, m.serial, m.id); g.c.count("same_numbers"); (void)r;
}
/* A link that has a part of a message is not idle. */
static void halfway(Rig& g, App& a, int i) {
  Rng& r = g.r; Msg m; Own own; KeyValuePair* k = payload(g, a, m, own, a.mtu[!i]); int id = g.e[i].l->send(k, false); delete k; VF_CHECK(id == 0, "send", "send() gave %d", id); a.to[!i].push_back(m); a.open[i]++; g.c.count("messages_sent"); for (int n = 0; n < 5 && g.e[i].out.q.empty(); n++) { VF_CHECK(!g.e[i].l->linkIdle(), "idle", "a link with a message to send claims to be idle"); g.poll(i); }
  std::string& q = g.e[i].out.q; VF_CHECK(!q.empty(), "send", "a message is not sent in five polls"); while (q.size() > 1) { g.deliver(!i, r.chance(1, 2) ? 1 + r.below((uint32_t)q.size() - 1) : q.size() - 1); g.poll(!i); if (r.chance(1, 3)) g.poll(!i); VF_CHECK(!g.e[!i].l->linkIdle() || g.e[!i].out.q.size(), "idle", "a link that was given a part of a message claims to be idle"); } VF_CHECK(!g.e[!i].l->linkIdle(), "idle", "a link that lacks the last byte of a message claims to be idle"); g.c.count("halfway_messages");
}
static std::string command(M2MLink* l, const char* cmd) { StringBuilder in(cmd), out; in.split(" "); l->console_handler(&out, &in); return sb_read(&out); }
/* What the console says of an idle link is so, and what it orders is done. */
static void knows(Rig& g, int i, bool* known, IdentityUUID** me) { Identity* f = g.e[i].l->remoteIdentity(); VF_CHECK((f != nullptr) == known[!i], "identity", "an idle link %s its counterparty", known[!i] ? "doesn't know" : "knows"); if (f) { StringBuilder w, x; f->toString(&w); me[!i]->toString(&x); std::string p = sb_read(&w), q = sb_read(&x); VF_CHECK(p == q, "identity", "the counterparty is taken for %s, is %s", quote(p.data(), p.size()).c_str(), quote(q.data(), q.size()).c_str()); g.c.count("identities_known"); } }
static void talk(Rig& g, App& a, bool* lg, bool* known, IdentityUUID** me, uint32_t ka) {
  Rng& r = g.r; Ctx& c = g.c; int i = r.below(2); M2MLink* l = g.e[i].l; auto has = [&](const std::string& t, const std::string& w, const char* what) { VF_CHECK(t.find(w) != std::string::npos, "console", "the console's %s gave %s, not %s", what, quote(t.data(), t.size()).c_str(), quote(w.data(), w.size()).c_str()); };
  switch (r.below(8)) {
    case 0: { has(command(l, "log"), "Remote log write returns 0\n", "log"); char h[64]; snprintf(h, sizeof h, "Link 0x%08x counterparty says:\n", g.e[!i].l->linkTag()); if (lg[!i]) a.logs[!i] += std::string(h) + "This is a remote log test.\n\n"; VF_CHECK(!l->linkIdle(), "console", "a log line was ordered and nothing is to be sent"); break; }
    case 1: { StringBuilder w; if (known[i]) me[i]->toString(&w); else w.concat("No local Identity in use.\n"); std::string t = command(l, "local identity"), e = sb_read(&w); VF_CHECK(t == e, "console", "the local identity prints as %s, should be %s", quote(t.data(), t.size()).c_str(), quote(e.data(), e.size()).c_str()); break; }
    case 2: { StringBuilder w; if (l->remoteIdentity()) l->remoteIdentity()->toString(&w); else w.concat("No remote Identity.\n"); knows(g, i, known, me); std::string t = command(l, "remote identity"), e = sb_read(&w); VF_CHECK(t == e, "console", "the remote identity prints as %s, should be %s", quote(t.data(), t.size()).c_str(), quote(e.data(), e.size()).c_str()); break; }
    case 3: { has(command(l, "who"), "send_who_message() returns 0\n", "who"); VF_CHECK(!l->linkIdle(), "console", "a message was ordered and nothing is to be sent"); break; }
    case 4: { has(command(l, "sync 1"), "Link syncCast(1)\n", "sync"); VF_CHECK(l->syncCast(), "console", "ordered to, a link doesn't cast sync"); if (r.chance(1, 3)) { has(command(l, "sync 0"), "Link syncCast(0)\n", "sync"); VF_CHECK(!l->syncCast(), "console", "ordered to stop, a link casts sync"); break; } uint64_t was = g.e[i].out.sent, theirs = g.e[!i].out.sent; bool mine = false, other = false; for (unsigned n = 0; n < 8; n++) { advance_us(1000ull * (ka / 4 + 1)); for (int k = 0; k < 2; k++) { int e = k ^ i; g.poll(e); if (g.e[i].out.sent > was && !other) mine = true; if (g.e[!i].out.sent > theirs && !mine) other = true; g.deliver(!e, 100000); } } g.poll(i);
      if (other) { /* Busy with the counterparty's own keepalives. */ has(command(l, "sync 0"), "Link syncCast(0)\n", "sync"); VF_CHECK(!l->syncCast(), "console", "ordered to stop, a link casts sync"); break; } VF_CHECK(mine && !l->syncCast(), "console", "a link that was ordered to cast sync has %s", l->syncCast() ? "not stopped after the reply" : "not done so"); c.count("sync_casts"); break; }
    case 5: { unsigned v = r.below(8), w = l->verbosity(); has(command(l, ("verbosity " + std::to_string(v)).c_str()), "verbosity is " + std::to_string(v) + "\n", "verbosity"); VF_CHECK(l->verbosity() == v, "console", "the verbosity is %u, ordered %u", l->verbosity(), v); has(command(l, "verbosity"), "verbosity is " + std::to_string(v) + "\n", "verbosity"); l->verbosity(w); break; }
    case 6: { StringBuilder in(r.chance(1, 2) ? "nonsense" : "hang up"), out; in.split(" "); VF_CHECK(l->console_handler(&out, &in) == -1 && out.length() > 0 && l->linkIdle(), "console", "an unknown order isn't refused"); break; }
    default: { has(command(l, "reset"), "Link.reset() returns -1\n", "reset"); std::string t = command(l, "info"); char h[64]; snprintf(h, sizeof h, "(tag: 0x%08x)", l->linkTag()); has(t, h, "info"); has(t, "Connected:     y", "info"); has(t, std::string("Allow LOG:     ") + (lg[i] ? "y" : "n"), "info"); break; }
  }
  c.count("console_talks");
}
static void establish(Rig& g, unsigned tick, unsigned slow) {
  unsigned n = 0; uint64_t t0 = now_us; while (!g.quiet()) { g.shuffle(g.e[0].l->currentState() == M2MLinkState::LIVE && g.e[1].l->currentState() == M2MLinkState::LIVE ? slow : tick); VF_CHECK(++n < 20000, "establish", "not established after %u steps and %llu ms: %s (%zu on the way), %s (%zu)", n, (unsigned long long)(now_us - t0) / 1000, g.state(0), g.e[0].out.q.size(), g.state(1), g.e[1].out.q.size()); }
  g.c.count("established"); g.c.feat(mix(7, n < 200 ? n / 10 : 20)); for (auto& x : g.e) VF_CHECK(x.l->isConnected() && x.live > 0 && x.l->currentState() == M2MLinkState::LIVE && x.l->linkTag() != 0, "establish", "an established link is in state %s, told the application %u times", M2MLink::sessionStateStr(x.l->currentState()), x.live);
}
static void settle(Rig& g, App& a, unsigned tick, uint64_t limit_ms) { unsigned n = 0; uint64_t t0 = now_us; while (!g.quiet() || (!a.ordered && (a.to[0].size() + a.to[1].size()))) { if (!tick) { for (int i = 0; i < 2; i++) { g.deliver(i, g.r.chance(1, 4) ? 1 : 100000); g.poll(i); } } else { for (int i = 0; i < 2; i++) { g.deliver(i, 100000); g.poll(i); g.poll(i); } advance_us(1000 * tick); } VF_CHECK(++n < 60000 && now_us - t0 < limit_ms * 1000, "settle", "traffic has not ended after %u rounds: %s %s, %zu and %zu undelivered, next serial %u and %u", n, g.state(0), g.state(1), a.to[0].size(), a.to[1].size(), a.to[0].size() ? a.to[0][0].serial : 0, a.to[1].size() ? a.to[1][0].serial : 0); } }
static void check_done(Rig& g, App& a, const char* when) { for (int i = 0; i < 2; i++) { VF_CHECK(a.to[i].empty(), "lost", "%s: %zu messages for end %d never came, first serial %u id %06x (seen %d of %d)", when, a.to[i].size(), i, a.to[i].empty() ? 0 : a.to[i][0].serial, a.to[i].empty() ? 0 : a.to[i][0].id, a.to[i].empty() ? 0 : a.to[i][0].got, a.to[i].empty() ? 0 : a.to[i][0].due); VF_CHECK(a.asked[i].empty(), "reply", "%s: %zu questions of end %d were never answered", when, a.asked[i].size(), i); } }
static void sorted(std::string& s) { std::vector<std::string> l; size_t p = 0; while (p < s.size()) { size_t n = s.find('\n', p); n = s.find('\n', n + 1); if (n == std::string::npos) n = s.size() - 1; l.push_back(s.substr(p, n + 1 - p)); p = n + 1; } std::sort(l.begin(), l.end()); s.clear(); for (auto& x : l) s += x; }
static void check_logs(Rig& g, App& a) { for (int i = 0; i < 2; i++) { if (!a.ordered) { sorted(g.e[i].log); sorted(a.logs[i]); } VF_CHECK(g.e[i].log == a.logs[i], "log", "end %d's log is %s, should be %s", i, quote(g.e[i].log.data(), g.e[i].log.size()).c_str(), quote(a.logs[i].data(), a.logs[i].size()).c_str()); } }
void vf_case(Ctx& c) {
  Rng& r = c.rng; IdentityUUID own[2][2] = {{IdentityUUID("end0"), IdentityUUID("end zero")}, {IdentityUUID("end1"), IdentityUUID("the other end")}}; IdentityUUID* me[2] = {&own[0][0], &own[1][0]}; bool known[2] = {r.chance(1, 2), r.chance(1, 2)}; std::string was_me[2][2]; for (int i = 0; i < 4; i++) { uint8_t m[64]; was_me[i / 2][i % 2].assign((char*)m, own[i / 2][i % 2].toBuffer(m)); } Rig g(c); App a; g.app = &a; g.on_msg = received; unsigned mode = r.below(5); bool kin = r.chance(1, 3), slow = mode == 2 && r.chance(1, 3), big = r.chance(1, 8); Related ids(kin); if (kin) c.count("related_identifiers"); if (slow) c.count("long_timeouts"); if (big) c.count("large_limits"); uint32_t timeout = slow ? 65536 + r.below(9000) : mode == 2 ? 50 + r.below(100) : 3000, ka = 60 + r.below(400); bool lg[2]; unsigned maxq[2];
  for (int i = 0; i < 2; i++) { lg[i] = r.chance(3, 4); a.mtu[i] = r.chance(1, 2) ? 120 + r.below(300) : 300 + r.below(3000); uint32_t limit = big ? 32000 + r.below(500000) : a.mtu[i]; M2MLinkOpts o(timeout, ka, limit, TCode::CBOR, (lg[i] ? M2MLINK_FLAG_ALLOW_LOG_WRITE : 0) | (mode != 2 && r.chance(1, 3) ? M2MLINK_FLAG_SEND_KA : 0)); maxq[i] = o.max_outbound = mode == 3 ? 1 + r.below(6) : 60; g.make(i, o); VF_CHECK(g.e[i].l->bufferAvailable() == (int32_t)limit, "limit", "a new link with a limit of %u has room for %d", limit, g.e[i].l->bufferAvailable()); if (known[i]) g.e[i].l->localIdentity(me[i]); }
  c.op("mode %u keepalive %u limits %u %u", mode, ka, a.mtu[0], a.mtu[1]); unsigned sessions = 1 + r.below(3);
  for (unsigned s = 0; s < sessions; s++) {
    for (auto& x : g.e) { x.live = 0; x.out.refuse = 0; } int head = r.chance(1, 3) ? (int)r.below(30) : 0, who = r.below(2); for (int i = 0; i < head; i++) { g.poll(who); if (r.chance(1, 4)) advance_us(1000 * r.below(50)); }
    establish(g, 20 + r.below(60), slow ? 2000 : ka / 4); unsigned was[2] = {g.e[0].l->replyTimeouts(), g.e[1].l->replyTimeouts()}; a.ordered = mode != 1 && mode != 2; a.retries = mode == 2; a.giveups[0] = a.giveups[1] = 0; for (auto& x : g.e) { x.log.clear(); x.out.refuse = mode == 1 ? r.below(8) : 0; } a.logs[0] = a.logs[1] = ""; bool hang_early = mode == 0 && r.chance(1, 3);
    unsigned steps = r.below(120); uint64_t t1 = now_us;
    if (mode == 3) for (unsigned round = 0; round < 4; round++) { for (int i = 0; i < 2; i++) for (unsigned k = 0; k <= maxq[i]; k++) { /* bare messages only: the queue has no room for replies */ Msg m; Own own; KeyValuePair* p = payload(g, a, m, own, a.mtu[!i]); int id = g.e[i].l->send(p, false); delete p; VF_CHECK(id == (k < maxq[i] ? 0 : -3), "full", "send() number %u into a queue of %u gave %d", k + 1, maxq[i], id); if (id) { c.count("sends_refused"); continue; } a.to[!i].push_back(m); a.open[i]++; c.count("messages_sent"); c.op("end %d sends serial %u", i, m.serial); } settle(g, a, 0, 1000); check_done(g, a, "after a full queue"); }
    else if (mode == 2) for (unsigned k = 0; k < 1 + steps / 20; k++) { for (unsigned j = 1 + r.below(4); j--;) { int i = r.below(2); if (send1(g, a, i) && r.chance(1, 4)) collide(g, a, i); } settle(g, a, (1 + r.below(5)) * (slow ? 500 : 1), 40ull * (timeout + 20) * 8); check_done(g, a, "after retries"); for (int i = 0; i < 2; i++) VF_CHECK(g.e[i].l->replyTimeouts() - was[i] == a.giveups[i], "timeouts", "end %d counted %u unanswered messages, should be %u", i, g.e[i].l->replyTimeouts() - was[i], a.giveups[i]); }
    else for (unsigned k = 0; k < steps; k++) {
      if (r.chance(1, 3)) { int i = r.below(2); if (a.open[i] < 15) send1(g, a, i); }
      if (r.chance(1, 25) && a.open[0] + a.open[1] < 20) { int i = r.below(2); std::string t = rnd_bytes(r, r.below(90), 1); if (t.size()) { StringBuilder b; sb_build(r, &b, t, 3); bool need = r.chance(1, 2); int8_t w = g.e[i].l->writeRemoteLog(&b, need); VF_CHECK(w == 0 && b.length() == 0, "remote-log", "writeRemoteLog() gave %d, %d bytes left", w, b.length()); char h[64]; snprintf(h, sizeof h, "Link 0x%08x counterparty says:\n", g.e[!i].l->linkTag()); if (lg[!i]) a.logs[!i] += h + t + "\n"; c.op("end %d logs %zu bytes", i, t.size()); c.count("remote_logs"); } }
      uint32_t tick = now_us - t1 < 1500000 ? 20 : 0; g.shuffle(r.chance(1, 8) ? tick : 0);
    }
    StringBuilder none; VF_CHECK(g.e[0].l->writeRemoteLog(&none) == -1, "remote-log", "an empty log line was sent"); VF_CHECK(g.e[r.below(2)].l->reset() == -1, "reset", "reset() of a live link worked");
    if (!hang_early) { settle(g, a, mode == 1 ? 1 : 0, 1400); check_done(g, a, "after the traffic"); check_logs(g, a); if (mode != 2 && mode != 3) for (int i = 0; i < 2; i++) knows(g, i, known, me); for (int i = 0; i < 2; i++) if (mode != 2) VF_CHECK(g.e[i].l->replyTimeouts() == was[i], "timeouts", "end %d gave up on %u messages", i, g.e[i].l->replyTimeouts() - was[i]); c.count("sessions_of_traffic"); }
    if (!hang_early && a.ordered && r.chance(1, 4)) { for (unsigned k = 1 + r.below(3); k--;) { halfway(g, a, r.below(2)); settle(g, a, 0, 1400); } check_done(g, a, "after a message in two parts"); }
    for (auto& x : g.e) x.out.refuse = 0;
    if (!hang_early && mode != 3 && r.chance(1, 3)) { for (unsigned k = 1 + r.below(4); k--;) { talk(g, a, lg, known, me, ka); settle(g, a, mode == 1 ? 1 : 0, 1400); } check_done(g, a, "after console commands"); check_logs(g, a); }
    if (r.chance(1, 6)) { StringBuilder p; g.e[0].l->printDebug(&p); g.e[1].l->printQueues(&p); }
    if (s + 1 == sessions && r.chance(1, 2) && !hang_early) break;
    unsigned how = hang_early ? r.below(3) : r.below(4); int i = r.below(2); c.op("hang up, way %u", how); if (how != 3 && r.chance(1, 4)) { std::string t = command(g.e[i].l, "hangup"); VF_CHECK(t.find("returns 0\n") != std::string::npos, "console", "the console's hangup gave %s", quote(t.data(), t.size()).c_str()); c.count("console_hangups"); } else VF_CHECK(g.e[i].l->hangup(how != 3) == 0, "hangup", "hangup() failed"); if (how == 1) { for (unsigned k = r.below(6); k--;) g.shuffle(0); int8_t w = g.e[!i].l->hangup(); VF_CHECK(w == 0 || w == -2, "hangup", "the other's hangup() gave %d", w); } if (how == 3) VF_CHECK(g.e[!i].l->hangup(false) == 0, "hangup", "hangup() failed");
    unsigned n = 0; while (g.e[0].l->currentState() != M2MLinkState::HUNGUP || g.e[1].l->currentState() != M2MLinkState::HUNGUP) { g.shuffle(a.to[0].empty() && a.to[1].empty() ? 1 + timeout / 50 : 0); VF_CHECK(++n < 20000, "hangup", "not hung up after %u steps: %s %s, %zu and %zu undelivered", n, g.state(0), g.state(1), a.to[0].size(), a.to[1].size()); }
    if (hang_early) { check_done(g, a, "before hanging up"); c.count("hangups_amid_traffic"); check_logs(g, a); } c.count("hangups"); c.feat(mix(how, 99)); while (g.e[0].out.q.size() || g.e[1].out.q.size()) { for (int k = 0; k < 2; k++) { g.deliver(k, 10000); g.poll(k); } }
    for (auto& x : g.e) { StringBuilder b("x"); KeyValuePair kv("a", (uint8_t)1); VF_CHECK(!x.l->isConnected() && x.l->send(&kv, true) == -4 && x.l->writeRemoteLog(&b) == -1 && x.l->hangup() == -2 && !x.l->linkIdle(), "hung-up", "a link that hung up still does things"); if (r.chance(1, 4)) { unsigned v = r.below(8); std::string t = command(x.l, ("verbosity " + std::to_string(v)).c_str()); VF_CHECK(x.l->verbosity() == v && t.find("verbosity is " + std::to_string(v)) != std::string::npos, "console", "the console's verbosity gave %s", quote(t.data(), t.size()).c_str()); x.l->verbosity(0); t = command(x.l, "reset"); VF_CHECK(t.find("returns 0\n") != std::string::npos, "console", "the console's reset gave %s", quote(t.data(), t.size()).c_str()); } else VF_CHECK(x.l->reset() == 0, "reset", "reset() after hanging up failed"); }
    for (int i = 0; i < 2; i++) if (r.chance(1, 2)) { known[i] = r.chance(2, 3); me[i] = &own[i][r.below(2)]; g.e[i].l->localIdentity(known[i] ? me[i] : nullptr); c.count("identities_changed"); }
    a.to[0].clear(); a.to[1].clear(); a.asked[0].clear(); a.asked[1].clear(); a.open[0] = a.open[1] = 0;
  }
  for (int i = 0; i < 2; i++) { for (int k = 0; k < 2; k++) { uint8_t m[64]; memset(m, 0, sizeof m); int n = own[i][k].toBuffer(m); VF_CHECK(n == (int)was_me[i][k].size() && !memcmp(m, was_me[i][k].data(), n), "identity", "an identity that was lent to a link was changed"); } VF_CHECK(g.e[i].l->localIdentity() == (known[i] ? me[i] : nullptr), "identity", "a link forgot its identity"); if (known[i]) c.count("sessions_with_identities"); }
  c.nontrivial = a.delivered > 0;
}
