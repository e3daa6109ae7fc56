/* C24: trees of buffer stages, and typed values over them. */
#include "pipes.h"
#include "cborref.h"
#include "Pipes/BufferAccepter/Base64/C3P_B64.h"
#include "Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.h"
#include "Pipes/BufferAccepter/TestFixtures/CoDecTestFixtures.h"
#include <memory>
#include <algorithm>
const char* VF_PROPERTY = "C24";
const char* VF_RULE = "A case is either a tree of up to 15 stages (forks, pass-through pipes, Base64 round trips, limited sinks, some of which take less than they promised) and up to 60 pushes, polls, drains and exchanges of a branch, or up to 30 typed values pushed into a limited pipe and delivered from randomly cut pieces, or the test source before a stage that breaks the contract, or the test sink with expectations. Distinct by the bytes and the pattern of takes.";
using namespace vf; using namespace cb;
void vf_setup() {}
struct SbSink : public StringBuilderSink { SbSink(int32_t m) : StringBuilderSink(m) {} };
struct Node { int type = 0; std::unique_ptr<WatchSink> w; std::unique_ptr<StringBuilderSink> sb; std::unique_ptr<BufAcceptTestSink> ts; std::unique_ptr<BufferAccepterFork> f; std::unique_ptr<Base64Encoder> e; std::unique_ptr<Base64Decoder> d; std::unique_ptr<C3PTypePipeSource> p; BufferAccepter* acc = nullptr; std::unique_ptr<Node> kid[2]; std::string got; size_t start = 0; int32_t max = 0;
  void collect() { if (sb) { got += sb_read(sb.get()); } if (w) got = w->got; if (ts) got = sb_read(&ts->take_log); }
  std::string content() { if (sb) return got + sb_read(sb.get()); if (w) return w->got; return sb_read(&ts->take_log); }
  void drain(Ctx& c) { Rng& r = c.rng; if (sb) { if (r.chance(1, 2)) { collect(); sb->clear(); } } if (w) w->cap = r.chance(1, 4) ? 0 : r.chance(1, 10) ? 30000 + (int32_t)r.below(60000) : (int32_t)r.below(r.chance(1, 3) ? 4 : 200); if (ts) ts->bufferLimit(r.chance(1, 4) ? 0 : (int32_t)r.below(100)); for (auto& k : kid) if (k) k->drain(c); }
  void open() { if (sb) { collect(); sb->clear(); } if (w) { w->cap = 100000; w->stingy = nullptr; w->refuse = false; } if (ts) ts->bufferLimit(100000); for (auto& k : kid) if (k) k->open(); }
  int32_t avail() { if (w) return w->cap; if (sb) { int32_t n = max - (int32_t)sb_read(sb.get()).size(); return n < 0 ? 0 : n; } if (ts) return ts->bufferLimit(); if (f) { int32_t a = -1; for (auto& k : kid) if (k) { int32_t x = k->avail(); if (x <= 0) return 0; if (a < 0 || x < a) a = x; } return a < 0 ? 0 : a; } if (e) return kid[0]->avail() / 3 * 4 / 4 * 3; return kid[0]->avail(); }
  int32_t take(int32_t n) { if (p) return kid[0]->take(n); int32_t a = avail(); if (e) return n <= a ? n : 0; return n < a ? n : a; }
  bool honest() { if (w) return !w->stingy && !w->refuse; for (auto& k : kid) if (k && !k->honest()) return false; return true; }
  void leaves(std::vector<Node*>& v) { if (w || sb || ts) v.push_back(this); for (auto& k : kid) if (k) k->leaves(v); }
};
static std::unique_ptr<Node> mk(Ctx& c, int depth, bool strict, size_t start) {
  Rng& r = c.rng; std::unique_ptr<Node> n(new Node()); n->start = start; unsigned k = depth >= 3 ? r.below(4) : r.below(10);
  if (k < 2) { n->w.reset(new WatchSink()); n->acc = n->w.get(); n->w->cap = (int32_t)r.below(r.chance(1, 12) ? 100000 : 150); if (!strict && r.chance(1, 3)) n->w->stingy = &r; c.count("sinks"); }
  else if (k == 2) { n->max = (int32_t)r.below(200); n->sb.reset(new SbSink(n->max)); n->acc = n->sb.get(); c.count("sinks"); }
  else if (k == 3) { n->ts.reset(new BufAcceptTestSink()); n->ts->bufferLimit((int32_t)r.below(100)); n->acc = n->ts.get(); c.count("sinks"); }
  else if (k < 8) { n->f.reset(new BufferAccepterFork()); n->acc = n->f.get(); int m = r.chance(1, 8) ? (int)r.below(3) : 3; if (m & 1) { n->kid[0] = mk(c, depth + 1, strict, start); n->f->leftHand(n->kid[0]->acc); } if (m & 2) { n->kid[1] = mk(c, depth + 1, strict, start); n->f->rightHand(n->kid[1]->acc); } c.count("forks"); VF_CHECK(n->f->leftHand() == (n->kid[0] ? n->kid[0]->acc : nullptr) && n->f->rightHand() == (n->kid[1] ? n->kid[1]->acc : nullptr), "sides", "the sides of a fork are not those given"); }
  else if (k == 8) { n->kid[0] = mk(c, depth + 1, true, start); n->d.reset(new Base64Decoder(n->kid[0]->acc)); n->e.reset(new Base64Encoder(n->d.get())); n->acc = n->e.get(); c.count("codecs"); }
  else { n->kid[0] = mk(c, depth + 1, strict, start); n->p.reset(new C3PTypePipeSource(TCode::CBOR, n->kid[0]->acc)); n->acc = n->p.get(); c.count("pass_throughs"); }
  return n;
}
static void tree(Ctx& c) {
  Rng& r = c.rng; std::unique_ptr<Node> root = mk(c, 0, false, 0); std::string all; size_t taken = 0; StringBuilder buf; unsigned steps = 5 + r.below(55);
  bool source = r.chance(1, 4); BufAcceptTestSource src(root->acc); uint32_t rej = 0, part = 0, full = 0; bool moved = false;
  auto verify = [&]() { std::vector<Node*> L; root->leaves(L); bool honest = root->honest(); for (Node* l : L) { std::string g = l->content(); VF_CHECK(l->start + g.size() <= all.size(), "invented", "a sink got %zu bytes more than were pushed", l->start + g.size() - all.size()); size_t d = 0; while (d < g.size() && g[d] == all[l->start + d]) d++;
      VF_CHECK(d == g.size(), "order", "a sink (attached at %zu) got %s, should be %s: differs at %zu", l->start, hex(g.data(), g.size()).c_str(), hex(all.data() + l->start, g.size()).c_str(), d); VF_CHECK(l->start + g.size() >= taken, "lost", "the source was relieved of %zu bytes, of which a sink got only %zu", taken - l->start, g.size()); if (honest && !moved) VF_CHECK(l->start + g.size() == taken, "ahead", "a sink got %zu bytes, and the source was relieved of %zu", g.size(), taken - l->start); } };
  bool was_dishonest = !root->honest();
  for (unsigned st = 0; st < steps; st++) {
    if (r.chance(1, 3)) root->drain(c);
    if (root->f && r.chance(1, 20)) { int s = r.below(2); std::unique_ptr<Node> k; if (!r.chance(1, 4)) k = mk(c, 1, false, taken); if (s) root->f->rightHand(k ? k->acc : nullptr); else root->f->leftHand(k ? k->acc : nullptr); root->kid[s] = std::move(k); c.count("exchanges"); if (!root->honest()) was_dishonest = true; }
    moved = was_dishonest;
    const bool honest = root->honest() && !was_dishonest; const int32_t av = root->avail(); VF_CHECK(root->acc->bufferAvailable() == av, "available", "bufferAvailable() gave %d, should be %d", root->acc->bufferAvailable(), av);
    if (buf.length() == 0 || r.chance(1, 3)) { const bool big = all.size() < 200000 && r.chance(1, 60); std::string add = big ? rnd_bytes(r, 30000 + r.below(50000), 0) : rnd_bytes(r, 1 + rnd_len(r), 0); if (big) c.count("large_pushes"); if (source && r.chance(1, 2)) { StringBuilder t; sb_build(r, &t, add, big ? 40000 : 1 + (int)r.below(40)); VF_CHECK(src.pushBuffer(&t) == 1 && t.length() == 0, "source", "the metered source didn't take a buffer"); } else if (source) { StringBuilder t; t.concat((uint8_t*)add.data(), (int)add.size()); src.pushBuffer(&t); } else sb_build(r, &buf, add, big ? 40000 : 1 + (int)r.below(40)); all += add; }
    if (r.chance(1, 40) && !root->p) { StringBuilder e; if (!root->ts) VF_CHECK(root->acc->pushBuffer(&e) <= 0 || root->ts, "empty", "an empty push was claimed"); VF_CHECK(root->acc->pushBuffer(nullptr) == -1, "null", "a null push was not refused"); }
    if (source) {
      int32_t lim = (int32_t)r.below(120), n = (int32_t)(all.size() - taken); if (n > lim) n = lim; src.pushLimit(lim); size_t t0 = (size_t)src.backlogLength(); VF_CHECK(t0 == all.size() - taken, "backlog", "the source holds %zu bytes, should be %zu", t0, all.size() - taken); uint32_t cc = src.callCount(); const int32_t would = root->take(n); int8_t ret = src.poll(); VF_CHECK(ret == (n > 0) && src.pushLimit() == lim, "poll", "poll() gave %d with %zu bytes held and a limit of %d", ret, t0, lim);
      size_t t = t0 - (size_t)src.backlogLength(); if (n > 0) { cc++; if (t == 0) rej++; else if ((int32_t)t == n) full++; else part++; } taken += t; c.op("poll, limit %d: %zu of %d taken", lim, t, n); VF_CHECK(t <= (size_t)n && (!honest || (int32_t)t == would || n == 0), "amount", "of %d bytes %zu were taken, and %d fit", n, t, would); (void)cc;
      VF_CHECK(src.callCount() == cc && src.countRejections() == rej && src.countPartialClaims() == part && src.countFullClaims() == full && src.callCountsBalance() && !src.efferantViolatesContract(), "return", "the source saw %u refusals, %u part and %u full claims, should be %u, %u, %u", src.countRejections(), src.countPartialClaims(), src.countFullClaims(), rej, part, full); c.count("polls"); c.feat(mix(100 + (t == 0) + 2 * ((int32_t)t == n), root->f ? 1 : 0)); if (t) c.nontrivial = true;
    } else {
      int32_t n = buf.length(); StringBuilder rest; bool split = r.chance(1, 3) && n > 1; if (split) { StringBuilder whole; whole.concatHandoff(&buf); int32_t m = 1 + (int32_t)r.below((uint32_t)n - 1); buf.concatHandoffLimit(&whole, (unsigned)m); rest.concatHandoff(&whole); n = m; }
      const int32_t would = root->take(n); int8_t ret = root->acc->pushBuffer(&buf); int32_t t = n - buf.length(); c.op("push %d: gave %d, %d taken (%d available)", n, ret, t, av); VF_CHECK(t >= 0 && t <= n, "grew", "a push of %d bytes left %d", n, buf.length());
      VF_CHECK(ret == (t == 0 ? -1 : t == n ? 1 : 0) || (t == 0 && ret == 0 && root->ts && false), "return", "pushBuffer() gave %d after taking %d of %d bytes", ret, t, n); sb_expect(&buf, all.substr(taken + t, n - t), "remainder", "what the caller is left with"); if (honest) VF_CHECK(t == would, "amount", "of %d bytes %d were taken, and %d fit", n, t, would);
      taken += t; if (split) buf.concatHandoff(&rest); c.count(ret < 0 ? "refusals" : ret ? "full_takes" : "part_takes"); c.feat(mix(ret + 1, mix(root->f ? 1 : root->e ? 2 : root->p ? 3 : 0, honest))); if (t) c.nontrivial = true;
    }
    verify();
  }
  // All of it gets there if there is room.
  root->open(); bool any = !root->f || root->kid[0] || root->kid[1]; std::vector<Node*> L; root->leaves(L);
  std::vector<const BufferAccepterFork*> dead; struct F { static bool ok(Node* n) { if (n->f && !n->kid[0] && !n->kid[1]) return false; for (auto& k : n->kid) if (k && !ok(k.get())) return false; return true; } };
  size_t least = 200; for (Node* l : L) if (l->sb && (size_t)l->max < least) least = l->max < 3 ? 3 : (size_t)l->max; if (any && F::ok(root.get()) && (all.size() - taken) / least < 1000) { for (int i = 0; i < 4000 && taken < all.size(); i++) { root->open(); const int32_t a = root->acc->bufferAvailable(); if (source) { src.pushLimit(a); src.poll(); taken = all.size() - (size_t)src.backlogLength(); } else { StringBuilder part; part.concatHandoffLimit(&buf, (unsigned)a); root->acc->pushBuffer(&part); if (part.length()) buf.prependHandoff(&part); taken = all.size() - (size_t)buf.length(); } verify(); } if (!L.empty()) { bool room = true; for (Node* l : L) if (l->sb && l->max < 3) room = false; if (room) VF_CHECK(taken == all.size(), "stuck", "%zu bytes are never taken though there is room", all.size() - taken); } c.count("drained"); }
  c.hash(all.data(), all.size()); c.hash(&taken, sizeof taken);
}
/* Typed values. */
static std::vector<C3PValue*>* g_got = nullptr;
static void arrival(C3PValue* v) { g_got->push_back(v); }
static void typed(Ctx& c) {
  Rng& r = c.rng; unsigned n = 1 + r.below(30); WatchSink ws; std::vector<C3PValue*> got; g_got = &got; const uint32_t MAXB = r.chance(1, 3) ? 3 + r.below(80) : 2000 + r.below(3000);
  C3PTypePipeSink sink(TCode::CBOR, MAXB, arrival); const bool direct = r.chance(1, 3); C3PTypePipeSource src(TCode::CBOR, direct ? (BufferAccepter*)&sink : &ws); std::vector<std::vector<Nd>> rec; std::vector<std::string> bytes; uint32_t count = 0; size_t delivered = 0, eaten = 0;
  struct Free { std::vector<C3PValue*>& v; ~Free() { for (auto p : v) delete p; } } fr{got};
  VF_CHECK(src.byteCount() == 0 && sink.byteCount() == 0, "byte-count", "a new pipe counts bytes"); VF_CHECK(sink.bufferAvailable() == (int32_t)MAXB, "sink-available", "the sink gives %d bytes available, should be %u", sink.bufferAvailable(), MAXB);
  for (unsigned i = 0; i < n; i++) {
    std::vector<Nd> ch; Nd d; d.k = 'i'; uint64_t x = num(r); unsigned k = r.below(17); ws.cap = r.chance(1, 3) ? (int32_t)r.below(30) : 100000; ws.refuse = r.chance(1, 15); size_t had = ws.got.size(); uint32_t b0 = src.byteCount(), sb0 = sink.byteCount(); int8_t ret = 99; auto si = [&](int64_t v) { d.neg = v < 0; d.n = v < 0 ? (uint64_t)(-1 - v) : (uint64_t)v; }; std::string s, s2;
    if (r.chance(1, 60)) { VF_CHECK(src.pushValue((C3PValue*)nullptr) == -1 && src.pushValue((KeyValuePair*)nullptr) == -1 && src.pushValue((const char*)nullptr) == -1, "null", "a null value was not refused"); C3PTypePipeSource off(TCode::CBOR); VF_CHECK(off.pushValue((uint8_t)3) == -1, "detached", "a detached source took a value"); c.count("nulls"); }
    KeyValuePair* kvp = nullptr; C3PValue* val = nullptr;
    switch (k) { case 0: d.n = (uint8_t)x; ret = src.pushValue((uint8_t)x); break; case 1: d.n = (uint16_t)x; ret = src.pushValue((uint16_t)x); break; case 2: d.n = (uint32_t)x; ret = src.pushValue((uint32_t)x); break; case 3: d.n = x; ret = src.pushValue((uint64_t)x); break;
      case 4: si((int8_t)x); ret = src.pushValue((int8_t)x); break; case 5: si((int16_t)x); ret = src.pushValue((int16_t)x); break; case 6: si((int32_t)x); ret = src.pushValue((int32_t)x); break; case 7: si((int64_t)x); ret = src.pushValue((int64_t)x); break;
      case 8: d.k = 'B'; d.n = x & 1; ret = src.pushValue((bool)(x & 1)); break; case 9: { d.k = 'f'; float f = r.edgyFloat(); if (std::isnan(f)) f = NAN; uint32_t u; memcpy(&u, &f, 4); d.n = u; ret = src.pushValue(f); break; } case 10: { d.k = 'd'; double f = r.edgyDouble(); if (std::isnan(f)) f = NAN; memcpy(&d.n, &f, 8); ret = src.pushValue(f); break; }
      case 11: d.k = 's'; s = rnd_bytes(r, rnd_len(r), 4); d.s = s; ret = src.pushValue((const char*)s.c_str()); break; case 12: d.k = 's'; s = rnd_bytes(r, rnd_len(r), 4); d.s = s; ret = src.pushValue((char*)s.c_str()); break;
      case 13: d.n = (uint32_t)x; val = new C3PValue((uint32_t)x); ret = src.pushValue(val); break; case 14: d.k = 'b'; s = rnd_bytes(r, 1 + rnd_len(r), 0); d.s = s; val = new C3PValue((uint8_t*)s.data(), (uint32_t)s.size()); ret = src.pushValue(val); break;
      default: { d.k = 'M'; unsigned m = 1 + r.below(6); for (unsigned j = 0; j < m; j++) { Nd e; e.keyed = true; e.key = "k" + std::to_string(j); e.k = 'i'; uint64_t y = num(r); e.n = (uint32_t)y; if (!kvp) kvp = new KeyValuePair(e.key.c_str(), (uint32_t)y); else kvp->append((uint32_t)y, (char*)e.key.c_str()); ch.push_back(e); } { std::string k0 = "k0"; kvp->setKey((char*)k0.c_str()); } ret = src.pushValue(kvp); } }
    if (ch.empty()) ch.push_back(d); std::string want; if (kvp) write_map(ch, want); else write(ch[0], want); delete kvp; delete val;
    const bool fits = direct ? want.size() <= MAXB : !ws.refuse && (int32_t)want.size() <= ws.cap + (int32_t)(ws.got.size() - had); c.op("value %u of %zu bytes: gave %d", k, want.size(), ret); c.feat(mix(50 + k, ret == 0)); c.count(fits ? "values_pushed" : "values_refused");
    VF_CHECK((ret == 0) == fits && ret <= 0, "push-value", "pushValue() of %zu bytes gave %d, and it %s", want.size(), ret, fits ? "fits" : "doesn't fit"); VF_CHECK(src.byteCount() == b0 + (fits ? want.size() : 0), "byte-count", "the source counts %u bytes, should be %zu", src.byteCount(), b0 + (fits ? want.size() : 0));
    if (direct) { VF_CHECK(got.size() == delivered + fits, "delivery", "%zu values were delivered, should be %zu", got.size(), delivered + fits); if (fits) { same(got[delivered], ch, "delivered"); delivered++; } VF_CHECK(sink.byteCount() == sb0 + (fits ? want.size() : 0), "sink-count", "the sink counts %u bytes, should be %zu", sink.byteCount(), sb0 + (fits ? want.size() : 0)); if (fits) c.nontrivial = true; }
    else { VF_CHECK(ws.got.substr(had) == (fits ? want : ""), "bytes", "pushed %s, should be %s", hex(ws.got.data() + had, ws.got.size() - had).c_str(), hex(want.data(), want.size()).c_str()); if (fits) { rec.push_back(ch); bytes.push_back(want); } }
  }
  if (!direct) { std::string all = ws.got; c.hash(all.data(), all.size()); size_t at = 0, i = 0, off = 0; StringBuilder buf; std::string m; bool stuck = false;
    while (at < all.size() && !stuck) { size_t len = 1 + r.below(r.chance(1, 2) ? 5 : 60); if (len > all.size() - at) len = all.size() - at; buf.concat((uint8_t*)all.data() + at, (int)len); m += all.substr(at, len); at += len; if (r.chance(1, 5)) continue;
      size_t i0 = i, m0 = m.size(); while (i < bytes.size() && bytes[i].size() <= m.size() && bytes[i].size() <= MAXB) { m.erase(0, bytes[i].size()); eaten += bytes[i].size(); i++; } if (i < bytes.size() && bytes[i].size() > MAXB && m.size() > 0) { stuck = true; c.count("too_long_values"); }
      int8_t ret = sink.pushBuffer(&buf); c.op("feed %zu: gave %d", m0, ret); VF_CHECK(got.size() == i, "delivery", "%zu values were delivered, should be %zu", got.size(), i); for (; off < i; off++) { same(got[off], rec[off], "delivered"); c.count("values_delivered"); } sb_expect(&buf, m, "sink-remainder", "what the sink left"); VF_CHECK(ret == (m.size() == m0 ? -1 : m.empty() ? 1 : 0), "sink-return", "pushBuffer() gave %d after taking %zu of %zu bytes", ret, m0 - m.size(), m0); VF_CHECK(sink.byteCount() == eaten, "sink-count", "the sink counts %u bytes, should be %zu", sink.byteCount(), eaten); if (i > i0) c.nontrivial = true; }
    if (r.chance(1, 10)) { C3PTypePipeSink dead(TCode::CBOR, 100, nullptr); StringBuilder t; t.concat((uint8_t*)"\x01", 1); VF_CHECK(dead.pushBuffer(&t) == -1 && t.length() == 1, "no-callback", "a sink without a callback took a value"); VF_CHECK(sink.pushBuffer(nullptr) == -1, "null", "a null push was not refused"); } }
  else { uint32_t q = sink.byteCount(); c.hash(&q, sizeof q); c.hash(&n, sizeof n); }
  (void)count;
}
/* The fixtures themselves: the source must notice a stage that breaks the contract, the sink must count what it was told to expect. */
struct Liar : public BufferAccepter { int8_t code = 1; int32_t take = 0; int8_t pushBuffer(StringBuilder* b) override { int32_t n = b->length(); if (take < n) n = take; if (n > 0) b->cull(n); return code; } int32_t bufferAvailable() override { return 1000; } };
static void fixtures(Ctx& c) {
  Rng& r = c.rng; c.nontrivial = true;
  if (r.chance(1, 2)) {
    Liar l; BufAcceptTestSource src(&l); StopWatch sw; if (r.chance(1, 2)) src.setProfiler(&sw); std::string want; bool bad = false; uint32_t calls = 0, rej = 0, part = 0, full = 0; unsigned n = 1 + r.below(30);
    VF_CHECK(src.pushLimit() == 0 && src.backlogLength() == 0 && !src.efferantViolatesContract() && src.poll() == 0, "fixture-fresh", "a new source isn't empty");
    for (unsigned i = 0; i < n; i++) {
      if (r.chance(1, 2)) { std::string add = rnd_bytes(r, 1 + r.below(60), 0); StringBuilder t((uint8_t*)add.data(), (int)add.size()); src.pushBuffer(&t); want += add; }
      if (r.chance(1, 12)) { c.op("reset"); src.reset(); want.clear(); bad = false; calls = rej = part = full = 0; VF_CHECK(src.pushLimit() == 0, "fixture-reset", "a reset left a limit"); c.count("fixture_resets"); }
      int32_t lim = (int32_t)r.below(50), len = (int32_t)want.size() < lim ? (int32_t)want.size() : lim; const bool honest = r.chance(4, 5); l.take = r.chance(1, 3) ? 0 : (int32_t)r.below(60); int32_t t = l.take < len ? l.take : len; l.code = t == 0 ? -1 : t == len ? 1 : 0; if (!honest) l.code = (int8_t)((int)r.below(4) - 1);
      src.pushLimit(lim); int8_t ret = src.poll(); c.op("limit %d, code %d, take %d of %d", lim, l.code, t, len); VF_CHECK(ret == (len > 0), "fixture-poll", "poll() gave %d", ret);
      if (len > 0) { calls++; if (l.code == -1) { rej++; bad |= t != 0; } else if (l.code == 0) { part++; bad |= t == 0; } else if (l.code == 1) { full++; bad |= t != len; } else bad = true; want.erase(0, t); }
      VF_CHECK(src.efferantViolatesContract() == bad, "fixture-verdict", "the source %s a breach of the contract, there was %s", src.efferantViolatesContract() ? "reports" : "misses", bad ? "one" : "none");
      VF_CHECK(src.callCount() == calls && src.countRejections() == rej && src.countPartialClaims() == part && src.countFullClaims() == full && src.backlogLength() == (int32_t)want.size(), "fixture-counts", "the source's counts are wrong"); c.count(bad ? "breaches_seen" : "fixture_polls");
      StringBuilder o; src.printDebug(&o); std::string p = sb_read(&o); VF_CHECK((p.find("Fails") != std::string::npos) == bad, "fixture-print", "the printed verdict differs");
    }
    BufAcceptTestSource off; VF_CHECK(off.poll() == -1, "fixture-detached", "a detached source polled");
    // Polling until nothing moves ends.
    WatchSink ws; ws.cap = (int32_t)r.below(200); BufAcceptTestSource s2(&ws); std::string add = rnd_bytes(r, 1 + r.below(150), 0); StringBuilder t((uint8_t*)add.data(), (int)add.size()); s2.pushBuffer(&t); int32_t lim = 1 + (int32_t)r.below(200); s2.pushLimit(lim); int32_t moved = (int32_t)add.size() < ws.cap ? (int32_t)add.size() : ws.cap; int8_t ret = s2.pollUntilStagnant(); c.op("until stagnant: limit %d, %d of %zu fit", lim, moved, add.size());
    VF_CHECK(ws.got == add.substr(0, moved) && s2.backlogLength() == (int32_t)add.size() - moved && ret >= std::min(127, (moved + lim - 1) / lim) && !s2.efferantViolatesContract(), "stagnant", "polling until stagnant moved %zu of %d bytes in %d polls", ws.got.size(), moved, ret); c.count("stagnations"); c.hash(add.data(), add.size());
  }
  else {
    static const LineTerm LT[] = {LineTerm::ZEROBYTE, LineTerm::CR, LineTerm::LF, LineTerm::CRLF}; static const char* LS[] = {"", "\r", "\n", "\r\n"};
    BufAcceptTestSink k; uint32_t met = 0, viol = 0, rej = 0, part = 0, full = 0; std::string log; unsigned n = 1 + r.below(30); uint32_t el = 0; unsigned et = 0;
    for (unsigned i = 0; i < n; i++) {
      if (r.chance(1, 3)) { el = r.chance(1, 3) ? 0 : r.below(12); k.expectation(el); } if (r.chance(1, 3)) { et = r.below(4); k.expectation(LT[et]); } VF_CHECK(k.expectedLength() == el && k.expectedTerminator() == LT[et], "expect", "the sink forgot what to expect");
      if (r.chance(1, 15)) { k.reset(); c.op("reset"); met = viol = rej = part = full = el = et = 0; log.clear(); VF_CHECK(k.bufferLimit() == 0 && k.expectedLength() == 0 && k.expectedTerminator() == LineTerm::ZEROBYTE && k.take_log.length() == 0, "expect-reset", "a reset left expectations"); c.count("fixture_resets"); }
      std::string s = rnd_bytes(r, r.below(10), 1); if (r.chance(2, 3)) s += LS[r.below(4)]; int32_t cap = (int32_t)r.below(15); k.bufferLimit(cap); StringBuilder b; sb_build(r, &b, s, 1 + (int)r.below(4)); k.profiler.markStart(); int8_t ret = k.pushBuffer(&b); int32_t t = cap < (int32_t)s.size() ? cap : (int32_t)s.size(); log += s.substr(0, t); c.op("%zu bytes, %d fit, expecting %u and %u", s.size(), cap, el, et);
      const int want = cap <= 0 ? -1 : t == (int32_t)s.size() ? 1 : 0; VF_CHECK(ret == want && sb_read(&k.take_log) == log, "expect-take", "the sink gave %d, should be %d", ret, want); if (want < 0) rej++; else if (want) full++; else part++;
      if (want >= 0) { if (el) { if ((uint32_t)t == el) met++; else viol++; } if (et) { size_t L = strlen(LS[et]); if (log.size() >= L && log.compare(log.size() - L, L, LS[et]) == 0) met++; else viol++; } }
      VF_CHECK(k.expectationsMet() == met && k.expectationsViolated() == viol, "expectations", "%u expectations met and %u violated, should be %u and %u", k.expectationsMet(), k.expectationsViolated(), met, viol); VF_CHECK(k.countRejections() == rej && k.countPartialClaims() == part && k.countFullClaims() == full && k.callCount() == rej + part + full && k.callCountsBalance(), "expect-counts", "the sink's counts are wrong"); c.count("expectations"); c.hash(s.data(), s.size());
    }
  }
}
void vf_case(Ctx& c) { if (c.rng.chance(1, 8)) fixtures(c); else if (c.rng.chance(1, 3)) typed(c); else tree(c); }
