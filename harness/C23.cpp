/* C23: Base64, against an independent coder, with sinks of every capacity. */
#include "pipes.h"
#include "Pipes/BufferAccepter/Base64/C3P_B64.h"
const char* VF_PROPERTY = "C23";
const char* VF_RULE = "A case is up to 40 pushes of random bytes, of encoded bytes, or of damaged text, in random fragments, through an encoder, a decoder, an encoder into a decoder or a decoder into an encoder, with a chunk length or without, into a sink whose free space and willingness change. Distinct by the bytes pushed and emitted.";
using namespace vf;
void vf_setup() {}
static int32_t enc_av(int32_t cap) { return cap / 4 * 3; }
static int32_t dec_av(int32_t cap) { return cap / 3 * 4; }
void vf_case(Ctx& c) {
  Rng& r = c.rng; WatchSink sink; unsigned kind = r.below(10); kind = kind < 3 ? 0 : kind < 7 ? 1 : kind < 9 ? 2 : 3; Base64Encoder enc, enc2; Base64Decoder dec; BufferCoDec* top; bool attached = true;
  BufferAccepter* out = &sink; StringBuilderSink* sbs = nullptr; int32_t sbmax = 0; if (r.chance(1, 6)) { sbmax = (int32_t)r.below(300); sbs = new StringBuilderSink(sbmax); out = sbs; }
  std::string want; /* all that should have come out */
  auto setN = [&](int32_t n) { if (kind == 0 || kind == 2) enc.inputLength(n); else dec.inputLength(n); };
  switch (kind) { case 0: enc.setEfferant(out); top = &enc; break; case 1: dec.setEfferant(out); top = &dec; break; case 2: dec.setEfferant(out); enc.setEfferant(&dec); top = &enc; break; default: enc.setEfferant(out); dec.setEfferant(&enc); top = &dec; break; }
  const bool encode = kind == 0 || kind == 2; int32_t N = 0; if (r.chance(1, 3)) { N = encode ? 1 + (int32_t)r.below(40) : 4 * (1 + (int32_t)r.below(12)); if (r.chance(1, 12)) N = 1 + (int32_t)r.below(50); setN(N); }
  if (r.chance(1, 30)) { if (encode) enc.setEfferant(nullptr); else dec.setEfferant(nullptr); attached = false; }
  StringBuilder buf; std::string m; unsigned steps = 1 + r.below(40); std::string log;
  for (unsigned st = 0; st < steps; st++) {
    if (!sbs) { unsigned k = r.below(8); if (k == 0) sink.cap = (int32_t)r.below(12); else if (k == 1) sink.cap = (int32_t)r.below(400); else if (k < 6) sink.cap = 100000; else if (k == 6) sink.cap = 0; if (r.chance(1, 400)) sink.cap = 0x7FFFFFFF; sink.refuse = r.chance(1, 12); }
    else if (r.chance(1, 3)) { sb_expect(sbs, want, "output", "what came out"); sbs->clear(); want.clear(); }
    if (m.empty() || r.chance(1, 3)) {   // more input
      unsigned k = r.below(10); std::string add; int len = rnd_len(r); if (r.chance(1, 20)) len = 300 + r.below(2000);
      if (encode) add = rnd_bytes(r, len, r.chance(1, 2) ? 0 : 1);
      else if (k < 6) { if (!m.empty() && N == 0) { buf.clear(); m.clear(); } add = b64_ref(rnd_bytes(r, len, 0)); if (N && N % 4 == 0) { add = b64_ref(rnd_bytes(r, N / 4 * 3 - (int)r.below(3), 0)); } }
      else { buf.clear(); m.clear(); add = b64_ref(rnd_bytes(r, 1 + r.below(60), 0)); c.count("damaged_texts"); unsigned d = 1 + r.below(2); while (d--) { size_t at = r.chance(1, 2) ? add.size() - 1 - r.below(add.size() < 5 ? (uint32_t)add.size() : 4u) : r.below((uint32_t)add.size()); switch (r.below(5)) { case 0: add[at] = '='; break; case 1: add[at] = "=-_ \n,.@[`{\x7f\x80:/+"[r.below(16)]; break; case 2: add[at] = (char)r.below(256); break; case 3: add.erase(at, 1); if (add.empty()) add = "A"; break; default: add.insert(at, 1, r.chance(1, 2) ? '=' : 'Q'); } } if (r.chance(1, 10)) add = std::string(1 + r.below(5), '='); }
      sb_build(r, &buf, add, 1 + (int)r.below((uint32_t)add.size() + 1)); m += add;
    }
    // what should happen
    const int32_t cap = sbs ? sbs->bufferAvailable() : sink.cap; int32_t av; switch (kind) { case 0: av = enc_av(cap); break; case 1: av = cap > 1600000000 ? 0x7FFFFFFF : dec_av(cap); break; case 2: av = enc_av(cap > 1600000000 ? 0x7FFFFFFF : dec_av(cap)); break; default: { av = enc_av(cap); av = av > 1600000000 ? 0x7FFFFFFF : dec_av(av); } }
    if (!attached) av = 0; const int32_t gav = top->bufferAvailable(); if (cap < 1000000 || !attached) VF_CHECK(gav == av, "available", "with %d bytes free downstream, bufferAvailable() gave %d, should be %d", cap, gav, av); else VF_CHECK(gav >= 1000000, "available", "with %d bytes free downstream, bufferAvailable() gave %d", cap, gav);
    if (r.chance(1, 40)) { VF_CHECK(top->pushBuffer(nullptr) == -1, "null", "pushing a null buffer was not refused"); StringBuilder e; VF_CHECK(top->pushBuffer(&e) == -1, "empty", "pushing an empty buffer was not refused"); }
    const int32_t take = N ? N : (int32_t)m.size(); std::string in = m.substr(0, take < (int32_t)m.size() ? take : m.size()), o, mid; int may = 1;
    if ((int32_t)m.size() < take || !attached || (!sbs && sink.refuse)) may = 0; else if (encode) o = kind == 0 ? b64_ref(in) : in; else { may = b64_dec_ref(in, o); if (kind == 3 && may) { mid = o; o = b64_ref(mid); } if (!may) c.count("invalid_texts"); }
    if (may && take > av) { if ((int32_t)o.size() > cap || encode) may = 0; else may = 2; }
    if (o.empty() && may) may = 2;
    c.op("push %zu bytes %s chunk=%d cap=%d%s may=%d", m.size(), hex(m.data(), m.size() < 60 ? m.size() : 60).c_str(), N, cap, sink.refuse ? " refusing" : "", may);
    const int8_t ret = top->pushBuffer(&buf); c.feat(mix(kind * 8 + ret + 1, mix(in.size() % 12, N ? 1 : 0) * 4 + may)); c.count(ret == 1 ? "full_takes" : ret == 0 ? "part_takes" : "refusals");
    VF_CHECK(ret == -1 || ret == ((int32_t)m.size() == take ? 1 : 0), "return", "pushBuffer() gave %d for %zu bytes, with a chunk length of %d", ret, m.size(), N);
    if (may != 2) VF_CHECK((ret >= 0) == (may == 1), may ? "refused" : "accepted", "a push of %zu bytes into %d bytes of space was %s", m.size(), cap, ret >= 0 ? "taken" : "refused");
    if (ret >= 0) { want += o; m.erase(0, take); c.nontrivial = true; log += in; } sb_expect(&buf, m, "remainder", "what the caller is left with"); if (sbs) sb_expect(sbs, want, "output", "what came out"); else VF_CHECK(sink.got == want, "output", "what came out is %s, should be %s", hex(sink.got.data(), sink.got.size()).c_str(), hex(want.data(), want.size()).c_str());
    if (r.chance(1, 25)) { N = N ? 0 : (encode ? 1 + (int32_t)r.below(30) : 4 * (1 + (int32_t)r.below(9))); setN(N); }
    VF_CHECK((encode ? enc.inputLength() : dec.inputLength()) == N, "input-length", "inputLength() is not what was set");
    if (ret < 0 && r.chance(1, 2)) { buf.clear(); m.clear(); }
  }
  c.hash(log.data(), log.size()); c.hash(want.data(), want.size()); delete sbs;
  // A whole value, there and back, in one go and in chunks.
  { const bool huge = r.chance(1, 150); if (huge) c.count("long_values"); std::string s = rnd_bytes(r, huge ? 40000 + (int)r.below(60000) : rnd_len(r) + 1, 0); WatchSink e, d; e.cap = d.cap = 1000000; Base64Encoder E(&e); Base64Decoder D(&d); int32_t n = r.chance(1, 2) ? 3 * (1 + (int32_t)r.below(9)) : 0; if (huge) n *= 1 + r.below(500); if (huge && n && n < 600) n += 600; E.inputLength(n); StringBuilder b; sb_build(r, &b, s, huge ? 9000 : 1 + (int)r.below(9)); while (n && b.length() >= n) E.pushBuffer(&b); E.inputLength(0); if (b.length()) E.pushBuffer(&b);
    VF_CHECK(e.got == b64_ref(s), "encoding", "%zu bytes in pieces of %d encode as %s, should be %s", s.size(), n, e.got.c_str(), b64_ref(s).c_str()); StringBuilder t; sb_build(r, &t, e.got, huge ? 9000 : 1 + (int)r.below(9)); D.inputLength(n / 3 * 4); while (n && t.length() >= n / 3 * 4) if (D.pushBuffer(&t) < 0) break; D.inputLength(0); if (t.length()) D.pushBuffer(&t); VF_CHECK(d.got == s, "round-trip", "%s came back as %s", hex(s.data(), s.size()).c_str(), hex(d.got.data(), d.got.size()).c_str()); c.count("round_trips"); }
}
