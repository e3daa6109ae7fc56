/* C42: the UART's rings, through the real UARTAdapter over simulated wires. */
#include "sbmodel.h"
#include "AbstractPlatform.h"
#include "BusQueue/UARTAdapter.h"
const char* VF_PROPERTY = "C42";
const char* VF_RULE = "A case is one UART (transmit and receive rings of 1 to 80, seldom 200 to 700 or up to 65535 bytes, transmit or receive or both) and a schedule of writes by every call, reads by every call, bytes on the wires, pushes of received bytes to a consumer with a limited and changing appetite, and resets, checked against two byte strings after every step. Distinct by the schedule.";
using namespace vf;
void vf_setup() {}
struct Sink : public BufferAccepter {
  std::string got; int room; int policy; Rng* r;
  int8_t pushBuffer(StringBuilder* b) { int n = b->length(); if (policy == 2) return -1; int t = n < room ? n : room; if (policy == 1 && t > 1) t = 1 + (int)r->below((uint32_t)t); if (t <= 0) return -1; std::string s = sb_read(b); got.append(s, 0, (size_t)t); room -= t; if (t == n) { b->clear(); return 1; } b->cull(t); return 0; }
  int32_t bufferAvailable() { return room; }
};
struct TU : public UARTAdapter {
  int init_ret; uint8_t caps; unsigned inits, deinits;
  TU(uint16_t t, uint16_t r, uint8_t cp) : UARTAdapter(3, 255, 255, 255, 255, t, r), init_ret(0), caps(cp), inits(0), deinits(0) {}
  int8_t _pf_init() { inits++; _adapter_set_flag(caps | UART_FLAG_UART_READY); return (int8_t)init_ret; }
  int8_t _pf_deinit() { deinits++; return 0; }
  int8_t _pf_poll() { return (int8_t)(_handle_rx_push() > 0); }
  void irq_handler() {}
  int tx(uint8_t* b, int n) { return _tx_buffer.count() ? _tx_buffer.get(b, n) : 0; }
  bool rx(uint8_t b) { last_byte_rx_time = millis(); return 0 == _rx_buffer.insert(b); }
};
void vf_case(Ctx& c) {
  Rng& r = c.rng; const bool big = r.chance(1, 25), vast = big && r.chance(1, 12); const unsigned many = vast ? 70000 : 700; if (vast) c.count("vast_rings"); const unsigned tc = vast ? 65536 - (1u << r.below(16)) : big ? 200 + r.below(500) : 1 + r.below(r.chance(1, 2) ? 8 : 80), rc = vast ? 65536 - (1u << r.below(16)) : big ? 200 + r.below(500) : 1 + r.below(r.chance(1, 2) ? 8 : 80); const uint8_t caps = (uint8_t)(r.chance(1, 8) ? UART_FLAG_HAS_RX : r.chance(1, 8) ? UART_FLAG_HAS_TX : (UART_FLAG_HAS_RX | UART_FLAG_HAS_TX)); const bool can_tx = caps & UART_FLAG_HAS_TX;
  TU* u = new TU((uint16_t)tc, (uint16_t)rc, caps); Sink sink; sink.room = 0; sink.policy = 0; sink.r = &r;
  UARTOpts o; memset(&o, 0, sizeof o); o.bitrate = 9600 + r.below(1000000); o.bit_per_word = 8; o.stop_bits = UARTStopBit::STOP_1; o.parity = UARTParityBit::ODD; o.xoff_char = (uint8_t)r.u32(); o.xon_char = (uint8_t)r.u32();
  VF_CHECK(!u->initialized() && !u->txCapable(), "init", "ready before init"); uint8_t one = 1; VF_CHECK(u->write(&one, 1) == 0, "write-count", "a UART that is not ready took a byte");
  VF_CHECK(u->init(&o) == 0 && u->initialized() && u->bitrate() == o.bitrate && 0 == memcmp(u->uartOpts(), &o, sizeof o), "init", "the options did not arrive");
  c.op("tx %u rx %u caps %x", tc, rc, caps);
  std::string tx, rx; bool consumer = false; int N = 30 + r.below(100); unsigned seq = 0;
  for (int k = 0; k < N; k++) {
    unsigned room = tc - (unsigned)tx.size();
    switch (r.below(13)) {
      case 0: case 1: { int n = (big && r.chance(1, 2) ? (int)r.below(many) : rnd_len(r) % 100); std::string s = rnd_bytes(r, n, 0); StringBuilder b; sb_build(r, &b, s, 1 + (int)(vast ? 300 + r.below(many) : r.below(big && r.chance(1, 2) ? 700 : 12))); int t = can_tx ? (int)(s.size() < room ? s.size() : room) : 0; int w = t <= 0 ? -1 : t == (int)s.size() ? 1 : 0;
        if (r.chance(1, 2)) { int g = u->pushBuffer(&b); VF_CHECK(g == w, "push-code", "pushing %d bytes with room for %u gave %d, should be %d", n, room, g, w); } else { uint32_t g = u->write(&b); VF_CHECK(g == (uint32_t)t, "write-count", "writing %d bytes with room for %u gave %u, should be %d", n, room, g, t); }
        sb_expect(&b, s.substr((size_t)t), "push-rest", "what a push left"); tx.append(s, 0, (size_t)t); c.op("push %d", n); c.count("pushes"); if (t && t < n) c.count("partial_pushes"); if (n && !t) c.count("refused_pushes"); } break;
      case 2: { int n = (big && r.chance(1, 2) ? (int)r.below(many) : rnd_len(r) % 100); std::string s = rnd_bytes(r, n, 4); uint32_t t = can_tx ? (uint32_t)(s.size() < room ? s.size() : room) : 0, g; if (r.chance(1, 2)) g = u->write((uint8_t*)s.data(), (uint32_t)n); else g = u->write(s.c_str()); c.op("write %d", n); VF_CHECK(g == t, "write-count", "writing %d bytes with room for %u gave %u, should be %u", n, room, g, t); tx.append(s, 0, t); c.count("writes"); } break;
      case 3: { char ch = (char)r.u32(); uint32_t t = can_tx && room; uint32_t g = u->write(ch); c.op("writec"); VF_CHECK(g == t, "write-count", "writing one byte with room for %u gave %u", room, g); if (t) tx += ch; c.count("writes"); } break;
      case 4: case 5: { static uint8_t b[70001]; int n = 1 + (int)r.below(big ? many : 32), w = n < (int)tx.size() ? n : (int)tx.size(); int g = u->tx(b, n); VF_CHECK(g == w && 0 == memcmp(b, tx.data(), (size_t)w), "wire-out", "the wire got %d bytes, should be %d, or others", g, w); tx.erase(0, (size_t)w); c.op("wire %d", w); c.count("wire_bytes_out", (uint64_t)w); } break;
      case 6: case 7: { int n = 1 + (int)r.below(vast ? many : big ? 400 : 20); for (int i = 0; i < n; i++) { uint8_t b = (uint8_t)(seq++ * 7 + 3); bool ok = u->rx(b); if (rx.size() < rc) { VF_CHECK(ok, "wire-in", "a byte was dropped with room left"); rx += (char)b; c.count("wire_bytes_in"); } else { VF_CHECK(!ok, "wire-in", "a full ring took a byte"); c.count("wire_overruns"); } } c.op("in %d", n); } break;
      case 8: { static uint8_t b[70001]; uint32_t n = r.below(big ? many : 40); memset(b, 0xEE, n + 1); uint32_t w = n < rx.size() ? n : (uint32_t)rx.size(); uint32_t g = u->read(b, n); VF_CHECK(g == w && 0 == memcmp(b, rx.data(), w) && b[w] == 0xEE, "read-bytes", "reading %u of %u gave %u, or other bytes", n, (unsigned)rx.size(), g); rx.erase(0, w); c.op("read %u", n); c.count("reads"); } break;
      case 9: { StringBuilder b; b.concat("#"); uint32_t g = u->read(&b); VF_CHECK(g == rx.size(), "read-bytes", "reading all %u gave %u", (unsigned)rx.size(), g); sb_expect(&b, "#" + rx, "read-bytes", "read()"); rx.clear(); c.op("readall"); c.count("reads"); } break;
      case 10: case 11: { if (r.chance(1, 3)) { consumer = !consumer; u->readCallback(consumer ? &sink : nullptr); } sink.room = r.chance(1, 4) ? 0 : (int)r.below(big ? 600 : 30); sink.policy = (int)r.below(3); sink.got.clear(); std::string b4 = rx; PollResult p = u->poll(); unsigned t = (unsigned)sink.got.size();
        VF_CHECK(p == (t ? PollResult::ACTION : PollResult::NO_ACTION), "poll-result", "poll() gave %d after %u bytes went down", (int)p, t); VF_CHECK(0 == rx.compare(0, t, sink.got), "consumer-bytes", "the consumer got other bytes"); if (consumer && sink.policy == 0) VF_CHECK(t == (rx.size() < (size_t)(t + sink.room) ? rx.size() : t + sink.room), "consumer-bytes", "the consumer had room, but got %u of %u bytes", t, (unsigned)rx.size());
        if (!consumer) VF_CHECK(t == 0, "consumer-bytes", "a consumer that was removed got bytes"); rx.erase(0, t); c.op("poll %u", t); c.count("consumer_bytes", t); } break;
      case 12: if (r.chance(1, 6)) { if (r.chance(1, 2)) { VF_CHECK(u->reset() == 0 && u->initialized() && u->inits >= 2 && u->deinits >= 1, "reset", "reset() failed"); } else { VF_CHECK(u->deinit() == 0 && !u->initialized() && !u->txCapable() && !u->rxCapable() && u->flushed() && u->bitrate() == 0, "reset", "deinit() left the UART up"); VF_CHECK(u->write('x') == 0, "write-count", "a UART that is down took a byte"); u->init(nullptr); VF_CHECK(0 == memcmp(u->uartOpts(), &o, sizeof o), "reset", "the options were lost"); } tx.clear(); rx.clear(); c.op("reset"); c.count("resets"); } else { advance_us(r.below(120000)); } break;
    }
    VF_CHECK(u->pendingTxBytes() == (int)tx.size() && u->pendingRxBytes() == (int)rx.size() && u->bufferAvailable() == (int)(tc - tx.size()), "accounting", "pending out %d of %u, in %d of %u, room %d", u->pendingTxBytes(), (unsigned)tx.size(), u->pendingRxBytes(), (unsigned)rx.size(), u->bufferAvailable());
    VF_CHECK(u->rxTimeoutExpired() == ((uint32_t)(millis() - u->lastRXTime()) > u->rxTimeout()), "timeout", "the timeout is wrong");
    c.feat(mix(tx.size() == tc ? 2 : !tx.empty(), (rx.size() == rc ? 2 : !rx.empty()) * 4 + caps));
  }
  delete u; c.nontrivial = true;
}
