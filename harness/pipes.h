/* Buffer sinks that watch what reaches them. */
#ifndef PIPES_H
#define PIPES_H
#include "sbmodel.h"
#include "Pipes/BufferAccepter/BufferAccepter.h"
struct WatchSink : public BufferAccepter {
  std::string got; int32_t cap = 0; vf::Rng* stingy = nullptr; bool refuse = false; unsigned pushes = 0, parts = 0, refusals = 0;
  virtual ~WatchSink() {}
  int8_t pushBuffer(StringBuilder* b) override {
    pushes++; if (!b) return -1; int32_t n = b->length(); std::string s = sb_read(b); int32_t t = n < cap ? n : cap; if (refuse) t = 0; if (t > 0 && stingy && stingy->chance(1, 2)) t = (int32_t)stingy->below((uint32_t)t + 1);
    if (t > 0) { got += s.substr(0, t); cap -= t; b->cull(t); } if (t == 0) refusals++; else if (t < n) parts++;
    return t == 0 ? -1 : t == n ? 1 : 0;
  }
  int32_t bufferAvailable() override { return cap; }
};
static inline std::string b64_ref(const std::string& s) {
  static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string o; size_t i = 0;
  for (; i < s.size(); i += 3) { unsigned left = (unsigned)(s.size() - i), v = (uint8_t)s[i] << 16 | (left > 1 ? (uint8_t)s[i + 1] << 8 : 0) | (left > 2 ? (uint8_t)s[i + 2] : 0); o += A[v >> 18]; o += A[(v >> 12) & 63]; o += left > 1 ? A[(v >> 6) & 63] : '='; o += left > 2 ? A[v & 63] : '='; }
  return o;
}
// 1: valid, 0: not valid, 2: valid but for bits that should be zero.
static inline int b64_dec_ref(const std::string& s, std::string& o) {
  o.clear(); if (s.size() % 4) return 0; size_t n = s.size(), pad = 0; if (n) { if (s[n - 1] == '=') { pad = 1; if (s[n - 2] == '=') pad = 2; } } uint32_t acc = 0; int bits = 0; bool odd = false;
  for (size_t i = 0; i < n - pad; i++) { char ch = s[i]; int v = ch >= 'A' && ch <= 'Z' ? ch - 'A' : ch >= 'a' && ch <= 'z' ? ch - 'a' + 26 : ch >= '0' && ch <= '9' ? ch - '0' + 52 : ch == '+' ? 62 : ch == '/' ? 63 : -1; if (v < 0) return 0; acc = acc << 6 | (uint32_t)v; bits += 6; if (bits >= 8) { bits -= 8; o += (char)(acc >> bits); acc &= (1u << bits) - 1; } }
  odd = acc != 0; return odd ? 2 : 1;
}
#endif
