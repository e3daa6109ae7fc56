/* An independent account of the M2M header. */
#ifndef M2MREF_H
#define M2MREF_H
#include "M2MLink/M2MLink.h"
#include <string>
struct Ref { uint8_t code = 0, flags = 0, chk = 0; uint32_t len = 0, id = 0; int ll() const { return (flags >> 4) & 3; } int il() const { return flags >> 6; } int hl() const { return ll() ? ll() + il() + 3 : 0; } };
inline uint8_t sum(const Ref& h) { return (uint8_t)(h.flags + h.len + h.code + 1); }
inline int nbytes(uint32_t n) { int k = 0; for (; n; n >>= 8) k++; return k; }
inline bool code_ok(uint8_t c) { if (c >= 0x10 && c <= 0x1F) return true; switch ((M2MMsgCode)c) { case M2MMsgCode::SYNC_KEEPALIVE: case M2MMsgCode::CONNECT: case M2MMsgCode::PROTOCOL: case M2MMsgCode::AUTH_CHALLENGE: case M2MMsgCode::HANGUP: case M2MMsgCode::DESCRIBE: case M2MMsgCode::MSG_FORWARD: case M2MMsgCode::LOG: case M2MMsgCode::WHO: case M2MMsgCode::DHT_FXN: case M2MMsgCode::APPLICATION: return true; default: return false; } }
inline bool is_sync_code(uint8_t c) { return c == (uint8_t)M2MMsgCode::SYNC_KEEPALIVE; }
inline bool valid(const Ref& h) { return !(h.flags & 0x0C) && h.hl() >= 4 && code_ok(h.code) && nbytes(h.id) == h.il() && nbytes(h.len) == h.ll() && h.len >= 4 && h.chk == sum(h) && (is_sync_code(h.code) || ((h.flags & 3) != 0) == (h.il() > 0)); }
inline bool sync(const Ref& h) { return is_sync_code(h.code) && (h.flags & 0xFC) == 0x10 && h.len == 4 && h.chk == sum(h); }
inline std::string wire(const Ref& h) { std::string s; s += (char)h.code; s += (char)h.flags; for (int i = h.ll(); i--;) s += (char)(h.len >> (8 * i)); for (int i = h.il(); i--;) s += (char)(h.id >> (8 * i)); s += (char)h.chk; return s; }
inline bool size_to(Ref& h, uint64_t pl) { uint64_t need = pl + 4 + h.il(); int ll = 1; while (ll < 3 && need + ll - 1 >= (1ull << (8 * ll))) ll++; need += ll - 1; if (need > 0xFFFFFF) return false; h.flags = (h.flags & ~0x30) | ll << 4; h.len = (uint32_t)need; h.chk = sum(h); return true; }
inline int ref_parse(const std::string& b, Ref& h) {
  if (b.size() < 4) return -2; h.code = b[0]; h.flags = b[1]; if (!h.hl()) return -3; if ((int)b.size() < h.hl()) return -2; size_t p = 2; for (int i = h.ll(); i--;) h.len = h.len << 8 | (uint8_t)b[p++]; for (int i = h.il(); i--;) h.id = h.id << 8 | (uint8_t)b[p++]; h.chk = b[p];
  if (h.chk != sum(h) || (int)h.len < h.hl()) return -3; if ((int)h.len == h.hl()) return 1; return b.size() < h.len ? 0 : 2;
}
#endif
