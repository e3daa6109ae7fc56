/* C39: the GPS parser against a reading of the same stream by the NMEA grammar. */
#include "pipes.h"
#include "Pipes/BufferAccepter/GPSWrapper/GPSWrapper.h"
#include <math.h>
#include <time.h>
const char* VF_PROPERTY = "C39";
const char* VF_RULE = "A case is a stream of sentences of all kinds and talkers, with all kinds of field values, right, wrong, lower-case or no checksums, malformed fields, damage, other sentences, blank lines, garbage with null bytes, and over-long lines, cut into pushes anywhere, in one of several time zones. Distinct by the stream.";
using namespace vf;
typedef std::vector<std::string> V;
/* A decimal field: how it reads, and its value. */
struct Num { bool ok = true, known = false; double v = 0; int64_t val = 0, scale = 0; };
static bool fieldch(char ch) { return ch >= 0x20 && ch < 0x7F && ch != ',' && ch != '*'; }
static Num num(const std::string& s) {
  Num n; bool sign = false, neg = false, dig = false, dot = false; int64_t val = 0, scale = 1; bool full = false;
  for (char ch : s) { if (full) break; if ((ch == '+' || ch == '-') && !sign && !dig) { sign = true; neg = ch == '-'; } else if (ch >= '0' && ch <= '9') { dig = true; if (val * 10 + (ch - '0') > INT32_MAX) { if (!dot) { n.ok = false; return n; } full = true; break; } if (dot && scale > INT32_MAX / 10) { full = true; break; } val = val * 10 + (ch - '0'); if (dot) scale *= 10; } else if (ch == '.' && !dot) dot = true; else if (ch == ' ' && !sign && !dig && !dot) {} else { n.ok = false; return n; } }
  if ((sign || dot) && !dig) { n.ok = false; return n; } n.known = dig; n.val = neg ? -val : val; n.scale = dig ? scale : 0; n.v = dig ? (double)n.val / scale : (double)NAN; return n;
}
static double coord(const Num& n) { if (!n.known) return NAN; int64_t deg = n.val / (n.scale * 100), rest = n.val % (n.scale * 100); return deg + (double)rest / (60 * n.scale); }
struct Loc { double lat = 0, lon = 0, hd = 0, vd = 0; uint64_t ts = 0; double bear = 0; double alt = 0, speed = 0; unsigned sats = 0; bool alt_ok = true, speed_ok = true, ts_ok = true; };
struct Ref { Loc l; unsigned parsed = 0, rejected = 0; std::vector<Loc> calls; std::string acc;
  static bool dirn(const std::string& s, int& d) { if (s.empty()) { d = 0; return true; } d = s[0] == 'N' || s[0] == 'E' ? 1 : s[0] == 'S' || s[0] == 'W' ? -1 : 2; return d != 2; }
  static bool digits(const std::string& s) { if (s.size() < 6) return false; for (int i = 0; i < 6; i++) if (s[i] < '0' || s[i] > '9') return false; return true; }
  static bool integer(const std::string& s, long& v) { char* e; std::string t = s; v = strtol(t.c_str(), &e, 10); return *e == 0; }
  bool sentence(const std::string& raw) {   // One line, as a C string.
    std::string s = raw.c_str(); if (s.size() > MINMEA_MAX_LENGTH + 3 || s.empty() || s[0] != '$') return false; size_t i = 1; uint8_t x = 0; while (i < s.size() && s[i] >= 0x20 && s[i] < 0x7F && s[i] != '*') x ^= s[i++];
    if (i >= s.size()) return false; if (s[i] == '*') { auto hx = [](char ch) { return ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'A' && ch <= 'F' ? ch - 'A' + 10 : ch >= 'a' && ch <= 'f' ? ch - 'a' + 10 : -1; }; if (i + 2 >= s.size()) return false; int a = hx(s[i + 1]), b = hx(s[i + 2]); if (a < 0 || b < 0 || (a << 4 | b) != x) return false; } else if (s[i] != '\r') return false;
    std::string body = s.substr(0, i); V f; size_t p = 0; for (;;) { size_t q = body.find(',', p); f.push_back(body.substr(p, q == std::string::npos ? q : q - p)); if (q == std::string::npos) break; p = q + 1; } if (f[0].size() < 6) return false; std::string type = f[0].substr(3, 3);
    auto nums = [&](unsigned a, unsigned b) { for (unsigned k = a; k <= b; k++) if (!num(f[k]).ok) return false; return true; }; auto ints = [&](unsigned a, unsigned b) { long v; for (unsigned k = a; k <= b && k < f.size(); k++) if (!integer(f[k], v)) return false; return true; }; auto tim = [&](unsigned k) { return f[k].empty() || digits(f[k]); }; int d0, d1, d2;
    if (type == "RMC") { if (f.size() < 12 || !tim(1) || !num(f[3]).ok || !dirn(f[4], d0) || !num(f[5]).ok || !dirn(f[6], d1) || !nums(7, 8) || !tim(9) || !num(f[10]).ok || !dirn(f[11], d2)) return false;
      Num a = num(f[3]), o = num(f[5]); a.val *= d0; o.val *= d1; l.lat = coord(a); l.lon = coord(o); if (!f[1].empty() && !f[9].empty()) { auto two = [&](const std::string& t, int k) { return (t[k] - '0') * 10 + t[k + 1] - '0'; }; int D = two(f[9], 0), M = two(f[9], 2), Y = two(f[9], 4), h = two(f[1], 0), m = two(f[1], 2), sec = two(f[1], 4); static const int ML[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; bool leap = Y % 4 == 0; if (M >= 1 && M <= 12 && D >= 1 && D <= ML[M - 1] + (M == 2 && leap) && Y < 38 && h < 24 && m < 60 && sec < 60) { int64_t days = 10957; for (int y = 0; y < Y; y++) days += y % 4 ? 365 : 366; for (int k = 1; k < M; k++) days += ML[k - 1] + (k == 2 && leap); days += D - 1; l.ts = days * 86400 + h * 3600 + m * 60 + sec; l.ts_ok = true; } else l.ts_ok = false; } return true; }
    if (type == "GGA") { long sats; if (f.size() < 15 || !tim(1) || !num(f[2]).ok || !dirn(f[3], d0) || !num(f[4]).ok || !dirn(f[5], d1) || !ints(6, 7) || !nums(8, 9) || !num(f[11]).ok || !ints(13, 13)) return false; integer(f[7], sats); l.sats = (uint8_t)(int)sats; Num a = num(f[9]); if (f[10][0] == 'M' && a.known) { l.alt = a.v * 1000; l.alt_ok = fabs(l.alt) < 2147483000.0; } return true; }
    if (type == "GSA") { if (f.size() < 18 || !ints(2, 14) || !nums(15, 17)) return false; l.hd = num(f[16]).v; l.vd = num(f[17]).v; return true; }
    if (type == "GLL") return f.size() >= 7 && num(f[1]).ok && dirn(f[2], d0) && num(f[3]).ok && dirn(f[4], d1) && tim(5);
    if (type == "GST") return f.size() >= 9 && tim(1) && nums(2, 8);
    if (type == "GSV") return f.size() >= 4 && ints(1, 19);
    if (type == "VTG") { if (f.size() < 9 || !num(f[1]).ok || f[2][0] != 'T' || !num(f[3]).ok || f[4][0] != 'M' || !num(f[5]).ok || f[6][0] != 'N' || !num(f[7]).ok || f[8][0] != 'K') return false; l.bear = num(f[3]).v; Num a = num(f[7]); if (a.known) { l.speed = a.v * 1000000 / 3600; l.speed_ok = l.speed >= 0 && l.speed < 4294967000.0; } call = true; return true; }
    return false;
  }
  bool call = false;
  void push(const std::string& s) { acc += s; if (acc.size() > MINMEA_MAX_LENGTH) { size_t p = 0, q; while ((q = acc.find('\n', p)) != std::string::npos) { std::string line = acc.substr(p, q - p); p = q + 1; if (line.empty()) continue; call = false; if (sentence(line)) { parsed++; if (call) calls.push_back(l); } else rejected++; } acc.erase(0, p); } if (acc.size() > 1024) acc.erase(0, acc.size() - 1024); }
};
static std::vector<LocationFrame> calls;
static int8_t on_frame(LocationFrame* f) { LocationFrame c; c.copyFrame(f); calls.push_back(c); return 0; }
static bool nearf(double got, double want, double abs_tol) { return (std::isnan(got) && std::isnan(want)) || fabs(got - want) <= abs_tol + fabs(want) * 3e-7; }
static void same(const LocationFrame& g, const Loc& w, const char* what) {
  VF_CHECK(nearf(g.lat, w.lat, 1e-6) && nearf(g.lon, w.lon, 1e-6), "position", "%s: at %.8f %.8f, should be %.8f %.8f", what, g.lat, g.lon, w.lat, w.lon); VF_CHECK(nearf(g.dop_horiz, w.hd, 0) && nearf(g.dop_vert, w.vd, 0), "dop", "%s: precision %g %g, should be %g %g", what, g.dop_horiz, g.dop_vert, w.hd, w.vd); VF_CHECK(nearf(g.mag_bearing, w.bear, 0), "bearing", "%s: bearing %g, should be %g", what, g.mag_bearing, w.bear);
  if (w.alt_ok) VF_CHECK(nearf((int32_t)g.altitude, w.alt, 1), "altitude", "%s: altitude %u, should be %.1f", what, g.altitude, w.alt); if (w.speed_ok) VF_CHECK(nearf(g.speed, w.speed, 1), "speed", "%s: speed %u, should be %.1f", what, g.speed, w.speed); VF_CHECK(g.sat_count == w.sats, "sats", "%s: %u satellites, should be %u", what, g.sat_count, w.sats); if (w.ts_ok) VF_CHECK(g.timestamp == w.ts, "time", "%s: time %llu, should be %llu", what, (unsigned long long)g.timestamp, (unsigned long long)w.ts);
}
static std::string dec(Rng& r) { if (r.chance(1, 10)) return ""; char t[40]; switch (r.below(7)) { case 5: { std::string q = std::to_string(2147483640u + r.below(20)); size_t k = r.below(12); if (k < 11) q.insert(std::min(k, q.size()), "."); return (r.chance(1, 4) ? "-" : "") + q; } case 0: snprintf(t, sizeof t, "%u", r.below(1000)); break; case 1: snprintf(t, sizeof t, "%0*u.%0*u", 1 + (int)r.below(5), r.below(10000), 1 + (int)r.below(3), r.below(1000)); break; case 2: snprintf(t, sizeof t, "%s%u.%u", r.chance(1, 3) ? "-" : r.chance(1, 2) ? "+" : "", r.below(1000), r.below(100000)); break; case 3: snprintf(t, sizeof t, "%u.%s", r.below(3), "0000000000000000000001" + 22 - (1 + r.below(22))); break; case 4: snprintf(t, sizeof t, "%u.%u", r.u32() >> r.below(32), r.u32()); break; default: snprintf(t, sizeof t, "%u.", r.below(100)); } return t; }
static std::string geo(Rng& r, unsigned maxdeg, const char* hemi) { char t[40]; if (r.chance(1, 15)) return r.chance(1, 2) ? "," : std::string(",") + hemi[0]; int d = r.below(maxdeg), prec = r.below(8); double m = r.below(6000000) / (double)100000; snprintf(t, sizeof t, "%0*d%0*.*f,%c", maxdeg > 100 ? 3 : 2, d, prec ? 3 + prec : 2, prec, m > 59.99 ? (double)59 : m, hemi[r.below(2)]); return t; }
static std::string tm(Rng& r) { if (r.chance(1, 12)) return ""; char t[40]; snprintf(t, sizeof t, "%02u%02u%02u", r.below(24), r.below(60), r.below(60)); std::string s = t; if (r.chance(1, 2)) { snprintf(t, sizeof t, ".%0*u", 1 + (int)r.below(9), r.below(1000)); s += t; } return s; }
static std::string dt(Rng& r) { if (r.chance(1, 12)) return ""; char t[40]; unsigned M = 1 + r.below(12), Y = r.below(38); static const int ML[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; unsigned n = ML[M - 1] + (M == 2 && Y % 4 == 0); snprintf(t, sizeof t, "%02u%02u%02u", r.chance(1, 4) ? n : 1 + r.below(n), M, Y); return t; }
static std::string in(Rng& r, unsigned max) { return r.chance(1, 6) ? "" : r.chance(1, 3) ? std::to_string(r.below(max)) : [&] { char t[12]; snprintf(t, sizeof t, "%02u", r.below(max)); return std::string(t); }(); }
static std::string body(Rng& r, unsigned& kind) {
  static const char* TK[] = {"GP", "GN", "GL", "GA", "BD"}; static const char* TY[] = {"RMC", "GGA", "GSA", "GLL", "GST", "GSV", "VTG", "ZDA", "TXT"}; kind = r.below(r.chance(1, 8) ? 9 : 7); std::string s = std::string(TK[r.below(5)]) + TY[kind]; auto a = [&](const std::string& f) { s += "," + f; };
  switch (kind) {
    case 0: a(tm(r)); a(r.chance(1, 8) ? "V" : "A"); a(geo(r, 90, "NS")); a(geo(r, 180, "EW")); a(dec(r)); a(dec(r)); a(dt(r)); a(dec(r)); a(r.chance(1, 2) ? "" : "E"); if (r.chance(1, 3)) a("A"); break;
    case 1: a(tm(r)); a(geo(r, 90, "NS")); a(geo(r, 180, "EW")); a(in(r, 9)); a(in(r, r.chance(1, 8) ? 300 : 33)); a(dec(r)); a(dec(r)); a(r.chance(1, 10) ? "F" : r.chance(1, 10) ? "" : "M"); a(dec(r)); a("M"); a(in(r, 100)); a(r.chance(1, 2) ? "" : "0120"); break;
    case 2: a(r.chance(1, 2) ? "A" : "M"); a(in(r, 4)); for (int k = 0; k < 12; k++) a(in(r, 99)); for (int k = 0; k < 3; k++) a(dec(r)); break;
    case 3: a(geo(r, 90, "NS")); a(geo(r, 180, "EW")); a(tm(r)); a(r.chance(1, 2) ? "A" : "V"); if (r.chance(1, 2)) a("A"); break;
    case 4: a(tm(r)); for (int k = 0; k < 7; k++) a(dec(r)); break;
    case 5: a(in(r, 5)); a(in(r, 5)); a(in(r, 20)); for (int k = r.below(5); k; k--) { a(in(r, 99)); a(in(r, 91)); a(in(r, 360)); a(in(r, 60)); } break;
    case 6: a(dec(r)); a("T"); a(dec(r)); a("M"); a(dec(r)); a("N"); a(dec(r)); a("K"); if (r.chance(1, 2)) a(r.chance(1, 3) ? "" : "D"); break;
    default: for (int k = r.below(8); k; k--) a(rnd_bytes(r, r.below(9), 1)); for (auto& ch : s) if (ch == '*') ch = '.'; }
  return s;
}
static std::string sum(const std::string& b, bool lower = false) { uint8_t x = 0; for (char ch : b) x ^= ch; char t[4]; snprintf(t, sizeof t, lower ? "%02x" : "%02X", x); return t; }
void vf_setup() {}
void vf_case(Ctx& c) {
  Rng& r = c.rng; static const char* TZ[] = {"UTC0", "EST5EDT", "UTC-9", "UTC+3:30", "CET-1CEST"}; setenv("TZ", TZ[r.below(5)], 1); tzset(); GPSWrapper g; Ref w; calls.clear(); bool cb = !r.chance(1, 10); if (cb) g.setCallback(on_frame); if (r.chance(1, 2)) { g.init(); }
  std::string s; bool sane = r.chance(1, 3); const bool lengthy = r.chance(1, 80); if (lengthy) c.count("lengthy_streams"); for (unsigned n = lengthy ? 300 + r.below(500) : 2 + r.below(c.thorough ? 60 : 30); n; n--) { unsigned kind, how = sane ? r.below(2) : r.below(18); std::string b = body(r, kind), eol = r.chance(3, 4) ? "\r\n" : "\n"; c.feat(mix(kind, how));
    switch (how) {
      case 2: { size_t k = r.below(b.size()); std::string cs = sum(b); b[k] ^= 1 << r.below(7); if (b[k] == '\n') b[k] = 'x'; s += "$" + b + "*" + cs + eol; c.count("damaged"); break; }
      case 3: { unsigned x = strtoul(sum(b).c_str(), nullptr, 16) ^ (1 + r.below(255)); char t[4]; snprintf(t, sizeof t, "%02X", x); s += "$" + b + "*" + t + eol; c.count("wrong_sums"); break; }
      case 4: { size_t k = b.find(',', r.below(b.size())); if (k == std::string::npos) k = b.size() - 1; b.insert(k + 1, 1, "x.-1 +,A"[r.below(8)]); s += "$" + b + "*" + sum(b) + eol; c.count("malformed"); break; }
      case 5: { size_t k = r.below(b.size()); b.resize(k); s += "$" + b + (r.chance(1, 2) ? "*" + sum(b) : "") + "\r\n"; c.count("cut"); break; }
      case 6: s += rnd_bytes(r, r.below(60), r.below(2)) + (r.chance(1, 2) ? eol : ""); c.count("garbage"); break;
      case 7: s += std::string(1 + r.below(4), '\n'); break;
      case 8: s += std::string(r.below(5), '\0') + (r.chance(1, 2) ? "\n" : ""); break;
      case 9: { std::string q = b; while (q.size() < 130 + r.below(30)) q += "," + dec(r); q += ",,"; s += "$" + q + "*" + sum(q) + eol; c.count("long"); break; }
      case 10: s += "$" + b + "\r\n"; c.count("without_sum"); break;
      case 11: if (r.chance(1, 4)) { s += rnd_bytes(r, 900 + r.below(400), 1); c.count("floods"); } break;
      case 12: s += "$" + b + "*" + sum(b).substr(0, r.below(2)) + eol; break;
      case 13: { size_t k = b.find(',', r.below(b.size())); if (k != std::string::npos) { size_t e = b.find(',', k + 1); b.replace(k + 1, e == std::string::npos ? e : e - k - 1, rnd_bytes(r, r.below(8), 1)); for (auto& ch : b) if (ch == '*' || ch == '\n') ch = '0'; } s += "$" + b + "*" + sum(b) + eol; c.count("odd_fields"); break; }
      default: s += "$" + b + "*" + sum(b, r.chance(1, 4)) + eol; c.count("valid"); } }
  unsigned cut = 1 + r.below(r.chance(1, 3) ? 10 : r.chance(1, 2) ? 200 : 3000); size_t p = 0; if (r.chance(1, 2)) s += std::string(150, 'x') + "\n"; c.op("stream %s", quote(s.data(), s.size(), 6000).c_str());
  while (p < s.size()) {
    size_t k = std::min((size_t)1 + r.below(cut), s.size() - p); if (sane && r.chance(1, 3)) { size_t e = s.find('\n', p); if (e != std::string::npos) k = e + 1 - p; } std::string q = s.substr(p, k); p += k; StringBuilder b; sb_build(r, &b, q, 1 + r.below(9)); int8_t ret = g.pushBuffer(&b); w.push(q); c.op("push %zu: %d", k, ret);
    VF_CHECK(ret == 1 && b.length() == 0, "claim", "pushBuffer() returned %d, and left %d bytes", ret, b.length()); VF_CHECK(g.bufferAvailable() == 1024 - (int)w.acc.size(), "room", "room for %d, should be %d", g.bufferAvailable(), 1024 - (int)w.acc.size()); VF_CHECK(g.sentencesParsed() == w.parsed && g.sentencesRejected() == w.rejected, "count", "%u parsed, %u rejected; should be %u, %u", g.sentencesParsed(), g.sentencesRejected(), w.parsed, w.rejected);
    if (cb) { VF_CHECK(calls.size() == w.calls.size(), "calls", "%zu reports, should be %zu", calls.size(), w.calls.size()); for (size_t j = 0; j < calls.size(); j++) same(calls[j], w.calls[j], "report"); c.count("reports", calls.size()); calls.clear(); w.calls.clear(); } else { VF_CHECK(calls.empty(), "calls", "a report without a callback"); w.calls.clear(); } }
  if (cb) { std::string f = "GPVTG,1.0,T,2.0,M,3.0,N,4.0,K"; f = "\r\n$" + f + "*" + sum(f) + "\r\n" + std::string(150, '-') + "\n"; StringBuilder b((uint8_t*)f.data(), f.size()); g.pushBuffer(&b); w.push(f); VF_CHECK(calls.size() == w.calls.size() && calls.size() >= 1, "calls", "the last valid sentence made %zu reports, should be %zu", calls.size(), w.calls.size()); same(calls.back(), w.calls.back(), "the last report"); }
  c.count("parsed", w.parsed); c.count("rejected", w.rejected); c.nontrivial = w.parsed + w.rejected > 1;
  if (r.chance(1, 4)) { StringBuilder o; g.printDebug(&o); std::string t = sb_read(&o); char e[80]; snprintf(e, sizeof e, "Parsed %u\n\tReject %u\n", w.parsed, w.rejected); VF_CHECK(t.find(e) != std::string::npos, "print", "printDebug() says %s", quote(t.data(), t.size(), 300).c_str()); snprintf(e, sizeof e, "Sat count: %u\n", w.l.sats); VF_CHECK(t.find(e) != std::string::npos, "print", "printDebug() says %s", quote(t.data(), t.size(), 300).c_str()); }
  {   // Distances.
    LocationFrame a, b; auto deg = [&](int lim) { return r.chance(1, 5) ? (double)((int)r.below(3) - 1) * lim : (int32_t)r.u32() / 2147483648.0 * lim; }; a.lat = deg(90); a.lon = deg(180); b.lat = r.chance(1, 5) ? -a.lat : r.chance(1, 4) ? a.lat + deg(1) / 10 : deg(90); b.lon = r.chance(1, 4) ? a.lon : r.chance(1, 4) ? a.lon + 180 : r.chance(1, 3) ? a.lon + deg(1) / 10 : deg(180); double R = 3.14159265358979323846 / 180, la = a.lat * R, lb = b.lat * R, dl = (b.lon - a.lon) * R, x = cos(lb) * sin(dl), y = cos(la) * sin(lb) - sin(la) * cos(lb) * cos(dl), z = sin(la) * sin(lb) + cos(la) * cos(lb) * cos(dl), d = 6371009.0 * atan2(sqrt(x * x + y * y), z);
    int32_t got = GPSWrapper::haversineDistance(&a, &b), rev = GPSWrapper::haversineDistance(&b, &a); VF_CHECK(fabs(got - d) <= 3 + d * 1e-5, "distance", "from %.7f %.7f to %.7f %.7f: %d m, should be %.1f", a.lat, a.lon, b.lat, b.lon, got, d); VF_CHECK(abs(got - rev) <= 1, "distance", "there %d m, back %d m", got, rev); c.count("distances"); }
}
