/* C22: time series and stop watches sent as CBOR. The bytes against an independent writer; what the receiver holds against the sender; other peers' maps (keys in any order, unknown keys, other integer widths, values of unusable types, damage) against what they say. */
#include "kvgen.h"
#include "TimeSeries/TimeSeries.h"
#include "TimerTools/TimerTools.h"
#include <memory>
const char* VF_PROPERTY = "C22";
const char* VF_RULE = "A case is one of: a time series of one of ten sample types with a window of 1 to 600 fed 0 to 3 windows of ordinary and extreme samples, perhaps named and with a unit, sent alone, in a typed value or in a map, and fed further on both ends; a map from another peer (keys in any order, unknown keys, integers of any width, values of unusable types, missing keys); damaged maps; a stop watch with any timings, likewise. Distinct by the bytes.";
using namespace vf; using namespace cb;
void vf_setup() {}
typedef std::vector<std::pair<std::string, std::string>> Map;   // Keys, and the encoded values.
static std::string enc(int maj, uint64_t n) { std::string o; head(o, maj, n); return o; }
static std::string enci(uint64_t n) { return enc(0, n); }
static std::string encs(const std::string& s) { return enc(3, s.size()) + s; }
static std::string wire(int tc, const Map& m) { std::string o; head(o, 6, 0xE900 | tc); head(o, 5, m.size()); for (auto& p : m) o += encs(p.first) + p.second; return o; }
static StringBuilder* load(Rng& r, const std::string& b) { StringBuilder* s = new StringBuilder(); for (size_t at = 0; at < b.size();) { size_t n = 1 + r.below((uint32_t)(b.size() - at)); s->concat((uint8_t*)b.data() + at, n); at += n; } return s; }
template <class T> struct Ty;
#define TY(T, TC, FL) template <> struct Ty<T> { static const int tc = (int)TCode::TC; static const int fl = FL; };
TY(uint8_t, UINT8, 0) TY(uint16_t, UINT16, 0) TY(uint32_t, UINT32, 0) TY(uint64_t, UINT64, 0) TY(int8_t, INT8, 0) TY(int16_t, INT16, 0) TY(int32_t, INT32, 0) TY(int64_t, INT64, 0) TY(float, FLOAT, 1) TY(double, DOUBLE, 2)
template <class T> static T draw(Rng& r) { if (Ty<T>::fl == 1) { float f = r.chance(1, 2) ? (float)((int)r.below(2001) - 1000) / 8 : r.edgyFloat(); return (T)(f == f ? f : 1.5f); } if (Ty<T>::fl == 2) { double f = r.chance(1, 2) ? (double)((int)r.below(2001) - 1000) / 8 : r.edgyDouble(); return (T)(f == f ? f : 1.5); } return (T)num(r); }
template <class T> static std::string encv(T v, int atleast = 0) { std::string o; if (Ty<T>::fl == 1) { uint32_t u; float f = (float)v; memcpy(&u, &f, 4); o += (char)0xFA; be(o, u, 4); } else if (Ty<T>::fl == 2) { uint64_t u; double f = (double)v; memcpy(&u, &f, 8); o += (char)0xFB; be(o, u, 8); } else if (v < T(0)) head(o, 1, (uint64_t)(-1 - (int64_t)v), atleast); else head(o, 0, (uint64_t)v, atleast); return o; }
template <class T> static bool eq(T a, T b) { return !memcmp(&a, &b, sizeof(T)); }
template <class T> static std::string show(T v) { char b[64]; snprintf(b, sizeof b, "%.17g", (double)v); return b; }
struct Seen { bool obj = false; std::string name, units; uint32_t win = 0, ttl = 0; bool data = false; };
/* Reads a series out of the encoded bytes. */
static std::unique_ptr<C3PValue> decode(Ctx& c, const std::string& b, bool whole) {
  std::unique_ptr<StringBuilder> in(load(c.rng, b)); C3PValue* v = C3PValue::deserialize(in.get(), TCode::CBOR);
  if (whole && v) VF_CHECK(in->length() == 0, "consumed", "%d bytes were left after reading a whole item", in->length());
  return std::unique_ptr<C3PValue>(v);
}
template <class T> static TimeSeries<T>* series_of(C3PValue* v, const char* what) {
  VF_CHECK(v != nullptr, "decode", "%s: nothing was read back", what); VF_CHECK(v->tcode() == TCode::TIMESERIES, "decode", "%s: a series was read back as %s", what, typecodeToStr(v->tcode()));
  TimeSeriesBase* b = nullptr; VF_CHECK(v->get_as(&b) == 0 && b, "decode", "%s: the series can't be taken from its value", what);
  VF_CHECK((int)b->tcode() == Ty<T>::tc, "type", "%s: the sample type became %s", what, typecodeToStr(b->tcode())); return (TimeSeries<T>*)b;
}
/* hist: samples by absolute number; the last min(win, ttl) of them are claimed if data. */
template <class T> static void agree(TimeSeries<T>* s, const Seen& w, const std::vector<T>& hist, const char* what) {
  VF_CHECK(s->name() && w.name == s->name(), "name", "%s: name is \"%s\", should be \"%s\"", what, s->name(), w.name.c_str());
  VF_CHECK(s->units() && w.units == (char*)s->units(), "units", "%s: units are not as sent", what);
  VF_CHECK(s->windowSize() == w.win && s->initialized() == (w.win > 0), "window", "%s: window is %u, should be %u", what, s->windowSize(), w.win);
  VF_CHECK(s->totalSamples() == w.ttl, "total", "%s: total is %u, should be %u", what, s->totalSamples(), w.ttl);
  if (!w.data) return;
  VF_CHECK(s->windowFull(), "full", "%s: the window isn't full", what); std::vector<T> got(w.win, T(1)); VF_CHECK(s->copyValues(got.data(), w.win, false) >= 0, "values", "%s: the values can't be copied", what);
  for (uint32_t i = 0; i < w.win; i++) VF_CHECK(eq(got[i], hist[hist.size() - w.win + i]), "values", "%s: value %u of %u is %s, should be %s", what, i, w.win, show(got[i]).c_str(), show(hist[hist.size() - w.win + i]).c_str());
  VF_CHECK(eq(s->value(), hist.back()), "values", "%s: the newest value is %s, should be %s", what, show(s->value()).c_str(), show(hist.back()).c_str());
  T lo = got[0], hi = got[0]; for (T x : got) { if (x < lo) lo = x; if (hi < x) hi = x; } VF_CHECK(!(s->minValue() < lo) && !(lo < s->minValue()) && !(s->maxValue() < hi) && !(hi < s->maxValue()), "extremes", "%s: the extremes are %s and %s, should be %s and %s", what, show(s->minValue()).c_str(), show(s->maxValue()).c_str(), show(lo).c_str(), show(hi).c_str());
}
template <class T> static Map series_map(const Seen& w, const std::vector<T>& hist, int wide = 0) {
  Map m; m.push_back({"tc", enci(Ty<T>::tc)}); m.push_back({"win", enci(w.win)}); m.push_back({"ttl", enci(w.ttl)}); if (!w.name.empty()) m.push_back({"n", encs(w.name)}); if (!w.units.empty()) m.push_back({"u", encs(w.units)});
  if (w.data) { m.push_back({"idx", enci(w.ttl - w.win)}); std::string d = enc(4, w.win); for (uint32_t i = 0; i < w.win; i++) d += encv<T>(hist[hist.size() - w.win + i], wide); m.push_back({"dat", d}); } return m;
}
static std::string rname(Rng& r) { return rnd_bytes(r, 1 + r.below(r.chance(1, 8) ? 300 : 20), r.chance(1, 2) ? 1 : 4); }
static std::string runits(Rng& r) { static const char U[] = {(char)SIUnit::METERS, (char)SIUnit::SECONDS, (char)SIUnit::VOLTS}; std::string s; unsigned n = 1 + r.below(3); for (unsigned i = 0; i < n; i++) s += U[r.below(3)]; return s; }
template <class T> static void feed(Ctx& c, TimeSeries<T>& s, std::vector<T>& hist, unsigned n) { for (unsigned i = 0; i < n; i++) { T v = draw<T>(c.rng); VF_CHECK(s.feedSeries(v) >= 0, "feed", "a sample was refused"); hist.push_back(v); } }

template <class T> static void trip(Ctx& c) {
  Rng& r = c.rng; uint32_t win = r.chance(1, 10) ? 200 + r.below(400) : 1 + r.below(r.chance(1, 3) ? 4 : 40); Seen w; w.obj = true; std::vector<T> hist; std::unique_ptr<TimeSeries<T>> s(new TimeSeries<T>(win)); VF_CHECK(s->init() == 0, "init", "init() failed");
  if (r.chance(1, 4)) { feed(c, *s, hist, r.below(2 * win)); if (r.chance(1, 2)) { s->purge(); } else { uint32_t o = win; win = 1 + r.below(40); if (win == o) win++; VF_CHECK(s->windowSize(win) == 0, "window", "the window can't be changed"); } hist.clear(); }
  feed(c, *s, hist, r.chance(1, 5) ? r.below(win + 1) : r.chance(1, 3) ? win : win + r.below(2 * win + 1)); if (r.chance(2, 3)) { w.name = rname(r); s->name((char*)w.name.c_str()); } if (r.chance(1, 2)) { w.units = runits(r); s->units((SIUnit*)w.units.c_str()); }
  w.win = win; w.ttl = hist.size(); w.data = hist.size() >= win; c.op("series type %d window %u fed %zu name %zu units %zu", Ty<T>::tc, win, hist.size(), w.name.size(), w.units.size());
  for (int hop = 0; hop < 2; hop++) {
    std::string want = wire((int)TCode::TIMESERIES, series_map<T>(w, hist)); c.hash(want.data(), want.size()); StringBuilder out; bool kvp = r.chance(1, 3); std::unique_ptr<C3PValue> got, alien;
    if (!kvp) {
      std::string pre = r.chance(1, 3) ? "xy" : ""; if (pre.size()) out.concat(pre.c_str());
      if (r.chance(1, 2)) { int8_t ret = s->serialize(&out, TCode::CBOR); VF_CHECK(!w.data || ret == 0, "serialize", "serialize() of a full window gave %d", ret); } else { C3PValue v((TimeSeriesBase*)s.get()); int8_t ret = v.serialize(&out, TCode::CBOR); VF_CHECK(!w.data || ret == 0, "serialize", "a value's serialize() of a full window gave %d", ret); c.count("as_values"); }
      sb_expect(&out, pre + want, "encoding", "a series' encoding"); got = decode(c, want, true); c.count("alone");
    } else if (w.data) {
      uint64_t before = num(r), after = num(r); KeyValuePair* k = new KeyValuePair("before", before); { KeyValuePair* e = new KeyValuePair(TCode::TIMESERIES, "series"); VF_CHECK(e->set((TimeSeriesBase*)s.get()) == 0, "value", "a value can't be set to a series"); k->link(e); } k->append(after, "after"); VF_CHECK(k->serialize(&out, TCode::CBOR) == 0, "serialize", "a map with a series can't be serialized"); delete k;
      std::string m; head(m, 5, 3); m += encs("before") + enci(before) + encs("series") + want + encs("after") + enci(after); sb_expect(&out, m, "encoding", "a map with a series"); alien = decode(c, m, true); VF_CHECK(alien && alien->has_key(), "decode", "a map with a series wasn't read back as one"); KeyValuePair* kk = (KeyValuePair*)alien.get(); VF_CHECK(kk->valueWithKey("series") != nullptr, "decode", "the series' key is missing"); uint64_t a = ~before, b = ~after; VF_CHECK(kk->valueWithKey("before") && kk->valueWithKey("before")->get_as(&a) == 0 && a == before && kk->valueWithKey("after") && kk->valueWithKey("after")->get_as(&b) == 0 && b == after, "decode", "the series' neighbours are not as sent"); c.count("in_maps");
    } else break;
    C3PValue* v = got ? got.get() : ((KeyValuePair*)alien.get())->valueWithKey("series"); TimeSeries<T>* q = series_of<T>(v, "read back"); agree(q, w, hist, "read back"); c.feat(mix(mix(Ty<T>::tc, win < 6 ? win : win < 24 ? 6 : win < 256 ? 7 : 8), mix(hist.size() < win ? 0 : hist.size() == win ? 1 : 2, kvp * 4 + !w.name.empty() * 2 + !w.units.empty()))); c.count(w.data ? "read_back" : "read_back_partial"); c.nontrivial = true;
    if (w.data) {   // Both go on.
      std::vector<T> h2 = hist; unsigned n = r.below(2 * win + 1); for (unsigned i = 0; i < n; i++) { T x = draw<T>(r); s->feedSeries(x); VF_CHECK(q->feedSeries(x) >= 0, "feed", "the received series refused a sample"); h2.push_back(x); w.ttl++; c.count("fed_after"); if (r.chance(1, win > 50 ? 100 : 4)) agree(q, w, h2, "fed after being read back"); }
      agree(q, w, h2, "fed after being read back"); agree(s.get(), w, h2, "the sender"); StringBuilder o2; VF_CHECK(q->serialize(&o2, TCode::CBOR) == 0, "serialize", "the received series can't be sent on"); hist = h2; sb_expect(&o2, wire((int)TCode::TIMESERIES, series_map<T>(w, hist)), "encoding", "the received series sent on");
      C3PValue copy((TimeSeriesBase*)nullptr); TimeSeriesBase* t = nullptr; VF_CHECK(copy.set((TimeSeriesBase*)q) == 0 && copy.get_as(&t) == 0 && t == q, "value", "a value doesn't hold the series it was set to");
    } else break;
  }
}
static std::string junk(Rng& r) { switch (r.below(7)) { case 0: return encs(rname(r)); case 1: { std::string b = rnd_bytes(r, r.below(40), 0); return enc(2, b.size()) + b; } case 2: return enc(1, r.below(200)); case 3: return enci(0x100000000ull + (num(r) >> 1)); case 4: { std::string o; o += (char)0xFA; be(o, r.u32(), 4); return o; } case 5: { std::string o; o += (char)0xFB; be(o, r.u64(), 8); return o; } default: { std::string b = rnd_bytes(r, 12, 0); return enc(6, 0xE900 | (int)TCode::VECT_3_FLOAT) + enc(6, 85) + enc(2, 12) + b; } } }
static std::string notext(Rng& r) { for (;;) { std::string j = junk(r); if (((uint8_t)j[0] >> 5) != 3) return j; } }
template <class T> static void shuffle(Rng& r, T& m) { for (size_t i = m.size(); i > 1; i--) std::swap(m[i - 1], m[r.below((uint32_t)i)]); }
static std::string widen(Rng& r, uint64_t n) { std::string o; int w[] = {0, 1, 2, 4, 8}; head(o, 0, n, w[r.below(5)]); return o; }
template <class T> static void peer(Ctx& c) {
  Rng& r = c.rng; Seen w; w.win = 1 + r.below(r.chance(1, 3) ? 3 : 30); w.ttl = r.below(4) ? w.win + r.below(100) : (r.chance(1, 4) ? 0xFFFFFF00u - r.below(1000) : w.win + (r.u32() >> r.below(32)) % 0xFFFFFF00u); std::vector<T> hist; for (uint32_t i = 0; i < w.win; i++) hist.push_back(draw<T>(r)); w.data = true; if (r.chance(1, 2)) w.name = rname(r); if (r.chance(1, 2)) w.units = runits(r);
  Map m = series_map<T>(w, hist, r.chance(1, 3) ? 1 << r.below(4) : 0); bool tc = true; unsigned broken = 0;
  for (size_t i = 0; i < m.size();) { std::string k = m[i].first; unsigned what = r.below(10); bool text = k == "n" || k == "u"; if (what < 2) { if (what == 0 && k != "dat") { m[i].second = text ? notext(r) : junk(r); i++; } else m.erase(m.begin() + i); broken++; if (k == "tc") tc = false; else if (k == "win") { w.win = 0; w.data = false; } else if (k == "ttl") { w.ttl = 0; w.data = false; } else if (k == "n") w.name = ""; else if (k == "u") w.units = ""; else w.data = false; c.count("unusable_values"); } else { if (!text && k != "dat" && r.chance(1, 3)) { It it; size_t p = 0; VF_CHECK(parse(m[i].second, p, it), "rig", "the rig's own item"); if (it.maj == 0) m[i].second = widen(r, it.n); } i++; } }
  if (tc && r.chance(1, 12)) { for (auto& p : m) if (p.first == "tc") { static const int bad[] = {0, (int)TCode::STR, (int)TCode::BOOLEAN, (int)TCode::VECT_3_FLOAT, (int)TCode::TIMESERIES, (int)TCode::KVP, 0xFF, 300, 65536 + (int)TCode::UINT8}; p.second = enci(bad[r.below(9)]); } tc = false; c.count("unusable_types"); }
  if (r.chance(1, 2)) { unsigned n = 1 + r.below(3); for (unsigned i = 0; i < n; i++) { std::string k = rnd_bytes(r, 1 + r.below(6), 2); m.push_back({k, junk(r)}); c.count("unknown_keys"); } } if (r.chance(2, 3)) { shuffle(r, m); c.count("reordered"); }
  if (m.empty()) return; std::string b = wire((int)TCode::TIMESERIES, m); c.op("a peer's series of type %d: %s", Ty<T>::tc, hex(b.data(), b.size() < 400 ? b.size() : 400).c_str()); c.hash(b.data(), b.size()); auto v = decode(c, b, tc);
  if (!tc) { TimeSeriesBase* t = nullptr; VF_CHECK(!v || v->get_as(&t) != 0 || !t, "type", "a series without a usable sample type was made anyway"); c.count("no_series"); c.nontrivial = true; return; }
  TimeSeries<T>* q = series_of<T>(v.get(), "a peer's"); agree(q, w, hist, "a peer's"); c.feat(mix(mix(Ty<T>::tc, 77), mix(broken, w.data + 2 * (w.win > 0) + 4 * (w.ttl > 0)))); c.count(broken ? "peer_partial" : "peer_whole"); c.nontrivial = true;
  if (w.data && r.chance(1, 2)) { StringBuilder o; VF_CHECK(q->serialize(&o, TCode::CBOR) == 0, "serialize", "a peer's series can't be sent on"); sb_expect(&o, wire((int)TCode::TIMESERIES, series_map<T>(w, hist)), "encoding", "a peer's series sent on"); c.count("sent_on"); }
  if (q->initialized()) { for (unsigned n = r.below(2 * w.win); n; n--) { T x = draw<T>(r); if (w.ttl == 0xFFFFFFFFu) break; VF_CHECK(q->feedSeries(x) >= 0, "feed", "a peer's series refused a sample"); hist.push_back(x); w.ttl++; if (w.data) agree(q, w, hist, "a peer's, fed"); else VF_CHECK(!q->windowFull() || eq(q->value(), x), "values", "the newest value isn't the one that was fed"); } } else VF_CHECK(q->feedSeries(draw<T>(r)) < 0, "feed", "a series without a window took a sample");
}
/* Damage: whatever comes of it must be usable. */
template <class T> static void use(Ctx& c, TimeSeriesBase* t) { TimeSeries<T>* q = (TimeSeries<T>*)t; uint32_t n = q->windowSize(); if (n) { std::vector<T> buf(n < 5000 ? n : 5000, T(0)); q->copyValues(buf.data(), buf.size(), c.rng.chance(1, 2)); q->value(); if (c.rng.chance(1, 2)) { q->minValue(); q->maxValue(); } VF_CHECK(q->feedSeries(T(1)) >= 0 && (!q->windowFull() || q->value() == T(1)), "feed", "a series refused a sample"); } else VF_CHECK(q->feedSeries(T(1)) < 0, "feed", "a series without a window took a sample"); }
static void use_any(Ctx& c, C3PValue* v) {
  for (; v; v = v->nextValue()) {
    if (v->tcode() == TCode::TIMESERIES) { TimeSeriesBase* t = nullptr; if (v->get_as(&t) == 0 && t) { c.count("damaged_series"); size_t l = strlen(t->name()) + strlen((char*)t->units()); c.count("damaged_names", l ? 1 : 0);
      switch (t->tcode()) { case TCode::UINT8: use<uint8_t>(c, t); break; case TCode::UINT16: use<uint16_t>(c, t); break; case TCode::UINT32: use<uint32_t>(c, t); break; case TCode::UINT64: use<uint64_t>(c, t); break; case TCode::INT8: use<int8_t>(c, t); break; case TCode::INT16: use<int16_t>(c, t); break; case TCode::INT32: use<int32_t>(c, t); break; case TCode::INT64: use<int64_t>(c, t); break; case TCode::FLOAT: use<float>(c, t); break; case TCode::DOUBLE: use<double>(c, t); break; default: VF_CHECK(false, "type", "a series of type %d", (int)t->tcode()); } StringBuilder o; if (t->windowSize() < 3000) t->serialize(&o, TCode::CBOR); } }
    else if (v->tcode() == TCode::STOPWATCH) { StopWatch* s = nullptr; if (v->get_as(&s) == 0 && s) { c.count("damaged_watches"); if (s->executions() != 0xFFFFFFFFu) { uint32_t n = s->executions(); s->addRuntime(5, 9); VF_CHECK(s->lastTime() == 4 && s->executions() == n + 1, "watch", "a watch's run wasn't counted"); } StringBuilder o; s->printDebug("x", &o); VF_CHECK(o.length() > 0, "watch", "a watch printed nothing"); } }
  }
}
static bool bigwin(const std::string& b) { for (size_t i = 0; i + 8 < b.size(); i++) if (!memcmp(b.data() + i, "\x63win", 4)) { std::string rest = b.substr(i + 4); It it; size_t p = 0; if (!parse(rest, p, it)) continue; if (it.maj == 4 || it.maj == 6) return true; if (it.maj == 0 && it.n > 100000 && it.n <= 0xFFFFFFFFull) return true; } return false; }
static void damage(Ctx& c, std::string b) {
  Rng& r = c.rng; unsigned n = 1 + r.below(4); for (unsigned i = 0; i < n && !b.empty(); i++) switch (r.below(6)) { case 0: b[r.below(b.size())] ^= (char)(1 << r.below(8)); break; case 1: b[r.below(b.size())] = (char)r.u32(); break; case 2: b.resize(r.below(b.size()) + 1); break; case 3: { size_t p = r.below(b.size()); b.insert(p, junk(r)); break; } case 4: { size_t p = r.below(b.size()); b.erase(p, 1 + r.below(4)); break; } default: { size_t p = r.below(b.size()), l = 1 + r.below(b.size() - p); b.insert(r.below(b.size()), b.substr(p, l)); } }
  if (b.empty() || bigwin(b)) return; c.op("damaged: %s", hex(b.data(), b.size() < 400 ? b.size() : 400).c_str()); c.hash(b.data(), b.size()); auto v = decode(c, b, false); c.count(v ? "damaged_read" : "damaged_refused"); c.feat(mix(5, v ? mix((int)v->tcode(), v->count() < 5 ? v->count() : 5) : 0)); use_any(c, v.get()); c.nontrivial = true;
}
struct Watch { uint32_t g = 0, e = 0, t = 0, a = 0, w = 0, b = 0xFFFFFFFFu, l = 0; };
static Map watch_map(const Watch& x) { Map m; if (x.g) m.push_back({"g", enci(x.g)}); m.push_back({"e", enci(x.e)}); m.push_back({"t", enci(x.t)}); m.push_back({"a", enci(x.a)}); m.push_back({"w", enci(x.w)}); m.push_back({"b", enci(x.b)}); m.push_back({"l", enci(x.l)}); return m; }
static void agree(StopWatch* s, const Watch& x, const char* what) { VF_CHECK(s->tag() == x.g && s->executions() == x.e && s->totalTime() == x.t && s->meanTime() == x.a && s->worstTime() == x.w && s->bestTime() == x.b && s->lastTime() == x.l, "watch", "%s: a watch holds %u %u %u %u %u %u %u, should be %u %u %u %u %u %u %u", what, s->tag(), s->executions(), s->totalTime(), s->meanTime(), s->worstTime(), s->bestTime(), s->lastTime(), x.g, x.e, x.t, x.a, x.w, x.b, x.l); }
static void run(StopWatch* s, Watch& x, Rng& r) { uint32_t from = r.u32(), len = r.chance(1, 2) ? r.below(5000) : (uint32_t)num(r); s->addRuntime(from, (uint32_t)(from + len)); x.e++; x.l = len; x.t += len; if (len < x.b) x.b = len; if (len > x.w) x.w = len; x.a = x.t / x.e; }
static StopWatch* watch_of(C3PValue* v, const char* what) { VF_CHECK(v && v->tcode() == TCode::STOPWATCH, "decode", "%s: a watch was read back as %s", what, v ? typecodeToStr(v->tcode()) : "nothing"); StopWatch* s = nullptr; VF_CHECK(v->get_as(&s) == 0 && s, "decode", "%s: the watch can't be taken from its value", what); return s; }
static void watches(Ctx& c) {
  Rng& r = c.rng; Watch x; x.g = r.chance(1, 3) ? 0 : (uint32_t)num(r); StopWatch s(x.g); for (unsigned n = r.below(8); n; n--) run(&s, x, r); std::string want = wire((int)TCode::STOPWATCH, watch_map(x)); c.op("watch %s", hex(want.data(), want.size()).c_str()); c.hash(want.data(), want.size());
  StringBuilder out; std::unique_ptr<C3PValue> got; C3PValue* v;
  if (r.chance(1, 2)) { C3PValue val(&s); VF_CHECK(val.serialize(&out, TCode::CBOR) == 0, "serialize", "a watch can't be serialized"); sb_expect(&out, want, "encoding", "a watch's encoding"); got = decode(c, want, true); v = got.get(); }
  else { std::unique_ptr<KeyValuePair> k(new KeyValuePair("w1", &s)); uint32_t z = r.u32(); k->append(z, "z"); VF_CHECK(k->serialize(&out, TCode::CBOR) == 0, "serialize", "a map with a watch can't be serialized"); std::string m; head(m, 5, 2); m += encs("w1") + want + encs("z") + enci(z); sb_expect(&out, m, "encoding", "a map with a watch"); got = decode(c, m, true); VF_CHECK(got && got->has_key(), "decode", "a map with a watch wasn't read back"); v = ((KeyValuePair*)got.get())->valueWithKey("w1"); uint32_t y = ~z; KeyValuePair* zk = ((KeyValuePair*)got.get())->valueWithKey("z"); VF_CHECK(zk && zk->get_as(&y) == 0 && y == z, "decode", "the watch's neighbour is not as sent"); }
  agree(&s, x, "the sender"); StopWatch* q = watch_of(v, "read back"); agree(q, x, "read back"); c.count("watches"); Watch y = x; for (unsigned n = r.below(4); n; n--) run(q, y, r); agree(q, y, "read back and run"); c.nontrivial = true;
}
static void watch_peer(Ctx& c) {
  Rng& r = c.rng; Watch x; x.g = (uint32_t)num(r); x.e = (uint32_t)num(r); x.t = (uint32_t)num(r); x.a = (uint32_t)num(r); x.w = (uint32_t)num(r); x.b = (uint32_t)num(r); x.l = (uint32_t)num(r); if (!x.g) x.g = 1; Map m = watch_map(x); uint32_t* f[] = {&x.g, &x.e, &x.t, &x.a, &x.w, &x.b, &x.l}; Watch def;  uint32_t d[] = {def.g, def.e, def.t, def.a, def.w, def.b, def.l}; std::vector<char> drop(m.size(), 0);
  for (size_t i = 0; i < m.size(); i++) { unsigned k = r.below(8); if (k < 2) { *f[i] = d[i]; if (k) m[i].second = junk(r); else drop[i] = 1; c.count("unusable_values"); } else if (k == 2) m[i].second = widen(r, *f[i]); }
  Map o; for (size_t i = 0; i < m.size(); i++) if (!drop[i]) o.push_back(m[i]); if (r.chance(1, 2)) { o.push_back({"zz" + rnd_bytes(r, r.below(5), 2), junk(r)}); c.count("unknown_keys"); } if (r.chance(2, 3)) { shuffle(r, o); c.count("reordered"); } if (o.empty()) return;
  std::string b = wire((int)TCode::STOPWATCH, o); c.op("a peer's watch: %s", hex(b.data(), b.size()).c_str()); c.hash(b.data(), b.size()); auto v = decode(c, b, true); agree(watch_of(v.get(), "a peer's"), x, "a peer's"); c.count("peer_watches"); c.nontrivial = true;
}
template <class T> static void one(Ctx& c) {
  Rng& r = c.rng; switch (r.below(10)) { case 0: case 1: case 2: trip<T>(c); break; case 3: case 4: case 5: peer<T>(c); break; case 6: watches(c); break; case 7: watch_peer(c); break;
    default: { Seen w; w.win = 1 + r.below(20); w.ttl = w.win + r.below(50); w.data = true; std::vector<T> h; for (uint32_t i = 0; i < w.win; i++) h.push_back(draw<T>(r)); w.name = rname(r); w.units = runits(r); Map m = series_map<T>(w, h); if (r.chance(1, 3)) shuffle(r, m); Watch x; x.g = 5; x.e = r.u32(); if (r.chance(1, 3)) m = watch_map(x); bool sw = m[0].second == enci(5) && m.size() == 7 && m[0].first == "g"; std::string b = wire((int)(sw ? TCode::STOPWATCH : TCode::TIMESERIES), m); for (int i = 0; i < 6; i++) damage(c, b); } }
}
void vf_case(Ctx& c) { switch (c.rng.below(10)) { case 0: one<uint8_t>(c); break; case 1: one<uint16_t>(c); break; case 2: one<uint32_t>(c); break; case 3: one<uint64_t>(c); break; case 4: one<int8_t>(c); break; case 5: one<int16_t>(c); break; case 6: one<int32_t>(c); break; case 7: one<int64_t>(c); break; case 8: one<float>(c); break; default: one<double>(c); } }
