/* C26: TimeSeries<T> against a list of every sample it was fed, over all ten sample types. */
#include "sbmodel.h"
#include "TimeSeries/TimeSeries.h"
#include "C3PValue/C3PValue.h"
#include <type_traits>
#include <cmath>
#include <algorithm>
const char* VF_PROPERTY = "C26";
const char* VF_RULE = "A case is a series of one of ten sample types over its own or the caller's memory, and up to 120 operations: feeding values one by one or in bulk, reading any statistic, value or range at any time, purging, changing the depth, renaming, printing, and a CBOR round trip. Distinct by type, depth and operations.";
using namespace vf;
void vf_setup() {}

template <class T> T rnd_val(Rng& r, int mode) {
  if constexpr (std::is_floating_point<T>::value) {
    switch (mode) {
      case 0:  return (T)(r.range(-1000, 1000) / 8.0);
      case 1:  { double m = (double)(r.u64() >> 11) / 9007199254740992.0 - 0.5; return (T)ldexp(m, (int)r.range(-60, 60)); }
      case 2:  return (T)((double)1e6 + (double)r.below(5));
      default: { static const double K[] = {0.0, 1.0, -1.0, 1e30, -1e30, 3e38, -3e38, 1e-30}; double k = K[r.below(8)]; return (T)k; }
    }
  }
  else {
    switch (mode) {
      case 0:  return (T)r.below(100);
      case 1:  return (T)r.u64();
      case 2:  return (T)(r.range(-3, 3));
      default: { T k[] = {std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), (T)(std::numeric_limits<T>::max() - 1), (T)(std::numeric_limits<T>::min() + 1), (T)0, (T)(std::numeric_limits<T>::max() / 2)}; return k[r.below(6)]; }
    }
  }
}

static bool close(double got, double want, double scale, double tol) {
  if (got == want || (std::isnan(got) && std::isnan(want))) return true;
  if (std::isinf(want) || std::isinf(scale)) return true;       // The sums overflow.
  return fabs(got - want) <= tol * scale;
}

template <class T> bool same(T a, T b) { return memcmp(&a, &b, sizeof(T)) == 0 || a == b; }
template <class T> T mid(T a, T b) {
  if constexpr (std::is_floating_point<T>::value) return (T)(((long double)a + (long double)b) / 2);
  else { bool na = a < 0, nb = b < 0; if (na != nb) return (T)((a + b) / 2); T h = (T)(a / 2 + b / 2), x = (T)(a % 2), y = (T)(b % 2); return (T)(h + (x + y) / 2); }
}

template <class T> struct Model {
  std::vector<T> mem; uint32_t idx = 0, total = 0, mark = 0;
  bool full() const { return mem.size() && total >= mem.size(); }
  void zero() { std::fill(mem.begin(), mem.end(), (T)0); idx = total = mark = 0; }
  std::vector<T> window() const { std::vector<T> w; for (size_t i = 0; i < mem.size(); i++) w.push_back(mem[(idx + i) % mem.size()]); return w; }   // Oldest first.
};

template <class T> void stats(Ctx& c, TimeSeries<T>& s, Model<T>& m, unsigned which) {
  typedef long double L;
  const bool full = m.full(); const size_t n = m.mem.size();
  L sum = 0, sq = 0, mxa = 0, dev = 0; T mn = 0, mx = 0;
  if (full) { mn = mx = m.mem[0]; for (T v : m.mem) { if (v < mn) mn = v; if (v > mx) mx = v; sum += (L)v; sq += (L)v * (L)v; if (fabsl((L)v) > mxa) mxa = fabsl((L)v); } }
  L mean = full ? sum / n : 0; if (full) for (T v : m.mem) dev += ((L)v - mean) * ((L)v - mean);
  auto D = [](T v) { return (double)v; };
  switch (which) {
    case 0: { T g = s.minValue(); VF_CHECK(same(g, full ? mn : (T)0), "min", "minValue() is %g, should be %g (%s)", D(g), D(mn), full ? "full" : "not full"); break; }
    case 1: { T g = s.maxValue(); VF_CHECK(same(g, full ? mx : (T)0), "max", "maxValue() is %g, should be %g (%s)", D(g), D(mx), full ? "full" : "not full"); break; }
    case 2: { double g = s.mean(); VF_CHECK(close(g, (double)mean, (double)mxa, 1e-12 * (1 + n)), "mean", "mean() is %.17g, should be %.17g", g, (double)mean); break; }
    case 3: { double g = s.rms(), w = full ? (double)sqrtl(sq / n) : 0; if (n > 1) VF_CHECK(close(g, w, (double)mxa, 1e-12 * (1 + n)), "rms", "rms() is %.17g, should be %.17g", g, w); else VF_CHECK(g == 0 || close(g, w, (double)mxa, 1e-12), "rms", "rms() of a window of %zu is %g", n, g); break; }
    case 4: { double g = s.stdev(), w = full ? (double)sqrtl(dev / n) : 0; VF_CHECK(close(g, w, (double)mxa, 1e-11 * (1 + n)), "stdev", "stdev() is %.17g, should be %.17g", g, w); break; }
    case 5: { T g = s.median(), w = 0; if (full) { std::vector<T> o = m.mem; std::sort(o.begin(), o.end()); w = (n & 1) ? o[n / 2] : mid(o[n / 2 - 1], o[n / 2]); }
      bool ok = same(g, w); if (std::is_floating_point<T>::value && !ok) ok = close((double)g, (double)w, fabs((double)w), 1e-6) || fabs((double)w) < 1e-300; if (n == 1 && same(g, (T)0)) ok = true;
      VF_CHECK(ok, "median", "median() is %g, should be %g (%s, %zu)", D(g), D(w), full ? "full" : "not full", n); if (full && !(n & 1) && !std::is_floating_point<T>::value) c.count("medians_between"); break; }
    default: { double g = s.snr(); if (!full || n < 2) { VF_CHECK(g == 0 || (full && n < 2), "snr", "snr() is %g without a window", g); break; }
      double sd = s.stdev(), me = s.mean(); if (sd != 0 && std::isfinite(sd * sd) && sd * sd > 1e-290 && std::isfinite(me * me)) { double w = (me / sd) * (me / sd); VF_CHECK(close(g, w, w, 1e-9), "snr", "snr() is %.17g, should be %.17g", g, w); c.count("snrs"); } break; }
  }
  c.count(full ? "stats_of_a_full_window" : "stats_without");
  if (full) c.nontrivial = true;
}

template <class T> void all_agree(Ctx& c, TimeSeries<T>& s, Model<T>& m) {
  VF_CHECK(s.initialized() == (m.mem.size() > 0) && s.windowSize() == m.mem.size(), "depth", "the depth is %u, should be %zu", s.windowSize(), m.mem.size());
  VF_CHECK(s.totalSamples() == m.total && s.windowFull() == m.full(), "total", "%u samples, should be %u", s.totalSamples(), m.total);
  if (m.mem.size()) VF_CHECK(s.lastIndex() == m.idx, "index", "the next index is %u, should be %u", s.lastIndex(), m.idx);
  VF_CHECK(s.dirty() == (m.total != m.mark), "dirty", "dirty() is %d with %u samples, and %u when last clean", s.dirty(), m.total, m.mark);
  VF_CHECK(s.memUsed() == m.mem.size() * sizeof(T), "mem-used", "memUsed() is %u", s.memUsed());
  for (size_t i = 0; i < m.mem.size(); i++) VF_CHECK(same(s.memPtr()[i], m.mem[i]), "samples", "sample memory differs at %zu", i);
}

template <class T> void run(Ctx& c, TCode tc) {
  Rng& r = c.rng;
  const bool own = r.chance(3, 4); uint32_t depth = 1 + (r.chance(1, 6) ? r.below(400) : r.below(12)); if (own && r.chance(1, 15)) depth = 0; const bool vast = r.chance(1, 400); if (vast) { depth = 500 + r.below(1500); c.count("vast_windows"); }
  T* ext = own ? nullptr : (T*)malloc(depth * sizeof(T)); if (ext) memset(ext, 0x55, depth * sizeof(T));
  TimeSeries<T>* s = own ? new TimeSeries<T>(depth) : new TimeSeries<T>(ext, depth);
  Model<T> m; std::string name, units;
  c.op("depth %u %s type %s", depth, own ? "own" : "external", typecodeToStr(tc));
  VF_CHECK(s->tcode() == tc, "tcode", "the type code is %u", (unsigned)s->tcode());
  VF_CHECK(!s->initialized() && s->windowSize() == 0 && s->totalSamples() == 0 && !s->windowFull() && !s->dirty() && s->memUsed() == 0, "fresh", "a new series isn't empty");
  VF_CHECK(s->feedSeries((T)1) == -1 && s->feedSeries() == -1, "fresh", "a series without memory took a sample"); for (unsigned k = 0; k < 7; k++) stats(c, *s, m, k); VF_CHECK(same(s->value(), (T)0), "fresh", "a new series has a value");
  int8_t ret = s->init(); VF_CHECK(ret == (depth ? 0 : -1), "init", "init() at a depth of %u gave %d", depth, ret); m.mem.assign(depth, (T)0); all_agree(c, *s, m);
  unsigned ops = vast ? 6 + r.below(14) : 5 + r.below(115); int mode = (int)r.below(4);
  if (depth && r.chance(1, 600)) { if (r.chance(1, 2)) { s->markClean(); m.mark = m.total; } const uint32_t n = 65536 * (1 + r.below(2)) - (r.chance(1, 4) ? 1 : 0); const T v = rnd_val<T>(r, mode); c.op("feed %u", n); for (uint32_t i = 0; i < n; i++) { s->feedSeries(v); m.mem[m.idx] = v; m.idx = (m.idx + 1) % m.mem.size(); m.total++; } c.count("vast_feeds"); all_agree(c, *s, m); }
  for (unsigned k = 0; k < ops; k++) {
    if (r.chance(1, 12)) mode = (int)r.below(4);
    switch (r.below(20)) {
      case 0: case 1: case 2: case 3: case 4: case 5: case 6: { unsigned n = r.chance(1, vast ? 2 : 5) ? r.below((uint32_t)m.mem.size() * 2 + 2) : 1 + r.below(3);
        for (unsigned i = 0; i < n; i++) { T v = rnd_val<T>(r, mode); if (std::is_same<T, double>::value && fabs((double)v) > 1e100) v = 0; c.hash(&v, sizeof v); ret = s->feedSeries(v); if (m.mem.empty()) { VF_CHECK(ret == -1, "feed", "a series without depth took a sample"); continue; } m.mem[m.idx] = v; m.idx = (m.idx + 1) % m.mem.size(); m.total++; VF_CHECK(ret == (m.full() ? 1 : 0), "feed", "feeding sample %u of %zu gave %d", m.total, m.mem.size(), ret); if (m.total > m.mem.size()) c.count("overwrites"); }
        c.op("feed %u", n); break; }
      case 7: case 8: case 9: case 10: { unsigned w = r.below(7); c.op("stat %u", w); stats(c, *s, m, w); if (r.chance(1, 2)) stats(c, *s, m, r.below(7)); break; }
      case 11: { c.op("value"); T v = s->value(), w = m.full() ? m.mem[(m.idx + m.mem.size() - 1) % m.mem.size()] : (T)0; VF_CHECK(same(v, w), "value", "value() is %g, should be %g", (double)v, (double)w); if (m.full()) m.mark = m.total; break; }
      case 12: { if (m.mem.empty()) break; c.op("bulk"); for (auto& v : m.mem) { v = rnd_val<T>(r, mode); if (std::is_same<T, double>::value && fabs((double)v) > 1e100) v = 1; } memcpy(s->memPtr(), m.mem.data(), m.mem.size() * sizeof(T)); ret = s->feedSeries(); m.total += m.mem.size(); VF_CHECK(ret == 1, "bulk", "a bulk update gave %d", ret); if (s->lastIndex() == 0) m.idx = 0; c.count("bulk_updates"); break; }
      case 13: case 14: { const uint32_t n = m.mem.size(), cnt = r.below(n + 3), off = r.chance(1, 2) ? 0 : r.chance(1, 8) ? 0 - 1 - r.below(n + 2) : r.below(n + 2); const bool abs = r.chance(1, 2); std::vector<T> out(cnt + 1, (T)77); c.op("copy %u at %u %s", cnt, off, abs ? "absolute" : "most recent");
        const uint32_t o = abs ? off : 0; ret = (o == 0 && r.chance(1, 2)) ? s->copyValues(out.data(), cnt, abs) : s->copyValueRange(out.data(), cnt, o, abs);
        int want = (cnt > n) ? -1 : (cnt == 0) ? -2 : (m.total < (uint64_t)cnt + o) ? -3 : 0; if (!want || want == -3) if ((uint64_t)cnt + o > 0xFFFFFFFFull) c.count("copies_wrapping"); VF_CHECK((ret == 0) == (want == 0) && ret <= 0, "copy-code", "copying %u from %u of %u (%u fed) gave %d", cnt, o, n, m.total, ret);
        if (!want) { m.mark = m.total; for (uint32_t i = 0; i < cnt; i++) { T w = abs ? m.mem[(o + i) % n] : m.mem[(m.idx + n - cnt + i) % n]; VF_CHECK(same(out[i], w), abs ? "copy-absolute" : "copy-recent", "copied sample %u of %u is %g, should be %g", i, cnt, (double)out[i], (double)w); } c.count(abs ? "copies_absolute" : "copies_recent"); }
        VF_CHECK(same(out[cnt], (T)77), "copy-past", "a copy wrote past its count"); break; }
      case 15: { uint32_t n = m.mem.size(); c.op("which"); for (uint32_t i = 0; i < n + 5; i++) { uint32_t g = s->indexIsWhichSample(i); if (m.total == 0 || i >= n || i >= m.total) { VF_CHECK(g == 0, "which-none", "memory index %u of %u is sample %u, with %u fed", i, n, g, m.total); continue; } uint32_t back = (m.idx + n - 1 - i) % n; uint32_t w = m.total - 1 - back; if (m.full()) VF_CHECK(g == w, "which", "memory index %u is sample %u, should be %u", i, g, w); else VF_CHECK(g == w || g == 0, "which", "memory index %u is sample %u, should be %u", i, g, w); } break; }
      case 16: { if (r.chance(1, 2)) { c.op("purge"); ret = s->purge(); VF_CHECK(ret == (m.mem.size() ? 0 : -1), "purge", "purge() gave %d", ret); m.zero(); c.count("purges"); for (unsigned i = 0; i < 7; i++) stats(c, *s, m, i); } else { c.op("markClean"); s->markClean(); m.mark = m.total; } break; }
      case 17: { if (r.chance(1, 2)) break; uint32_t n = r.chance(1, 6) ? (uint32_t)m.mem.size() : r.chance(1, 8) ? 0 : 1 + r.below(r.chance(1, 8) ? 300 : 12);
        if (sizeof(size_t) == 4 && r.chance(1, 8) && sizeof(T) > 1 && own) { n = (uint32_t)((1ull << 32) / sizeof(T)) + r.below(5); c.op("depth %u", n); ret = s->windowSize(n); VF_CHECK(ret < 0, "depth-huge", "a depth of %u samples was taken", n); m.mem.clear(); m.zero(); c.count("huge_depths"); break; }
        c.op("depth %u", n); ret = s->windowSize(n);
        if (n == m.mem.size()) { VF_CHECK(ret == (n ? 0 : -1) || (n == 0 && ret == 0), "depth-same", "the same depth %u gave %d", n, ret); m.zero(); }
        else if (own) { VF_CHECK(ret == 0, "depth-change", "a depth of %u gave %d", n, ret); m.mem.assign(n, (T)0); m.zero(); c.count("depth_changes"); } else { VF_CHECK(ret < 0 && s->memPtr() == ext, "depth-external", "external memory was resized (%d)", ret); c.count("depth_refused"); }
        if (m.total == 0 && m.mem.size()) for (unsigned i = 0; i < 7; i++) stats(c, *s, m, i); if (m.mem.empty()) m.idx = m.total = m.mark = 0; break; }
      case 18: { std::string n = r.chance(1, 5) ? std::string() : rnd_bytes(r, r.below(r.chance(1, 25) ? 700 : 20), 1); bool null = r.chance(1, 8); c.op("name %s", n.c_str()); std::vector<char> b(n.begin(), n.end()); b.push_back(0);
        if (r.chance(1, 2)) { ret = s->name(null ? nullptr : b.data()); name = null ? "" : n; VF_CHECK(ret == (null ? -1 : n.empty() ? -2 : 0), "name", "naming gave %d", ret); } else { ret = s->units(null ? nullptr : (SIUnit*)b.data()); units = null ? "" : n; VF_CHECK(ret == (null ? -1 : n.empty() ? -2 : 0), "units", "units gave %d", ret); } break; }
      case 19: {
        if (m.full() && r.chance(1, 2)) { c.op("cbor"); StringBuilder o; uint32_t was = m.mark; ret = s->serialize(&o, TCode::CBOR); VF_CHECK(ret == 0, "cbor", "serializing gave %d", ret); VF_CHECK(s->dirty() == (m.total != was), "cbor-dirty", "serializing marked the series");
          C3PValue* v = C3PValue::deserialize(&o, TCode::CBOR); VF_CHECK(v != nullptr, "cbor-parse", "the series didn't parse"); TimeSeriesBase* tb = nullptr; if (v) { ret = v->get_as(&tb); VF_CHECK(ret == 0 && tb && tb->tcode() == tc, "cbor-parse", "the parsed value is no such series (%d)", ret);
            TimeSeries<T>* t = (TimeSeries<T>*)tb; VF_CHECK(t->initialized() && t->windowSize() == m.mem.size() && t->totalSamples() == m.total && t->windowFull(), "cbor-shape", "parsed: depth %u of %zu, %u samples of %u", t->windowSize(), m.mem.size(), t->totalSamples(), m.total); VF_CHECK(name == t->name() && units == (const char*)t->units(), "cbor-names", "the name or units differ after parsing");
            std::vector<T> out(m.mem.size()), w = m.window(); ret = t->copyValues(out.data(), (uint32_t)out.size(), false); VF_CHECK(ret == 0, "cbor-copy", "copying from the parsed series gave %d", ret); for (size_t i = 0; i < w.size(); i++) VF_CHECK(same(out[i], w[i]), "cbor-samples", "parsed sample %zu is %g, should be %g", i, (double)out[i], (double)w[i]);
            Model<T> mm; mm.mem = w; mm.idx = 0; mm.total = m.total; stats(c, *t, mm, r.below(7)); VF_CHECK(same(t->value(), w.back()), "cbor-value", "the parsed series has another value"); delete v; } c.count("round_trips"); }
        else { c.op("print"); StringBuilder o; s->printSeries(&o); std::string p = sb_read(&o); VF_CHECK(p.find("[" + std::to_string(m.mem.size()) + "]") != std::string::npos, "print", "printing doesn't give the depth: %s", p.c_str()); }
        break; }
    }
    if (r.chance(1, 3) || k + 1 == ops) all_agree(c, *s, m);
    VF_CHECK(name == s->name() && units == (const char*)s->units(), "names", "the name or units changed");
  }
  for (unsigned k = 0; k < 7; k++) stats(c, *s, m, k);
  c.feat(mix((uint64_t)tc, mix(m.full(), mix(m.mem.size() % 16, m.idx == 0))));
  delete s; if (ext) free(ext);
}

void vf_case(Ctx& c) {
  switch (c.rng.below(10)) {
    case 0: run<int8_t>(c, TCode::INT8); break;      case 1: run<uint8_t>(c, TCode::UINT8); break;
    case 2: run<int16_t>(c, TCode::INT16); break;    case 3: run<uint16_t>(c, TCode::UINT16); break;
    case 4: run<int32_t>(c, TCode::INT32); break;    case 5: run<uint32_t>(c, TCode::UINT32); break;
    case 6: run<int64_t>(c, TCode::INT64); break;    case 7: run<uint64_t>(c, TCode::UINT64); break;
    case 8: run<float>(c, TCode::FLOAT); break;      default: run<double>(c, TCode::DOUBLE); break;
  }
}
