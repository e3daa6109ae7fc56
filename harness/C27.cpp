/* C27: SensorFilter<T> and SensorFilter3<float> against a list of every sample they were fed. */
#include "cborref.h"
#include "TimeSeries/SensorFilter.h"
#include <type_traits>
#include <cmath>
#include <algorithm>
#include <limits>
#include <map>
const char* VF_PROPERTY = "C27";
const char* VF_RULE = "A case is a filter of one of eight scalar types, or of three-axis vectors, over its own or the caller's memory, and up to 120 operations: feeding values one by one or in bulk, reading its output or any statistic at any time, purging, changing depth or strategy, renaming, printing and serializing. Distinct by type, depth, strategy and operations.";
using namespace vf;
void vf_setup() {}
typedef FilteringStrategy FS;

template <class T> T rnd_val(Rng& r, int mode) {
  if constexpr (std::is_floating_point<T>::value) {
    switch (mode) { case 0: return (T)(r.range(-1000, 1000) / 8.0); case 1: return (T)ldexp((double)(r.u64() >> 11) / 9007199254740992.0 - 0.5, (int)r.range(-20, 20)); case 2: return (T)(1e6 + (double)r.below(5)); default: { static const double K[] = {0.0, 1.0, -1.0, 1e17, -1e17, 1e-17}; return (T)K[r.below(6)]; } }
  }
  else {
    switch (mode) { case 0: return (T)r.below(100); case 1: return (T)r.u64(); case 2: return (T)(r.range(-3, 3)); default: { T k[] = {std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), (T)(std::numeric_limits<T>::max() - 1), (T)(std::numeric_limits<T>::min() + 1), (T)0}; return k[r.below(5)]; } }
  }
}
static bool close(double got, double want, double tol) { return got == want || fabs(got - want) <= tol; }
static double median_of(std::vector<double> v, bool integral) { std::sort(v.begin(), v.end()); size_t n = v.size(); if (n & 1) return v[n / 2]; double m = (v[n / 2 - 1] + v[n / 2]) / 2; return integral ? trunc(m) : m; }

struct Axis {                       // One axis of a window.
  std::vector<double> mem;
  double scale() const { double s = 0; for (double v : mem) s = std::max(s, fabs(v)); return s; }
  double mean() const { long double s = 0; for (double v : mem) s += v; return (double)(s / mem.size()); }
  double rms() const { long double s = 0; for (double v : mem) s += (long double)v * v; return (double)sqrtl(s / mem.size()); }
  double stdev() const { long double s = 0, m = 0; for (double v : mem) m += v; m /= mem.size(); for (double v : mem) s += (v - m) * (v - m); return (double)sqrtl(s / mem.size()); }
};
static FS rnd_strat(Rng& r) { switch (r.below(8)) { case 0: case 1: return FS::RAW; case 2: case 3: return FS::MOVING_AVG; case 4: case 5: return FS::MOVING_MED; default: return (FS)(3 + r.below(3)); } }

/* What both kinds of filter share: counts, depth, names and the dirty mark. */
struct Common {
  uint32_t depth, want_depth, idx = 0, total = 0; bool full = false; int dirty = 0;      // dirty: 0, 1, or 2 if not claimed.
  FS strat; std::string name, units;
  void restart() { idx = total = 0; full = false; if (dirty) dirty = 2; }
};
static void agree(SensorFilterBase& f, Common& m) {
  VF_CHECK(f.initialized() == (m.depth > 0) && f.windowSize() == m.depth, "depth", "the depth is %u, should be %u", f.windowSize(), m.depth);
  VF_CHECK(f.totalSamples() == m.total && (f.windowFull() != 0) == m.full, "total", "%u samples (%sfull), should be %u (%sfull)", f.totalSamples(), f.windowFull() ? "" : "not ", m.total, m.full ? "" : "not ");
  VF_CHECK(m.depth == 0 || f.lastIndex() == m.idx, "index", "the next index is %u, should be %u", f.lastIndex(), m.idx);
  VF_CHECK(f.strategy() == m.strat, "strategy", "the strategy is %d, should be %d", (int)f.strategy(), (int)m.strat);
  if (m.dirty != 2) VF_CHECK(f.dirty() == (m.dirty == 1), "dirty", "dirty() is %d", f.dirty());
  VF_CHECK(m.name == f.name(), "name", "the name changed"); VF_CHECK(m.units.empty() ? f.units() == nullptr : (f.units() && m.units == (const char*)f.units()), "units", "the units changed");
}
static void rename(Ctx& c, SensorFilterBase& f, Common& m) {
  Rng& r = c.rng; std::string n = r.chance(1, 5) ? std::string() : rnd_bytes(r, r.below(r.chance(1, 25) ? 700 : 20), 1); bool null = r.chance(1, 8); std::vector<char> b(n.begin(), n.end()); b.push_back(0); c.op("rename %s", n.c_str()); int8_t ret;
  if (r.chance(1, 2)) { ret = f.name(null ? nullptr : b.data()); m.name = null ? "" : n; } else { ret = f.units(null ? nullptr : (SIUnit*)b.data()); m.units = null ? "" : n; }
  VF_CHECK(ret == (null ? -1 : n.empty() ? -2 : 0), "name", "naming gave %d", ret);
}
static const char* SN[] = {"RAW", "MOVING_AVG", "MOVING_MED", "HARMONIC_MEAN", "GEOMETRIC_MEAN", "QUANTIZER"};
/* The serialized form, read by an independent parser. vals: per sample, 1 or 3 values, oldest first. */
static void serial(Ctx& c, SensorFilterBase& f, Common& m, const std::vector<std::vector<double>>& vals, bool integral, bool dbl) {
  StringBuilder o; int8_t ret = f.serialize(&o, TCode::CBOR); c.op("cbor"); std::string in = sb_read(&o); VF_CHECK((ret == 0) == (m.depth > 0), "cbor", "serializing gave %d", ret); if (!m.depth) return;
  size_t p = 0; cb::It a, b; VF_CHECK(cb::parse(in, p, a) && a.maj == 3 && a.s == "SensorFilter" && cb::parse(in, p, b) && p == in.size() && b.maj == 5, "cbor-form", "not a string and a map: %s", hex(in.data(), in.size()).c_str());
  std::map<std::string, cb::It*> k; for (size_t i = 0; i + 1 < b.kids.size(); i += 2) k[b.kids[i].s] = &b.kids[i + 1];
  VF_CHECK(k.count("win_sz") && k["win_sz"]->maj == 0 && k["win_sz"]->n == m.depth && k.count("total") && k["total"]->n == m.total && k.count("strat") && k["strat"]->s == SN[(int)m.strat] && (m.name.empty() ? !k.count("name") : k.count("name") && k["name"]->s == m.name), "cbor-meta", "the serialized description is wrong");
  VF_CHECK(k.count("dat") && k["dat"]->maj == 4 && k["dat"]->kids.size() == m.depth, "cbor-data", "no %u values in the serialized form", m.depth);
  auto num = [&](const cb::It& x) -> double { if (integral) { VF_CHECK(x.maj < 2, "cbor-data", "no integer"); return x.maj ? -1.0 - (double)x.n : (double)x.n; } VF_CHECK(x.maj == 7 && x.w == (dbl ? 8 : 4), "cbor-data", "no real"); if (dbl) { double d; memcpy(&d, &x.n, 8); return d; } uint32_t u = (uint32_t)x.n; float g; memcpy(&g, &u, 4); return g; };
  for (uint32_t i = 0; i < m.depth; i++) { const cb::It& x = k["dat"]->kids[i]; if (vals[i].size() == 1) VF_CHECK(num(x) == vals[i][0], "cbor-data", "serialized value %u is %g, should be %g", i, num(x), vals[i][0]); else { VF_CHECK(x.maj == 4 && x.kids.size() == 3, "cbor-data", "no vector"); for (int j = 0; j < 3; j++) VF_CHECK(num(x.kids[j]) == vals[i][j], "cbor-data", "axis %d of serialized value %u differs", j, i); } }
  c.count("serialized");
}

template <class T> void run(Ctx& c) {
  Rng& r = c.rng; const bool integral = !std::is_floating_point<T>::value;
  Common m; m.want_depth = 1 + (r.chance(1, 40) ? 250 + r.below(500) : r.chance(1, 8) ? r.below(200) : r.below(9)); if (m.want_depth > 256) c.count("deep_windows"); const bool own = r.chance(3, 4); if (own && r.chance(1, 15)) m.want_depth = 0; m.depth = 0; m.strat = rnd_strat(r);
  T* ext = own ? nullptr : (T*)calloc(m.want_depth, sizeof(T)); SensorFilter<T>* f = own ? new SensorFilter<T>(m.want_depth, m.strat) : new SensorFilter<T>(ext, (int)m.want_depth, m.strat);
  c.op("scalar %zu%s depth %u %s %s", sizeof(T), integral ? (std::numeric_limits<T>::is_signed ? "i" : "u") : "f", m.want_depth, own ? "own" : "ext", SN[(int)m.strat]); agree(*f, m);
  VF_CHECK(f->feedFilter((T)1) == -1 && f->feedFilter() == -1, "fresh", "a filter without memory took a sample"); VF_CHECK(f->minValue() == 0 && f->maxValue() == 0 && f->mean() == 0 && f->rms() == 0 && f->stdev() == 0 && f->median() == 0 && f->value() == 0, "fresh", "a new filter has values");
  int8_t ret = f->init(); VF_CHECK(ret == (m.want_depth ? 0 : -1), "init", "init() gave %d", ret); m.depth = m.want_depth;
  Axis x; x.mem.assign(m.depth, 0); double last = 0; double slack = 0; bool known = true;    // known: the model knows what value() gives.
  auto stat = [&](unsigned w) {
    if (!m.full) { c.count("stats_without"); double g = w == 0 ? (double)f->minValue() : w == 1 ? (double)f->maxValue() : w == 2 ? f->mean() : w == 3 ? f->rms() : w == 4 ? f->stdev() : 0; VF_CHECK(g == 0, "stat-early", "statistic %u is %g before the window is full", w, g); if (w == 5) f->median(); return; }
    c.count("stats"); c.nontrivial = true; double sc = x.scale(), t = sc * 1e-12 * (2 + m.depth), mn = *std::min_element(x.mem.begin(), x.mem.end()), mx = *std::max_element(x.mem.begin(), x.mem.end());
    switch (w) {
      case 0: { double g = (double)f->minValue(); VF_CHECK(g == mn, "min", "minValue() is %g, should be %g", g, mn); break; }
      case 1: { double g = (double)f->maxValue(); VF_CHECK(g == mx, "max", "maxValue() is %g, should be %g", g, mx); break; }
      case 2: { double g = f->mean(); VF_CHECK(close(g, x.mean(), t), "mean", "mean() is %.17g, should be %.17g", g, x.mean()); break; }
      case 3: { double g = f->rms(); VF_CHECK(close(g, x.rms(), t) || (m.depth == 1 && g == 0), "rms", "rms() is %.17g, should be %.17g", g, x.rms()); break; }
      case 4: { double g = f->stdev(); VF_CHECK(close(g, x.stdev(), t * 10), "stdev", "stdev() is %.17g, should be %.17g", g, x.stdev()); break; }
      case 5: { double g = (double)f->median(), q = median_of(x.mem, integral); VF_CHECK(close(g, q, integral ? 0 : fabs(q) * 1e-6 + (sizeof(T) == 4 ? 1e-30 : 0)), "median", "median() is %g, should be %g", g, q); break; }
      default: { double g = f->snr(), s = f->stdev(), a = f->mean(); if (s != 0) VF_CHECK(close(g, a / s, fabs(a / s) * 1e-12), "snr", "snr() is %g, should be %g", g, a / s); break; }
    }
  };
  unsigned ops = 5 + r.below(115); int mode = (int)r.below(4);
  for (unsigned k = 0; k < ops; k++) {
    if (r.chance(1, 12)) mode = (int)r.below(4);
    switch (r.below(19)) {
      case 0: case 1: case 2: case 3: case 4: case 5: case 6: { unsigned n = r.chance(1, 5) ? r.below(m.depth * 2 + 2) : 1 + r.below(3); c.op("feed %u", n);
        for (unsigned i = 0; i < n; i++) { T v = rnd_val<T>(r, mode); c.hash(&v, sizeof v); ret = f->feedFilter(v); if (!m.depth) { VF_CHECK(ret == -1, "feed", "a filter without depth took a sample"); continue; }
          x.mem[m.idx] = (double)v; m.idx = (m.idx + 1) % m.depth; m.total++; if (m.idx == 0) m.full = true; VF_CHECK(ret == (m.full ? 1 : 0), "feed", "feeding sample %u of %u gave %d", m.total, m.depth, ret); if (m.full) m.dirty = 1;
          switch (m.strat) {
            case FS::RAW: last = (double)v; slack = 0; known = true; break;
            case FS::MOVING_AVG: if (known) { double q = (last * (m.depth - 1) + (double)v) / m.depth; slack = integral ? (m.depth == 1 ? 0 : slack + 1) : slack + 1e-6 * (sizeof(T) == 4 ? 1 : 1e-9) * (fabs(last) * m.depth + fabs((double)v)); last = integral ? trunc(q) : (double)(T)q; } break;
            case FS::MOVING_MED: if (m.full) { last = median_of(x.mem, integral); slack = integral ? 0 : 1e-6 * fabs(last) + (sizeof(T) == 4 ? 1e-30 : 0); known = true; } else known = false; break;
            default: known = false; break;
          }
          if (r.chance(1, 2) || m.strat == FS::MOVING_AVG) { T g = f->value(); m.dirty = 0; VF_CHECK(!f->dirty(), "dirty", "a filter that was read is dirty"); if (known) { VF_CHECK(close((double)g, last, slack), "value", "the output is %g, should be %g (%s, depth %u, sample %g)", (double)g, last, SN[(int)m.strat], m.depth, (double)v); c.count(m.strat == FS::RAW ? "outputs_raw" : m.strat == FS::MOVING_AVG ? "outputs_average" : "outputs_median"); } if (m.strat == FS::MOVING_AVG) { last = (double)g; slack = 0; known = true; } }
        } break; }
      case 7: case 8: case 9: case 10: { unsigned w = r.below(7); c.op("stat %u", w); stat(w); break; }
      case 11: { c.op("value"); T g = f->value(); m.dirty = 0; if (known) VF_CHECK(close((double)g, last, slack), "value", "the output is %g, should be %g (%s)", (double)g, last, SN[(int)m.strat]); break; }
      case 12: { if (!m.depth) break; c.op("bulk"); for (uint32_t i = 0; i < m.depth; i++) { T v = rnd_val<T>(r, mode); f->memPtr()[i] = v; x.mem[i] = (double)v; } ret = f->feedFilter(); VF_CHECK(ret == 0, "bulk", "a bulk update gave %d", ret); m.total += m.depth; m.full = true; if (f->lastIndex() == 0) m.idx = 0; if (m.dirty == 0) m.dirty = 2; c.count("bulk_updates"); break; }
      case 13: { c.op("purge"); ret = f->purge(); VF_CHECK(ret == (m.depth ? 0 : -1), "purge", "purge() gave %d", ret); m.restart(); std::fill(x.mem.begin(), x.mem.end(), 0); last = 0; slack = 0; known = true; c.count("purges"); break; }
      case 14: { uint32_t n = r.chance(1, 6) ? m.depth : r.chance(1, 8) ? 0 : 1 + r.below(r.chance(1, 30) ? 500 : r.chance(1, 8) ? 100 : 9); bool huge = sizeof(size_t) == 4 && sizeof(T) > 1 && own && r.chance(1, 8); if (huge) n = (uint32_t)((1ull << 32) / sizeof(T)) + r.below(4); c.op("depth %u", n); ret = f->windowSize(n);
        if (huge) { VF_CHECK(ret < 0, "depth-huge", "a depth of %u was taken", n); m.depth = 0; } else if (n == m.depth) { VF_CHECK(ret == (n ? 0 : ret), "depth-same", "the same depth gave %d", ret); } else if (own) { VF_CHECK(ret == 0, "depth-change", "a depth of %u gave %d", n, ret); m.depth = n; c.count("depth_changes"); } else { VF_CHECK(ret < 0 && f->memPtr() == ext, "depth-external", "external memory was resized"); c.count("depth_refused"); break; }
        m.restart(); x.mem.assign(m.depth, 0); last = 0; slack = 0; known = true; break; }
      case 15: { FS s = rnd_strat(r); c.op("strategy %s", SN[(int)s]); ret = f->setStrategy(s); VF_CHECK(ret == (s == m.strat ? -1 : 0), "set-strategy", "setStrategy() gave %d", ret); if (s != m.strat) { last = 0; slack = 0; known = true; m.strat = s; c.count("strategy_changes"); } break; }
      case 16: rename(c, *f, m); break;
      case 17: { std::vector<std::vector<double>> vals; for (uint32_t i = 0; i < m.depth; i++) vals.push_back({x.mem[(m.idx + i) % m.depth]}); serial(c, *f, m, vals, integral, sizeof(T) == 8); break; }
      case 18: { c.op("print"); StringBuilder o; f->printFilter(&o); std::string p = sb_read(&o); VF_CHECK(p.find(getFilterStr(m.strat)) != std::string::npos, "print", "printing doesn't name the strategy"); break; }
    }
    agree(*f, m); VF_CHECK(f->memUsed() == m.depth * sizeof(T), "mem-used", "memUsed() is %u", f->memUsed());
    if (r.chance(1, 3)) for (uint32_t i = 0; i < m.depth; i++) VF_CHECK((double)f->memPtr()[i] == x.mem[i], "samples", "sample %u differs", i);
  }
  for (unsigned w = 0; w < 7; w++) stat(w);
  c.feat(mix(mix(sizeof(T), integral), mix(m.full, mix((int)m.strat, m.depth % 16)))); delete f; if (ext) free(ext);
}

static void run3(Ctx& c) {
  Rng& r = c.rng; Common m; m.want_depth = 1 + (r.chance(1, 40) ? 250 + r.below(300) : r.chance(1, 8) ? r.below(100) : r.below(9)); if (r.chance(1, 15)) m.want_depth = 0; m.depth = 0; m.strat = rnd_strat(r);
  SensorFilter3<float>* f = new SensorFilter3<float>(m.want_depth, m.strat); c.op("vector depth %u %s", m.want_depth, SN[(int)m.strat]); agree(*f, m); VF_CHECK(f->feedFilter(1, 2, 3) == -1 && f->feedFilter() == -1, "fresh", "a filter without memory took a sample");
  int8_t ret = f->init(); VF_CHECK(ret == (m.want_depth ? 0 : -1), "init", "init() gave %d", ret); m.depth = m.want_depth; Axis x[3]; for (auto& a : x) a.mem.assign(m.depth, 0); double last[3] = {0, 0, 0}, slack[3] = {0, 0, 0}; bool known = true;
  auto G = [](Vector3f* v, int i) { return (double)(i == 0 ? v->x : i == 1 ? v->y : v->z); }; auto GD = [](Vector3f64* v, int i) { return i == 0 ? v->x : i == 1 ? v->y : v->z; };
  auto reset = [&]() { m.restart(); for (auto& a : x) a.mem.assign(m.depth, 0); for (int i = 0; i < 3; i++) last[i] = slack[i] = 0; known = true; };
  auto stat = [&](unsigned w) {
    if (!m.full) { c.count("stats_without"); if (w < 3) for (int i = 0; i < 3; i++) { double g = w == 0 ? G(f->minValue(), i) : w == 1 ? G(f->maxValue(), i) : GD(f->mean(), i); VF_CHECK(g == 0, "stat-early", "statistic %u is %g before the window is full", w, g); } else if (w == 3) f->rms(); else f->stdev(); return; }
    c.count("stats"); c.nontrivial = true;
    if (w < 2) { Vector3f* v = w ? f->maxValue() : f->minValue(); double best = -1, got = sqrt(G(v, 0) * G(v, 0) + G(v, 1) * G(v, 1) + G(v, 2) * G(v, 2)); bool member = false; for (uint32_t i = 0; i < m.depth; i++) { double l = sqrt(x[0].mem[i] * x[0].mem[i] + x[1].mem[i] * x[1].mem[i] + x[2].mem[i] * x[2].mem[i]); if (best < 0 || (w ? l > best : l < best)) best = l; member |= x[0].mem[i] == G(v, 0) && x[1].mem[i] == G(v, 1) && x[2].mem[i] == G(v, 2); } VF_CHECK(member && close(got, best, best * 1e-5), w ? "max3" : "min3", "the %s vector has a length of %g, should be %g (%s)", w ? "longest" : "shortest", got, best, member ? "fed" : "never fed"); c.count("extreme_vectors"); return; }
    for (int i = 0; i < 3; i++) { double t = x[i].scale() * 1e-11 * (2 + m.depth), g, q; if (w == 2) { g = GD(f->mean(), i); q = x[i].mean(); } else if (w == 3) { g = GD(f->rms(), i); q = x[i].rms(); } else { g = GD(f->stdev(), i); q = x[i].stdev(); } VF_CHECK(close(g, q, t) || (w == 3 && m.depth == 1 && g == 0), w == 2 ? "mean3" : w == 3 ? "rms3" : "stdev3", "axis %d of statistic %u is %.17g, should be %.17g", i, w, g, q); }
  };
  unsigned ops = 5 + r.below(100); int mode = (int)r.below(3);
  for (unsigned k = 0; k < ops; k++) {
    if (r.chance(1, 12)) mode = (int)r.below(3);
    switch (r.below(18)) {
      case 0: case 1: case 2: case 3: case 4: case 5: case 6: { unsigned n = r.chance(1, 5) ? r.below(m.depth * 2 + 2) : 1 + r.below(3); c.op("feed %u", n);
        for (unsigned i = 0; i < n; i++) { float v[3]; for (int j = 0; j < 3; j++) v[j] = rnd_val<float>(r, mode); c.hash(v, sizeof v); Vector3f vv(v[0], v[1], v[2]); ret = r.chance(1, 2) ? f->feedFilter(&vv) : f->feedFilter(v[0], v[1], v[2]); if (!m.depth) { VF_CHECK(ret == -1, "feed", "a filter without depth took a sample"); continue; }
          for (int j = 0; j < 3; j++) x[j].mem[m.idx] = v[j]; m.idx = (m.idx + 1) % m.depth; m.total++; if (m.idx == 0) m.full = true; VF_CHECK(ret == (m.full ? 1 : 0), "feed", "feeding sample %u of %u gave %d", m.total, m.depth, ret); if (m.full) m.dirty = 1;
          for (int j = 0; j < 3; j++) switch (m.strat) {
            case FS::RAW: last[j] = v[j]; slack[j] = 0; known = true; break;
            case FS::MOVING_AVG: if (known) { double q = (last[j] * (m.depth - 1) + v[j]) / m.depth; slack[j] += 1e-6 * (fabs(last[j]) * m.depth + fabs(v[j])); last[j] = (float)q; } break;
            case FS::MOVING_MED: if (m.full) { last[j] = median_of(x[j].mem, false); slack[j] = 1e-6 * fabs(last[j]) + 1e-30; known = true; } else if (m.depth) known = false; break;
            default: known = false;
          }
          if (r.chance(1, 2) || m.strat == FS::MOVING_AVG) { Vector3f* g = f->value(); m.dirty = 0; if (known) { for (int j = 0; j < 3; j++) VF_CHECK(close(G(g, j), last[j], slack[j]), "value3", "axis %d of the output is %g, should be %g (%s)", j, G(g, j), last[j], SN[(int)m.strat]); c.count("outputs_vector"); } if (m.strat == FS::MOVING_AVG) { known = true; for (int j = 0; j < 3; j++) { last[j] = G(g, j); slack[j] = 0; } } }
        } break; }
      case 7: case 8: case 9: case 10: { unsigned w = r.below(5); c.op("stat %u", w); stat(w); break; }
      case 11: { c.op("value"); Vector3f* g = f->value(); m.dirty = 0; if (known) for (int j = 0; j < 3; j++) VF_CHECK(close(G(g, j), last[j], slack[j]), "value3", "axis %d of the output is %g, should be %g", j, G(g, j), last[j]); break; }
      case 12: { if (!m.depth) break; c.op("bulk"); for (uint32_t i = 0; i < m.depth; i++) { float v[3]; for (int j = 0; j < 3; j++) { v[j] = rnd_val<float>(r, mode); x[j].mem[i] = v[j]; } f->memPtr()[i].set(v[0], v[1], v[2]); } ret = f->feedFilter(); VF_CHECK(ret == 0, "bulk", "a bulk update gave %d", ret); m.total += m.depth; m.full = true; if (f->lastIndex() == 0) m.idx = 0; if (m.dirty == 0) m.dirty = 2; c.count("bulk_updates"); break; }
      case 13: { c.op("purge"); ret = f->purge(); VF_CHECK(ret == (m.depth ? 0 : -1), "purge", "purge() gave %d", ret); reset(); break; }
      case 14: { uint32_t n = r.chance(1, 6) ? m.depth : r.chance(1, 8) ? 0 : 1 + r.below(9); bool huge = sizeof(size_t) == 4 && r.chance(1, 8); if (huge) n = (uint32_t)((1ull << 32) / sizeof(Vector3f)) + 1 + r.below(4); c.op("depth %u", n); ret = f->windowSize(n); if (huge) { VF_CHECK(ret < 0, "depth-huge", "a depth of %u was taken", n); m.depth = 0; } else { if (n != m.depth) VF_CHECK(ret == 0, "depth-change", "a depth of %u gave %d", n, ret); m.depth = n; } reset(); break; }
      case 15: { FS s = rnd_strat(r); c.op("strategy %s", SN[(int)s]); ret = f->setStrategy(s); VF_CHECK(ret == (s == m.strat ? -1 : 0), "set-strategy", "setStrategy() gave %d", ret); if (s != m.strat) { m.strat = s; known = true; for (int j = 0; j < 3; j++) last[j] = slack[j] = 0; } break; }
      case 16: rename(c, *f, m); break;
      case 17: { if (r.chance(1, 2)) { c.op("print"); StringBuilder o; f->printFilter(&o); VF_CHECK(sb_read(&o).find(getFilterStr(m.strat)) != std::string::npos, "print", "printing doesn't name the strategy"); } else { std::vector<std::vector<double>> vals; for (uint32_t i = 0; i < m.depth; i++) { uint32_t q = (m.idx + i) % m.depth; vals.push_back({x[0].mem[q], x[1].mem[q], x[2].mem[q]}); } serial(c, *f, m, vals, false, false); } break; }
    }
    agree(*f, m); VF_CHECK(f->memUsed() == m.depth * sizeof(Vector3f), "mem-used", "memUsed() is %u", f->memUsed());
    if (r.chance(1, 3)) for (uint32_t i = 0; i < m.depth; i++) for (int j = 0; j < 3; j++) VF_CHECK(G(&f->memPtr()[i], j) == x[j].mem[i], "samples", "sample %u differs", i);
  }
  for (unsigned w = 0; w < 5; w++) stat(w);
  c.feat(mix(333, mix(m.full, mix((int)m.strat, m.depth % 16)))); delete f;
}

void vf_case(Ctx& c) {
  switch (c.rng.below(11)) {
    case 0: run<int8_t>(c); break;   case 1: run<uint8_t>(c); break;  case 2: run<int16_t>(c); break; case 3: run<uint16_t>(c); break;
    case 4: run<int32_t>(c); break;  case 5: run<uint32_t>(c); break; case 6: run<float>(c); break;   case 7: run<double>(c); break;
    default: run3(c); break;
  }
}
