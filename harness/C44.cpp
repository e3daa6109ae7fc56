/* C44: three-axis pipelines against a model of their stages. */
#include "sbmodel.h"
#include "AbstractPlatform.h"
#include "Pipes/TripleAxisPipe/TripleAxisPipe.h"
#include "Pipes/TripleAxisPipe/TripleAxisCompass.h"
#include <math.h>
#include <memory>
const char* VF_PROPERTY = "C44";
const char* VF_RULE = "A case is a graph of up to 14 stages (forks, conventions, filters, orientation filters, compasses, termini with and without callbacks, and sinks that accept, defer or refuse), stages shared by more than one afferent, and a history of vectors of all senses with and without errors pushed to any stage, of connections, conventions and levels changed, of reads, resets, purges and printouts, while time passes. Distinct by the graph and the history.";
using namespace vf;
typedef SpatialSense SS;
typedef FilteringStrategy FS;
struct V { float x, y, z; };
static V v3(const Vector3f* p) { return {p->x, p->y, p->z}; }
static bool same(float a, float b) { return a == b || (a != a && b != b); }
static bool same(V a, V b) { return same(a.x, b.x) && same(a.y, b.y) && same(a.z, b.z); }
static bool finite(V a) { return isfinite(a.x) && isfinite(a.y) && isfinite(a.z); }
static double turn(double a, double b) { double d = fmod(fabs(a - b), 2 * M_PI); return d > M_PI ? 2 * M_PI - d : d; }
#define P3(a) (double)(a).x, (double)(a).y, (double)(a).z
static Ctx* CX;

struct Rec { SS s; V d; bool err; V e; };
/* Records what it is given, hands it on if there's a stage beyond it. */
struct Tap : TripleAxisPipe {
  std::vector<Rec> log; TripleAxisPipe* nxt = nullptr; int8_t code = 0;
  int8_t pushVector(const SS s, Vector3f* d, Vector3f* e = nullptr) override { log.push_back({s, v3(d), nullptr != e, e ? v3(e) : V{0, 0, 0}}); return nxt ? nxt->pushVector(s, d, e) : code; }
  void printPipe(StringBuilder* o, uint8_t st, uint8_t vb) override { if (nxt) nxt->printPipe(o, st, vb); else o->concat("3AxisPipe: Tap\n"); }
};

/* Callbacks, by slot. */
struct CbRec { SS s; Vector3f* dp; V d; bool err; V e; uint32_t seq; };
static std::vector<CbRec> CBLOG[6]; static int8_t CBRET[6]; static unsigned CBUSED;
template <int N> static int8_t cb(SS s, Vector3f* d, Vector3f* e, uint32_t q) { CBLOG[N].push_back({s, d, v3(d), nullptr != e, e ? v3(e) : V{0, 0, 0}, q}); return CBRET[N]; }
static const TripleAxisTerminalCB CBS[6] = {cb<0>, cb<1>, cb<2>, cb<3>, cb<4>, cb<5>};
static int take_cb() { return CBUSED < 6 ? (int)CBUSED++ : -1; }

struct Node {
  const char* kind = ""; TripleAxisPipe* real = nullptr; int id = 0;
  virtual ~Node() {}
  virtual int8_t push(SS s, V d, const V* e) = 0;
  virtual void check() {}
  virtual unsigned lines(unsigned) { return 1; }
};
struct Sink : Node {
  Tap tap; std::vector<Rec> want;
  Sink(int8_t code) { kind = "sink"; tap.code = code; real = &tap; }
  int8_t push(SS s, V d, const V* e) override { want.push_back({s, d, nullptr != e, e ? *e : V{0, 0, 0}}); return tap.code; }
  void check() override {
    VF_CHECK(tap.log.size() == want.size(), "delivery-count", "sink %d got %zu vectors, should get %zu", id, tap.log.size(), want.size());
    for (size_t i = 0; i < want.size(); i++) {
      Rec &g = tap.log[i], &w = want[i]; VF_CHECK(g.s == w.s, "sense", "sink %d got sense %u, should be %u", id, (unsigned)g.s, (unsigned)w.s);
      VF_CHECK(same(g.d, w.d), "delivery", "sink %d got (%g, %g, %g), should be (%g, %g, %g)", id, P3(g.d), P3(w.d));
      VF_CHECK(g.err == w.err && (!w.err || same(g.e, w.e)), "error-figure", "sink %d got error %d (%g, %g, %g), should be %d (%g, %g, %g)", id, g.err, P3(g.e), w.err, P3(w.e));
      CX->count("delivered"); if (w.err) CX->count("delivered_errors"); CX->nontrivial = true;
    }
    tap.log.clear(); want.clear();
  }
};
struct Fork : Node {
  TripleAxisFork* f; Node *l, *r;
  Fork(Node* a, Node* b, bool ctor) : l(a), r(b) { kind = "fork"; if (ctor) f = new TripleAxisFork(a ? a->real : nullptr, b ? b->real : nullptr); else { f = new TripleAxisFork(); f->setLeft(a ? a->real : nullptr); f->setRight(b ? b->real : nullptr); } real = f; }
  ~Fork() { delete f; }
  int8_t push(SS s, V d, const V* e) override { int8_t a = l ? l->push(s, d, e) : -1, b = r ? r->push(s, d, e) : -1; CX->count("forked"); return -2 + (a >= 0) + (b >= 0); }
  unsigned lines(unsigned vb) override { return 1 + (vb && l ? l->lines(vb) : 0) + (vb && r ? r->lines(vb) : 0); }
};
static const GnomonType GN[] = {GnomonType::UNDEFINED, GnomonType::RH_POS_X, GnomonType::RH_POS_Y, GnomonType::RH_POS_Z, GnomonType::RH_NEG_X, GnomonType::RH_NEG_Y, GnomonType::RH_NEG_Z, GnomonType::LH_POS_X, GnomonType::LH_POS_Y, GnomonType::LH_POS_Z, GnomonType::LH_NEG_X, GnomonType::LH_NEG_Y, GnomonType::LH_NEG_Z};
struct Conv : Node {
  TripleAxisConvention* f; Node* n; unsigned a, b;
  Conv(Node* x, unsigned ag, unsigned eg, bool dflt) : n(x), a(dflt ? 3 : ag), b(dflt ? 3 : eg) { kind = "convention"; if (dflt) { f = new TripleAxisConvention(); f->setNext(x ? x->real : nullptr); } else f = new TripleAxisConvention(x ? x->real : nullptr, GN[a], GN[b]); real = f; }
  ~Conv() { delete f; }
  V conv(V v) const {
    if (a == b || a == 0) return v;
    static const int AX[13] = {0, 0, 1, 2, 0, 1, 2, 0, 1, 2, 0, 1, 2}; static const bool NEG[13] = {0, 0, 0, 0, 1, 1, 1, 1, 1, 1, 0, 0, 0};
    float q[3] = {v.x, v.y, v.z}; int k = AX[a]; float s = NEG[a] ? -1.0f : 1.0f; return {s * q[k], q[(k + 1) % 3], q[(k + 2) % 3]};
  }
  int8_t push(SS s, V d, const V* e) override { if (!n) return -2; V ed{0, 0, 0}; if (e) ed = conv(*e); CX->count(a == b || a == 0 ? "conventions_alike" : "conventions_converted"); return n->push(s, conv(d), e ? &ed : nullptr); }
  void check() override { VF_CHECK(f->afferentGnomon() == GN[a] && f->efferentGnomon() == GN[b], "gnomon", "the conventions are %u and %u", (unsigned)f->afferentGnomon(), (unsigned)f->efferentGnomon()); }
  unsigned lines(unsigned vb) override { return 1 + (vb && n ? n->lines(vb) : 0); }
};
struct Term : Node {
  TripleAxisTerminus* f; SS s; int slot; V d{0, 0, 0}, e{0, 0, 0}; bool has = false, fresh = false; uint32_t n = 0, at = 0; std::vector<CbRec> want;
  Term(SS sense, int sl) : s(sense), slot(sl) { kind = "terminus"; f = sl < 0 ? new TripleAxisTerminus(sense) : new TripleAxisTerminus(sense, CBS[sl]); real = f; }
  ~Term() { delete f; }
  int8_t push(SS x, V dd, const V* ee) override {
    if (x != s) { CX->count("mismatched"); return -1; }
    d = dd; if (ee) { e = *ee; has = true; } n++; at = millis(); fresh = slot < 0 || CBRET[slot] != 0; if (slot >= 0) want.push_back({s, nullptr, d, has, e, n}); CX->count(slot < 0 ? "stored" : "called_back"); CX->nontrivial = true; return 0;
  }
  void check() override {
    VF_CHECK(same(v3(f->getData()), d), "terminus-data", "terminus %d holds (%g, %g, %g), should be (%g, %g, %g)", id, P3(*f->getData()), P3(d)); VF_CHECK(f->haveError() == has && (!has || same(v3(f->getError()), e)), "terminus-error", "terminus %d: error %d (%g, %g, %g), should be %d (%g, %g, %g)", id, f->haveError(), P3(*f->getError()), has, P3(e));
    VF_CHECK(f->updateCount() == n && f->lastUpdate() == at && f->dataFresh() == fresh && f->sense() == s, "terminus-state", "terminus %d: %u updates, last at %u, fresh %d, sense %u; should be %u, %u, %d, %u", id, f->updateCount(), f->lastUpdate(), f->dataFresh(), (unsigned)f->sense(), n, at, fresh, (unsigned)s);
    if (slot >= 0) { auto& l = CBLOG[slot]; VF_CHECK(l.size() == want.size(), "callback-count", "terminus %d called back %zu times, should %zu", id, l.size(), want.size()); for (size_t i = 0; i < l.size(); i++) { CbRec &g = l[i], &w = want[i]; VF_CHECK(g.s == w.s && g.dp == f->getData() && same(g.d, w.d) && g.err == w.err && (!w.err || same(g.e, w.e)) && g.seq == w.seq, "callback", "callback %zu of terminus %d: sense %u (%g, %g, %g), error %d, number %u; should be (%g, %g, %g), error %d, number %u", i, id, (unsigned)g.s, P3(g.d), g.err, g.seq, P3(w.d), w.err, w.seq); } l.clear(); want.clear(); }
  }
};
struct Filt : Node {
  TripleAxisSingleFilter* f; SensorFilter3<float> ref; SS s; Node* n; V e{0, 0, 0}; bool has = false, ready = false; int dirty = 0; FS st; unsigned ws;
  Filt(SS sense, Node* x, FS strat, unsigned w, bool late) : ref(w, strat), s(sense), n(x), st(strat), ws(w) { kind = "filter"; f = new TripleAxisSingleFilter(s, late || !x ? nullptr : x->real, strat, (int)w); if (late && x) f->setNext(x->real); real = f; }
  ~Filt() { delete f; }
  int8_t push(SS x, V d, const V* ee) override {
    if (!ready) { ref.init(); ready = true; } if (x != s) { CX->count(n ? "relayed" : "not_relayed"); return n ? n->push(x, d, ee) : (int8_t)-1; }
    Vector3f t(d.x, d.y, d.z); int8_t got = ref.feedFilter(&t); if (got < 0) broken("the reference filter refused"); if (got == 0) { CX->count("filter_filling"); return 0; }
    dirty = 1; if (ee) { has = true; if (st == FS::MOVING_AVG) { Vector3f q(ee->x, ee->y, ee->z); q /= (float)(ws * ws); e = v3(&q); } else e = *ee; }
    CX->count("filter_outputs"); if (n) { V o = v3(ref.value()); dirty = n->push(x, o, has ? &e : nullptr) < 0; if (dirty) CX->count("filter_refused"); } return 0;
  }
  void check() override { VF_CHECK(f->dataFresh() == (dirty != 0), "filter-fresh", "filter %d fresh: %d, should be %d", id, f->dataFresh(), dirty); VF_CHECK(f->haveError() == has && (!has || same(v3(f->getError()), e)), "filter-error", "filter %d: error %d (%g, %g, %g), should be %d (%g, %g, %g)", id, f->haveError(), P3(*f->getError()), has, P3(e)); }
  void read() { Vector3f d, q(7, 8, 9); int8_t ret = f->getDataWithErr(&d, &q); V w = v3(ref.value()); VF_CHECK(ret == (dirty ? 1 : 0) && same(v3(&d), w) && same(v3(&q), e), "filter-read", "filter %d: %d (%g, %g, %g), should be %d (%g, %g, %g)", id, ret, P3(d), dirty ? 1 : 0, P3(w)); dirty = 0; CX->count("filter_reads"); }
  unsigned lines(unsigned vb) override { return 1 + (vb && n ? n->lines(vb) : 0); }
};
struct Orient : Node {
  TripleAxisOrientation* f; Tap tap; Node* n; V up{0, 0, 0}, v{0, 0, 0}; bool level = false, dirty = false, had = false; size_t next = 0;
  Orient(Node* x, bool t) : n(x) { kind = "orientation"; tap.nxt = x ? x->real : nullptr; f = x ? new TripleAxisOrientation(&tap) : t ? new TripleAxisOrientation() : new TripleAxisOrientation(nullptr); real = f; }
  ~Orient() { delete f; }
  static bool angle(float a, float b, double* o) { if (!isfinite(a) || !isfinite(b) || hypot(a, b) < 1e-6 || hypot(a, b) > 1e12) return false; *o = atan2((double)a, (double)b); return true; }
  int8_t push(SS s, V d, const V* e) override {
    if (s == SS::MAG || s == SS::EULER_ANG) return 0; if (s != SS::ACC) return -1; if (level) { up = d; level = false; CX->count("levels"); }
    V o; if (n) { VF_CHECK(next < tap.log.size(), "orientation-lost", "orientation filter %d emitted nothing", id); Rec& g = tap.log[next++]; o = g.d; VF_CHECK(g.s == SS::EULER_ANG, "sense", "an orientation has sense %u", (unsigned)g.s); VF_CHECK(g.err == (nullptr != e) && (!e || same(g.e, *e)), "error-figure", "an orientation has error %d, should be %d", g.err, nullptr != e); judge(d, o); int8_t ret = n->push(SS::EULER_ANG, o, e); v = o; had = true; if (ret < 0) dirty = true; return ret; }
    pend.push_back({up, d}); dirty = true; had = true; return 0;
  }
  std::vector<std::pair<V, V>> pend;
  void judge(V d, V o) { if (!finite(d) || !finite(up)) return; double a, b; VF_CHECK(same(o.z, 0), "yaw", "yaw is %g", (double)o.z); const double T = 1e-5;
    if (angle(d.y, d.z, &a)) { bool z = up.y == 0 && up.z == 0; if (z ? (b = 0, true) : angle(up.y, up.z, &b)) { VF_CHECK(turn(o.x, a - b) < T || (z && turn(o.x, a - b + M_PI) < T), "roll", "roll is %g, should be %g (up (%g, %g, %g), now (%g, %g, %g))", (double)o.x, a - b, P3(up), P3(d)); CX->count("rolls"); } }
    if (angle(d.x, d.z, &a)) { bool z = up.x == 0 && up.z == 0; if (z ? (b = 0, true) : angle(up.x, up.z, &b)) { VF_CHECK(turn(o.y, a - b) < T || (z && turn(o.y, a - b + M_PI) < T), "pitch", "pitch is %g, should be %g (up (%g, %g, %g), now (%g, %g, %g))", (double)o.y, a - b, P3(up), P3(d)); CX->count("pitches"); } } }
  void check() override {
    if (n) { VF_CHECK(next == tap.log.size(), "orientation-extra", "orientation filter %d emitted %zu, should %zu", id, tap.log.size(), next); tap.log.clear(); next = 0; }
    else if (!pend.empty()) { V keep = up; up = pend.back().first; v = {f->roll(), f->pitch(), 0}; judge(pend.back().second, v); up = keep; pend.clear(); }
    VF_CHECK(f->dirty() == dirty, "orientation-fresh", "orientation filter %d fresh: %d, should be %d", id, f->dirty(), dirty); VF_CHECK(same(v3(f->getUp()), up), "up", "up is (%g, %g, %g), should be (%g, %g, %g)", P3(*f->getUp()), P3(up)); VF_CHECK(!had || (same(f->roll(), v.x) && same(f->pitch(), v.y)), "orientation-value", "roll %g pitch %g, should be %g %g", (double)f->roll(), (double)f->pitch(), (double)v.x, (double)v.y);
  }
  void read() { V g = v3(f->value()); VF_CHECK(!had || same(g, V{v.x, v.y, 0}), "orientation-value", "value() is (%g, %g, %g), should be (%g, %g, 0)", P3(g), (double)v.x, (double)v.y); dirty = false; VF_CHECK(!f->dirty(), "orientation-fresh", "it's fresh after it was read"); CX->count("orientation_reads"); }
};
struct Comp : Node {
  TripleAxisCompass* f; int slot; V g{0, 0, 0}, b{0, 0, 0}; bool tilt = false, ea = false, em = false, fresh = false; V merr{0, 0, 0}; float decl = 0; uint32_t n = 0; std::vector<std::pair<V, V>> todo; std::vector<V> errs; std::vector<bool> has; std::vector<float> dec;
  Comp(int sl) : slot(sl) { kind = "compass"; f = sl < 0 ? new TripleAxisCompass() : new TripleAxisCompass(CBS[sl]); real = f; }
  ~Comp() { delete f; }
  int8_t push(SS s, V d, const V* e) override {
    switch (s) {
      case SS::ACC: g = d; tilt = true; if (e) ea = true; return 0;
      case SS::MAG: b = d; if (e) { em = true; merr = *e; } n++; if (slot < 0 || CBRET[slot]) fresh = true; todo.push_back({tilt ? g : V{0, 0, 1}, b}); errs.push_back(merr); has.push_back(ea && em); dec.push_back(decl); return 0;
      case SS::EULER_ANG: return 0; default: return -1;
    }
  }
  /* The field's direction on the horizontal plane, from the unit's forward axis. */
  static bool bearing(V up, V fld, double* o) {
    double gx = up.x, gy = up.y, gz = up.z, l = sqrt(gx * gx + gy * gy + gz * gz), m = sqrt((double)fld.x * fld.x + (double)fld.y * fld.y + (double)fld.z * fld.z); if (!isfinite(l) || !isfinite(m) || m < 1e-12 || m > 1e15) return false; if (l < 1e-12 || l > 1e15) return false; gx /= l; gy /= l; gz /= l;
    double h = sqrt(gy * gy + gz * gz); if (h < 0.05) return false; double ex = h, ey = -gx * gy / h, ez = -gx * gz / h; double rx = 0, ry = gz / h, rz = -gy / h;   // Forward, and up x forward.
    double p = (fld.x * ex + fld.y * ey + fld.z * ez) / m, q = (fld.y * ry + fld.z * rz + fld.x * rx) / m; if (hypot(p, q) < 0.05) return false; *o = atan2(-q, p); return true;
  }
  void judge(V got, V up, V fld, float dc) { double want; if (!bearing(up, fld, &want)) return; VF_CHECK(turn(got.x, want) < 1e-4, "bearing", "the bearing is %g, should be %g (up (%g, %g, %g), field (%g, %g, %g))", (double)got.x, want, P3(up), P3(fld)); VF_CHECK(turn(got.z, (double)got.x + (double)dc) < 1e-4, "true-north", "true north is %g, magnetic %g, declination %g", (double)got.z, (double)got.x, (double)dc); VF_CHECK(got.z >= 0 && got.z <= 6.28319f, "true-north-range", "true north is %g", (double)got.z); CX->count("bearings"); if (up.x != 0 || up.y != 0) CX->count("tilted_bearings"); CX->nontrivial = true; }
  void check() override {
    if (slot >= 0) { auto& l = CBLOG[slot]; VF_CHECK(l.size() == todo.size(), "callback-count", "compass %d called back %zu times, should %zu", id, l.size(), todo.size()); for (size_t i = 0; i < l.size(); i++) { CbRec& q = l[i]; VF_CHECK(q.s == SS::BEARING && q.seq == n - (l.size() - 1 - i), "callback", "a compass called back with sense %u and number %u", (unsigned)q.s, q.seq); VF_CHECK(q.err == has[i] && (!q.err || same(q.e, errs[i])), "error-figure", "a bearing has error %d, should be %d", q.err, (int)has[i]); judge(q.d, todo[i].first, todo[i].second, dec[i]); } l.clear(); }
    float p = -1, d = -1, t = -1, w = -1; VF_CHECK(f->getBearing(HeadingType::MAGNETIC_NORTH, &p) == CompassErr::NONE && f->getBearing(HeadingType::MAGNETIC_DIP, &d) == CompassErr::NONE && f->getBearing(HeadingType::TRUE_NORTH, &t) == CompassErr::NONE && (int)f->getBearing(HeadingType::WAYPOINT, &w) < 0 && same(w, -1), "get-bearing", "getBearing() refused, or knows a waypoint");
    VF_CHECK(d == 0, "dip", "an unknown dip is %g", (double)d); if (!todo.empty()) judge({p, d, t}, todo.back().first, todo.back().second, dec.back()); else if (!n) VF_CHECK(p == 0 && t == 0, "get-bearing", "a new compass has bearings %g and %g", (double)p, (double)t); todo.clear(); errs.clear(); has.clear(); dec.clear();
    VF_CHECK(same(v3(f->getFieldVector()), b), "field", "the field is (%g, %g, %g), should be (%g, %g, %g)", P3(*f->getFieldVector()), P3(b)); if (fresh) VF_CHECK(f->dataReady(), "compass-fresh", "the compass isn't fresh"); else VF_CHECK(!f->dataReady(), "compass-fresh", "the compass is fresh without news");
  }
};
struct Flags : TripleAxisPipeWithFlags { Flags(uint32_t f) : TripleAxisPipeWithFlags(f) {} int8_t pushVector(const SS, Vector3f*, Vector3f* = nullptr) override { return 0; } void printPipe(StringBuilder*, uint8_t, uint8_t) override {} uint32_t raw() { return _flags.raw; } };

static SS rnd_sense(Rng& r) { static const SS L[] = {SS::UNITLESS, SS::ACC, SS::GYR, SS::MAG, SS::EULER_ANG, SS::BEARING}; return r.chance(1, 2) ? r.chance(2, 3) ? SS::ACC : SS::MAG : L[r.below(6)]; }
static V rnd_vec(Rng& r) {
  auto p = [&]() -> float { double m = (int32_t)r.u32() / (double)2147483648u; switch (r.below(12)) { case 0: return 0; case 1: return 1; case 2: return -1; case 3: return (float)ldexp(m, (int)r.below(30) - 15); case 4: return (float)(int)(r.below(21) - 10); default: return (float)(m * 50); } };
  if (r.chance(1, 40)) return {r.edgyFloat(), r.edgyFloat(), r.edgyFloat()}; if (r.chance(1, 10)) { float q[3] = {0, 0, 0}; q[r.below(3)] = (float)(r.chance(1, 2) ? 9.81 : -9.81); return {q[0], q[1], q[2]}; } return {p(), p(), p()};
}
void vf_setup() {}
void vf_case(Ctx& c) {
  Rng& r = c.rng; CX = &c; for (int i = 0; i < 6; i++) { CBLOG[i].clear(); CBRET[i] = (int8_t)(r.chance(1, 2) ? 0 : r.chance(1, 2) ? 1 : -1); } CBUSED = 0;
  std::vector<std::unique_ptr<Node>> N; unsigned want = 2 + r.below(13); uint64_t shape = 0;
  auto pick = [&](unsigned below) -> Node* { if (!below || r.chance(1, 25)) return nullptr; return N[r.chance(2, 3) && below > 3 ? below - 1 - r.below(3) : r.below(below)].get(); };
  for (unsigned i = 0; i < want; i++) {
    unsigned k = i < 2 ? (r.chance(1, 2) ? 0 : 1) : r.below(9); Node* x;
    switch (k) {
      case 0: x = new Sink((int8_t)(r.chance(1, 2) ? 0 : r.chance(1, 3) ? 1 : -1 - (int)r.below(2))); break;
      case 1: x = new Term(rnd_sense(r), r.chance(1, 2) ? take_cb() : -1); break;
      case 2: case 3: x = new Fork(pick(i), pick(i), r.chance(1, 2)); break;
      case 4: case 5: x = new Conv(pick(i), r.below(13), r.below(13), r.chance(1, 6)); break;
      case 6: { static const FS ST[] = {FS::RAW, FS::MOVING_AVG, FS::MOVING_MED}; x = new Filt(rnd_sense(r), pick(i), ST[r.below(3)], 1 + r.below(6), r.chance(1, 2)); break; }
      case 7: x = new Orient(pick(i), r.chance(1, 2)); break;
      default: x = new Comp(r.chance(1, 2) ? take_cb() : -1); break;
    }
    x->id = (int)i; N.emplace_back(x); c.op("stage %u: %s", i, x->kind); c.count(x->kind); shape = mix(shape, k);
  }
  auto all = [&]() { for (auto& n : N) n->check(); };
  all(); unsigned ops = 6 + r.below(c.thorough ? 150 : 60);
  for (unsigned k = 0; k < ops; k++) {
    if (r.chance(1, 2)) advance_us(r.chance(1, 10) ? r.u32() : r.below(100000)); unsigned w = r.below(24), t = r.chance(3, 4) ? N.size() - 1 : r.below(N.size());
    if (w < 15) {
      Node* n = N[t].get(); SS s = rnd_sense(r); V d = rnd_vec(r), e = rnd_vec(r); bool err = r.chance(1, 2); Vector3f D(d.x, d.y, d.z), E(e.x, e.y, e.z); c.op("push %u %s (%.9g, %.9g, %.9g)%s", t, TripleAxisPipe::spatialSenseStr(s), P3(d), err ? " with error" : ""); c.hash(&d, sizeof d);
      int8_t got = err || r.chance(1, 2) ? n->real->pushVector(s, &D, err ? &E : nullptr) : n->real->pushVector(s, &D); int8_t exp = n->push(s, d, err ? &e : nullptr); c.count("pushes");
      VF_CHECK(got == exp, "return", "pushing %s to the %s %d gave %d, should be %d", TripleAxisPipe::spatialSenseStr(s), n->kind, n->id, got, exp); VF_CHECK(same(v3(&D), d) && same(v3(&E), e), "mutated", "the afferent vector was changed");
    } else if (w < 17) {
      for (auto& q : N) if (r.chance(1, 4)) { if (auto* x = !strcmp(q->kind, "filter") ? (Filt*)q.get() : nullptr) { c.op("read %d", x->id); x->read(); } else if (auto* y = !strcmp(q->kind, "orientation") ? (Orient*)q.get() : nullptr) { c.op("read %d", y->id); y->read(); }
        else if (auto* z = !strcmp(q->kind, "terminus") ? (Term*)q.get() : nullptr) { bool noe = r.chance(1, 4), noq = r.chance(1, 4); c.op("read %d", z->id); Vector3f d, e(5, 6, 7); uint32_t sq = 77; int8_t ret = z->f->getDataWithErr(&d, noe ? nullptr : &e, noq ? nullptr : &sq); VF_CHECK(ret == (z->fresh ? 1 : 0) && same(v3(&d), z->d) && (noq || sq == z->n) && (noe || same(v3(&e), z->has ? z->e : V{5, 6, 7})), "terminus-read", "terminus %d: %d (%g, %g, %g), number %u", z->id, ret, P3(d), sq); z->fresh = false; c.count("terminus_reads"); } }
    } else if (w == 17) {
      for (auto& q : N) if (!strcmp(q->kind, "terminus") && r.chance(1, 3)) { Term* x = (Term*)q.get(); c.op("reset %d", x->id); x->f->reset(); x->d = x->e = {0, 0, 0}; x->has = x->fresh = false; x->n = x->at = 0; VF_CHECK(same(v3(x->f->getError()), V{0, 0, 0}), "reset", "an error is left"); c.count("resets"); }
    } else if (w == 18) {
      Node* q = N[t].get(); Node* to = pick(t); c.op("connect %u to %d", t, to ? to->id : -1); TripleAxisPipe* p = to ? to->real : nullptr;
      if (!strcmp(q->kind, "fork")) { Fork* x = (Fork*)q; if (r.chance(1, 2)) { x->f->setLeft(p); x->l = to; } else { x->f->setRight(p); x->r = to; } c.count("reconnected"); }
      else if (!strcmp(q->kind, "convention")) { ((Conv*)q)->f->setNext(p); ((Conv*)q)->n = to; c.count("reconnected"); } else if (!strcmp(q->kind, "filter")) { ((Filt*)q)->f->setNext(p); ((Filt*)q)->n = to; c.count("reconnected"); }
    } else if (w == 19) {
      for (auto& q : N) if (!strcmp(q->kind, "convention") && r.chance(1, 2)) { Conv* x = (Conv*)q.get(); unsigned g = r.below(13); c.op("convention %d %u", x->id, g); if (r.chance(2, 3)) { x->a = g; x->f->afferentGnomon(GN[g]); } else { x->b = g; x->f->efferentGnomon(GN[g]); } c.count("conventions_set"); }
    } else if (w == 20) {
      for (auto& q : N) { if (!strcmp(q->kind, "orientation") && r.chance(1, 2)) { Orient* x = (Orient*)q.get(); if (r.chance(1, 2)) { c.op("level %d", x->id); x->f->markLevel(); x->level = true; } else { V u = rnd_vec(r); c.op("up %d (%g, %g, %g)", x->id, P3(u)); Vector3f U(u.x, u.y, u.z); x->f->setUp(&U); x->up = u; } } else if (!strcmp(q->kind, "compass") && r.chance(1, 2)) { Comp* x = (Comp*)q.get(); x->decl = (float)((int32_t)r.u32() / (double)2147483648u * 3.1); x->f->setDeclination(x->decl); c.op("declination %d %g", x->id, (double)x->decl); c.count("declinations"); } }
    } else if (w == 21) { int i = (int)r.below(6); CBRET[i] = (int8_t)((int)r.below(3) - 1); c.op("callback %d returns %d", i, CBRET[i]);
    } else if (w == 22) {
      Node* q = N[t].get(); unsigned vb = r.chance(1, 3) ? 0 : r.below(10), st = r.below(5); c.op("print %u at %u, verbosity %u", t, st, vb); unsigned n = q->lines(vb); if (n > 200) continue; StringBuilder o; q->real->printPipe(&o, (uint8_t)st, (uint8_t)vb); std::string p = sb_read(&o); unsigned got = 0; for (size_t at = p.find("3AxisPipe"); at != std::string::npos; at = p.find("3AxisPipe", at + 1)) got++; VF_CHECK(got == n, "print", "the printout names %u stages, should name %u: %s", got, n, quote(p.data(), p.size()).c_str()); if (strcmp(q->kind, "sink")) VF_CHECK(p.compare(0, st * 4 + 2, std::string(st * 4, ' ') + "+-") == 0, "print", "the printout isn't indented by %u", st); c.count("printed");
      if (!strcmp(q->kind, "filter")) ((Filt*)q)->dirty = ((Filt*)q)->f->dataFresh(); for (auto& y : N) if (!strcmp(y->kind, "filter")) ((Filt*)y.get())->dirty = ((Filt*)y.get())->f->dataFresh();
    } else {
      uint32_t raw = r.u32(); Flags f(raw & 0xFFF); uint32_t m = raw & 0xFFF; for (int i = 0; i < 20; i++) { unsigned s = r.below(12); bool on = r.chance(1, 2); f.relaySense((SS)s, on); m = on ? m | 1u << s : m & ~(1u << s); VF_CHECK(f.raw() == m, "relay-flags", "setting relay of sense %u to %d made %x, should be %x", s, on, f.raw(), m); s = r.below(12); VF_CHECK(f.relaySense((SS)s) == (m >> s & 1), "relay-flags", "the relay of sense %u is %d", s, f.relaySense((SS)s)); } c.count("relay_flags");
    }
    all();
  }
  c.feat(mix(shape, want)); c.hash(&shape, sizeof shape);
}
