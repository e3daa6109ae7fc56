/* C09: PriorityQueue against a stable ordered sequence. */
#include "sbmodel.h"
#include "PriorityQueue.h"
#include <vector>
#include <algorithm>
const char* VF_PROPERTY = "C09";
const char* VF_RULE = "A case is one queue (of pointers, or of 32-bit values) and a history of insertions with priorities, conditional insertions, dequeues, recyclings, priority raises and drops, removals by position and by value, clears and reads, checked against a stably ordered sequence after every call. Distinct by the calls made.";
using namespace vf;
void vf_setup() {}
static uint32_t things[16];
struct PtrT { typedef uint32_t* T; static T mk(unsigned i) { return things + i; } static int id(T t) { return t ? (int)(t - things) : -1; } static T none() { return nullptr; } };
struct IntT { typedef uint32_t T; static T mk(unsigned i) { return 100 + i * 7; } static int id(T t) { return t ? (int)((t - 100) / 7) : -1; } static T none() { return 0; } };
template <class T> struct E { T d; int p; };
template <class K> struct Extra { template <class Q, class M> static void recycle(Q*, M&, Ctx&) {} template <class Q> static typename K::T head(Q* q) { return q->get(0); } static const bool values = false; template <class Q> static bool rm(Q*, typename K::T) { return false; } };
template <> struct Extra<PtrT> {
  template <class Q, class M> static void recycle(Q* q, M& m, Ctx& c) {
    c.op("recycle"); auto g = q->recycle(); auto w = m.empty() ? nullptr : m[0].d;
    VF_CHECK(g == w, "recycle-returns-head", "recycle() gave %d, should be %d", PtrT::id(g), PtrT::id(w));
    if (m.size() > 1) { auto x = m[0]; m.erase(m.begin()); x.p = m.back().p; m.push_back(x); c.count("recycled"); }
  }
  template <class Q> static uint32_t* head(Q* q) { return q->get(); }
  static const bool values = true; template <class Q> static bool rm(Q* q, uint32_t* v) { return q->remove(v); }
};
template <class K> static void run(Ctx& c) {
  typedef typename K::T T; Rng& r = c.rng; PriorityQueue<T>* q = new PriorityQueue<T>(); std::vector<E<T>> m;
  auto find = [&](T d) { unsigned i = 0; while (i < m.size() && !(m[i].d == d)) i++; return i; };
  auto place = [&](T d, int p) { unsigned i = 0; while (i < m.size() && m[i].p >= p) i++; m.insert(m.begin() + i, E<T>{d, p}); return (int)i; };
  const unsigned kinds = 2 + r.below(14), spread = 1 + r.below(5); const bool bulk = r.chance(1, 200); const int N = bulk ? 8 + r.below(8) : 20 + r.below(80);
  const bool wide = r.chance(1, 6);
  if (bulk) { unsigned n = 130 + r.below(400); while (n--) { T v = K::mk(r.below(kinds)); int p = wide ? (int)r.range(-2000000000, 2000000000) : (int)r.below(spread); int g = q->insert(v, p), w = place(v, p); VF_CHECK(g == w, "insert-position", "insert at priority %d gave position %d, should be %d", p, g, w); } c.count("long_queues"); }
  for (int k = 0; k < N; k++) {
    T v = K::mk(r.below(kinds)); int p = wide ? (int)r.range(-2000000000, 2000000000) : (int)r.below(spread) - (r.chance(1, 4) ? 2 : 0);
    unsigned at = find(v); int pos = (int)r.range(-2, (int64_t)m.size() + 1);
    switch (r.below(16)) {
      case 0: case 1: case 2: { int g = q->insert(v, p), w = place(v, p); c.op("ins %d@%d", K::id(v), p); VF_CHECK(g == w, "insert-position", "insert at priority %d gave position %d, should be %d", p, g, w); c.count("inserts"); } break;
      case 3: { int g = q->insert(v), w = place(v, 0); c.op("ins %d", K::id(v)); VF_CHECK(g == w, "insert-position", "insert gave position %d, should be %d", g, w); c.count("inserts"); } break;
      case 4: case 5: { bool has = at < m.size(), dflt = r.chance(1, 3); int w = has ? -1 : place(v, dflt ? 0 : p); int g = dflt ? q->insertIfAbsent(v) : q->insertIfAbsent(v, p); c.op("abs %d@%d", K::id(v), dflt ? 0 : p); VF_CHECK(g == w, "insert-if-absent-position", "insertIfAbsent at %d gave %d, should be %d", p, g, w); c.count(has ? "present" : "absent_inserts"); } break;
      case 6: case 7: { T w = m.empty() ? K::none() : m[0].d; T g = q->dequeue(); c.op("deq"); VF_CHECK(g == w, "dequeue-order", "dequeue() gave %d, should be %d", K::id(g), K::id(w)); if (!m.empty()) { m.erase(m.begin()); c.count("dequeues"); } } break;
      case 8: Extra<K>::recycle(q, m, c); break;
      case 9: case 10: { bool has = at < m.size(); c.op("inc %d", K::id(v)); bool g = q->incrementPriority(v); VF_CHECK(g == has, "reprioritize-code", "incrementPriority gave %d", g);
        if (has) { E<T> x = m[at]; x.p++; bool moves = at > 0 && m[at - 1].p < x.p; if (moves) { m.erase(m.begin() + at); place(x.d, x.p); c.count("raises_moving"); } else m[at] = x; c.count("raises"); } } break;
      case 11: case 12: { bool has = at < m.size(); c.op("dec %d", K::id(v)); bool g = q->decrementPriority(v); VF_CHECK(g == has, "reprioritize-code", "decrementPriority gave %d", g);
        if (has) { E<T> x = m[at]; x.p--; m.erase(m.begin() + at); unsigned i = at; while (i < m.size() && m[i].p > x.p) i++; m.insert(m.begin() + i, x); if (i != at) c.count("drops_moving"); c.count("drops"); } } break;
      case 13: { bool in = pos >= 0 && pos < (int)m.size(); c.op("rmat %d", pos); bool g = q->remove((int)pos); VF_CHECK(g == in, "remove-code", "remove(%d) of %u gave %d", pos, (unsigned)m.size(), g); if (in) { m.erase(m.begin() + pos); c.count("position_removals"); } } break;
      case 14: if (Extra<K>::values) { bool has = at < m.size(); unsigned b4 = m.size(); c.op("rmv %d", K::id(v)); bool g = Extra<K>::rm(q, v); VF_CHECK(g == has, "remove-code", "remove(value %d) gave %d", K::id(v), g); m.erase(std::remove_if(m.begin(), m.end(), [&](E<T>& e) { return e.d == v; }), m.end()); if (has) c.count("value_removals"); if (b4 - m.size() > 1) c.count("duplicates_removed"); } break;
      case 15: if (r.chance(1, bulk ? 40 : 8)) { int g = q->clear(); c.op("clear"); VF_CHECK(g == (int)m.size(), "clear-count", "clear() gave %d of %u", g, (unsigned)m.size()); m.clear(); c.count("clears"); } break;
    }
    VF_CHECK(q->size() == (int)m.size() && q->hasNext() == !m.empty(), "size", "size() is %d, should be %u", q->size(), (unsigned)m.size());
    VF_CHECK(Extra<K>::head(q) == (m.empty() ? K::none() : m[0].d), "head", "the head is wrong");
    for (int i = -1; i <= (int)m.size(); i++) {
      bool in = i >= 0 && i < (int)m.size(); T w = in ? m[i].d : K::none(), g = q->get(i);
      VF_CHECK(g == w, "order", "position %d of %u holds %d, should be %d", i, (unsigned)m.size(), K::id(g), K::id(w));
      int gp = q->getPriority((int)i), wp = in ? m[i].p : -1; VF_CHECK(gp == wp, "priority-at-position", "priority at %d is %d, should be %d", i, gp, wp);
      if (in) { unsigned f = 0; while (m[f].p != m[i].p) f++; VF_CHECK(q->getByPriority(m[i].p) == m[f].d, "by-priority", "getByPriority(%d) is not the first of that priority", m[i].p); }
    }
    { int p = spread + 3; if (!wide) VF_CHECK(std::any_of(m.begin(), m.end(), [&](E<T>& e) { return e.p == p; }) || q->getByPriority(p) == K::none(), "by-priority", "getByPriority(%d) found something", p); }
    for (unsigned i = 0; i < kinds; i++) { T d = K::mk(i); unsigned a = find(d); bool has = a < m.size();
      VF_CHECK(q->contains(d) == has && q->getPosition(d) == (has ? (int)a : -1) && q->getPriority(d) == (has ? m[a].p : -1), "look-up", "look-up of %u: contains %d, position %d, priority %d; should be %d", i, q->contains(d), q->getPosition(d), q->getPriority(d), has ? (int)a : -1); }
    if (m.size() && m.size() < 6) { uint64_t h = 0; for (auto& e : m) h = mix(h, (uint64_t)K::id(e.d) * 16 + (uint64_t)std::min<int64_t>((int64_t)e.p - m.back().p, 8)); c.feat(h); }
  }
  if (r.chance(1, 2)) for (auto& e : m) { T g = q->dequeue(); VF_CHECK(g == e.d, "dequeue-order", "draining gave %d, should be %d", K::id(g), K::id(e.d)); }
  delete q; c.nontrivial = true;
}
void vf_case(Ctx& c) { if (c.rng.chance(2, 3)) run<PtrT>(c); else run<IntT>(c); }
