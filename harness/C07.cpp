/* C07: RingBuffer against a bounded FIFO model. */
#include "sbmodel.h"
#include "RingBuffer.h"
#include <deque>
const char* VF_PROPERTY = "C07";
const char* VF_RULE = "A case is one ring (element type of 1, 2, 3, 4, 8 or 300 bytes, or a pointer; capacity 0 to 40, seldom to 700 or about 65536) and a history of inserts, batch inserts, conditional inserts, reads, batch reads, peeks by head, index and batch, culls, membership tests and clears, checked against a bounded FIFO after every call. Distinct by type, capacity and the calls made.";
using namespace vf;
void vf_setup() {}
template <typename T> static T val(Rng& r, bool small) { return (T)(uintptr_t)(small ? 1 + r.below(6) : r.u64()); }
template <typename T> static unsigned long long U(T v) { return (unsigned long long)(uintptr_t)v; }
template <> unsigned long long U(uint64_t v) { return v; }
template <> unsigned long long U(double v) { return (unsigned long long)v; }
template <> double val(Rng& r, bool small) { return small ? 1 + (double)r.below(6) : (double)r.below(1u << 31) * 0.5; }
template <> uint64_t val(Rng& r, bool small) { return small ? 1 + r.below(6) : r.u64(); }

template <unsigned N> struct Rec { uint8_t b[N]; Rec(uint64_t v = 0) { for (unsigned i = 0; i < N; i++) b[i] = (uint8_t)(v ? (v >> (8 * (i & 7))) + (i >> 3) * (v | 1) : 0); } bool operator==(const Rec& o) const { return 0 == memcmp(b, o.b, N); } };   // Elements of other sizes.
template <> unsigned long long U(Rec<3> v) { return v.b[0] | v.b[1] << 8 | v.b[2] << 16; }
template <> unsigned long long U(Rec<300> v) { return fnv(v.b, 300); }
template <> Rec<3> val(Rng& r, bool small) { return Rec<3>(small ? 1 + r.below(6) : r.u64()); }
template <> Rec<300> val(Rng& r, bool small) { return Rec<300>(small ? 1 + r.below(6) : r.u64()); }
template <typename T> static void run(Ctx& c, const char* nm) {
  Rng& r = c.rng;
  const unsigned cap = r.chance(1, 40) ? 0 : r.chance(1, 40) ? 250 + r.below(450) : r.chance(1, 1500) ? 65530 + r.below(20) : r.chance(1, 3) ? 1 + r.below(4) : 1 + r.below(40);
  const bool small = r.chance(1, 3);
  RingBuffer<T>* rb = new RingBuffer<T>(cap);
  std::deque<T> m; unsigned head = 0;      // head: slot of the first element
  c.op("%s x%u", nm, cap);
  const int N = cap > 1000 ? 25 : 30 + r.below(120);
  bool draining = false; unsigned wraps = 0;
  for (int k = 0; k < N; k++) {
    if (r.chance(1, 12)) draining = !draining;
    unsigned what = r.below(16);
    if (draining && what < 5 && r.chance(2, 3)) what = 5 + r.below(4);
    switch (what) {
      case 0: case 1: case 2: {
        T v = val<T>(r, small); bool fits = m.size() < cap; int g = rb->insert(v);
        c.op("ins %llx", U(v)); c.count(fits ? "inserts" : "inserts_refused");
        VF_CHECK(g == (fits ? 0 : -1), "insert-code", "insert into %u of %u gave %d", (unsigned)m.size(), cap, g);
        if (fits) m.push_back(v);
      } break;
      case 3: {
        T v = val<T>(r, small); bool has = false; for (T& x : m) has |= (0 == memcmp(&x, &v, sizeof(T))); bool fits = m.size() < cap;
        int g = rb->insertIfAbsent(v), w = has ? -2 : fits ? 0 : -1; c.op("abs %llx", U(v)); c.count(has ? "present" : "absent");
        VF_CHECK(g == w, "insert-if-absent-code", "insertIfAbsent gave %d, should be %d", g, w);
        if (w == 0) m.push_back(v);
      } break;
      case 4: {
        unsigned n = r.below(cap + 6); T* b = (T*)malloc(sizeof(T) * (n ? n : 1)); for (unsigned i = 0; i < n; i++) b[i] = val<T>(r, small);
        unsigned fit = cap - (unsigned)m.size(); int w = (n == 0 || fit == 0) ? -1 : (int)(n < fit ? n : fit);
        int g = rb->insert(b, n); c.op("batch %u", n); c.count("batch_inserts");
        VF_CHECK(g == w, "batch-insert-count", "insert of %u into %u of %u gave %d, should be %d", n, (unsigned)m.size(), cap, g, w);
        for (int i = 0; i < w; i++) m.push_back(b[i]);
        free(b); if (n > 255) c.count("large_batches");
      } break;
      case 5: case 6: {
        T w = m.empty() ? (T)0 : m.front(); T g = rb->get(); c.op("get"); c.count(m.empty() ? "empty_reads" : "reads");
        VF_CHECK(g == w, "fifo-order", "get() gave %llx, should be %llx (%u held)", U(g), U(w), (unsigned)m.size());
        if (!m.empty()) { m.pop_front(); head++; }
      } break;
      case 7: case 8: {
        unsigned n = r.below(cap + 4); T* b = (T*)malloc(sizeof(T) * (n ? n : 1)); bool pk = what == 8 && r.chance(1, 2);
        int w = n ? (int)(n < m.size() ? n : m.size()) : -1, g = pk ? rb->peek(b, n) : rb->get(b, n); c.op(pk ? "peekn %u" : "getn %u", n); c.count(pk ? "batch_peeks" : "batch_reads");
        VF_CHECK(g == w, "batch-read-count", "%s of %u with %u held gave %d, should be %d", pk ? "peek" : "get", n, (unsigned)m.size(), g, w);
        for (int i = 0; i < w; i++) VF_CHECK(b[i] == m[i], pk ? "batch-peek-order" : "batch-read-order", "element %d of a batch of %d is %llx, should be %llx", i, w, U(b[i]), U(m[i]));
        if (!pk) for (int i = 0; i < w; i++) { m.pop_front(); head++; }
        free(b);
      } break;
      case 9: {
        unsigned n = r.below(cap + 3); int w = (n == 0 || cap == 0) ? -1 : (int)(n < m.size() ? n : m.size()), g = rb->cull(n); c.op("cull %u", n); c.count("culls");
        VF_CHECK(g == w, "cull-count", "cull(%u) of %u held gave %d, should be %d", n, (unsigned)m.size(), g, w);
        for (int i = 0; i < w; i++) { m.pop_front(); head++; }
      } break;
      case 10: { T w = m.empty() ? (T)0 : m.front(); T g = rb->peek(); VF_CHECK(g == w, "peek-head", "peek() gave %llx, should be %llx", U(g), U(w)); c.count("peeks"); } break;
      case 11: case 12: if (m.empty()) { unsigned i = r.below(cap + 3); T g = rb->peek(i); VF_CHECK(g == (T)0, "peek-empty", "peek(%u) of an empty ring gave %llx", i, U(g)); c.count("empty_peeks"); }
      else {
        unsigned i = r.below((uint32_t)m.size()); T g = rb->peek(i); VF_CHECK(g == m[i], "peek-index", "peek(%u) of %u gave %llx, should be %llx", i, (unsigned)m.size(), U(g), U(m[i]));
        unsigned s = (head + i) % cap; g = rb->peek(s, true); VF_CHECK(g == m[i], "peek-slot", "peek of slot %u gave %llx, should be %llx", s, U(g), U(m[i])); c.count("index_peeks");
      } break;
      case 13: { T v = (!m.empty() && r.chance(1, 2)) ? m[r.below((uint32_t)m.size())] : val<T>(r, small); bool has = false; for (T& x : m) has |= (0 == memcmp(&x, &v, sizeof(T))); VF_CHECK(rb->contains(v) == has, "membership", "contains(%llx) is wrong, should be %d", U(v), has); c.count("membership_tests"); } break;
      case 14: if (r.chance(1, 6)) { rb->clear(); m.clear(); head = 0; c.op("clear"); c.count("clears"); } break;
      case 15: if (r.chance(1, 4)) { T x = val<T>(r, small); VF_CHECK(rb->insert((T*)nullptr, 3) == -1 && rb->get((T*)nullptr, 3) == -1 && rb->peek((T*)nullptr, 2) == -1 && rb->insert(&x, 0) == -1, "bad-arguments", "a batch call without a buffer was not refused"); } break;
    }
    VF_CHECK(rb->count() == m.size() && rb->vacancy() == cap - m.size() && rb->capacity() == cap && rb->isEmpty() == m.empty() && rb->heap_use() == cap * sizeof(T), "accounting", "count %u vacancy %u capacity %u, with %u of %u held", rb->count(), rb->vacancy(), rb->capacity(), (unsigned)m.size(), cap);
    if (cap && head / cap > wraps) { wraps = head / cap; c.count("wraps"); }
    if (m.size() <= 3 || m.size() + 2 >= cap) c.feat(mix(cap, m.size() * 64 + (cap ? head % cap : 0)));
  }
  while (!m.empty()) { T g = rb->get(); VF_CHECK(g == m.front(), "fifo-order", "draining gave %llx, should be %llx", U(g), U(m.front())); m.pop_front(); }
  VF_CHECK(rb->isEmpty() && rb->count() == 0, "accounting", "not empty after draining");
  delete rb; c.nontrivial = true;
}
void vf_case(Ctx& c) {
  if (c.rng.chance(1, 12)) { c.count("record_rings"); c.rng.chance(1, 2) ? run<Rec<3>>(c, "rec3") : run<Rec<300>>(c, "rec300"); return; }
  switch (c.rng.below(6)) {
    case 0: run<uint8_t>(c, "u8"); break; case 1: run<uint16_t>(c, "u16"); break; case 2: run<uint32_t>(c, "u32"); break;
    case 3: run<uint64_t>(c, "u64"); break; case 4: run<char*>(c, "ptr"); break; default: run<double>(c, "f64"); break;
  }
}
