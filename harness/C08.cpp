/* C08: LinkedList against a sequence. */
#include "sbmodel.h"
#include "LightLinkedList.h"
#include <vector>
#include <algorithm>
const char* VF_PROPERTY = "C08";
const char* VF_RULE = "A case is one list and a history of insertions at both ends, removals from the head, by position and by value, clears and reads, with values drawn from a small set so that duplicates are common, checked against an ordinary sequence after every call. Distinct by the calls made.";
using namespace vf;
void vf_setup() {}
static uint32_t things[12];
template <class T> static void run(Ctx& c) {
  Rng& r = c.rng; typedef typename std::remove_pointer<T>::type V;
  static V* base = (V*)things;
  LinkedList<T>* l = new LinkedList<T>(); std::vector<T> m;
  if (r.chance(1, 2000)) {   // More than 65535 elements.
    const unsigned n = 65500 + r.below(3000); for (unsigned i = 0; i < n; i++) VF_CHECK(!l->insertAtHead(base + (i % 12)), "insert-code", "insertAtHead() failed"); VF_CHECK(l->size() == (int)n && l->hasNext() && l->get() == base + ((n - 1) % 12), "size", "size() is %d, should be %u", l->size(), n);
    for (unsigned k = 0; k < 20; k++) { unsigned i = r.below(n + 2); T w = i < n ? base + ((n - 1 - i) % 12) : nullptr; VF_CHECK(l->get((int)i) == w, "order", "get(%u) of %u is wrong", i, n); } VF_CHECK(l->insert(base) >= 0 && l->get((int)n) == base && l->size() == (int)n + 1, "insert-code", "insertion after %u failed", n);
    const unsigned at = r.below(n); T w = base + ((n - 1 - at) % 12); VF_CHECK(l->remove((int)at) == w && l->size() == (int)n, "remove-position", "remove(%u) of %u is wrong", at, n + 1); VF_CHECK(l->remove() == base + ((n - (at ? 1 : 2)) % 12) && l->size() == (int)n - 1, "remove-head", "remove() of %u is wrong", n); int g = l->clear(); VF_CHECK(g == (int)n - 1 && l->size() == 0 && !l->hasNext(), "clear-count", "clear() gave %d of %u", g, n - 1); c.op("vast %u", n); c.count("vast_lists"); delete l; c.nontrivial = true; return; }
  const unsigned kinds = 1 + r.below(12); const bool bulk = r.chance(1, 150); const int N = bulk ? 12 : 20 + r.below(90);
  if (bulk) { unsigned n = 120 + r.below(500); for (unsigned i = 0; i < n; i++) { T v = base + r.below(kinds); if (r.chance(1, 3)) { VF_CHECK(!l->insertAtHead(v), "insert-code", "insertAtHead() failed"); m.insert(m.begin(), v); } else { int g = l->insert(v); VF_CHECK(g >= 0, "insert-code", "insert() gave %d", g); m.push_back(v); } } c.op("bulk %u", n); c.count("long_lists"); }
  for (int k = 0; k < N; k++) {
    T v = base + r.below(kinds);
    int pos = (int)r.range(-2, (int64_t)m.size() + 2);
    switch (r.below(14)) {
      case 0: case 1: case 2: case 3: { int g = l->insert(v); c.op("ins %d", (int)(v - base)); VF_CHECK(g >= 0, "insert-code", "insert() gave %d", g); m.push_back(v); c.count("inserts"); } break;
      case 4: case 5: { int g = l->insertAtHead(v); c.op("hd %d", (int)(v - base)); VF_CHECK(g == 0, "insert-code", "insertAtHead() gave %d", g); m.insert(m.begin(), v); c.count("head_inserts"); } break;
      case 6: { T w = m.empty() ? nullptr : m[0]; T g = l->remove(); c.op("rm"); VF_CHECK(g == w, "remove-head", "remove() gave element %d of %u", (int)(g ? g - base : -1), (unsigned)m.size()); if (!m.empty()) { m.erase(m.begin()); c.count("removals"); } else c.count("absent"); } break;
      case 7: case 8: { bool in = pos >= 0 && pos < (int)m.size(); T w = in ? m[pos] : nullptr; T g = l->remove(pos); c.op("rmat %d", pos); VF_CHECK(g == w, "remove-position", "remove(%d) of %u gave %d, should be %d", pos, (unsigned)m.size(), (int)(g ? g - base : -1), (int)(w ? w - base : -1)); if (in) { m.erase(m.begin() + pos); c.count("position_removals"); } else c.count("absent"); } break;
      case 9: case 10: { bool has = std::find(m.begin(), m.end(), v) != m.end(); unsigned b4 = m.size(); bool g = l->remove(v); c.op("rmv %d", (int)(v - base)); VF_CHECK(g == has, "remove-value-code", "remove(value %d) gave %d, should be %d", (int)(v - base), g, has); m.erase(std::remove(m.begin(), m.end(), v), m.end()); c.count(has ? "value_removals" : "absent"); if (b4 - m.size() > 1) c.count("duplicates_removed"); } break;
      case 11: if (r.chance(1, bulk ? 60 : 8)) { int g = l->clear(); c.op("clear"); VF_CHECK(g == (int)m.size(), "clear-count", "clear() gave %d of %u", g, (unsigned)m.size()); m.clear(); c.count("clears"); } break;
      default: break;
    }
    VF_CHECK(l->size() == (int)m.size(), "size", "size() is %d, should be %u", l->size(), (unsigned)m.size());
    VF_CHECK(l->hasNext() == !m.empty() && l->get() == (m.empty() ? nullptr : m[0]), "head", "head and emptiness disagree");
    for (int i = -1; i <= (int)m.size(); i++) { T w = (i >= 0 && i < (int)m.size()) ? m[i] : nullptr; T g = l->get(i); VF_CHECK(g == w, "order", "get(%d) of %u gave %d, should be %d", i, (unsigned)m.size(), (int)(g ? g - base : -1), (int)(w ? w - base : -1)); }
    for (unsigned i = 0; i < kinds; i++) VF_CHECK(l->contains(base + i) == (std::find(m.begin(), m.end(), base + i) != m.end()), "membership", "contains(%u) is wrong", i);
    uint64_t h = 0; for (T x : m) h = mix(h, (uint64_t)(x - base)); if (m.size() < 5) c.feat(h);
  }
  if (r.chance(1, 2)) { int g = l->clear(); VF_CHECK(g == (int)m.size() && l->size() == 0 && !l->hasNext(), "clear-count", "clear() gave %d of %u", g, (unsigned)m.size()); }
  delete l; c.nontrivial = true;      // and the heap must balance
}
void vf_case(Ctx& c) { if (c.rng.chance(1, 2)) run<uint32_t*>(c); else run<uint8_t*>(c); }
