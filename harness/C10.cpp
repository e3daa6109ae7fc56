/* C10: ElementPool against a set of loans. */
#include "sbmodel.h"
#include "ElementPool.h"
#include <vector>
#include <set>
const char* VF_PROPERTY = "C10";
const char* VF_RULE = "A case is one pool (0 to 24 elements, sometimes up to 340 and rarely 67000, own or supplied memory, elements of 8 to 40 bytes and sometimes 1504) and a history of takes and gives past exhaustion in any order, each loan filled with a pattern of its own that is verified at every step. Distinct by the calls made.";
using namespace vf;
void vf_setup() {}
static long live;
template <int N> struct Elem { uint32_t id; uint8_t pad[N]; Elem() : id(0xC0FFEE) { live++; memset(pad, 0x5A, N); } ~Elem() { live--; } };
template <class T> static void stamp(T* e, uint32_t tag) { e->id = tag; memset(e->pad, (int)(tag * 37 + 11) & 0xFF, sizeof e->pad); }
template <class T> static void verify(T* e, uint32_t tag, const char* when) {
  bool ok = e->id == tag; for (unsigned i = 0; ok && i < sizeof e->pad; i++) ok = e->pad[i] == (uint8_t)(tag * 37 + 11);
  VF_CHECK(ok, "loan-intact", "the content of loan %u changed (%s)", tag, when);
}
template <class T> static void run(Ctx& c) {
  Rng& r = c.rng; live = 0;
  const bool flood = r.chance(1, 60); const unsigned cap = r.chance(1, 20) ? 0 : sizeof(T) > 1000 ? 30 + r.below(60) : flood && r.chance(1, 30) ? 65500 + r.below(2000) : flood && r.chance(1, 2) ? 100 + r.below(240) : 1 + r.below(r.chance(1, 2) ? 4 : 24); if (cap > 99) c.count("large_pools"); if (cap > 65000 || cap * sizeof(T) > 65535) c.count("vast_pools"); const bool own = r.chance(1, 2);
  T* mem = own ? nullptr : (T*)malloc(sizeof(T) * (cap ? cap : 1));
  ElementPool<T>* p = new ElementPool<T>(cap, 1000, mem);
  c.op("pool %u %s", cap, own ? "own" : "supplied");
  VF_CHECK(p->capacity() == cap && p->lowWaterMark() == cap && p->overdraws() == 0 && p->overdrawsFreed() == 0 && p->overdrawLimit() == 1000, "counters", "a fresh pool reports other counts");
  if (r.chance(1, 2)) { VF_CHECK(p->allocated(), "allocated", "could not allocate"); VF_CHECK(p->available() == cap && live == (long)cap, "constructed", "%ld of %u elements were constructed", live, cap); c.op("alloc"); }
  struct L { T* e; uint32_t tag; bool pool; }; std::vector<L> out; std::set<T*> known;
  uint32_t tag = 1, free_n = cap, low = cap, od = 0, odf = 0; const int N = flood ? 700 : 20 + r.below(120); unsigned bias = flood ? 0 : 1 + r.below(3);
  for (int k = 0; k < N; k++) {
    if (flood ? k == 350 : r.chance(1, 15)) bias = flood ? 4 : 1 + r.below(3);
    if (r.below(4) >= bias) {
      T* e = p->take(); c.op("take"); VF_CHECK(e != nullptr, "take-something", "take() gave nothing");
      for (L& l : out) VF_CHECK((uint8_t*)e + sizeof(T) <= (uint8_t*)l.e || (uint8_t*)l.e + sizeof(T) <= (uint8_t*)e, "loan-distinct", "an element was lent twice (also loan %u)", l.tag);
      bool in = p->inPool(e); VF_CHECK(in == (free_n > 0), "pool-first", "with %u of %u free, the element taken is%s of the pool", free_n, cap, in ? "" : " not");
      if (!own) { bool mine = e >= mem && e < mem + cap; VF_CHECK(mine == in, "pool-membership", "inPool() is wrong"); if (in) VF_CHECK(((uint8_t*)e - (uint8_t*)mem) % sizeof(T) == 0, "pool-membership", "a misplaced element"); }
      if (in) { free_n--; known.insert(e); VF_CHECK(known.size() <= cap, "pool-membership", "more than %u distinct pool elements", cap); c.count("pool_takes"); } else { od++; c.count("overdraws"); VF_CHECK(e->id == 0xC0FFEE, "overdraw-constructed", "an overdrawn element was not constructed"); }
      if (free_n < low) low = free_n;
      stamp(e, tag); out.push_back(L{e, tag++, in});
    } else if (!out.empty()) {
      unsigned i = r.below((uint32_t)out.size()); L l = out[i]; out.erase(out.begin() + i); verify(l.e, l.tag, "before it came back");
      int g = p->give(l.e); c.op("give %u", l.tag); VF_CHECK(g == (l.pool ? 1 : 0), "give-code", "giving back a%s element gave %d", l.pool ? " pool" : "n overdrawn", g);
      if (l.pool) { free_n++; c.count("pool_gives"); } else { odf++; c.count("overdraws_freed"); }
    }
    for (L& l : out) { verify(l.e, l.tag, "while lent"); VF_CHECK(p->inPool(l.e) == l.pool, "pool-membership", "inPool() changed its mind about loan %u", l.tag); }
    if (p->capacity() && (od || free_n < cap || live)) VF_CHECK(p->available() == free_n, "counters", "available() is %u, should be %u", p->available(), free_n);
    VF_CHECK(p->overdraws() == od && p->overdrawsFreed() == odf && p->lowWaterMark() == low && p->capacity() == cap, "counters", "overdraws %u/%u freed %u/%u low water %u/%u", p->overdraws(), od, p->overdrawsFreed(), odf, p->lowWaterMark(), low);
    if (live) VF_CHECK(live == (long)cap + (long)od - (long)odf, "constructed", "%ld elements are alive, should be %ld", live, (long)cap + (long)od - (long)odf);
    c.feat(mix(cap, free_n * 64 + (od - odf)));
  }
  { T x; VF_CHECK(!p->inPool(&x), "pool-membership", "a stranger is said to be of the pool"); if (!own && p->allocated()) { VF_CHECK(!p->inPool((T*)((uintptr_t)mem + cap * sizeof(T))) && !p->inPool((T*)((uintptr_t)mem - sizeof(T))), "pool-membership", "a neighbour of the pool is said to be of it"); c.count("neighbours"); } }
  while (!out.empty()) { L l = out.back(); out.pop_back(); verify(l.e, l.tag, "before it came back"); p->give(l.e); }
  std::set<T*> seen; for (unsigned i = 0; i < cap; i++) { T* e = p->take(); VF_CHECK(p->inPool(e) && seen.insert(e).second, "all-returned", "element %u of a full pool of %u is missing or double", i, cap); }
  delete p; if (mem) free(mem); c.nontrivial = true;
}
void vf_case(Ctx& c) { if (c.rng.chance(1, 100)) { run<Elem<1500>>(c); return; } switch (c.rng.below(3)) { case 0: run<Elem<4>>(c); break; case 1: run<Elem<13>>(c); break; default: run<Elem<36>>(c); } }
