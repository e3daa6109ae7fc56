/* C21: lists of keyed values, against a model list, through every edit and look-up. */
#include "sbmodel.h"
#include "C3PValue/C3PValue.h"
#include "C3PValue/KeyValuePair.h"
#include <vector>
#include <deque>
const char* VF_PROPERTY = "C21";
const char* VF_RULE = "A case is a history of up to 90 appends, links (of owned and borrowed values, keyed or not, and of whole lists), drops, cuts, key changes, value changes, look-ups by key and index from any place in the list, key listings, counts and printings, on a keyed list with colliding, empty, missing and long keys and nested maps. Distinct by the operations and the list's states.";
using namespace vf;
void vf_setup() {}
struct E { C3PValue* p; bool keyed; bool haskey; std::string key; bool own; char t; uint64_t n; std::string s; uint16_t seen; std::vector<std::pair<std::string, unsigned>> kids; };
typedef std::vector<E> L;
static std::string text(const E& e) { char b[40]; switch (e.t) { case 'u': case 'h': case 'c': case 'q': snprintf(b, 40, "%llu", (unsigned long long)e.n); return b; case 'i': snprintf(b, 40, "%d", (int32_t)e.n); return b; case 'B': return e.n ? "true" : "false"; default: return e.s; } }
static std::string shown(const L& l, size_t from) { std::string o; bool any = false; for (size_t i = from; i < l.size(); i++) { const E& e = l[i]; if (i > from && !e.keyed) continue; if (any) o += ",\n"; any = true; if (e.haskey) o += e.key + ": "; if (e.t == 's') o += "\"" + e.s + "\""; else if (e.t == 'M') { o += "{\n"; for (size_t k = 0; k < e.kids.size(); k++) { char b[40]; snprintf(b, 40, "%u", e.kids[k].second); o += "  " + e.kids[k].first + ": " + b + (k + 1 < e.kids.size() ? ",\n" : "\n"); } o += "}"; } else o += text(e); } return o + "\n"; }
struct World { std::deque<std::string> str; std::vector<KeyValuePair*> maps; ~World() { for (auto m : maps) delete m; } };
static const char* pool(Ctx& c, World& w) { static const char* k[] = {"a", "b", "ab", "aa", "A", "key", "key2", "ke", "", "a b", "\xc3\xa9"}; if (c.rng.chance(4, 5)) return k[c.rng.below(11)]; w.str.push_back(rnd_bytes(c.rng, 1 + c.rng.below(c.rng.chance(1, 10) ? 600 : 12), 4)); return w.str.back().c_str(); }
static E mk(Ctx& c, World& w, bool keyed) {
  Rng& r = c.rng; E e; e.keyed = keyed; e.haskey = keyed && !r.chance(1, 12); e.own = true; e.seen = 0; e.n = r.chance(1, 2) ? r.below(5) : r.u64(); e.key = e.haskey ? pool(c, w) : ""; bool copy = r.chance(1, 2); std::string tmp = e.key; char* ck = (char*)tmp.c_str(); w.str.push_back(e.key); const char* bk = w.str.back().c_str();
  if (!e.haskey) { ck = nullptr; bk = nullptr; }
#define MK(v) (!keyed ? (C3PValue*)new C3PValue(v) : copy ? (C3PValue*)new KeyValuePair(ck, v) : (C3PValue*)new KeyValuePair(bk, v))
  switch (r.below(keyed ? 8 : 6)) {
    case 0: e.t = 'c'; e.n = (uint8_t)e.n; e.p = MK((uint8_t)e.n); break; case 1: e.t = 'h'; e.n = (uint16_t)e.n; e.p = MK((uint16_t)e.n); break; case 2: e.t = 'u'; e.n = (uint32_t)e.n; e.p = MK((uint32_t)e.n); break; case 3: e.t = 'q'; e.p = MK((uint64_t)e.n); break; case 4: e.t = 'i'; e.n = (uint32_t)e.n; e.p = MK((int32_t)e.n); break; case 5: e.t = 'B'; e.n &= 1; e.p = MK((bool)e.n); break;
    case 6: e.t = 's'; e.s = rnd_bytes(r, r.below(20), 1); w.str.push_back(e.s); e.p = MK(w.str.back().c_str()); break;
    default: { e.t = 'M'; KeyValuePair* m = nullptr; unsigned n = 1 + r.below(4); for (unsigned i = 0; i < n; i++) { const char* k = pool(c, w); w.str.push_back(k); uint16_t v = (uint16_t)r.u32(); e.kids.push_back({k, v}); if (!m) m = new KeyValuePair(w.str.back().c_str(), v); else m->append(v, w.str.back().c_str()); } e.p = MK(m); if (r.chance(1, 2)) e.p->reapValue(true); else w.maps.push_back(m); break; }
  }
  memset((void*)tmp.data(), '#', tmp.size()); return e;
}
static void value(Ctx& c, E& e, const char* what) { int8_t ok = 0; switch (e.t) { case 's': { char* g = nullptr; VF_CHECK(e.p->get_as(&g) == 0 && g && e.s == g, "value", "%s: text changed", what); break; } case 'M': { KeyValuePair* k = e.p->get_as_kvp(&ok); VF_CHECK(ok && k && k->count() == e.kids.size(), "value", "%s: nested map changed", what); for (auto& x : e.kids) { bool first = true; for (auto& y : e.kids) { if (&y == &x) break; if (y.first == x.first) first = false; } if (first) { KeyValuePair* f = k->valueWithKey(x.first.c_str()); VF_CHECK(f && f->get_as_uint() == x.second, "value", "%s: nested entry changed", what); } } break; } case 'i': VF_CHECK(e.p->get_as_int(&ok) == (int32_t)e.n && ok, "value", "%s: integer changed", what); break; case 'B': VF_CHECK(e.p->get_as_bool() == (bool)e.n, "value", "%s: boolean changed", what); break; default: { uint64_t g = e.p->get_as_uint64(&ok); VF_CHECK(g == e.n && ok, "value", "%s: integer changed to %llu from %llu", what, (unsigned long long)g, (unsigned long long)e.n); } } }
static void walk(Ctx& c, L& l, const char* what) {
  size_t i = 0; for (C3PValue* p = l.empty() ? nullptr : l[0].p; p; p = p->nextValue(), i++) { VF_CHECK(i < l.size() && p == l[i].p, "order", "%s: entry %zu is not the one expected", what, i); E& e = l[i]; VF_CHECK(p->has_key() == e.keyed, "key", "%s: keyed is %d", what, p->has_key()); if (e.keyed) { const char* k = ((KeyValuePair*)p)->getKey(); VF_CHECK(e.haskey ? k && e.key == k : !k, "key", "%s: key of entry %zu is %s, should be %s", what, i, k ? quote(k, strlen(k)).c_str() : "null", e.haskey ? quote(e.key.data(), e.key.size()).c_str() : "null"); } VF_CHECK(p->reapContainer() == (i ? e.own : p->reapContainer()), "ownership", "%s: ownership of entry %zu", what, i); value(c, e, what); }
  VF_CHECK(i == l.size(), "count", "%s: %zu entries, should be %zu", what, i, l.size());
}
/* Gives back what a deletion of l[0] leaves to the caller. */
static void gone(L l) { while (!l.empty()) { size_t n = 1; while (n < l.size() && l[n].own) n++; delete l[0].p; l.erase(l.begin(), l.begin() + n); } }
void vf_case(Ctx& c) {
  Rng& r = c.rng; World w; L l; unsigned n = 5 + r.below(85); uint64_t h = 0; C3PValue* root = nullptr; auto start = [&]() { E e = mk(c, w, true); l.push_back(e); root = e.p; }; start(); if (r.chance(1, 200)) { for (unsigned i = 120 + r.below(300); i; i--) { E e = mk(c, w, !r.chance(1, 4)); VF_CHECK(root->link(e.p, true) == e.p, "link", "link() gave something else"); l.push_back(e); } n = 4 + r.below(20); c.count("long_lists"); walk(c, l, "long list"); }
  for (unsigned step = 0; step < n; step++) {
    KeyValuePair* kv = (KeyValuePair*)l[0].p; unsigned k = r.below(20); h = mix(h, mix(k, l.size())); c.feat(mix(k, (l.size() > 1) + 2 * (l.size() > 6)));
    switch (k) {
      case 0: case 1: case 2: { const char* key = pool(c, w); w.str.push_back(key); E e; e.keyed = e.haskey = true; e.key = key; e.own = true; e.seen = 0; e.n = r.u64(); C3PValue* ret; char tmp[700]; strcpy(tmp, key); bool copy = r.chance(1, 2); const char* bk = w.str.back().c_str(); size_t at = r.below((uint32_t)l.size()); KeyValuePair* to = l[at].keyed ? (KeyValuePair*)l[at].p : kv;
#define AP(v) (copy ? to->append(v, tmp) : to->append(v, bk))
        c.op("append %s", quote(key, strlen(key)).c_str()); switch (r.below(7)) { case 0: e.t = 'c'; e.n = (uint8_t)e.n; ret = AP((uint8_t)e.n); break; case 1: e.t = 'h'; e.n = (uint16_t)e.n; ret = AP((uint16_t)e.n); break; case 2: e.t = 'u'; e.n = (uint32_t)e.n; ret = AP((uint32_t)e.n); break; case 3: e.t = 'q'; ret = AP((uint64_t)e.n); break; case 4: e.t = 'i'; e.n = (uint32_t)e.n; ret = AP((int32_t)e.n); break; case 5: e.t = 'B'; e.n &= 1; ret = AP((bool)e.n); break; default: e.t = 's'; e.s = rnd_bytes(r, r.below(20), 1); w.str.push_back(e.s); ret = AP((const char*)w.str.back().c_str()); }
        memset(tmp, '#', sizeof tmp); e.p = l.back().p->nextValue(); VF_CHECK(ret && ret == e.p, "append", "append() gave %p, the end is %p", (void*)ret, (void*)e.p); l.push_back(e); c.count("appends"); break; }
      case 3: case 4: { L m; unsigned cnt = r.chance(1, 4) ? 1 + r.below(4) : 1; for (unsigned i = 0; i < cnt; i++) { E e = mk(c, w, !r.chance(1, 4)); if (i) { e.own = !r.chance(1, 5); m[0].p->link(e.p, e.own); } m.push_back(e); } m[0].own = !r.chance(1, 4); c.op("link %u, owned %d", cnt, m[0].own); size_t at = r.below((uint32_t)l.size()); VF_CHECK(l[at].p->link(m[0].p, m[0].own) == m[0].p, "link", "link() gave something else"); for (auto& e : m) l.push_back(e); c.count(cnt > 1 ? "lists_linked" : "links"); break; }
      case 5: { size_t at = r.below((uint32_t)l.size()); bool d = r.chance(1, 2); C3PValue* p = l[at].p; c.op("drop %zu of %zu, destruct %d", at, l.size(), d); if (at == 0 && l.size() > 1 && !l[1].keyed) break; bool reap = p->reapContainer(); VF_CHECK(root->drop(&root, p, d) == 0, "drop", "drop() of a member failed"); if (!(d && reap)) { VF_CHECK(p->nextValue() == nullptr, "drop", "a dropped value still has followers"); value(c, l[at], "dropped"); delete p; } l.erase(l.begin() + at); c.count(at ? "drops" : "root_drops"); if (l.empty()) { VF_CHECK(root == nullptr, "drop", "dropping the only value left %p", (void*)root); start(); } else VF_CHECK(root == l[0].p, "drop", "the head is wrong"); break; }
      case 6: { E e = mk(c, w, true); VF_CHECK(root->drop(&root, e.p, true) == -1 && root->unlink(e.p, true) == -1, "drop", "a stranger was dropped"); delete e.p; c.count("strangers"); break; }
      case 7: { if (!r.chance(1, 3)) break; size_t at = r.below((uint32_t)l.size()); bool d = r.chance(1, 2); c.op("unlink at %zu of %zu, destruct %d", at, l.size(), d); if (!at) { VF_CHECK(root->unlink(root, d) == -1, "unlink", "a value was unlinked from itself"); break; } C3PValue* p = l[at].p; bool own = l[at].own; L cut(l.begin() + at, l.end()); l.erase(l.begin() + at, l.end()); VF_CHECK(root->unlink(p, d) == 0, "unlink", "unlink() failed"); if (d && own) { size_t q = 1; while (q < cut.size() && cut[q].own) q++; cut.erase(cut.begin(), cut.begin() + q); if (!cut.empty()) walk(c, cut, "left by a cut"); } else walk(c, cut, "cut off"); gone(cut); c.count("cuts"); break; }
      case 8: case 9: { size_t at = r.below((uint32_t)l.size()); E& e = l[at]; if (!e.keyed) break; KeyValuePair* q = (KeyValuePair*)e.p; unsigned m = r.below(5); const char* key = pool(c, w); c.op("set key %zu to %s, mode %u", at, m ? quote(key, strlen(key)).c_str() : "null", m); if (m == 0) { VF_CHECK(q->setKey(r.chance(1, 2) ? (char*)nullptr : nullptr) == 0, "set-key", "setKey(null) failed"); e.haskey = false; e.key = ""; } else if (m < 3 && e.haskey && r.chance(1, 3)) { char* own = q->getKey(); size_t cut = r.chance(1, 2) ? 0 : r.below((uint32_t)strlen(own) + 1); std::string tmp = own + cut; VF_CHECK(q->setKey(own + cut) == 0, "set-key", "setKey() failed"); VF_CHECK(q->getKey() != own + cut, "set-key", "a mutable key was not copied"); e.key = tmp; c.count("own_keys"); } else if (m < 3) { std::string tmp = key; VF_CHECK(q->setKey((char*)tmp.c_str()) == 0, "set-key", "setKey() failed"); VF_CHECK(q->getKey() != tmp.c_str(), "set-key", "a mutable key was not copied"); memset((void*)tmp.data(), '#', tmp.size()); e.haskey = true; e.key = key; } else { w.str.push_back(key); const char* b = w.str.back().c_str(); VF_CHECK(q->setKey(b) == 0, "set-key", "setKey() failed"); VF_CHECK(q->getKey() == b, "set-key", "a constant key was copied"); e.haskey = true; e.key = key; } c.count("key_changes"); break; }
      case 10: case 11: { size_t at = r.below((uint32_t)l.size()); E& e = l[at]; uint64_t v = r.chance(1, 2) ? r.below(200) : r.u64(); int8_t ret; uint16_t was = e.p->trace(); uint16_t seen = was; bool ok = true; switch (e.t) { case 'c': v = (uint8_t)v; ret = e.p->set((uint8_t)v); break; case 'h': v = (uint16_t)v; ret = e.p->set((uint16_t)v); break; case 'u': v = (uint32_t)v; ret = e.p->set((uint32_t)v); break; case 'q': ret = e.p->set((uint64_t)v); break; case 'i': v = (uint32_t)v; ret = e.p->set((int32_t)v); break; case 'B': v &= 1; ret = e.p->set((bool)v); break; default: ok = false; ret = 0; } if (!ok) break; VF_CHECK(ret == 0, "set", "set() of the same type gave %d", ret); e.n = v; VF_CHECK(e.p->dirty(&seen) && !e.p->dirty(&seen) && seen == e.p->trace() && seen != was, "dirty", "a change was not noticed once"); c.count("value_changes"); break; }
      case 12: case 13: case 14: { size_t from = r.below((uint32_t)l.size()); if (!l[from].keyed) break; const char* key = r.chance(1, 3) && l[from].haskey ? l[from].key.c_str() : pool(c, w); KeyValuePair* q = (KeyValuePair*)l[from].p; const E* want = nullptr; for (size_t i = from; i < l.size() && !want; i++) if (l[i].haskey && l[i].key == key) want = &l[i]; KeyValuePair* got = q->valueWithKey(key); VF_CHECK(got == (want ? want->p : nullptr), "look-up", "look-up of %s from %zu of %zu gave %s", quote(key, strlen(key)).c_str(), from, l.size(), got ? "another entry" : "nothing"); c.count(want ? "found" : "not_found"); uint64_t buf = 0xA5A5A5A5A5A5A5A5ull; if (!want) { VF_CHECK(q->valueWithKey(key, &buf) == -1 && buf == 0xA5A5A5A5A5A5A5A5ull, "look-up", "a missing key gave a value"); } else if (strchr("chuqi", want->t)) { int wd = want->t == 'c' ? 1 : want->t == 'h' ? 2 : want->t == 'q' ? 8 : 4; VF_CHECK(q->valueWithKey(key, &buf) == 0, "look-up", "reading by key failed"); uint64_t e2 = 0xA5A5A5A5A5A5A5A5ull; memcpy(&e2, &want->n, wd); VF_CHECK(buf == e2, "look-up", "reading by key gave %llx, should be %llx", (unsigned long long)buf, (unsigned long long)e2); c.count("read_by_key"); } VF_CHECK(q->valueWithKey((const char*)nullptr) == nullptr, "look-up", "a null key was found"); break; }
      case 15: { size_t from = r.below((uint32_t)l.size()); size_t i = r.below((uint32_t)l.size() + 3); C3PValue* got = l[from].p->valueWithIdx((uint32_t)i); VF_CHECK(got == (from + i < l.size() ? l[from + i].p : nullptr), "index", "index %zu from %zu of %zu", i, from, l.size()); uint64_t buf = 0xA5A5A5A5A5A5A5A5ull; if (from + i >= l.size()) VF_CHECK(l[from].p->valueWithIdx((uint32_t)i, &buf) == -1 && buf == 0xA5A5A5A5A5A5A5A5ull, "index", "a missing index gave a value"); else if (l[from + i].t == 'u') { VF_CHECK(l[from].p->valueWithIdx((uint32_t)i, &buf) == 0 && (uint32_t)buf == (uint32_t)l[from + i].n && buf >> 32 == 0xA5A5A5A5u, "index", "reading by index"); } c.count("indexed"); break; }
      case 16: { size_t from = r.below((uint32_t)l.size()); VF_CHECK(l[from].p->count() == l.size() - from, "count", "count() gave %u of %zu", (unsigned)l[from].p->count(), l.size() - from); if (!l[from].keyed) break; StringBuilder ks; std::string want; unsigned m = 0, fr = 0; for (size_t i = from; i < l.size(); i++) if (l[i].haskey) { want += l[i].key; m++; if (!l[i].key.empty()) fr++; } int got = ((KeyValuePair*)l[from].p)->collectKeys(&ks); VF_CHECK((unsigned)got == m, "keys", "%d keys listed, should be %u", got, m); VF_CHECK((unsigned)ks.count() == fr, "keys", "%d keys in the list, should be %u", (int)ks.count(), fr); unsigned j = 0; for (size_t i = from; i < l.size(); i++) if (l[i].haskey && !l[i].key.empty()) { int pl = 0; char* pos = (char*)ks.position((int)j++, &pl); VF_CHECK(pos && std::string(pos, pl) == l[i].key, "keys", "key %u listed is wrong", j - 1); } c.count("keys_listed", m); break; }
      case 17: { size_t from = r.below((uint32_t)l.size()); KeyValuePair* nx = nullptr; for (size_t i = from + 1; i < l.size() && !nx; i++) if (l[i].keyed) nx = (KeyValuePair*)l[i].p; if (l[from].keyed) VF_CHECK(((KeyValuePair*)l[from].p)->nextKVP() == nx, "next", "nextKVP() is wrong"); break; }
      case 18: { size_t from = r.below((uint32_t)l.size()); if (!l[from].keyed) break; StringBuilder o; ((KeyValuePair*)l[from].p)->serialize(&o, TCode::STR); sb_expect(&o, shown(l, from), "printed", "the printed map"); c.count("printed"); break; }
      default: { size_t at = r.below((uint32_t)l.size()); if (l[at].t == 'M') break; StringBuilder o; l[at].p->toString(&o); sb_expect(&o, text(l[at]), "printed", "the printed value"); break; }
    }
    h = mix(h, l.size()); if (step % 8 == 7 || r.chance(1, 6)) walk(c, l, "list"); if (l.size() > 1) c.nontrivial = true;
  }
  walk(c, l, "list"); VF_CHECK(root == l[0].p, "order", "the head moved"); c.hash(&h, sizeof h); size_t n2 = 1; while (n2 < l.size() && l[n2].own) n2++; L rest(l.begin() + n2, l.end()); delete root; if (!rest.empty()) { walk(c, rest, "left by the deletion"); c.count("borrowed_left"); } gone(rest); c.count("deleted", n2);
}
