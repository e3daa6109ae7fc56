/* C25: concurrent search, against a naive one. */
#include "sbmodel.h"
#include "MultiStringSearch.h"
const char* VF_PROPERTY = "C25";
const char* VF_RULE = "A case is up to 8 needles (overlapping, repeated, prefixes of each other, binary) and up to 6 searches of ranges of fragmented texts that contain them, each continued until it ends. Distinct by needles, text and range.";
using namespace vf;
void vf_setup() {}
void vf_case(Ctx& c) {
  Rng& r = c.rng; unsigned cap = 1 + r.below(8); MultiStringSearch* s = new MultiStringSearch((uint8_t)cap); std::vector<std::string> needle; int alpha = r.chance(1, 3) ? 0 : 2; static char mem[16][64]; size_t mn = 0, mx = 0;
  auto add = [&]() { std::string n; if (needle.size() && r.chance(1, 2)) { n = needle[r.below((uint32_t)needle.size())]; if (r.chance(1, 3)) n += rnd_bytes(r, 1 + r.below(3), alpha); else if (n.size() > 1) n = n.substr(r.below(2), 1 + r.below((uint32_t)n.size() - 1)); } else n = rnd_bytes(r, 1 + r.below(r.chance(1, 4) ? 12 : 4), alpha); if (n.size() > 40) n.resize(40);
    int8_t ret; if (r.chance(1, 12)) { ret = s->addSearchTerm(r.chance(1, 2) ? nullptr : (const uint8_t*)"x", r.chance(1, 2) ? 0 : -3); VF_CHECK(ret == -1, "bad-term", "a bad search term gave %d", ret); ret = s->addSearchTerm(nullptr, 4); VF_CHECK(ret == -1, "bad-term", "a null search term gave %d", ret); }
    memcpy(mem[needle.size() % 16], n.data(), n.size()); ret = s->addSearchTerm((uint8_t*)mem[needle.size() % 16], (int)n.size()); VF_CHECK(ret == (needle.size() < cap ? 0 : -2), "add-term", "term %zu of %u gave %d", needle.size() + 1, cap, ret); if (ret == 0) { c.op("needle %s", quote(n.data(), n.size()).c_str()); if (needle.empty() || n.size() < mn) mn = n.size(); if (n.size() > mx) mx = n.size(); needle.push_back(n); } else c.count("terms_refused");
    VF_CHECK(s->needlesDefined() == needle.size() && s->minNeedleLength() == (int)mn && s->maxNeedleLength() == (int)mx, "term-census", "%u needles of %d to %d bytes, should be %zu of %zu to %zu", s->needlesDefined(), s->minNeedleLength(), s->maxNeedleLength(), needle.size(), mn, mx); };
  VF_CHECK(s->needlesDefined() == 0 && s->minNeedleLength() == 0 && s->maxNeedleLength() == 0 && !s->searchRunning(), "fresh", "a new search isn't empty"); unsigned n0 = 1 + r.below(cap + (r.chance(1, 5) ? 1 : 0)); for (unsigned i = 0; i < n0; i++) add();
  const bool many = r.chance(1, 60); unsigned searches = many ? 1 : 1 + r.below(6);
  for (unsigned q = 0; q < searches; q++) {
    if (q && r.chance(1, 4)) add();
    std::string t; unsigned parts = r.below(14); for (unsigned i = 0; i < parts; i++) { if (r.chance(1, 3)) t += rnd_bytes(r, r.below(6), alpha); else if (r.chance(1, 4)) t += needle[r.below((uint32_t)needle.size())].substr(0, 1 + r.below(3)); else t += needle[r.below((uint32_t)needle.size())]; } if (many) while (t.size() < 700) t += needle[r.below((uint32_t)needle.size())]; const bool far = !many && r.chance(1, 300); if (far) { t = std::string(r.chance(1, 2) ? 100 + r.below(400) : 65500 + r.below(3000), '\x7f') + t; c.count("far_texts"); } StringBuilder sb; sb_build(r, &sb, t, far ? 70000 : 1 + (int)r.below(many ? 3 : 7));
    if (t.empty()) { VF_CHECK(s->runSearch(&sb, 0) == -3 && s->runSearch(&sb, 10) == -3, "bad-search", "a search of nothing was started"); continue; }
    int off = r.chance(1, 2) ? 0 : (int)r.below((uint32_t)t.size()), len = r.chance(1, 2) ? (int)t.size() - off : 1 + (int)r.below((uint32_t)(t.size() - off));
    if (r.chance(1, 6)) { VF_CHECK(s->runSearch(nullptr, 5) == -1, "bad-search", "a search of null was started"); VF_CHECK(s->runSearch(&sb, 0, off) == -3 && s->runSearch(&sb, len, -1) == -3 && s->runSearch(&sb, (int)t.size() - off + 1, off) == -3 && s->runSearch(&sb, INT32_MAX - (int)r.below(3), off) == -3 && s->runSearch(&sb, len, INT32_MAX - (int)r.below(3)) == -3, "bad-search", "a search outside the text was started"); VF_CHECK(!s->searchRunning() && s->lastMatch() == nullptr && s->needlesFound() == 0, "bad-search", "a refused search left a state"); c.count("bad_searches"); }
    c.op("search %s from %d, %d bytes", quote(t.data(), t.size()).c_str(), off, len); c.hash(t.data(), t.size()); c.hash(&off, sizeof off); c.hash(&len, sizeof len);
    int ret = s->runSearch(&sb, len, off); size_t cur = off, end = off + len; unsigned found = 0; bool over = false;
    for (unsigned k = 0; k < 900; k++) {
      std::string txt = t.substr(0, end); size_t best = std::string::npos, bl = 0; for (auto& n : needle) { size_t p = cur < end ? txt.find(n, cur) : std::string::npos; if (p == std::string::npos) continue; if (p < best || (p == best && n.size() > bl)) { best = p; bl = n.size(); } }
      bool amb = false; if (best != std::string::npos) for (auto& n : needle) for (size_t p = cur; p < best + bl; p++) if (end - p < n.size() && txt.compare(p, std::string::npos, n, 0, end - p) == 0) amb = true; if (over) { amb = false; best = std::string::npos; }
      VF_CHECK(ret == 0 || ret == 1, "return", "a search gave %d", ret); VF_CHECK(ret == 0 || best != std::string::npos, "phantom", "a match was reported and there is none"); VF_CHECK(ret == 1 || best == std::string::npos || amb, "missed", "no match was reported from %zu on, and there is one at %zu", cur, best); if (!over && cur < end) for (auto& n : needle) if (n.size() > end - cur && n.compare(0, end - cur, t, cur, end - cur) == 0) { VF_CHECK(ret == 0, "cut-off", "a match was reported in %zu bytes that are the beginning of a longer needle", end - cur); if (best != std::string::npos) c.count("cut_off_needles"); break; } StrSearchDef* m = s->lastMatch(); VF_CHECK((m != nullptr) == (ret == 1), "last-match", "lastMatch() is %s after %d", m ? "set" : "null", ret);
      if (ret == 1) { std::string n((const char*)m->SEARCH_STR, m->SEARCH_STR_LEN); VF_CHECK(m->offset_start == (int)best && n.size() == bl && m->offset_end == (int)(best + bl) && t.compare(best, bl, n) == 0, "wrong-match", "reported %s at %d to %d, should be %zu bytes at %zu", quote(n.data(), n.size()).c_str(), m->offset_start, m->offset_end, bl, best); VF_CHECK(m->searchHit(), "hit", "a match isn't a hit"); found++; cur = best + bl; c.count("matches"); c.nontrivial = true; c.feat(mix(bl, mix(best % 7, needle.size()))); } else { if (amb) c.count("cut_off_tails"); over = true; c.count(found ? "searches_with_matches" : "searches_without"); }
      VF_CHECK(s->needlesFound() == found, "found", "needlesFound() is %u, should be %u", s->needlesFound(), found); sb_expect(&sb, t, "subject", "the subject"); if (found == 300) c.count("many_matches"); if (over) VF_CHECK(!s->searchRunning() || needle.empty(), "ended", "a search that ended is running"); else VF_CHECK(s->searchRunning() == (cur < end), "running", "searchRunning() is wrong with %zu bytes ahead", end - cur); if (!over && r.chance(1, 10)) VF_CHECK(s->runSearch(&sb, len, off) == -2, "busy", "a search was started while another is running");
      if (over && k && r.chance(1, 2)) break; if (!over && r.chance(1, many ? 900 : 30)) { c.count("abandoned"); break; } ret = s->continueSearch(); if (over && ret) { VF_CHECK(false, "ended", "a search that ended was continued"); } if (over) break;
    }
    if (r.chance(1, 4)) { StringBuilder o; s->printDebug(&o); VF_CHECK(o.length() > 0, "print", "nothing printed"); } s->unresolvedSearches(); VF_CHECK(s->runSearch(&sb, len, off) == -2, "busy", "a search was started before the last one was reset"); s->reset(); VF_CHECK(!s->searchRunning() && s->needlesFound() == 0 && s->lastMatch() == nullptr && s->resolvedLength() == 0 && s->unresolvedSearches() == 0 && s->needlesDefined() == needle.size(), "reset", "reset() left something");
  }
  delete s; if (r.chance(1, 50)) { static const std::string big(70000, 'b'); MultiStringSearch l(3); size_t a = 30000 + r.below(40000), b = 30000 + r.below(40000); VF_CHECK(l.addSearchTerm((const uint8_t*)big.data(), (int)a) == 0 && l.addSearchTerm((const uint8_t*)big.data(), (int)b) == 0 && l.minNeedleLength() == (int)std::min(a, b) && l.maxNeedleLength() == (int)std::max(a, b), "term-census", "needles of %zu and %zu bytes are said to be of %d to %d", a, b, l.minNeedleLength(), l.maxNeedleLength()); c.count("long_needles"); }
}
