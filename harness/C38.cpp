/* C38: the logger against a queue of the lines it was given. */
#include "pipes.h"
#include "AbstractPlatform.h"
#include "C3PLogger.h"
const char* VF_PROPERTY = "C38";
const char* VF_RULE = "A case is a history of log calls (whole, through the formatting front end, at all severities, with any tag and text), of changes of verbosity and decorations, and of the sink: taking all, a part, nothing, or replaced, or absent and fetched from. Distinct by the history.";
using namespace vf;
struct Sink : public BufferAccepter {   // Takes what it takes out of the buffer, as the contract has it.
  std::string got; int mode = 1; Rng* r = nullptr; unsigned takes = 0, parts = 0, refusals = 0;
  int8_t pushBuffer(StringBuilder* b) override {
    VF_CHECK(b && b->length() > 0, "empty", "the sink was given nothing"); int n = b->length(); std::string s = sb_read(b); int m = mode == 3 ? (int)r->below(3) : mode;
    if (m == 0) { refusals++; return -1; } if (m == 2 && n > 1) { int t = 1 + r->below(n - 1); got += s.substr(0, t); b->cull(t); parts++; return 0; }
    got += s; takes++; if (r->chance(1, 2)) b->clear(); else { StringBuilder mine; mine.concatHandoff(b); } return 1;
  }
  int32_t bufferAvailable() override { return mode ? 100000 : 0; }
};
static C3PLogger* L = nullptr; static std::string* want = nullptr;
static struct { unsigned n = 0; uint8_t sev = 0; std::string tag, text; } seen;
static void hook(uint8_t sev, const char* tag, StringBuilder* b) { seen.n++; seen.sev = sev; seen.tag = tag; seen.text = sb_read(b); if (L) L->print(sev, tag, b); }
static const char* SEV[] = {"EMERGENCY ", "ALERT     ", "CRITICAL  ", "ERROR     ", "WARNING   ", "NOTICE    ", "INFO      ", "DEBUG     "};
void vf_setup() {}
void vf_case(Ctx& c) {
  Rng& r = c.rng; bool lv = r.chance(1, 2), tm = r.chance(1, 2), tg = r.chance(1, 2); Sink a, b; a.r = b.r = &r; Sink* s = r.chance(1, 4) ? nullptr : &a; unsigned ident = 1; uint8_t verb = LOG_LEV_DEBUG; std::string all, fetched;   // ALL: what was logged and where it went so far is a prefix of it.
  C3PLogger log((lv ? LOGGER_FLAG_PRINT_LEVEL : 0) | (tm ? LOGGER_FLAG_PRINT_TIME : 0) | (tg ? LOGGER_FLAG_PRINT_TAG : 0), s); L = nullptr; log_hook = nullptr; size_t out = 0; std::string delivered; a.mode = r.below(4); b.mode = 1;
  auto collect = [&]() { if (s) { delivered += s->got; s->got.clear(); } };
  auto check = [&](const char* what, bool drained) { collect(); VF_CHECK(delivered.size() <= all.size() && !all.compare(0, delivered.size(), delivered), "order", "after %s: what left isn't what was logged: %s of %s", what, quote(delivered.data() + out, delivered.size() - out).c_str(), quote(all.data() + out, all.size() - out).c_str()); if (drained) VF_CHECK(delivered.size() == all.size(), "held", "after %s: %zu bytes were held back: %s", what, all.size() - delivered.size(), quote(all.data() + delivered.size(), all.size() - delivered.size()).c_str()); out = delivered.size(); };
  auto flags = [&]() { VF_CHECK(log.printSeverity() == lv && log.printTime() == tm && log.printTag() == tg && log.verbosity() == verb, "flags", "severity %d, time %d, tag %d, verbosity %u; should be %d, %d, %d, %u", log.printSeverity(), log.printTime(), log.printTag(), log.verbosity(), lv, tm, tg, verb); };
  flags();
  for (unsigned n = (c.thorough ? 60 : 25) + r.below(20); n; n--) switch (r.below(12)) {
    case 0: { bool v = r.chance(1, 2); unsigned w = r.below(3); c.op("decoration %u %d", w, v); if (w == 0) { log.printSeverity(v); lv = v; } else if (w == 1) { log.printTime(v); tm = v; } else { log.printTag(v); tg = v; } flags(); break; }
    case 1: verb = r.chance(1, 5) ? r.u32() : r.below(9); log.verbosity(verb); c.op("verbosity %u", verb); flags(); break;
    case 2: if (s) { s->mode = r.below(4); c.op("sink mode %d", s->mode); } break;
    case 3: { if (!r.chance(1, 3)) break; collect(); unsigned w = r.below(3); s = w == 0 ? nullptr : w == 1 ? &a : &b; log.setSink(s); c.op("sink %u", w); break; }
    case 4: { if (!r.chance(1, 3)) break; StringBuilder o; std::string pre = rnd_bytes(r, r.below(4), 1); sb_build(r, &o, pre, 2); log.fetchLog(&o); std::string g = sb_read(&o); collect(); delivered += g.substr(std::min(pre.size(), g.size())); VF_CHECK(!g.compare(0, pre.size(), pre), "fetch", "what was in the buffer before is gone"); c.op("fetch: %zu", g.size()); check("fetchLog", true); if (r.chance(1, 4)) log.fetchLog(nullptr); c.count("fetches"); break; }
    case 5: { uint64_t d = r.below(1u << r.below(32)); advance_us(d); c.op("time +%llu", (unsigned long long)d); break; }
    default: {
      uint8_t sev = r.chance(1, 8) ? r.u32() : r.below(9); std::string tag = rnd_bytes(r, r.chance(1, 5) ? r.below(30) : r.chance(1, 30) ? 200 + r.below(400) : r.below(8), 4); for (auto& ch : tag) if (!ch) ch = 'x'; bool front = r.chance(1, 3); const bool vast = r.chance(1, 80); if (vast) c.count("long_lines"); std::string msg = front ? rnd_bytes(r, vast ? 200 + r.below(3000) : r.below(30), 4) : rnd_bytes(r, vast ? (r.chance(1, 4) ? 65400 + r.below(400) : 250 + r.below(3000)) : rnd_len(r) % 300, r.below(3)); long num = (long)(int32_t)r.edgyBits(32, true); std::string full = msg;
      const bool bare = front && r.chance(1, 4); if (bare) { if (r.chance(1, 2)) { msg.clear(); c.count("empty_formatted"); } full = msg; } else if (front) { char t[32]; snprintf(t, sizeof t, " %ld%%", num); full = msg + t; }
      bool wanted = sev <= verb; std::string line; if (wanted) { char t[32]; if (tm) { snprintf(t, sizeof t, "%10u ", (unsigned)millis()); line += t; } if (lv) line += SEV[sev > 7 ? 7 : sev]; if (tg) { ident = std::max(ident, (unsigned)std::min(tag.size(), (size_t)LOG_TAG_MAX_LEN)); std::string q = tag.substr(0, LOG_TAG_MAX_LEN); line += std::string(ident - q.size(), ' ') + q + " "; } line += full + "\n"; }
      c.op("log %u %s %s%s", sev, quote(tag.data(), tag.size(), 30).c_str(), quote(full.data(), full.size(), 40).c_str(), front ? " by format" : ""); bool stuck = s && s->mode == 1; int8_t ret = wanted ? 0 : -1;
      if (front) { L = &log; log_hook = hook; seen.n = 0; if (bare) c3p_log(sev, tag.c_str(), "%s", msg.c_str()); else c3p_log(sev, tag.c_str(), "%s %ld%%", msg.c_str(), num); L = nullptr; log_hook = nullptr; VF_CHECK(seen.n == 1 && seen.sev == sev && seen.tag == tag && seen.text == full, "format", "the platform was handed %u lines, the last %u %s %s, should be %u %s %s", seen.n, seen.sev, quote(seen.tag.data(), seen.tag.size()).c_str(), quote(seen.text.data(), seen.text.size()).c_str(), sev, quote(tag.data(), tag.size()).c_str(), quote(full.data(), full.size()).c_str()); c.count("formatted"); }
      else { StringBuilder m; sb_build(r, &m, msg, vast ? 1000 + r.below(9000) : 1 + r.below(20)); ret = log.print(sev, tag.c_str(), &m); if (!wanted) sb_expect(&m, msg, "unwanted", "a line that wasn't wanted"); }
      VF_CHECK(ret == (wanted ? 0 : -1), "return", "print(%u) at verbosity %u returned %d", sev, verb, ret); all += line; c.count(wanted ? "lines" : "lines_below"); check("print", wanted && stuck); c.feat(mix(mix(lv * 4 + tm * 2 + tg, wanted), mix(s ? s->mode : 9, delivered.size() == all.size()))); c.nontrivial = true;
    }
  }
  collect(); log.setSink(nullptr); StringBuilder o; log.fetchLog(&o); delivered += sb_read(&o); check("the end", true); c.count("parts", a.parts + b.parts); c.count("refusals", a.refusals + b.refusals); c.count("takes", a.takes + b.takes);
}
