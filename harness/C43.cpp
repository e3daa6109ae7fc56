/* C43: C3PTrace against a list of points and a table of paths. */
#include "sbmodel.h"
#include "TimerTools/C3PTrace.h"
#include "C3PValue/C3PValue.h"
#include "cborref.h"
#include <deque>
#include <map>
#include <string>
const char* VF_PROPERTY = "C43";
const char* VF_RULE = "A case is one trace store (room for 1 to 40 points) and a history of points of interest, path starts and stops on up to 64 paths and several places, recording on and off, resets and exports, on a clock that may wrap; also points and one path by themselves, and their CBOR. Distinct by the calls made.";
using namespace vf;
void vf_setup() { VF_CHECK(C3PTrace::tracerTool != nullptr && !C3PTrace::tracerTool->recording(), "singleton", "the global tracer is missing or records unasked"); }
struct St { uint32_t n = 0, total = 0, worst = 0, best = 0xFFFFFFFF, last = 0; };
struct Path { bool open = false; uint32_t ts = 0, word = 0; std::map<uint32_t, St> stops; };
static std::string place(uint32_t w) { char b[32]; snprintf(b, sizeof b, "F%03u-L%05u", (w >> 14) & 0x1FF, w & 0x3FFF); return b; }
void vf_case(Ctx& c) {
  Rng& r = c.rng; bool hit0 = false, first0 = false; switch (r.below(3)) { case 0: now_us = r.chance(1, 3) ? 0 : 1 + r.below(100000); first0 = now_us == 0; break; case 1: now_us = 0x100000000ULL - r.below(20000); break; default: now_us = 1 + r.u32(); }
  const bool vast = r.chance(1, 100); if (vast) c.count("long_traces"); const unsigned cap = 1 + r.below(vast ? 600 : r.chance(1, 2) ? 6 : 40), np = vast ? 1 + r.below(2) : 1 + r.below(r.chance(1, 4) ? 64 : 4); C3PTrace t(cap); std::deque<std::pair<uint32_t, uint32_t>> pts; std::map<unsigned, Path> paths; bool rec = false;
  const unsigned ns = vast ? 200 + r.below(300) : 6; std::vector<uint32_t> spots(ns); for (uint32_t& s : spots) s = r.u32() & 0x7FFFFF; uint8_t ids[64]; for (unsigned i = 0; i < 64; i++) ids[i] = (uint8_t)i; for (int i = 63; i > 0; i--) std::swap(ids[i], ids[r.below(i + 1)]);
  c.op("trace of %u at %u", cap, (uint32_t)now_us); VF_CHECK(!t.recording(), "recording", "records unasked"); const int N = vast ? 600 + r.below(2500) : 30 + r.below(120);
  for (int k = 0; k < N; k++) {
    if (first0 && k < 6 && r.chance(2, 3)) c.count("at_zero"); else if (r.chance(1, 6)) c.count("same_instant"); else now_us += 1 + r.below(1u << (1 + r.below(16))); if ((now_us >> 32) && (uint32_t)now_us < 70000 && r.chance(1, 2) && !hit0) { hit0 = true; now_us &= ~0xFFFFFFFFULL; }
    switch (r.below(14)) {
      case 0: case 1: { bool on = rec ? r.chance(2, 3) : r.chance(5, 6); c.op("record %d", on); VF_CHECK(t.recording(on), "recording", "recording(%d) failed", on); rec = on; break; }
      case 2: if (r.chance(1, vast ? 150 : 5)) { c.op("reset"); t.reset(); pts.clear(); paths.clear(); c.count("resets"); } break;
      case 3: case 4: { if (vast && r.chance(9, 10)) break;
        StringBuilder o; t.serialize(&o, TCode::STR); std::string s((char*)o.string(), o.length()), want; for (auto& p : pts) want += place(p.second) + ":\t" + std::to_string(p.first) + "\n"; c.op("export");
        VF_CHECK(s.compare(0, want.size(), want) == 0, "points", "the export starts %s, should start %s", quote(s.data(), s.size() < 300 ? s.size() : 300, 300).c_str(), quote(want.data(), want.size(), 300).c_str());
        if (paths.empty() ) VF_CHECK(s.size() == want.size(), "points", "the export of %zu points goes on", pts.size());
        size_t n_open = 0, n_heads = 0; for (auto& p : paths) { if (!p.second.open) continue; n_open++; std::string h = "TracePath from " + place(p.second.word) + ":\t" + std::to_string(p.second.ts); size_t at = s.find(h); VF_CHECK(at != std::string::npos, "path-export", "no section [%s]", h.c_str());
          std::string sec, miss; bool all = false;   // Paths opened at the same place in the same instant have the same heading.
          for (; at != std::string::npos && !all; at = s.find(h, at + 5)) { size_t end = s.find("TracePath from", at + 5); sec = s.substr(at, end == std::string::npos ? end : end - at); all = true;
            for (auto& e : p.second.stops) { St& x = e.second; char b[160]; snprintf(b, sizeof b, "%14s %10u %10u %10u %10u %10u %10u\n", place(e.first).c_str(), x.n, x.total, x.total / x.n, x.worst, x.best, x.last); if (sec.find(b) == std::string::npos) { all = false; miss = b; } else c.count("path_times_seen"); } }
          VF_CHECK(all, "path-times", "no line [%s] in %s", miss.c_str(), sec.c_str());
          }
        for (size_t q = s.find("TracePath from"); q != std::string::npos; q = s.find("TracePath from", q + 1)) n_heads++; VF_CHECK(n_heads == n_open, "path-export", "%zu open paths are exported, there are %zu", n_heads, n_open); c.count("exports"); break; }
      default: {
        const uint32_t spot = spots[r.below(ns)], act = r.chance(1, 12) ? 3 + r.below(5) : r.below(3), id = ids[r.below(np)]; const uint32_t word = (act << 29) | (id << 23) | spot, ts = (uint32_t)now_us; c.op("trace %u path %u at %06x", act, id, spot); t.leave_trace(word);
        if (!rec) { c.count("ignored"); break; }
        if (pts.size() == cap) { pts.pop_front(); c.count("points_displaced"); } pts.push_back({ts, spot}); c.count("points");
        if (act == 1) { Path& p = paths[id]; if (!p.open) { p.open = true; p.ts = ts; p.word = spot; c.count("starts"); if (!ts) c.count("starts_at_zero"); } else c.count("starts_repeated"); }
        else if (act == 2) { Path& p = paths[id]; if (p.open) { St& s = p.stops[spot]; uint32_t d = ts - p.ts; s.n++; s.total += d; s.last = d; if (d > s.worst) s.worst = d; if (d < s.best) s.best = d; p.open = false; c.count("stops"); if (ts < p.ts) c.count("across_wrap"); } else c.count("stops_idle"); } }
    }
    VF_CHECK(t.recording() == rec, "recording", "recording() is %d", (int)t.recording()); c.feat(mix(mix(rec, pts.size() == cap), paths.size()));
  }
  { TracePath p((uint8_t)r.below(64)); bool open = false; uint32_t t0 = 0, w0 = 0; std::map<uint32_t, StopWatch*> w; auto wipe = [&]() { for (auto& e : w) delete e.second; w.clear(); };   // One path by itself.
    for (int k = 0; k < 12; k++) { uint32_t spot = spots[r.below(ns)], ts = r.chance(1, 4) ? r.below(3) : 1 + r.below(0xFFFFFFFFu); TracePoint q(ts, spot); StringBuilder o; o.concat("<"); int g;
      switch (r.below(5)) { case 0: case 1: { bool ok = p.recordStart(spot, &q); VF_CHECK(ok == !open, "path-code", "starting a path that is %s gave %d", open ? "open" : "not open", ok); if (!open) { open = true; t0 = ts; w0 = spot; } break; }
        case 2: { bool ok = p.recordStop(spot, &q); VF_CHECK(ok == open, "path-code", "stopping a path that is %s gave %d", open ? "open" : "not open", ok); if (open) { StopWatch*& s = w[spot]; if (!s) s = new StopWatch(spot); s->addRuntime(t0, ts); } open = false; break; }
        case 3: if (r.chance(1, 3)) { p.reset(); open = false; wipe(); } break;
        default: { g = p.serialize(&o, TCode::CBOR); std::string s = sb_read(&o), e = "<"; if (!open) { VF_CHECK(g == -1 && s == e, "path-cbor", "a path that isn't open was encoded"); break; } VF_CHECK(g == 0, "path-cbor", "encoding gave %d", g); auto key = [&](const char* k) { cb::head(e, 3, strlen(k)); e += k; }; cb::head(e, 5, 2); key("start"); cb::head(e, 0, w0); key("stops"); cb::head(e, 4, w.size());
          size_t at = e.size(); VF_CHECK(s.compare(0, at, e) == 0, "path-cbor", "the encoding starts %s, should %s", hex(s.data(), std::min<size_t>(s.size(), 60)).c_str(), hex(e.data(), at).c_str()); std::string rest = s.substr(at); size_t len = 0;   // The stops come in any order.
          for (auto& x : w) { std::string i; cb::head(i, 5, 2); cb::head(i, 3, 3); i += "pnt"; cb::head(i, 0, x.first); cb::head(i, 3, 4); i += "prof"; StringBuilder ws; getTypeHelper(TCode::STOPWATCH)->serialize(x.second, &ws, TCode::CBOR); i += sb_read(&ws); len += i.size(); VF_CHECK(rest.find(i) != std::string::npos, "path-cbor", "no stop %s in %s", hex(i.data(), i.size()).c_str(), hex(rest.data(), rest.size()).c_str()); c.count("path_stops_encoded"); } VF_CHECK(len == rest.size(), "path-cbor", "%zu bytes of stops, should be %zu", rest.size(), len); c.count("paths_encoded"); } } }
    wipe(); }
  { TracePoint q(r.u32(), r.u32()); StringBuilder o; VF_CHECK(q.serialize(&o, TCode::STR) == 0, "points", "writing a point as a string gave an error"); o.clear(); q.serialize(&o, TCode::CBOR); std::string e; cb::head(e, 5, 3); e += "aF"; cb::head(e, 0, (q.trace_word >> 14) & 0x1FF); e += "aL"; cb::head(e, 0, q.trace_word & 0x3FFF); e += "aT"; cb::head(e, 0, q.ts_micros); sb_expect(&o, e, "point-cbor", "a point"); VF_CHECK(q.lineID() == (q.trace_word & 0x3FFF) && q.fileID() == ((q.trace_word >> 14) & 0x1FF), "points", "point %08x reads as %u:%u", q.trace_word, q.fileID(), q.lineID()); }
  TracePoint a(123, 0x7FFFFF), b(&a); VF_CHECK(a.lineID() == 0x3FFF && a.fileID() == 0x1FF && b.ts_micros == 123 && b.trace_word == 0x7FFFFF, "points", "a point reads wrongly"); c.nontrivial = true;
}
