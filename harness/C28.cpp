/* C28: ParsingConsole against a reference console. */
#include "pipes.h"
#include "Console/C3PConsole.h"
#include <deque>
const char* VF_PROPERTY = "C28";
const char* VF_RULE = "A case is a console with up to 12 command definitions, one line terminator at a time and up to 60 operations: pushes of typed text cut anywhere (lines with extra spaces, unknown and short commands, shortcuts, backspaces, lone halves of terminators, overlong input), changed settings, history and log reads, an attached or detached output. Distinct by definitions, settings and input.";
using namespace vf;
void vf_setup() {}
namespace {
struct Def { std::string name, help, param; char sc; int req; int fn; };
struct Call { int fn; std::vector<std::string> args; };
struct Model;
ParsingConsole* CON; Model* M; std::vector<Call>* seen; std::vector<int>* rets;
int handler(int fn, StringBuilder* out, StringBuilder* args);
template<int N> int H(StringBuilder* o, StringBuilder* a) { return handler(N, o, a); }
int Hconf(StringBuilder* o, StringBuilder* a) { seen->push_back({100, {}}); return CON->console_handler_conf(o, a); }
int Hhelp(StringBuilder* o, StringBuilder* a) { seen->push_back({101, {}}); return CON->console_handler_help(o, a); }
const consoleCallback FN[] = {H<0>, H<1>, H<2>, H<3>, H<4>, H<5>};

struct OutSink : public BufferAccepter {   // 1: claims, 0: takes a copy, -1: refuses.
  std::string got; int mode = 1; int32_t avail = 7; unsigned pushes = 0;
  int8_t pushBuffer(StringBuilder* b) override { pushes++; std::string s = sb_read(b); if (mode < 0) return -1; got += s; if (mode == 1) { b->clear(); } return (int8_t)mode; }
  int32_t bufferAvailable() override { return avail; }
};
std::string hdr2(const std::string& s) { StringBuilder o; StringBuilder::styleHeader2(&o, s.c_str()); return sb_read(&o); }
bool sp(char c) { return isspace((unsigned char)c); }
std::string cstr(const std::string& s) { return s.substr(0, s.find('\0')); }
std::string trimmed(const std::string& s) { size_t i = 0, j = s.size(); while (i < j && sp(s[i])) i++; while (j > i && sp(s[j - 1])) j--; return s.substr(i, j - i); }
std::string lower(std::string s) { for (auto& ch : s) if (ch >= 'A' && ch <= 'Z') ch += 32; return s; }
const char* TERM[] = {"\0", "\r", "\n", "\r\n"};
std::string term(int t) { return t == 0 ? std::string(1, '\0') : std::string(TERM[t]); }
const char* TERMNAME(int t) { return lineTerminatorNameStr((LineTerm)t); }

struct Model {
  std::vector<Def> defs; unsigned maxlen; int rx = 2; bool echo = false, prompt = false, force = false, hfail = false, helpfail = false, color = false; std::string promptstr; bool has_prompt = false; unsigned depth = 8;
  std::deque<std::string> hist; std::string buf, resp, out; OutSink* sink = nullptr; std::vector<Call> calls; std::vector<int> pending_rets; size_t maxcmd = 0;
  void relay() { if (!resp.empty() && sink) { if (sink->mode < 0) return; out += resp; resp.clear(); } }
  int lookup(const std::string& s) { for (size_t i = 0; i < defs.size(); i++) if (lower(defs[i].name) == lower(s)) return (int)i; if (s.size() == 1) for (size_t i = 0; i < defs.size(); i++) if (defs[i].sc == s[0]) return (int)i; return -1; }
  std::string detail(const Def& d) { return hdr2("Help: " + d.name) + d.help + "\nUsage: \n" + d.param + "\n"; }
  std::string helptext() { std::string o = hdr2("Help"); for (auto& d : defs) { std::string n = d.name; while (n.size() < maxcmd + 2) n += ' '; o += n + " " + (d.sc ? std::string("(") + d.sc + ")" : std::string("   ")) + "   " + d.help + "\n"; } return o; }
  std::string histtext() { std::string o = hdr2("History"); for (size_t i = 0; i < hist.size(); i++) o += "\t" + std::to_string(i) + ":  " + hist[i] + "\n"; return o; }
  void cull() { while (hist.size() > depth) hist.pop_front(); }
  void exec(const std::string& line, Ctx& c);
  void push(const std::string& s, Ctx& c) {
    size_t i = 0; if (s.empty()) { process(c); return; }
    while (i < s.size()) {
      if (s[i] == 8) { if (echo) { resp += "\b \b"; relay(); } if (!buf.empty()) { buf.pop_back(); c.count("backspaces with something to erase"); } i++; continue; }
      size_t j = s.find('\b', i); if (j == std::string::npos) j = s.size(); std::string seg = s.substr(i, j - i); i = j; if (echo) { resp += seg; relay(); } buf += seg; process(c);
    }
  }
  void process(Ctx& c) {
    if (buf.size() > maxlen) { buf.clear(); c.count("overlong inputs dropped"); relay(); return; }
    for (;;) { std::string t = term(rx); size_t p = buf.find(t); if (p == std::string::npos) break; std::string l = trimmed(cstr(buf.substr(0, p))); buf.erase(0, p + t.size()); c.count("lines ended"); if (l.empty()) { c.count("blank lines"); continue; } exec(l, c); if (prompt && has_prompt) resp += "\n" + promptstr; }
    relay();
  }
};
std::vector<std::string> toks(const std::string& s) { std::vector<std::string> v; size_t i = 0; while (i < s.size()) { if (s[i] == ' ') { i++; continue; } size_t j = s.find(' ', i); if (j == std::string::npos) j = s.size(); v.push_back(s.substr(i, j - i)); i = j; } return v; }
int hret(int fn, const std::vector<std::string>& args) { if (fn == 3) return -1; if (fn == 4) return args.size() > 1 ? 1 : 0; return 0; }
std::string hout(int fn, const std::vector<std::string>& args) { if (fn == 5) return ""; std::string o = "[" + std::to_string(fn); for (auto& a : args) o += "|" + a; return o + "]"; }
int handler(int fn, StringBuilder* out, StringBuilder* args) {
  std::vector<std::string> a; int n = args->count(); for (int i = 0; i < n; i++) a.push_back(args->position(i)); seen->push_back({fn, a}); std::string o = hout(fn, a); if (!o.empty()) out->concat((uint8_t*)o.data(), (int)o.size()); return hret(fn, a);
}
void Model::exec(const std::string& line, Ctx& c) {
  std::vector<std::string> t = toks(line); std::string cmd = trimmed(t[0]); int d = lookup(cmd); bool ok = false;
  if (d < 0) { resp += "Command '" + cmd + "' not supported.\n"; c.count("unknown commands"); }
  else {
    Def& D = defs[d]; t.erase(t.begin()); if (lower(D.name) != lower(cmd)) c.count("commands by shortcut"); else if (D.name != cmd) c.count("commands in another case");
    if ((int)t.size() < D.req) { resp += "Command '" + D.name + "' requires " + std::to_string(D.req) + " arguments. Only " + std::to_string(t.size()) + " provided.\n" + detail(D); c.count("commands with too few arguments"); }
    else {
      ok = true; resp += "\n"; int rc = 0;
      if (D.fn < 100) { calls.push_back({D.fn, t}); resp += hout(D.fn, t); rc = hret(D.fn, t); }
      else if (D.fn == 101) { calls.push_back({101, {}}); if (t.empty()) resp += helptext(); else { int k = lookup(trimmed(t[0])); resp += k < 0 ? "Command '" + trimmed(t[0]) + "' not supported.\n" : detail(defs[k]); } }
      else {
        calls.push_back({100, {}}); std::string k = t.empty() ? "" : lower(trimmed(t[0])); int a1 = t.size() > 1 ? atoi(t[1].c_str()) : 0; bool has = t.size() > 1;
        if (k == "echo") { if (has) echo = a1 != 0; resp += std::string("Console RX echo ") + (echo ? "en" : "dis") + "abled.\n"; }
        else if (k == "history") { if (!has) resp += histtext(); else { std::string s2 = lower(trimmed(t[1])); if (s2 == "clear") { hist.clear(); resp += "History cleared.\n"; } else if (s2 == "depth") { if (t.size() > 2) { depth = (uint8_t)atoi(t[2].c_str()); cull(); } resp += "History depth: " + std::to_string(depth) + "\n"; } else if (s2 == "logerrors") { if (t.size() > 2) hfail = atoi(t[2].c_str()) != 0; resp += std::string("History ") + (hfail ? "in" : "ex") + "cludes failed commands.\n"; } else resp += "Valid options are [clear|depth|logerrors]\n"; } }
        else if (k == "help-on-fail") { if (has) helpfail = a1 != 0; resp += std::string("Console prints command help on failure: ") + (helpfail ? "yes" : "no") + ".\n"; }
        else if (k == "prompt") { if (has) prompt = a1 != 0; resp += std::string("Console autoprompt ") + (prompt ? "en" : "dis") + "abled.\n"; }
        else if (k == "force") { if (has) force = a1 != 0; resp += std::string("Console force-return ") + (force ? "en" : "dis") + "abled.\n"; }
        else if (k == "rxterm") { bool bad = false; if (has) { if (a1 >= 0 && a1 < 4) rx = a1; else bad = true; } resp += std::string("Console RX terminator: ") + TERMNAME(rx) + "\n"; if (bad) resp += "Terminator options:\n\t0: ZEROBYTE\n\t1: CR\n\t2: LF\n\t3: CRLF\n"; }
        else rc = -1;
        c.count("settings changed by command");
      }
      if (rc != 0 && helpfail) { resp += detail(D); relay(); }
      c.count("commands run"); if (rc) c.count("commands run that failed");
    }
  }
  if (ok || hfail) { hist.push_back(line); cull(); }
}
struct W {
  Ctx& c; Rng& r; ParsingConsole* con; Model m; OutSink sink, sink2; std::vector<Call> calls; std::string fetched; std::vector<std::string> names;
  void check(const char* what) {
    VF_CHECK(calls.size() == m.calls.size(), "calls", "%s: %u handler calls so far, should be %u", what, (unsigned)calls.size(), (unsigned)m.calls.size());
    for (size_t i = 0; i < calls.size(); i++) {
      VF_CHECK(calls[i].fn == m.calls[i].fn, "called", "%s: call %u went to handler %d, should be %d", what, (unsigned)i, calls[i].fn, m.calls[i].fn);
      VF_CHECK(calls[i].args.size() == m.calls[i].args.size(), "argument-count", "%s: call %u of handler %d had %u arguments, should be %u", what, (unsigned)i, calls[i].fn, (unsigned)calls[i].args.size(), (unsigned)m.calls[i].args.size());
      for (size_t k = 0; k < calls[i].args.size(); k++) VF_CHECK(calls[i].args[k] == m.calls[i].args[k], "argument", "%s: call %u of handler %d, argument %u is %s, should be %s", what, (unsigned)i, calls[i].fn, (unsigned)k, quote(calls[i].args[k].data(), calls[i].args[k].size()).c_str(), quote(m.calls[i].args[k].data(), m.calls[i].args[k].size()).c_str());
    }
    calls.clear(); m.calls.clear();
    std::string got = sink.got; VF_CHECK(got == m.out, "output", "%s: output sent on is %s, should be %s", what, quote(got.data(), got.size(), 700).c_str(), quote(m.out.data(), m.out.size(), 700).c_str()); sink.got.clear(); m.out.clear();
    VF_CHECK(con->logLength() == m.resp.size(), "logLength", "%s: logLength() is %u, should be %u", what, (unsigned)con->logLength(), (unsigned)m.resp.size());
    VF_CHECK(con->historyDepth() == m.hist.size(), "historyDepth", "%s: historyDepth() is %u, should be %u", what, con->historyDepth(), (unsigned)m.hist.size()); VF_CHECK(con->maxHistoryDepth() == m.depth, "maxHistoryDepth", "%s: is %u, should be %u", what, con->maxHistoryDepth(), m.depth);
    VF_CHECK(con->localEcho() == m.echo, "localEcho", "%s: should be %d", what, m.echo); VF_CHECK(con->emitPrompt() == m.prompt, "emitPrompt", "%s: should be %d", what, m.prompt); VF_CHECK(con->forceReturn() == m.force, "forceReturn", "%s: should be %d", what, m.force);
    VF_CHECK(con->historyFail() == m.hfail, "historyFail", "%s: should be %d", what, m.hfail); VF_CHECK(con->printHelpOnFail() == m.helpfail, "printHelpOnFail", "%s: should be %d", what, m.helpfail); VF_CHECK(con->hasColor() == m.color, "hasColor", "%s: should be %d", what, m.color); VF_CHECK((int)con->getRXTerminator() == m.rx, "rxterminator", "%s: is %d, should be %d", what, (int)con->getRXTerminator(), m.rx);
  }
  void hist() { StringBuilder o; con->printHistory(&o); sb_expect(&o, m.histtext(), "history", "printHistory()"); c.count("histories read"); }
  void fetch() { StringBuilder o; std::string pre; if (r.chance(1, 4)) { pre = "before"; o.concat("before"); } con->fetchLog(&o); sb_expect(&o, pre + m.resp, "log", "fetchLog()"); m.resp.clear(); c.count("logs fetched"); }
  std::string word() {
    switch (r.below(8)) { case 0: { std::string s; int n = 1 + r.below(6); for (int i = 0; i < n; i++) s += "abcXYZ019-_.,%'\""[r.below(16)]; return s; } case 1: return std::to_string((int)r.below(5)); case 2: return r.chance(1, 2) ? "depth" : "clear"; case 3: return std::to_string((int64_t)r.edgyBits(9, true)); case 4: return r.chance(1, 2) ? "history" : "echo"; case 5: return names.empty() ? "q" : names[r.below(names.size())]; case 6: return "%s%n\\"; default: return std::string(1 + r.below(12), 'w'); }
  }
  std::string cmdword() {
    if (names.empty() || r.chance(1, 8)) return word(); Def& d = m.defs[r.below(m.defs.size())]; std::string s = d.name;
    switch (r.below(8)) { case 0: if (d.sc) return std::string(1, d.sc); break; case 1: if (s.size() > 1) s.pop_back(); break; case 2: s += "x"; break; case 3: if (d.sc) return std::string(1, (char)(isupper(d.sc) ? tolower(d.sc) : toupper(d.sc))); break; case 4: case 5: for (auto& ch : s) if (r.chance(1, 2)) ch = (char)(isupper(ch) ? tolower(ch) : toupper(ch)); break; default: break; } return s;
  }
  std::string gap() { switch (r.below(8)) { case 0: return "  "; case 1: return std::string(1 + r.below(4), ' '); case 2: return r.chance(1, 3) ? "\t" : " "; default: return " "; } }
  std::string confargs() { static const char* K[] = {"echo", "history", "help-on-fail", "prompt", "force", "rxterm", "HISTORY", "Echo", "nonsense"}; std::string k = K[r.below(9)]; if (k == "rxterm" && r.chance(3, 4)) return k; std::string s = k; if (r.chance(3, 4)) { if (lower(k) == "history") { static const char* S[] = {"clear", "depth", "logerrors", "other", "DEPTH"}; s += " " + std::string(S[r.below(5)]); if (r.chance(3, 4)) s += " " + std::to_string((int)r.below(r.chance(1, 8) ? 300 : 12)); } else s += " " + std::to_string(r.chance(1, 12) ? (int)r.range(-3, 3) * 256 + (int)r.below(3) : (int)r.range(-1, 4)); } return s; }
  std::string line() {
    switch (r.below(24)) { case 0: return ""; case 1: return std::string(r.below(4), ' ') + (r.chance(1, 2) ? "\t" : ""); case 2: { std::string s = rnd_bytes(r, (int)r.below(20), r.chance(1, 2) ? 1 : 0); return s; } case 3: if (m.rx != 2) return "abc\ndef"; if (m.rx != 1) return "abc\rdef"; break; case 4: return m.rx == 3 ? (r.chance(1, 2) ? "x\ny" : "x\ry") : cmdword(); case 5: return rnd_bytes(r, (int)m.maxlen - 2 + (int)r.below(5), 1); case 6: if (m.rx != 0) return cmdword() + std::string(1, '\0') + word(); break; default: break; }
    std::string s; if (r.chance(1, 6)) s += gap(); std::string w = cmdword(); s += w; int d = m.lookup(w); if (d >= 0 && m.defs[d].fn == 100 && r.chance(4, 5)) s += gap() + confargs(); else { int n = (int)r.below(5); if (d >= 0 && r.chance(1, 2)) n = m.defs[d].req; for (int i = 0; i < n; i++) s += gap() + word(); } if (r.chance(1, 6)) s += gap();
    if (r.chance(1, 10) && s.size()) { size_t p = r.below(s.size() + 1); s.insert(p, r.chance(1, 2) ? std::string("z\b") : std::string("\b")); } if (r.chance(1, 20)) s = "junk\b\b\b\b" + s; return s;
  }
  void feed(const std::string& s, const char* how) {
    size_t i = 0; int style = (int)r.below(4); if (s.empty()) { StringBuilder b; int ret = con->pushBuffer(&b); VF_CHECK(ret == 1, "push", "an empty pushBuffer() gave %d", ret); m.push(s, c); check("an empty push"); return; }
    while (i < s.size()) { size_t n = style == 0 ? 1 : style == 1 ? s.size() : 1 + r.below(style == 2 ? 5 : 24); if (n > s.size() - i) n = s.size() - i; std::string p = s.substr(i, n); i += n; StringBuilder b; sb_build(r, &b, p, 1 + (int)r.below(12)); c.op("push %s", quote(p.data(), p.size()).c_str()); int ret = con->pushBuffer(&b); VF_CHECK(ret == 1, "push", "pushBuffer() gave %d", ret); VF_CHECK(b.length() == 0, "push-claims", "%s: %d bytes were left with the caller", how, b.length()); m.push(p, c); check("a push"); c.count("pushes"); }
  }
};
}
void vf_case(Ctx& c) {
  Rng& r = c.rng; c.nontrivial = true; std::vector<std::string> store; store.reserve(64); std::vector<ConsoleCommand> statics; statics.reserve(16);
  unsigned maxlen = r.chance(1, 8) ? 8 + r.below(12) : r.chance(1, 2) ? 64 + r.below(200) : 600; ParsingConsole con((uint16_t)maxlen); W w{c, r, &con, {}, {}, {}, {}, {}, {}}; CON = &con; M = &w.m; seen = &w.calls; Model& m = w.m; m.maxlen = maxlen;
  VF_CHECK(con.init() == 0, "init", "init() refused a limit of %u", maxlen); { unsigned t = r.below(12); ParsingConsole tiny((uint16_t)t); VF_CHECK(tiny.init() == (t < 8 ? -1 : 0), "init", "init() with a limit of %u", t); }
  // Definitions.
  int nd = (int)r.below(13); static const char* POOL[] = {"test", "te", "t", "test1", "TEST", "echo", "help", "sensor-config", "x", "a_very_long_command_name", "q", "Q", "list%s", "conf"};
  for (int i = 0; i < nd;) {
    int batch = 1; int how = (int)r.below(4); if (how == 3) { batch = 1 + (int)r.below(3); if (batch > nd - i) batch = nd - i; } size_t first = statics.size();
    for (int b = 0; b < batch; b++, i++) {
      Def d; d.name = POOL[r.below(14)]; d.sc = r.chance(1, 2) && how != 0 ? "tTqxX1?%z"[r.below(9)] : '\0'; d.req = r.chance(1, 2) ? 0 : (int)r.below(4); d.fn = r.chance(1, 4) ? (r.chance(2, 3) ? 100 : 101) : (int)r.below(6); d.help = "help of " + std::to_string(i); d.param = r.chance(1, 3) ? "" : "[arg] %d"; if (d.fn >= 100) d.req = r.chance(1, 2) ? 0 : 1;
      store.push_back(d.name); const char* n = store.back().c_str(); store.push_back(d.help); const char* h = store.back().c_str(); store.push_back(d.param); const char* p = store.back().c_str(); consoleCallback f = d.fn == 100 ? Hconf : d.fn == 101 ? Hhelp : FN[d.fn];
      int8_t ret = 0; switch (how) { case 0: ret = con.defineCommand(n, h, p, (uint8_t)d.req, f); break; case 1: ret = con.defineCommand(n, d.sc, h, p, (uint8_t)d.req, f); break; default: statics.emplace_back(n, d.sc, h, p, (uint8_t)d.req, f); if (how == 2) ret = con.defineCommand(&statics.back()); break; }
      VF_CHECK(ret == 0, "define", "defineCommand() gave %d", ret); m.defs.push_back(d); w.names.push_back(d.name); if (d.name.size() > m.maxcmd) m.maxcmd = d.name.size(); c.op("define %s '%c' req %d fn %d how %d", d.name.c_str(), d.sc ? d.sc : '0', d.req, d.fn, how); c.count("commands defined");
    }
    if (how == 3) { int8_t ret = con.defineCommands(&statics[first], batch); VF_CHECK(ret == 0, "define", "defineCommands() gave %d", ret); }
  }
  VF_CHECK(con.defineCommand((const ConsoleCommand*)nullptr) == -1 && con.defineCommands(nullptr, 3) == -1, "define-null", "a null definition was accepted");
  static const char* PROMPTS[] = {"> ", "c3p%s$ ", ""}; if (r.chance(1, 2)) { m.promptstr = PROMPTS[r.below(3)]; m.has_prompt = true; store.push_back(m.promptstr); con.setPromptString(store.back().c_str()); }
  if (r.chance(1, 2)) { con.emitPrompt(true); m.prompt = true; } if (r.chance(1, 3)) { con.localEcho(true); m.echo = true; } if (r.chance(1, 2)) { con.setRXTerminator((LineTerm)(m.rx = (int)r.below(4))); } if (r.chance(1, 2)) { m.depth = r.below(6); con.maxHistoryDepth((uint8_t)m.depth); }
  VF_CHECK(con.bufferAvailable() == -1, "bufferAvailable", "a console with no output reported %d", con.bufferAvailable()); if (r.chance(3, 4)) { con.setEfferant(&w.sink); m.sink = &w.sink; }
  w.check("setup"); int ops = 5 + (int)r.below(c.thorough ? 100 : 50); std::string carry;
  for (int i = 0; i < ops; i++) {
    c.feat(mix(mix(m.rx, m.echo * 2 + m.prompt), mix(m.hist.size(), mix(m.buf.size() > 7 ? 7 : m.buf.size(), m.resp.empty()))));
    switch (r.below(24)) {
      default: { std::string s; int n = 1 + (int)r.below(3); for (int k = 0; k < n; k++) { s += w.line(); if (r.chance(9, 10) || k + 1 < n) s += term(m.rx); } w.feed(s, "typed lines"); break; }
      case 0: w.feed("", "nothing"); break;
      case 1: w.fetch(); w.check("fetchLog()"); break;
      case 2: w.hist(); break;
      case 3: { bool x = r.chance(1, 2); switch (r.below(6)) { case 0: con.localEcho(x); m.echo = x; break; case 1: con.emitPrompt(x); m.prompt = x; break; case 2: con.forceReturn(x); m.force = x; break; case 3: con.historyFail(x); m.hfail = x; break; case 4: con.printHelpOnFail(x); m.helpfail = x; break; default: con.hasColor(x); m.color = x; break; } w.check("a setting"); c.op("setting"); c.count("settings changed"); break; }
      case 4: { int t = (int)r.below(4); con.setRXTerminator((LineTerm)t); m.rx = t; c.op("term %d", t); c.feat(mix(77, t)); w.check("setRXTerminator()"); break; }
      case 5: if (r.chance(1, 3)) { con.clearHistory(); m.hist.clear(); w.check("clearHistory()"); c.op("clear history"); } else { m.depth = r.below(8); con.maxHistoryDepth((uint8_t)m.depth); m.cull(); w.check("maxHistoryDepth()"); c.op("depth %u", m.depth); } break;
      case 6: { StringBuilder b; std::string s = rnd_bytes(r, rnd_len(r), 1); sb_build(r, &b, s, 9); bool z = r.chance(1, 5); con.printToLog(z ? nullptr : &b); if (!z) { VF_CHECK(b.length() == 0, "printToLog", "left %d bytes", b.length()); m.resp += s; } m.relay(); w.check("printToLog()"); c.op("print %u", (unsigned)s.size()); c.count("unsolicited prints"); break; }
      case 7: con.printPrompt(); if (m.has_prompt) { m.resp += m.promptstr; m.relay(); } w.check("printPrompt()"); c.op("prompt"); break;
      case 8: { StringBuilder o; con.printHelp(&o); sb_expect(&o, m.helptext(), "help", "printHelp()"); std::string k = w.cmdword(); StringBuilder o2; con.printHelp(&o2, (char*)k.c_str()); int d = m.lookup(k); sb_expect(&o2, d < 0 ? "Command '" + k + "' not supported.\n" : m.detail(m.defs[d]), "help-one", "printHelp(command)"); c.count("helps read"); break; }
      case 9: if (m.sink) { w.sink.mode = r.chance(1, 2) ? 1 : (int)r.range(-1, 1); c.op("sink mode %d", w.sink.mode); } break;
      case 10: if (m.sink) { if (r.chance(1, 3)) { con.setEfferant(nullptr); m.sink = nullptr; VF_CHECK(con.bufferAvailable() == -1, "bufferAvailable", "with no output, is %d", con.bufferAvailable()); c.op("detach"); } else { w.sink.avail = (int32_t)r.below(1000); VF_CHECK(con.bufferAvailable() == w.sink.avail, "bufferAvailable", "is %d, the output's is %d", con.bufferAvailable(), w.sink.avail); } } else if (r.chance(1, 2)) { con.setEfferant(&w.sink); m.sink = &w.sink; c.op("attach"); } break;
    }
  }
  w.hist(); w.fetch(); w.check("the end");
}
