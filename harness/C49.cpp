/* C49: the console commands that reach hardware, driven through a real console with recorded pins, platform and buses. */
#include "vf.h"
#include "sbmodel.h"
#include <map>
#include <algorithm>
#include "AbstractPlatform.h"
#include "Console/C3PConsole.h"
#include "BusQueue/SPIAdapter.h"
#include "BusQueue/I2CAdapter.h"
const char* VF_PROPERTY = "C49";
const char* VF_RULE = "A case is a console with the platform's own commands and one SPI and one I2C adapter behind it, and up to 60 typed lines: pin modes, reads and writes, reboots, platform questions and bus commands with arguments within, at and beyond every limit, in decimal and hexadecimal, in any letter case, between jobs that come, run and end. Distinct by the lines typed and the state of the buses.";
using namespace vf;
void vf_setup() {}

// What reached the hardware.
struct Act { char kind; int a, b; bool operator==(const Act& o) const { return kind == o.kind && a == o.a && b == o.b; } };
static std::vector<Act> acts; static int8_t pin_ret[256]; static int8_t read_ret[256];
int8_t pinMode(uint8_t p, GPIOMode m) { acts.push_back({'m', p, (int)m}); return pin_ret[p]; }
int8_t setPin(uint8_t p, bool v) { acts.push_back({'w', p, v}); return pin_ret[p]; }
int8_t readPin(uint8_t p) { acts.push_back({'r', p, 0}); return read_ret[p]; }

struct PF : public AbstractPlatform {
  PF() : AbstractPlatform("test") {} int8_t iret = 0;
  int8_t init() { acts.push_back({'i', 0, 0}); _discover_alu_params(); return iret; }
  void printDebug(StringBuilder* o) { acts.push_back({'d', 0, 0}); o->concat("<<board>>\n"); _print_abstract_debug(o); }
  void firmware_reset(uint8_t c) { acts.push_back({'R', c, 0}); } void firmware_shutdown(uint8_t c) { acts.push_back({'S', c, 0}); }
  void fl(bool on, uint32_t m) { _alter_flags(on, m); } void st(uint8_t s) { _set_init_state(s); }
};
static PF* PFM; AbstractPlatform* platformObj() { return PFM; }

struct Job { int id; BusOp* op; XferFault want; bool spi; int called; };
static std::vector<Job*>* JOBS; static bool purging; static int spi_inits, spi_deinits; static int8_t spi_ret; static int probes[256]; static bool bad_probe; static bool census_stall;
static bool answers[128];
struct Client : public BusOpCallback {
  int8_t io_op_callahead(BusOp*) { return 0; } int8_t queue_io_job(BusOp*) { return -1; }
  int8_t io_op_callback(BusOp* op) {
    for (Job* j : *JOBS) if (j->op == op) { j->called++; VF_CHECK(j->called == 1, "once", "job %d was called back twice", j->id); VF_CHECK(op->getFault() == j->want, "fault", "job %d came back with %s, should be %s", j->id, BusOp::getErrorString(op->getFault()), BusOp::getErrorString(j->want)); acts.push_back({'J', j->id, 0}); return BUSOP_CALLBACK_NOMINAL; }
    VF_CHECK(false, "once", "a call-back for a job nobody has"); return 0;
  }
};
XferFault SPIBusOp::begin() { set_state(XferState::TX_WAIT); return XferFault::NONE; }
int8_t SPIBusOp::advance_operation(uint32_t, uint8_t) { return 0; }
int8_t SPIAdapter::_bus_init() { spi_inits++; return spi_ret; } int8_t SPIAdapter::_bus_deinit() { spi_deinits++; return spi_ret; }
int8_t SPIAdapter::io_op_callahead(BusOp*) { return 0; } int8_t SPIAdapter::io_op_callback(BusOp*) { return 0; }
int8_t SPIAdapter::setMode(const uint8_t) { return 0; } int8_t SPIAdapter::frequency(const uint32_t) { return 0; }
void SPIAdapter::printDebug(StringBuilder*) {} void SPIAdapter::printHardwareState(StringBuilder*) {}
XferFault I2CBusOp::begin() { if (get_opcode() == BusOpcode::TX_CMD) { if (dev_addr > 127) bad_probe = true; probes[dev_addr]++; set_state(XferState::ADDR); } else set_state(XferState::TX_WAIT); return XferFault::NONE; }
XferFault I2CBusOp::advance(uint32_t) { if (get_opcode() == BusOpcode::TX_CMD && !census_stall) { if (dev_addr < 128 && answers[dev_addr]) markComplete(); else abort(XferFault::DEV_NOT_FOUND); } return XferFault::NONE; }
int8_t I2CAdapter::_bus_init() { return 0; } int8_t I2CAdapter::_bus_deinit() { return 0; }
void I2CAdapter::printHardwareState(StringBuilder* o) { o->concat("<<hardware>>\n"); }
struct TSPI : public SPIAdapter { TSPI(uint8_t n, unsigned np, unsigned q) : SPIAdapter(n, 1, 2, 3, np, (uint8_t)q) {} unsigned depth() { return work_queue.size(); } };
struct TI2C : public I2CAdapter { TI2C(const I2CAdapterOptions* o, unsigned np, unsigned q) : I2CAdapter(o, np, (uint8_t)q) {} void adv() { _pf_needs_op_advance(true); } unsigned depth() { return work_queue.size(); } };
static TSPI* SPI; static TI2C* I2C; static int last_ret;
static int h_spi(StringBuilder* o, StringBuilder* a) { return last_ret = SPI->console_handler(o, a); }
static int h_i2c(StringBuilder* o, StringBuilder* a) { return last_ret = I2C->console_handler(o, a); }
struct Sink : public BufferAccepter { std::string got; int8_t pushBuffer(StringBuilder* b) override { got += sb_read(b); b->clear(); return 1; } int32_t bufferAvailable() override { return 100; } };

static const char* MODES[] = {"INPUT", "OUTPUT", "INPUT_PULLUP", "INPUT_PULLDOWN", "OUTPUT_OD", "BIDIR_OD", "BIDIR_OD_PULLUP", "ANALOG_OUT", "ANALOG_IN"};
static unsigned times(const std::string& s, const char* n) { unsigned k = 0; for (size_t p = 0; (p = s.find(n, p)) != std::string::npos; p++) k++; return k; }
static bool has(const std::string& s, const std::string& n) { return s.find(n) != std::string::npos; }
static int number(Rng& r, int lo, int hi) { switch (r.below(10)) { case 0: return hi + 1 + (int)r.below(3); case 1: return lo - 1 - (int)r.below(3); case 2: return (int)r.edgyBits(32, true); case 3: return (hi + 1) * (int)r.range(1, 5) + (int)r.below(4); case 4: return 256 * (int)r.range(-3, 5) + (int)r.range(lo, hi); case 5: return r.chance(1, 2) ? lo : hi; default: return (int)r.range(lo, hi); } }
static std::string digits(Rng& r, int v) { char b[32]; if (v >= 0 && r.chance(1, 4)) snprintf(b, sizeof b, r.chance(1, 2) ? "0x%x" : "0x%X", v); else snprintf(b, sizeof b, "%d", v); return b; }
static std::string anycase(Rng& r, std::string s) { if (r.chance(1, 5)) for (auto& ch : s) if (r.chance(1, 2)) ch = (char)toupper(ch); return s; }

void vf_case(Ctx& c) {
  Rng& r = c.rng; c.nontrivial = true; acts.clear(); for (int i = 0; i < 256; i++) { pin_ret[i] = (int8_t)(r.chance(1, 3) ? r.range(-5, 5) : 0); read_ret[i] = (int8_t)(r.chance(1, 6) ? r.range(-128, -1) : r.chance(1, 2)); }
  PF pf; PFM = &pf; if (r.chance(1, 2)) pf.fl(true, ABSTRACT_PF_FLAG_BIG_ENDIAN); pf.iret = (int8_t)r.range(-3, 3); VF_CHECK(platform_init() == pf.iret && acts.size() == 1 && acts[0].kind == 'i', "platform-init", "platform_init() did not start the platform once and give its answer"); acts.clear();
  { const uint16_t t = 1; VF_CHECK(pf.aluWidth() == 8 * sizeof(void*) && pf.bigEndian() == (*(const uint8_t*)&t == 0), "platform-facts", "the platform takes itself for a %u-bit %c-endian one", pf.aluWidth(), pf.bigEndian() ? 'b' : 'l'); }
  std::vector<Job*> jobs; JOBS = &jobs; Client cl; purging = false; spi_inits = spi_deinits = 0; spi_ret = (int8_t)(r.chance(1, 5) ? r.range(-9, -1) : 0); memset(probes, 0, sizeof probes); bad_probe = false; census_stall = false;
  for (int i = 0; i < 128; i++) answers[i] = r.chance(1, 3);
  const bool vast = r.chance(1, 60); const unsigned maxq = vast ? 130 + r.below(126) : 2 + r.below(12), an = r.chance(1, 2) ? r.below(4) : r.below(256);
  TSPI* spi = SPI = new TSPI((uint8_t)an, r.below(5), maxq); I2CAdapterOptions io((uint8_t)an, 4, 5); TI2C* i2c = I2C = new TI2C(&io, r.below(5), maxq); i2c->init(); i2c->adv(); int8_t sr = spi->init(); VF_CHECK(sr == spi_ret && spi->busOnline() == (sr == 0) && spi->busError() == (sr != 0), "init", "init() gave %d with a bus that gave %d, online %d, error %d", sr, spi_ret, spi->busOnline(), spi->busError());
  ParsingConsole con(200); con.init(); const bool hf = r.chance(1, 2); con.printHelpOnFail(hf); con.setRXTerminator(LineTerm::LF); Sink out; con.setEfferant(&out); VF_CHECK(0 == pf.configureConsole(&con), "console", "configureConsole() failed");
  con.defineCommand("spi", "SPI", "[action]", 0, h_spi); con.defineCommand("i2c", "I2C", "[action]", 0, h_i2c);
  const char* PFX = "\n"; (void)PFX; std::string o; unsigned calls_before = 0; (void)calls_before;
  auto type = [&](const std::string& l) { acts.clear(); out.got.clear(); last_ret = 99; StringBuilder b; std::string s = l + "\n"; sb_build(r, &b, s, 1 + (int)r.below(6)); con.pushBuffer(&b); o = out.got; c.op("%s", l.c_str()); c.feat(fnv(l.data(), l.size())); c.count("lines_typed"); };
  auto only = [&](const std::string& l, std::vector<Act> w) { VF_CHECK(acts == w, "acted", "'%s' did %u things to the hardware, should do %u (first: %c %d %d)", l.c_str(), (unsigned)acts.size(), (unsigned)w.size(), acts.empty() ? '-' : acts[0].kind, acts.empty() ? 0 : acts[0].a, acts.empty() ? 0 : acts[0].b); };
  auto spoke = [&](const std::string& l) { VF_CHECK(o.size() > 1, "report", "'%s' was refused without a word", l.c_str()); };
  auto says = [&](const std::string& l, const std::string& w) { VF_CHECK(o == "\n" + w, "report", "'%s' was answered %s, should be %s", l.c_str(), quote(o.data(), o.size(), 300).c_str(), quote(w.data(), w.size(), 300).c_str()); };
  struct Q { std::vector<Job*> q; Job* cur = nullptr; bool ended = false; std::vector<Job*> cb; } S, I; int ids = 0; unsigned census = 0; (void)census; int map[128]; memset(map, 0, sizeof map); unsigned char verb = 0;
  auto intact = [&](const char* l) { VF_CHECK(spi->depth() == S.q.size() && i2c->depth() == I.q.size(), "queues", "after '%s' %u and %u jobs are queued, should be %u and %u", l, spi->depth(), i2c->depth(), (unsigned)S.q.size(), (unsigned)I.q.size()); VF_CHECK(spi->currentJob() == (S.cur ? S.cur->op : nullptr), "active", "after '%s' the SPI bus serves the wrong job", l); VF_CHECK(i2c->currentJob() == (I.cur ? I.cur->op : nullptr), "active", "after '%s' the I2C bus serves the wrong job", l); };
  auto calls = [&](const std::string& l, std::vector<Job*> w) { std::vector<Act> a; for (Job* j : w) a.push_back({'J', j->id, 0}); only(l, a); };
  auto purge = [&](Q& q, bool all) { std::vector<Job*> w; if (all) { for (Job* j : q.q) { j->want = XferFault::QUEUE_FLUSH; w.push_back(j); } q.q.clear(); } if (q.cur) { if (!q.ended) q.cur->want = XferFault::QUEUE_FLUSH; else q.cur->want = XferFault::QUEUE_FLUSH; w.push_back(q.cur); q.cur = nullptr; q.ended = false; } return w; };
  int ops = 5 + (int)r.below(c.thorough ? 60 : 40);
  if (vast) { unsigned n = 130 + r.below(maxq - 129); for (unsigned i = 0; i < n; i++) { bool sp = r.chance(1, 2); (void)sp; Job* j = new Job{ids++, nullptr, XferFault::NONE, true, 0}; j->op = new SPIBusOp(BusOpcode::TX, &cl); ((SPIBusOp*)j->op)->shouldReap(false); jobs.push_back(j); VF_CHECK(0 == spi->queue_io_job(j->op), "queues", "job %d was refused", j->id); S.q.push_back(j);
      Job* k = new Job{ids++, nullptr, XferFault::NONE, false, 0}; k->op = new I2CBusOp(BusOpcode::TX, &cl); ((I2CBusOp*)k->op)->dev_addr = 9; ((I2CBusOp*)k->op)->shouldReap(false); jobs.push_back(k); VF_CHECK(0 == i2c->queue_io_job(k->op), "queues", "job %d was refused", k->id); I.q.push_back(k); } c.count("long_queues"); }
  for (int n = 0; n < ops; n++) {
    std::string l; bool sp = r.chance(1, 2); Q& q = sp ? S : I; const char* bus = sp ? "spi" : "i2c";
    switch (r.below(20)) {
      case 0: case 1: { int p = number(r, 0, 255), m = number(r, 0, 8); if (r.chance(1, 8)) m = 255; l = anycase(r, "gpio mode ") + digits(r, p) + " " + digits(r, m); bool ok = p >= 0 && p < 256 && m >= 0 && m < 9; type(l);
        if (ok) { only(l, {{'m', p, m}}); char t[99]; snprintf(t, sizeof t, "pinMode(%d, %s) Returns %d.\n", p, MODES[m], pin_ret[p]); says(l, t); c.count("pin_modes_set"); } else { only(l, {}); VF_CHECK(!has(o, "pinMode("), "report", "'%s' did nothing, but was answered %s", l.c_str(), quote(o.data(), o.size(), 200).c_str()); spoke(l); c.count("pin_modes_refused"); } break; }
      case 2: case 3: { int p = number(r, 0, 255); l = anycase(r, "gpio val ") + digits(r, p); type(l); if (p < 0 || p > 255) { only(l, {}); VF_CHECK(!has(o, "high") && !has(o, "low"), "report", "'%s' names no pin, but was answered %s", l.c_str(), quote(o.data(), o.size(), 200).c_str()); spoke(l); c.count("reads_refused"); break; }
        only(l, {{'r', p, 0}}); if (read_ret[p] < 0) { VF_CHECK(!has(o, "high") && !has(o, "low"), "report", "pin %d could not be read (%d), but '%s' was answered %s", p, read_ret[p], l.c_str(), quote(o.data(), o.size(), 200).c_str()); VF_CHECK(o.size() > strlen("\nGPIO 255 "), "report", "a failed read is not reported"); c.count("failed_reads"); break; }
        says(l, "GPIO " + std::to_string(p) + " reads " + (read_ret[p] ? "high.\n" : "low.\n")); c.count("pins_read"); break; }
      case 4: case 5: { int p = number(r, 0, 255); bool v = r.chance(1, 2); l = anycase(r, "gpio val ") + digits(r, p) + (v ? " 1" : " 0"); type(l); if (p < 0 || p > 255) { only(l, {}); VF_CHECK(!has(o, "high") && !has(o, "low"), "report", "'%s' names no pin, but was answered %s", l.c_str(), quote(o.data(), o.size(), 200).c_str()); spoke(l); c.count("writes_refused"); break; }
        only(l, {{'w', p, v}}); char t[99]; snprintf(t, sizeof t, "GPIO %d set to %s. Returns %d.\n", p, v ? "high" : "low", pin_ret[p]); says(l, t); c.count("pins_written"); break; }
      case 6: { if (r.chance(1, 2)) { l = "gpio mode " + digits(r, number(r, 0, 255)); type(l); only(l, {}); std::string w; for (int i = 0; i < 9; i++) w += std::to_string(i) + ": " + MODES[i] + "\n"; says(l, w); c.count("mode_lists"); } else { static const char* W[] = {"gpio", "gpio mode", "gpio val", "gpio set 3", "gpio 3 1", "gpio vale 3 1", "gpio m 3 1"}; int k = (int)r.below(7); l = W[k]; type(l); only(l, {}); if (hf && k > 2) VF_CHECK(has(o, "Usage"), "report", "'%s' was taken: %s", l.c_str(), quote(o.data(), o.size(), 200).c_str()); c.count("nonsense"); } break; }
      case 7: { if (r.chance(1, 4)) { l = "reboot"; type(l); VF_CHECK(acts.size() == 1 && acts[0].kind == 'R' && acts[0].a == 0, "acted", "a plain reboot did %u things", (unsigned)acts.size()); break; } int k = number(r, 0, r.chance(1, 2) ? 9 : 255); l = anycase(r, "reboot ") + digits(r, k); type(l); if (k >= 0 && k < 256) { only(l, {{'R', k, 0}}); VF_CHECK(!has(o, "Usage"), "report", "a reboot was taken for a failure"); c.count("reboots"); } else { only(l, {}); spoke(l); c.count("reboots_refused"); } break; }
      case 8: { if (r.chance(1, 2)) { l = anycase(r, "pfinfo"); type(l); only(l, {{'d', 0, 0}}); char t[200]; snprintf(t, sizeof t, "ALU: %u-bit(LE)", (unsigned)(8 * sizeof(void*))); VF_CHECK(has(o, "<<board>>") && has(o, t), "report", "'%s' was answered %s", l.c_str(), quote(o.data(), o.size(), 300).c_str()); char m[99]; snprintf(m, sizeof m, "millis():  %lu\n\tmicros():  %lu\n", (unsigned long)millis(), (unsigned long)micros()); VF_CHECK(has(o, m), "report", "'%s' shows another time than %s", l.c_str(), m); } else { l = "pfinfo " + anycase(r, "crypto"); type(l); only(l, {}); says(l, "No cryptographic support.\n"); } c.count("platform_questions"); break; }
      case 9: { uint32_t m = 0; static const uint32_t F[] = {ABSTRACT_PF_FLAG_SERIALED, ABSTRACT_PF_FLAG_HAS_LOCATION, ABSTRACT_PF_FLAG_INNATE_DATETIME, ABSTRACT_PF_FLAG_RTC_READY, ABSTRACT_PF_FLAG_RTC_SET, ABSTRACT_PF_FLAG_HAS_STORAGE}; for (int i = 0; i < 6; i++) { bool on = r.chance(1, 2); pf.fl(on, F[i]); m |= on << i; } uint8_t st = (uint8_t)r.below(4); pf.st(st);
        unsigned g = (unsigned)pf.hasSerialNumber() | pf.hasLocation() << 1 | pf.hasTimeAndDate() << 2 | pf.rtcInitilized() << 3 | pf.rtcAccurate() << 4 | pf.hasStorage() << 5; VF_CHECK(g == m && pf.platformState() == st && pf.aluWidth() == 8 * sizeof(void*), "platform-facts", "the platform's features read %02x, should be %02x (state %u, should be %u)", g, m, pf.platformState(), st); c.count("platform_facts"); break; }
      // Bus jobs come, run and end.
      case 10: case 11: { if (q.q.size() + 1 > maxq) break; Job* j = new Job{ids++, nullptr, XferFault::NONE, sp, 0}; if (sp) { j->op = new SPIBusOp(BusOpcode::TX, &cl); ((SPIBusOp*)j->op)->shouldReap(false); } else { j->op = new I2CBusOp(BusOpcode::TX, &cl); ((I2CBusOp*)j->op)->dev_addr = 9; ((I2CBusOp*)j->op)->shouldReap(false); } jobs.push_back(j); int g = sp ? spi->queue_io_job(j->op) : i2c->queue_io_job(j->op); VF_CHECK(g == 0, "queues", "job %d was refused (%d)", j->id, g); c.op("%s job %d", bus, j->id); q.q.push_back(j); c.count("jobs"); break; }
      case 12: { if (q.cur && !q.ended) { c.op("%s end %d", bus, q.cur->id); if (sp) { ((SPIBusOp*)q.cur->op)->markComplete(); S.ended = true; } else { ((I2CBusOp*)q.cur->op)->markComplete(); I.ended = true; } } break; }
      case 13: case 14: { l = std::string(bus) + anycase(r, " poll"); type(l); std::vector<Job*> w; 
        if (q.cur && q.ended) { q.ended = false; if (sp) q.cb.push_back(q.cur); else w.push_back(q.cur); q.cur = nullptr; } if (sp && !S.cb.empty()) { w.push_back(S.cb[0]); S.cb.erase(S.cb.begin()); }
        if (!q.cur && !q.q.empty()) { BusOp* now = sp ? (BusOp*)spi->currentJob() : (BusOp*)i2c->currentJob(); if (now) { VF_CHECK(now == q.q[0]->op, "order", "the bus took job out of turn"); q.cur = q.q[0]; q.q.erase(q.q.begin()); c.count("polls_that_started"); } else VF_CHECK(sp && !w.empty(), "stuck", "'%s' left an idle bus with %u jobs queued", l.c_str(), (unsigned)q.q.size()); }
        calls(l, w); VF_CHECK(has(o, "returns"), "report", "'%s' says nothing of the result: %s", l.c_str(), quote(o.data(), o.size(), 200).c_str()); intact(l.c_str()); c.count("polls_typed"); if (!w.empty()) c.count("polls_that_ended"); break; }
      case 15: { bool all = r.chance(1, 2); l = std::string(bus) + " " + anycase(r, all ? "ragepurge" : "purge"); std::vector<Job*> w = purge(q, all); type(l); calls(l, w); intact(l.c_str()); for (Job* j : w) VF_CHECK(j->op->isIdle(), "idle", "purged job %d is left in state %s", j->id, BusOp::getStateString(j->op->get_state())); char t[99]; snprintf(t, sizeof t, "%s%u purge_current_job()\n", sp ? "SPI" : "I2C", an); std::string e; if (all) { char t2[99]; snprintf(t2, sizeof t2, "%s%u purge_queued_work()\n", sp ? "SPI" : "I2C", an); e = t2; } says(l, e + t); if (!w.empty()) c.count(all ? "ragepurges" : "purges"); break; }
      case 16: { // Queue listings.
        int k = number(r, 0, 255); bool arg = r.chance(2, 3); if (sp) { l = "spi queue"; if (arg) l += " " + digits(r, k); } else l = r.chance(1, 2) ? "i2c info" : "i2c"; type(l); only(l, {}); intact(l.c_str());
        char t[99]; if (q.cur) { snprintf(t, sizeof t, "-- Current active job:\n\t---[ %s %p ", sp ? "SPIBusOp" : "I2COp", (void*)q.cur->op); VF_CHECK(has(o, t), "listing", "'%s' does not show the active job: %s", l.c_str(), quote(o.data(), o.size(), 500).c_str()); } else VF_CHECK(has(o, "-- No active job."), "listing", "'%s' does not say that no job is active", l.c_str());
        unsigned d = q.q.size(); if (!d) VF_CHECK(has(o, "-- Empty queue."), "listing", "'%s' does not say that the queue is empty", l.c_str()); else {
          unsigned top = 0, tot = 0; size_t p = o.find("-- Queue Listing (top "); VF_CHECK(p != std::string::npos && 2 == sscanf(o.c_str() + p, "-- Queue Listing (top %u of %u total)", &top, &tot), "listing", "'%s' has no listing", l.c_str());
          VF_CHECK(tot == d && top >= 1 && top <= d, "listing", "'%s' lists %d of %u, with %u jobs queued", l.c_str(), (int)top, tot, d); if (sp && arg && k >= 3 && k < 256) VF_CHECK(top == std::min<unsigned>(k, d), "listing", "'%s' lists %u of %u jobs", l.c_str(), top, d);
          for (unsigned i = 0; i < d; i++) { snprintf(t, sizeof t, "---[ %s %p ", sp ? "SPIBusOp" : "I2COp", (void*)q.q[i]->op); VF_CHECK(has(o, t) == (i < top), "listing", "'%s': job %u of the queue is%s shown in the top %u", l.c_str(), i, has(o, t) ? "" : " not", top); } if (d > 127) c.count("long_listings"); c.count("listings"); }
        if (!sp) { VF_CHECK(has(o, "sda/scl             4/5") && has(o, "Ping Map") && has(o, "<<hardware>>"), "listing", "'%s' was answered %s", l.c_str(), quote(o.data(), o.size(), 400).c_str()); snprintf(t, sizeof t, "Adapter #%u (online)", an); VF_CHECK(has(o, t), "listing", "'%s' shows another adapter", l.c_str()); } break; }
      case 17: { if (!sp) break; switch (r.below(4)) {
        case 0: { l = "spi"; type(l); only(l, {}); char t[99]; snprintf(t, sizeof t, "Adapter #%u (%sline)", an, spi_ret == 0 ? "on" : "off"); VF_CHECK(has(o, t), "listing", "'spi' shows another adapter"); snprintf(t, sizeof t, "depth/max        %u/%u\n", (unsigned)S.q.size(), maxq); VF_CHECK(has(o, t), "listing", "'spi' shows another queue: %s", quote(o.data(), o.size(), 400).c_str()); intact("spi"); break; }
        case 1: { int v = (int)r.below(8); if (r.chance(2, 3)) { l = "spi verbosity " + digits(r, v); verb = (uint8_t)v; } else l = "spi Verbosity"; bool on = spi->busOnline(); type(l); only(l, {}); VF_CHECK(spi->getVerbosity() == verb && spi->busOnline() == on, "verbosity", "the verbosity is %u, should be %u", spi->getVerbosity(), verb); char t[99]; snprintf(t, sizeof t, "Verbosity for SPI%u is %u\n", an, verb); says(l, t); c.count("verbosities"); break; }
        case 2: { if (S.cur || !S.q.empty() || !S.cb.empty()) break; bool in = r.chance(1, 2); l = in ? "spi init" : "spi deinit"; spi_ret = (int8_t)(r.chance(1, 3) ? r.range(-9, -1) : 0); if (!in) { int8_t k = spi_ret; (void)k; } int b4 = in ? spi_inits : spi_deinits; int8_t was = spi->busOnline() ? 0 : -1; type(l); VF_CHECK((in ? spi_inits : spi_deinits) == b4 + 1, "acted", "'%s' reached the bus %d times", l.c_str(), (in ? spi_inits : spi_deinits) - b4); char t[99]; snprintf(t, sizeof t, "SPI%u %s() returns %d\n", an, in ? "init" : "deinit", spi_ret); says(l, t); if (in) { VF_CHECK(spi->busOnline() == (spi_ret == 0), "init", "'%s' left the bus %sline", l.c_str(), spi->busOnline() ? "on" : "off"); } else { l = "spi init"; spi_ret = was; type(l); } c.count("bus_restarts"); break; }
        default: { static const char* W[] = {"spi nonsense", "spi pol", "spi 3", "spi purgee", "spi rage"}; l = W[r.below(5)]; type(l); only(l, {}); VF_CHECK(last_ret < 0, "nonsense", "'%s' was taken (%d)", l.c_str(), last_ret); intact(l.c_str()); c.count("nonsense"); } } break; }
      default: { // A census of the I2C bus.
        if (I.cur || !I.q.empty()) break; int a = number(r, 0, 127); bool arg = r.chance(3, 4); if (!arg) a = 1; l = std::string("i2c ") + anycase(r, "ping"); if (arg) l += " " + digits(r, a); memset(probes, 0, sizeof probes); for (int i = 0; i < 128; i++) if (r.chance(1, 8)) answers[i] = !answers[i]; type(l); only(l, {}); const bool ok = a >= 0 && a < 128; int stop = 128, polls = 0;
        if (ok) { char t[99]; snprintf(t, sizeof t, "(0x%02x) started", a); VF_CHECK(has(o, t), "report", "'%s' was answered %s", l.c_str(), quote(o.data(), o.size(), 200).c_str()); } else VF_CHECK(!has(o, "started"), "report", "'%s' names no address, but was answered %s", l.c_str(), quote(o.data(), o.size(), 200).c_str());
        if (ok && r.chance(1, 4)) stop = a + (int)r.below((uint32_t)(128 - a)); // The address at which the census is cut short by a purge.
        for (; polls < 700 && !i2c->busIdle(); polls++) { if (stop < 128 && probes[stop]) { census_stall = true; break; } i2c->poll(); }
        if (census_stall) { std::string p = r.chance(1, 2) ? "i2c purge" : "i2c ragepurge"; type(p); census_stall = false; for (int i = 0; i < 50 && !i2c->busIdle(); i++) i2c->poll(); c.count("censuses_purged"); } else stop = 128;
        VF_CHECK(i2c->busIdle() && !bad_probe, "census", "'%s': the bus is %s, %s", l.c_str(), i2c->busIdle() ? "idle" : "busy", bad_probe ? "and an address beyond 127 was probed" : "");
        for (int i = 0; i < 256; i++) { int w = ok && i >= a && i < 128 && i <= stop; VF_CHECK(probes[i] == w, "census", "'%s': address %d was probed %d times, should be %d", l.c_str(), i, probes[i], w); if (w && i < stop) map[i] = answers[i] ? 2 : 1; }
        type("i2c"); for (int i = 0; i < 128; i++) { char tag[12]; snprintf(tag, sizeof tag, "0x%02x: ", i & 0x70); size_t p = o.find(tag, o.find("Ping Map")); VF_CHECK(p != std::string::npos, "census-map", "no line for %02x", i); char g = o[p + 6 + (i & 15) * 2], w = " .*"[map[i]]; VF_CHECK(g == w, "census-map", "after '%s'%s address %02x is shown as '%c', should be '%c'", l.c_str(), stop < 128 ? " and a purge" : "", i, g, w); }
        intact(l.c_str()); c.count(ok ? "censuses" : "censuses_refused"); break; }
    }
    c.feat(mix(S.q.size(), mix(I.q.size(), mix(S.cur != nullptr, I.cur != nullptr))));
  }
  // Every job left comes back on a last purge, and only once.
  std::vector<Job*> w; if (!S.cb.empty()) { while (!S.cb.empty()) { acts.clear(); spi->service_callback_queue(); VF_CHECK(acts.size() == 1 && acts[0].a == S.cb[0]->id, "once", "a due call-back was not made"); S.cb.erase(S.cb.begin()); } }
  w = purge(S, true); type("spi ragepurge"); calls("spi ragepurge", w); w = purge(I, true); type("i2c ragepurge"); calls("i2c ragepurge", w); intact("the end"); for (Job* j : jobs) VF_CHECK(j->called == 1, "once", "job %d came back %d times", j->id, j->called);
  delete spi; delete i2c; for (Job* j : jobs) { if (j->spi) delete (SPIBusOp*)j->op; else delete (I2CBusOp*)j->op; delete j; }
}
