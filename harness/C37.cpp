/* C37: the bus job queue, through the real SPI and I2C adapters over simulated hardware. */
#include "sbmodel.h"
#include "AbstractPlatform.h"
#include "BusQueue/SPIAdapter.h"
#include "BusQueue/I2CAdapter.h"
#include <vector>
#include <functional>
#include <algorithm>
const char* VF_PROPERTY = "C37";
const char* VF_RULE = "A case is one SPI or I2C adapter (pool of 0 to 6 jobs, queue limit 1 to 10, sometimes pools to 400 with limits to 255 and bursts of 130 to 280 jobs; guarded or not, with or without immediate dispatch) over simulated hardware, and a schedule of job arrivals (pool, overdrawn, or client-owned; with and without owned buffers; several clients), polls, hardware ticks, completions, faults at start or end, busy starts, recall by the client, recycling, and purges. Monitors follow each job from arrival to call-back. Distinct by the schedule.";
using namespace vf;
void vf_setup() {}

struct Job {
  int id; BusOp* op; int dev; bool pool, ext, freebuf; uint8_t* buf; int pri;
  int busy; XferFault begin_fault; bool recall; bool instant; int ticks; XferFault end_fault; int recycles;
  bool accepted, refused; int starts, callbacks; XferFault fault; bool done_hw; int uid;
};
struct Dev; 
struct World {
  Ctx* c; std::vector<Job*> jobs;          // alive
  std::vector<std::pair<Job*, int>> q;     // model of the work queue: stable by priority
  std::vector<std::pair<Job*, int>> cbq;   // model of the call-back queue (SPI)
  Job* cur; bool spi; bool in_purge; bool guard; unsigned maxq; std::function<unsigned()> depth; uint32_t total, failed; std::vector<Job*> purge_expect; bool in_poll; bool dispatching;
  Job* of(BusOp* op) { for (Job* j : jobs) if (j->op == op) return j; return nullptr; }
  void push(std::vector<std::pair<Job*, int>>& v, Job* j, int p) { unsigned i = 0; while (i < v.size() && v[i].second >= p) i++; v.insert(v.begin() + i, {j, p}); }
};
static World* W;
struct Probe { bool on; bool answers[128]; int probed[128]; int ticks; }; static Probe PR;
static XferFault on_begin(BusOp* op, bool& proceed) {
  proceed = false; World* w = W; Job* j = w->of(op);
  VF_CHECK(j, "known-job", "the hardware was asked to start a job nobody queued");
  if (!w->cur) {
    if (w->dispatching) w->cur = j;
    else { VF_CHECK(!w->q.empty() && w->q[0].first == j, "queue-order", "job %d was started, but %s%d is first in the queue", j->id, w->q.empty() ? "none " : "", w->q.empty() ? -1 : w->q[0].first->id); w->q.erase(w->q.begin()); w->cur = j; }
  }
  VF_CHECK(w->cur == j, "one-at-a-time", "job %d was started while job %d has the bus", j->id, w->cur->id);
  if (j->busy > 0) { j->busy--; w->c->count("busy_starts"); return XferFault::BUS_BUSY; }
  j->starts++; VF_CHECK(j->starts == 1, "started-once", "job %d was started %d times", j->id, j->starts);
  w->c->op("start %d", j->id); w->c->count("starts");
  if (0 != op->execCA()) { j->fault = XferFault::IO_RECALL; j->done_hw = true; w->c->count("recalls"); return XferFault::IO_RECALL; }
  if (j->begin_fault != XferFault::NONE) { j->fault = j->begin_fault; j->done_hw = true; w->c->count("start_faults"); return j->begin_fault; }
  proceed = true; return XferFault::NONE;
}
static bool on_tick(BusOp* op, XferFault* f) { Job* j = W->of(op); VF_CHECK(j && j == W->cur, "one-at-a-time", "the hardware was advanced for a job that has no bus"); if (j->ticks > 0) { j->ticks--; return false; } j->fault = *f = j->end_fault; j->done_hw = true; return true; }
struct Dev : public BusOpCallback {
  int n; Dev() : n(-1) {}
  int8_t io_op_callahead(BusOp* op) { Job* j = W->of(op); VF_CHECK(j && j->dev == n, "right-client", "client %d was called ahead of a job of another", n); return j->recall ? -1 : 0; }
  int8_t io_op_callback(BusOp* op);
  int8_t queue_io_job(BusOp*) { return -1; }
};
static int8_t on_callback(BusOp* op, int n) {
  World* w = W; Job* j = w->of(op);
  VF_CHECK(j, "known-job", "a call-back for a job that is not pending"); VF_CHECK(j->dev == n, "right-client", "job %d of client %d was called back to client %d", j->id, j->dev, n);
  j->callbacks++; VF_CHECK(j->callbacks == 1, "completed-once", "job %d was called back %d times", j->id, j->callbacks);
  w->c->op("done %d", j->id); w->c->count("completions");
  VF_CHECK(op->isComplete(), "final-state", "job %d was called back in state %s", j->id, op->getStateString());
  if (w->in_purge) {
    VF_CHECK(!w->purge_expect.empty() && w->purge_expect[0] == j, "purge-set", "a purge called back job %d, should be %d", j->id, w->purge_expect.empty() ? -1 : w->purge_expect[0]->id);
    w->purge_expect.erase(w->purge_expect.begin()); j->fault = XferFault::QUEUE_FLUSH;
  } else if (w->spi) {
    VF_CHECK(!w->cbq.empty() && w->cbq[0].first == j, "call-back-order", "job %d was called back, but %d is first in line", j->id, w->cbq.empty() ? -1 : w->cbq[0].first->id);
    w->cbq.erase(w->cbq.begin());
  } else { VF_CHECK(w->cur == j && j->done_hw, "call-back-order", "job %d was called back before it was done", j->id); w->cur = nullptr; }
  VF_CHECK(op->getFault() == j->fault && op->hasFault() == (j->fault != XferFault::NONE), "final-fault", "job %d was called back with %s, should be %s", j->id, op->getErrorString(), BusOp::getErrorString(j->fault));
  if (j->fault != XferFault::NONE) w->c->count("faults");
  VF_CHECK(op->buffer() == j->buf, "job-intact", "the buffer of job %d is not its own", j->id);
  if (j->buf) VF_CHECK(j->buf[0] == (uint8_t)j->id && op->bufferLen() == 16, "job-intact", "the buffer of job %d changed", j->id);
  if (!w->in_purge && j->recycles > 0) {
    w->c->count("recyclings"); j->recycles--; j->callbacks = 0; j->starts = 0; j->done_hw = false; j->ticks = w->c->rng.below(3); j->fault = XferFault::NONE; j->busy = 0;
    w->c->op("recycle");
    if (w->spi && w->guard && w->depth() >= w->maxq) { j->refused = true; j->fault = XferFault::QUEUE_FLUSH; j->recycles = 0; w->push(w->cbq, j, 0); w->c->count("recyclings_refused"); }
    else w->push(w->q, j, 0);
    return BUSOP_CALLBACK_RECYCLE;
  }
  w->total++; if (j->fault != XferFault::NONE) w->failed++;
  j->accepted = false;
  w->jobs.erase(std::find(w->jobs.begin(), w->jobs.end(), j));
  int8_t ret = w->c->rng.chance(1, 4) ? BUSOP_CALLBACK_ERROR : BUSOP_CALLBACK_NOMINAL;
  extern std::vector<Job*> finished; finished.push_back(j); return ret;
}
std::vector<Job*> finished;
int8_t Dev::io_op_callback(BusOp* op) { return on_callback(op, n); }

// The platform's part of the adapters.
XferFault SPIBusOp::begin() { bool go; XferFault f = on_begin(this, go); if (f == XferFault::BUS_BUSY) return f; if (f != XferFault::NONE) { abort(f); return f; } set_state(XferState::TX_WAIT); if (W->cur->instant) advance_operation(0, 0); return XferFault::NONE; }
int8_t SPIBusOp::advance_operation(uint32_t, uint8_t) { XferFault f; if (on_tick(this, &f)) { if (f == XferFault::NONE) markComplete(); else abort(f); } return 0; }
int8_t SPIAdapter::_bus_init() { return 0; } int8_t SPIAdapter::_bus_deinit() { return 0; }
int8_t SPIAdapter::io_op_callahead(BusOp* op) { return W->of(op) && W->of(op)->recall ? -1 : 0; }
int8_t SPIAdapter::io_op_callback(BusOp* op) { return on_callback(op, -1); }
int8_t SPIAdapter::setMode(const uint8_t) { return 0; } int8_t SPIAdapter::frequency(const uint32_t) { return 0; }
void SPIAdapter::printDebug(StringBuilder*) {} void SPIAdapter::printHardwareState(StringBuilder*) {}
extern bool passive;
XferFault I2CBusOp::begin() {
  if (passive) { set_state(XferState::TX_WAIT); return XferFault::NONE; }
  if (PR.on) { VF_CHECK(get_opcode() == BusOpcode::TX_CMD && dev_addr < 128 && !need_to_send_subaddr() && bufferLen() == 0, "census", "a probe of address %u is malformed", dev_addr); PR.probed[dev_addr]++; PR.ticks = (int)W->c->rng.below(2); set_state(XferState::ADDR); return XferFault::NONE; }
  bool go; XferFault f = on_begin(this, go); if (f == XferFault::BUS_BUSY) return f; if (f != XferFault::NONE) { abort(f); return f; } set_state(XferState::ADDR); if (W->cur->instant) advance(0); return XferFault::NONE; }
XferFault I2CBusOp::advance(uint32_t) { XferFault f; if (passive) { markComplete(); return XferFault::NONE; } if (PR.on) { if (PR.ticks-- > 0) return XferFault::NONE; if (PR.answers[dev_addr]) markComplete(); else abort(XferFault::DEV_NOT_FOUND); return XferFault::NONE; } if (on_tick(this, &f)) { if (f == XferFault::NONE) markComplete(); else abort(f); } return XferFault::NONE; }
int8_t I2CAdapter::_bus_init() { return 0; } int8_t I2CAdapter::_bus_deinit() { return 0; }
void I2CAdapter::printHardwareState(StringBuilder*) {}

struct TSPI : public SPIAdapter {
  TSPI(uint32_t n, uint8_t q) : SPIAdapter(0, 1, 2, 3, n, q) {}
  void opts(bool guard, bool adv, bool) { _adapter_set_flag(SPI_FLAG_QUEUE_GUARD, guard); _pf_needs_op_advance(adv); }
  ElementPool<SPIBusOp>& pool() { return preallocated; } PriorityQueue<SPIBusOp*>& wq() { return work_queue; }
  void tick(SPIBusOp* o) { o->advance_operation(0, 0); } int serve() { return service_callback_queue(); }
  int queue(SPIBusOp* o, int p) { return p ? queue_io_job(o, p) : queue_io_job(o); }
};
struct TI2C : public I2CAdapter {
  TI2C(uint32_t n, uint8_t q) : I2CAdapter(new (mem) I2CAdapterOptions(0, 1, 2), n, q) {} static uint8_t mem[sizeof(I2CAdapterOptions)];
  void opts(bool, bool adv, bool now) { _pf_needs_op_advance(adv); _pf_dispatch_on_queue(now); }
  ElementPool<I2CBusOp>& pool() { return preallocated; } PriorityQueue<I2CBusOp*>& wq() { return work_queue; }
  void tick(I2CBusOp* o) { o->advance(0); } int serve() { return 0; }
  int queue(I2CBusOp* o, int) { return queue_io_job(o); }
};
uint8_t TI2C::mem[sizeof(I2CAdapterOptions)];
// A client's own job, made in any of the ways there are.
static SPIBusOp* made(Ctx& c, BusOpCallback* cb, SPIBusOp*) { Rng& r = c.rng; if (r.chance(1, 2)) return new SPIBusOp(BusOpcode::TX, cb); bool ah = r.chance(1, 2); uint8_t cs = (uint8_t)r.below(255); SPIBusOp* o = new SPIBusOp(BusOpcode::TX, cb, cs, ah); VF_CHECK(o->isIdle() && !o->hasFault() && o->get_opcode() == BusOpcode::TX && o->callback == cb && o->buffer() == nullptr && o->bufferLen() == 0 && o->getCSPin() == cs && o->csActiveHigh() == ah && o->transferParamLength() == 0, "made-job", "a job made for pin %u isn't as asked", cs); c.count("made_jobs"); return o; }
static I2CBusOp* made(Ctx& c, BusOpCallback* cb, I2CBusOp*) { Rng& r = c.rng; if (r.chance(1, 2)) return new I2CBusOp(BusOpcode::TX, cb); static uint8_t b[300]; uint8_t dev = (uint8_t)r.below(128); int16_t sub = r.chance(1, 3) ? -1 : (int16_t)r.below(256); uint16_t len = (uint16_t)r.below(300); uint8_t* p = len ? b : nullptr; I2CBusOp* o = new I2CBusOp(BusOpcode::RX, dev, sub, p, len); VF_CHECK(o->isIdle() && !o->hasFault() && o->get_opcode() == BusOpcode::RX && o->callback == nullptr && o->buffer() == p && o->bufferLen() == len && o->dev_addr == dev && o->sub_addr == sub && o->need_to_send_subaddr() == (sub >= 0), "made-job", "a job made for device %u, register %d, %u bytes isn't as asked", dev, sub, len); o->setBuffer(nullptr, 0); o->set_opcode(BusOpcode::TX); o->callback = cb; c.count("made_jobs"); return o; }
static bool fresh(SPIBusOp* o) { return o->getCSPin() == 255 && o->transferParamLength() == 0 && o->maxFreq() == 0 && !o->cpol() && !o->cpha() && o->bitsPerFrame() == 8; }
static bool fresh(I2CBusOp* o) { return o->dev_addr == 0 && o->sub_addr == -1; }
static void dress(SPIBusOp* o, Rng& r) { o->setCSPin((uint8_t)r.below(200)); o->setParams(1, 2, 3); o->maxFreq(1 + r.below(100)); o->cpol(r.chance(1, 2)); o->bitsPerFrame(SPIFrameSize::BITS_16); }
static void dress(I2CBusOp* o, Rng& r) { o->dev_addr = (uint8_t)(1 + r.below(120)); o->sub_addr = (int16_t)r.below(100); }

template <class A, class OP, bool SPI> static void run(Ctx& c) {
  Rng& r = c.rng; World w; W = &w; w.c = &c; w.cur = nullptr; w.spi = SPI; w.in_purge = false; w.total = w.failed = 0; w.in_poll = w.dispatching = false;
  finished.clear();
  const bool vast = r.chance(1, 200); if (vast) c.count("large_pools"); const unsigned npool = vast ? r.below(400) : r.below(7), maxq = vast ? 1 + r.below(255) : 1 + r.below(10); const bool guard = SPI && r.chance(1, 2), adv = r.chance(1, 2), now = !SPI && r.chance(1, 2);
  A* a = new A(npool, (uint8_t)maxq); Dev dev[3]; for (int i = 0; i < 3; i++) dev[i].n = i;
  a->opts(guard, adv, now); VF_CHECK(0 == a->init() && a->busOnline() && !a->busError(), "init", "the adapter did not come up"); a->opts(guard, adv, now);
  VF_CHECK(a->pool().available() == npool, "pool-conserved", "%u of %u pool jobs after init", a->pool().available(), npool);
  c.op("%s pool %u q %u%s%s%s", SPI ? "spi" : "i2c", npool, maxq, guard ? " guard" : "", adv ? " adv" : "", now ? " now" : "");
  int ids = 0; std::vector<OP*> exts;
  w.guard = guard; w.maxq = maxq; w.depth = [a]() { return (unsigned)a->wq().size(); };
  auto reap = [&]() {
    for (Job* j : finished) {
      if (j->ext) {
        OP* o = (OP*)j->op; VF_CHECK(o->isIdle(), "client-job-idle", "a client-owned job is left in state %s", o->getStateString());
        if (j->freebuf) VF_CHECK(o->buffer() == nullptr && o->bufferLen() == 0, "buffer-freed", "the job kept a buffer that was to be freed"); else if (j->buf) VF_CHECK(o->buffer() == j->buf, "job-intact", "a client-owned job lost its buffer");
        delete o;
      }
      if (j->buf && !j->freebuf) free(j->buf);
      delete j;
    }
    finished.clear();
  };
  // After anything that may have taken a job out of the active slot, and after recycling.
  auto sync = [&]() {
    if (SPI && w.cur && a->currentJob() == nullptr) { VF_CHECK(w.cur->done_hw, "not-lost", "job %d left the active slot before it was done", w.cur->id); w.push(w.cbq, w.cur, 0); w.cur = nullptr; }
    VF_CHECK((a->currentJob() == nullptr) == (w.cur == nullptr) || (w.cur == nullptr && !w.q.empty() && a->currentJob() == (OP*)w.q[0].first->op), "active-job", "the active job is not the expected one");
    if (w.cur) VF_CHECK(a->currentJob() == (OP*)w.cur->op, "active-job", "the active job is not %d", w.cur->id);
  };
  auto expect_queue = [&]() {
    std::vector<BusOp*> e; for (auto& x : w.q) e.push_back(x.first->op);
    if (!e.empty() && !w.cur && a->currentJob() == (OP*)e[0]) e.erase(e.begin());     // promoted, but the bus was busy
    VF_CHECK(a->wq().size() == (int)e.size(), "queue-content", "%d jobs are queued, should be %u", a->wq().size(), (unsigned)e.size());
    for (unsigned i = 0; i < e.size(); i++) VF_CHECK((BusOp*)a->wq().get((int)i) == e[i], "queue-content", "queue place %u holds the wrong job", i);
    VF_CHECK(a->roomInQueue() == (e.size() < maxq), "room", "roomInQueue() is wrong at %u of %u", (unsigned)e.size(), maxq);
    VF_CHECK(a->busIdle() == (a->currentJob() == nullptr && e.empty()), "idle", "busIdle() is wrong");
  };
  auto submit = [&]() {
    Job* j = new Job(); memset(j, 0, sizeof *j); j->id = ++ids & 0xFF; j->dev = (int)r.below(3); j->ext = r.chance(1, 4);
    if (SPI && r.chance(1, 12)) j->dev = -1;
    BusOpCallback* cb = j->dev < 0 ? nullptr : &dev[j->dev]; OP* o; uint32_t av = a->pool().available();
    if (j->ext) { o = made(c, cb, (OP*)nullptr); o->shouldReap(false); }
    else { const bool bare = r.chance(1, 6); o = bare ? a->new_op(BusOpcode::UNDEF, nullptr) : a->new_op(BusOpcode::TX, cb); VF_CHECK(o, "new-op", "no job was given"); j->pool = a->pool().inPool(o); if (bare) { VF_CHECK(o->get_opcode() == BusOpcode::UNDEF && o->callback == nullptr, "fresh-job", "a job asked for without an opcode and client has them"); o->set_opcode(BusOpcode::TX); o->callback = cb; c.count("bare_jobs"); }
      VF_CHECK(j->pool == (av > 0), "pool-first", "a job was%s taken from the pool with %u free", j->pool ? "" : " not", av);
      VF_CHECK(o->isIdle() && !o->hasFault() && o->get_opcode() == BusOpcode::TX && o->callback == cb && o->buffer() == nullptr && o->bufferLen() == 0 && fresh(o) && !o->shouldFreeBuffer(), "fresh-job", "a new job carries something of its previous use");
      VF_CHECK(o->shouldReap() == !j->pool, "fresh-job", "a new job has the wrong reap setting"); c.count(j->pool ? "pool_jobs" : "overdrawn_jobs"); }
    for (Job* k : w.jobs) VF_CHECK(k->op != o, "pool-conserved", "a pending job was given out again");
    j->op = o; dress(o, r);
    if (r.chance(2, 3)) { j->buf = (uint8_t*)malloc(16); j->buf[0] = (uint8_t)j->id; o->setBuffer(j->buf, 16); j->freebuf = r.chance(1, 2); o->shouldFreeBuffer(j->freebuf); }
    j->busy = r.chance(1, 8) ? (int)(1 + r.below(3)) : 0; if (now && !w.cur) j->busy = 0;
    static const XferFault fl[] = {XferFault::TIMEOUT, XferFault::BUS_FAULT, XferFault::DEV_FAULT, XferFault::DEV_NOT_FOUND, XferFault::BAD_PARAM};
    j->begin_fault = r.chance(1, 10) ? fl[r.below(5)] : XferFault::NONE; j->recall = r.chance(1, 15); if (!cb && !SPI) j->recall = false;
    j->end_fault = r.chance(1, 7) ? fl[r.below(5)] : XferFault::NONE; j->ticks = (int)r.below(4); j->instant = r.chance(1, 5); if (j->instant) j->ticks = 0;
    j->recycles = r.chance(1, 6) ? (int)(1 + r.below(2)) : 0; j->fault = XferFault::NONE; j->pri = SPI && r.chance(1, 3) ? (int)r.below(4) : 0;
    if (j->dev < 0) { j->recall = false; }
    w.jobs.push_back(j);
    int depth = a->wq().size(); int want = 0; bool refuse = SPI && guard && depth >= (int)maxq; bool disp = now && !a->currentJob();
    c.op("job %d dev %d pri %d%s", j->id, j->dev, j->pri, j->ext ? " ext" : j->pool ? " pool" : " heap"); c.count("jobs");
    if (refuse) { want = -1; j->refused = true; j->fault = XferFault::QUEUE_FLUSH; j->recycles = 0; w.push(w.cbq, j, j->pri); c.count("jobs_refused"); }
    else if (disp) { w.dispatching = true; c.count("dispatched_at_once"); }
    else w.push(w.q, j, j->pri);
    int g = a->queue(o, j->pri); w.dispatching = false;
    VF_CHECK(g == want, "queue-code", "queueing job %d gave %d, should be %d", j->id, g, want);
    if (!refuse && !disp) VF_CHECK(o->isQueued(), "queued-state", "a queued job is in state %s", o->getStateString());
    if (!refuse && !disp && r.chance(1, 6)) { int g2 = a->queue(o, j->pri); VF_CHECK(g2 < 0, "queued-once", "queueing job %d twice gave %d", j->id, g2); c.count("double_queueing"); }
  };
  const int N = vast ? 25 + r.below(20) : 40 + r.below(120); bool burst = vast;
  auto poll = [&]() { PollResult p = a->poll(); sync(); if (p == PollResult::REPOLL) VF_CHECK(!a->busIdle(), "poll-result", "poll() asks to be repeated on an idle bus"); if (p == PollResult::ACTION) VF_CHECK(a->busIdle(), "poll-result", "poll() reports all done with work pending"); VF_CHECK(p != PollResult::ERROR, "poll-result", "poll() reports an error"); reap(); };
  auto serve = [&]() { unsigned b4 = (unsigned)w.cbq.size(); int g = a->serve(); if (SPI) VF_CHECK((g == 1) == (b4 > 0), "call-back-order", "with %u call-backs due, %d made", b4, g); sync(); reap(); };
  auto tick = [&]() { if (w.cur && !w.cur->done_hw && w.cur->starts) a->tick((OP*)w.cur->op); };
  for (int k = 0; k < N; k++) {
    switch (r.below(12)) {
      case 0: case 1: case 2: if (w.jobs.size() < 30) submit(); if (burst) { burst = false; for (unsigned b = 130 + r.below(150); b; b--) submit(); } break;
      case 3: case 4: case 5: poll(); break;
      case 6: case 7: serve(); break;
      case 8: case 9: if (!adv) tick(); break;
      case 10: if (r.chance(1, vast ? 2 : 8)) { // purge by client
        int d = (int)r.below(3); w.in_purge = true; for (auto& x : w.q) if (x.first->dev == d && !(w.cur == nullptr && a->currentJob() == (OP*)x.first->op)) w.purge_expect.push_back(x.first);
        unsigned n = (unsigned)w.purge_expect.size(); std::vector<Job*> gone = w.purge_expect; c.op("purge dev %d", d); int g = a->purge_queued_work_by_dev(&dev[d]); w.in_purge = false;
        VF_CHECK(w.purge_expect.empty(), "purge-set", "a purge by client left job %d queued", w.purge_expect.empty() ? 0 : w.purge_expect[0]->id); VF_CHECK(g == (int)n, "purge-count", "a purge of %u jobs gave %d", n, g);
        for (Job* j : gone) for (unsigned i = 0; i < w.q.size(); i++) if (w.q[i].first == j) { w.q.erase(w.q.begin() + i); break; }
        c.count("client_purges"); if (n) c.count("purged_by_client", n); reap(); } break;
      case 11: if (r.chance(1, 10)) {
        if (r.chance(1, 2)) { w.in_purge = true; std::vector<std::pair<Job*, int>> keep; for (auto& x : w.q) if (w.cur == nullptr && a->currentJob() == (OP*)x.first->op) keep.push_back(x); else w.purge_expect.push_back(x.first);
          c.op("purge queue"); a->purge_queued_work(); w.in_purge = false; VF_CHECK(w.purge_expect.empty(), "purge-set", "a purge left a job queued"); w.q = keep; c.count("queue_purges"); reap(); }
        else { Job* j = w.cur; if (!j && a->currentJob()) { j = w.q[0].first; w.q.erase(w.q.begin()); } if (j) { w.in_purge = true; w.purge_expect.push_back(j); } c.op("purge current"); a->purge_current_job(); w.in_purge = false; VF_CHECK(w.purge_expect.empty() && a->currentJob() == nullptr, "purge-set", "a purge left the active job"); w.cur = nullptr; if (j) c.count("active_purges"); reap(); }
      } break;
    }
    expect_queue();
    c.feat(mix(w.q.size() * 8 + w.cbq.size(), (w.cur ? 1 + w.cur->done_hw : 0) + 4 * a->pool().available()));
  }
  // Everything gets done.
  int spins = 0; while (!w.jobs.empty()) { poll(); if (!adv) tick(); serve(); VF_CHECK(++spins < 5000, "every-job-completes", "%u jobs are not done after %d polls (job %d)", (unsigned)w.jobs.size(), spins, w.jobs[0]->id); }
  poll(); expect_queue();
  VF_CHECK(a->busIdle() && a->poll() == PollResult::NO_ACTION, "idle", "an adapter without jobs is not idle");
  VF_CHECK(a->pool().available() == npool, "pool-conserved", "%u of %u pool jobs are back", a->pool().available(), npool);
  VF_CHECK(a->pool().overdraws() == a->pool().overdrawsFreed(), "pool-conserved", "%u overdrawn jobs, %u freed", a->pool().overdraws(), a->pool().overdrawsFreed());
  { StringBuilder s; a->printAdapter(&s); unsigned f, t; const char* p = strstr((char*)s.string(), "Xfers (fail/total)"); VF_CHECK(p && 2 == sscanf(p + 18, " %u/%u", &f, &t), "statistics", "no statistics"); VF_CHECK(f == w.failed && t == w.total, "statistics", "the adapter counted %u/%u transfers, should be %u/%u", f, t, w.failed, w.total); }
  delete a; c.nontrivial = true;
  std::vector<Job*>().swap(finished);
}
// Census of an I2C bus: every address from the first is probed once, and shown as it answered.
static void census(Ctx& c) {
  Rng& r = c.rng; World w; W = &w; w.c = &c; memset(&PR, 0, sizeof PR); PR.on = true;
  TI2C* a = new TI2C(r.below(3), 4); const bool adv = r.chance(1, 2), now = r.chance(1, 2); a->opts(false, adv, now); a->init(); a->opts(false, adv, now);
  uint8_t from = (uint8_t)(r.chance(1, 2) ? r.below(4) : r.below(128)); for (int i = 0; i < 128; i++) PR.answers[i] = r.chance(1, 3); c.hash(PR.answers, 128); c.op("census from %u", from);
  a->ping_slave_addr(from); int n = 0; while (!a->busIdle() && ++n < 2000) { a->poll(); if (!adv && a->currentJob()) a->tick(a->currentJob()); }
  for (int i = 0; i < 128; i++) VF_CHECK(PR.probed[i] == (i >= from), "census", "address %d was probed %d times, in a census from %u", i, PR.probed[i], from);
  StringBuilder s; a->printPingMap(&s); const char* t = (const char*)s.string();
  for (int i = 0; i < 128; i++) { char tag[12]; snprintf(tag, sizeof tag, "0x%02x: ", i & 0x70); const char* p = strstr(t, tag); VF_CHECK(p, "census-map", "no line for %02x", i); char ch = p[6 + (i & 15) * 2]; char want = i < from ? ' ' : PR.answers[i] ? '*' : '.'; VF_CHECK(ch == want, "census-map", "address %02x is shown as '%c', should be '%c'", i, ch, want); }
  // A device object's transfers.
  PR.on = false; c.count("censuses"); delete a; c.nontrivial = true;
}
struct TDev : public I2CDevice { World* w; std::vector<int> done; std::vector<std::pair<uint8_t*, unsigned>> bufs; TDev(uint8_t a) : I2CDevice(a) {} 
  int8_t io_op_callback(BusOp* op) { I2CBusOp* o = (I2CBusOp*)op; VF_CHECK(o->dev_addr == _dev_addr, "device-job", "a job of address %u came back to device %u", o->dev_addr, _dev_addr); int k = (o->get_opcode() == BusOpcode::TX ? 1000 : o->get_opcode() == BusOpcode::RX ? 2000 : 3000) + (o->need_to_send_subaddr() ? o->sub_addr : 999); done.push_back(k); bufs.push_back({o->buffer(), o->bufferLen()}); return 0; } 
  bool wr(int s, uint16_t n, uint8_t* b) { return writeX(s, n, b); } bool rd(int s, uint8_t n, uint8_t* b) { return readX(s, n, b); } bool ping() { return ping_device(); } };
static void devices(Ctx& c) {
  Rng& r = c.rng; World w; W = &w; w.c = &c; memset(&PR, 0, sizeof PR);
  TI2C* a = new TI2C(r.below(5), 4); const bool now = r.chance(1, 2); a->init(); a->opts(false, true, now); w.spi = false; w.cur = nullptr; w.in_purge = false;
  TDev* d = new TDev((uint8_t)(1 + r.below(120))); uint8_t b[600]; memset(b, 0, sizeof b); std::vector<std::pair<uint8_t*, unsigned>> bufs; if (r.chance(1, 4)) VF_CHECK(!d->wr(1, 4, b) && !d->rd(1, 4, b), "device-job", "a device without a bus claims to transfer"); d->setAdapter(a); std::vector<int> want; PR.on = false;
  extern bool passive; passive = true; const int N = 1 + r.below(10);
  for (int i = 0; i < N; i++) { int sub = r.chance(1, 4) ? -1 : (int)r.below(200), kind = (int)r.below(3); unsigned at = r.below(300), len = 1 + r.below(kind ? 255 : 300); bool g = kind == 0 ? d->wr(sub, (uint16_t)len, b + at) : kind == 1 ? d->rd(sub, (uint8_t)len, b + at) : d->ping(); bufs.push_back({kind == 2 ? nullptr : b + at, kind == 2 ? 0 : len}); if (kind == 2) sub = -1; c.op("dev %d %d", kind, sub); VF_CHECK(g, "device-job", "a device transfer was refused"); want.push_back((kind == 0 ? 1000 : kind == 1 ? 2000 : 3000) + (sub < 0 ? 999 : sub)); if (r.chance(1, 3)) a->poll(); }
  if (r.chance(3, 4)) { for (int i = 0; i < 200 && !a->busIdle(); i++) a->poll(); VF_CHECK(d->bufs == bufs, "device-job", "a transfer was made with another buffer or length than it was asked for"); VF_CHECK(d->done == want, "device-job", "%u transfers were asked for, %u came back, or in another order", (unsigned)want.size(), (unsigned)d->done.size()); delete d; c.count("device_transfers", N); }
  else { a->purge_current_job(); d->done.clear(); unsigned n = a->wq().size(); delete d; VF_CHECK(a->wq().size() == 0, "purge-set", "a device went away and left %d of %u jobs queued", a->wq().size(), n); c.count("devices_removed"); }
  passive = false; delete a; c.nontrivial = true;
}
bool passive;
struct AskedOp : public BusOp { XferFault begin() { return XferFault::NONE; } void wipe() {} void printDebug(StringBuilder*) {} using BusOp::_busop_flag; using BusOp::_busop_flags; using BusOp::_busop_set_flag; using BusOp::_busop_clear_flag; using BusOp::set_fault; };
// What a job answers about itself, in every state, and the flags it keeps for its class.
static void answers(Ctx& c) {
  Rng& r = c.rng; AskedOp p; uint16_t ext = 0; bool reap = true, release = false, fault = false; int st = (int)XferState::IDLE; static const int states[] = {0, 1, 2, 3, 5, 7, 8, 10, 14, 15}; c.op("a job's answers");
  for (unsigned k = 8 + r.below(40); k; k--) {
    switch (r.below(8)) {
      case 0: case 1: st = states[r.below(10)]; if (st == 2 && r.chance(1, 2)) p.markQueued(); else p.set_state((XferState)st); c.op("state %d", st); break;
      case 2: { uint16_t m = r.chance(1, 2) ? 1u << r.below(16) : (uint16_t)r.u32(); bool on = r.chance(1, 2); if (r.chance(1, 2)) p._busop_set_flag(m, on); else if (on) p._busop_set_flag(m); else p._busop_clear_flag(m); ext = on ? ext | m : ext & ~m; c.op("flags %04x %d", m, on); break; }
      case 3: reap = r.chance(1, 2); p.shouldReap(reap); break; case 4: release = r.chance(1, 2); p.shouldFreeBuffer(release); break;
      case 5: { unsigned f = r.below(15); p.set_fault((XferFault)f); fault = f != 0; VF_CHECK((unsigned)p.getFault() == f, "answers", "the fault is %u, set was %u", (unsigned)p.getFault(), f); break; }
      case 6: p.markForRequeue(); st = 1; fault = false; c.op("for requeue"); break;
      default: { uint8_t b[4]; unsigned n = r.below(65536); p.setBuffer(b, n); VF_CHECK(p.buffer() == b && p.bufferLen() == n, "answers", "the buffer isn't the one set"); break; }
    }
    const bool wait = st == 7 || st == 8; uint16_t m = r.chance(1, 2) ? 1u << r.below(16) : (uint16_t)r.u32();
    VF_CHECK(p.isIdle() == (st == 1) && p.isQueued() == (st == 2) && p.inIOWait() == wait && p.isComplete() == (st >= 14) && p.inProgress() == (st >= 3 && st < 14) && p.has_bus_control() == (wait || st == 3 || st == 5 || st == 10) && (int)p.get_state() == st, "answers", "in state %d: idle %d, queued %d, waiting %d, complete %d, in progress %d, with the bus %d", st, p.isIdle(), p.isQueued(), p.inIOWait(), p.isComplete(), p.inProgress(), p.has_bus_control());
    VF_CHECK(p._busop_flags() == ext && p._busop_flag(m) == ((ext & m) != 0), "answers", "the class's flags are %04x, should be %04x (asked for %04x)", p._busop_flags(), ext, m);
    VF_CHECK(p.shouldReap() == reap && p.shouldFreeBuffer() == release && p.hasFault() == fault && !p.hasCallback(), "answers", "reap %d (%d), free buffer %d (%d), fault %d (%d)", p.shouldReap(), reap, p.shouldFreeBuffer(), release, p.hasFault(), fault); c.count("job_answers"); c.feat(mix(st, fault));
  }
  c.nontrivial = true;
}
void vf_case(Ctx& c) { if (c.rng.chance(1, 24)) { answers(c); return; } if (c.rng.chance(1, 12)) { census(c); return; } if (c.rng.chance(1, 10)) { devices(c); return; }
  if (c.rng.chance(1, 2)) run<TSPI, SPIBusOp, true>(c); else run<TI2C, I2CBusOp, false>(c); }
