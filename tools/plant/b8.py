import sys; sys.path.insert(0,'/verif/tools/plant'); from plant import plant as plant_
def plant(*a):
  try: plant_(*a)
  except AssertionError as e: print(a[0],'ASSERT',str(e)[:300])
PIN='''
#include "AbstractPlatform.h"
static int writes = 0, pins[16]; int8_t setPin(uint8_t p, bool v) { writes++; pins[p & 15] = v; return 0; } int8_t readPin(uint8_t p) { return pins[p & 15]; }
static void cmd(const char* s) { StringBuilder a(s), o; a.split(" "); callback_gpio_value(&o, &a); }
'''
plant('gpio-write-again','C49',('AbstractPlatform.cpp','          int8_t ret0 = setPin(arg0, (0 != arg1));','''          // No need to touch the hardware if this is what we wrote there last time.
          static int    last_write = -1;
          static int8_t ret0       = 0;
          if (last_write != ((arg0 << 1) | (0 != arg1))) {
            last_write = ((arg0 << 1) | (0 != arg1));
            ret0 = setPin(arg0, (0 != arg1));
          }'''),PIN+'''
int main() { cmd("val 3 1"); EXPECT(pins[3] == 1); pins[3] = 0; cmd("val 3 1"); EXPECT(pins[3] == 1 && writes == 2); return 0; }''','a pin is set to the same level twice with no other write between, the program having changed it','the second write never reaches the pin')
I2C='''
#include "AbstractPlatform.h"
#define CONFIG_C3P_I2CADAPTER_ENABLE_CONSOLE
#include "BusQueue/I2CAdapter.cpp"
#include "BusQueue/I2CBusOp.cpp"
#include "BusQueue/BusQueue.cpp"
static int probes[256]; XferFault I2CBusOp::begin() { probes[dev_addr]++; set_state(XferState::ADDR); return XferFault::NONE; }
XferFault I2CBusOp::advance(uint32_t) { if (dev_addr & 1) markComplete(); else abort(XferFault::DEV_NOT_FOUND); return XferFault::NONE; }
int8_t I2CAdapter::_bus_init() { return 0; } int8_t I2CAdapter::_bus_deinit() { return 0; } void I2CAdapter::printHardwareState(StringBuilder* o) {}
struct A : public I2CAdapter { A(const I2CAdapterOptions* o) : I2CAdapter(o, 4, 8) { _pf_needs_op_advance(true); } };
'''
plant('i2c-census-restart','C49',('BusQueue/I2CAdapter.cpp','''        op->dev_addr++;
        ret = BUSOP_CALLBACK_RECYCLE;''','''        // Addresses we already know about don't need another ping.
        do {   op->dev_addr++;   } while ((op->dev_addr < 127) && (I2CPingState::POS == get_ping_state_by_addr(op->dev_addr)));
        ret = BUSOP_CALLBACK_RECYCLE;'''),I2C+'''
int main() { I2CAdapterOptions o(0, 1, 2); A* a = new A(&o); a->init();
  for (int k = 0; k < 2; k++) { memset(probes, 0, sizeof(probes)); StringBuilder in("ping"), out; a->console_handler(&out, &in); for (int i = 0; i < 2000; i++) a->poll(); for (int i = 1; i < 128; i++) EXPECT(probes[i] == 1); }
  return 0; }''','a second census, after some devices answered the first','devices that went away are never noticed')
plant('busq-purge-late','C49',('BusQueue/BusQueue.h','''        current_job->abort(XferFault::QUEUE_FLUSH);
        if (current_job->callback) {''','''        if (!current_job->isComplete()) {   // It might have ended without our notice.
          current_job->abort(XferFault::QUEUE_FLUSH);
        }
        if (current_job->callback && !current_job->hasFault() == current_job->isIdle()) {'''),I2C+'''
static int called = 0; struct Cl : public BusOpCallback { int8_t io_op_callahead(BusOp*) { return 0; } int8_t queue_io_job(BusOp*) { return -1; } int8_t io_op_callback(BusOp*) { called++; return 0; } };
int main() { I2CAdapterOptions o(0, 1, 2); A* a = new A(&o); a->init(); Cl c; I2CBusOp* j = a->new_op(BusOpcode::TX, &c); j->dev_addr = 9; a->queue_io_job(j); a->poll(); j->markComplete();
  StringBuilder in("purge"), out; a->console_handler(&out, &in); EXPECT(called == 1 && a->busIdle()); return 0; }''','a purge of a job that is done but not yet reaped','its owner is never called back')
