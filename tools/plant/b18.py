exec(open('/verif/tools/plant/b15.py').read().split("plant('log-empty-fmt'")[0])
plant('enum-found-late','C16',('EnumWrapper.h','if (nullptr != found) {  *found = 0;  }','if ((nullptr != found) & (0xFFFFFFFF == catchall_idx)) {  *found = 0;  }'),'''
#include "EnumWrapper.h"
enum class E : uint8_t { A, B };
static const EnumDef<E> defs[] = { {E::A, "a", 0, 0}, {E::B, "b", ENUM_WRAPPER_FLAG_CATCHALL, 0} };
int main() { EnumDefList<E> l(defs, 2); int8_t f = 1; EXPECT(E::B == l.getEnumByStr("zz", &f)); EXPECT(0 == f); return 0; }''','a name that only the catch-all answers','the caller is not told that it was not found')
plant('busop-flag-8','C37',('BusQueue/BusQueue.h','inline bool _busop_flag(uint16_t _flag) {        return (_extnd_flags & _flag);  };','inline bool _busop_flag(uint8_t _flag) {        return (_extnd_flags & _flag);  };'),'''
#include "BusQueue/BusQueue.h"
struct P : public BusOp { XferFault begin() { return XferFault::NONE; } void wipe() {} void printDebug(StringBuilder*) {} using BusOp::_busop_flag; using BusOp::_busop_set_flag; };
int main() { P p; p._busop_set_flag(0x0100); EXPECT(p._busop_flag(0x0100)); return 0; }''','a flag in the upper byte','it reads back as clear')
