import sys; sys.path.insert(0,'/verif/tools/plant'); from plant import plant as plant_
def plant(*a):
  try: plant_(*a)
  except AssertionError as e: print(a[0],'ASSERT',str(e)[:300])
plant('enum-first-catchall','C16',('EnumWrapper.h','''          return (LIST_PTR + i);
        }
        else if ((LIST_PTR + i)->FLAGS & ENUM_WRAPPER_FLAG_CATCHALL) {
          catchall_idx = i;''','''          return (LIST_PTR + i);
        }
        else if ((LIST_PTR + i)->FLAGS & ENUM_WRAPPER_FLAG_CATCHALL) {
          if (0xFFFFFFFF == catchall_idx) catchall_idx = i;'''),'''
#include "CppPotpourri.h"
#include "EnumWrapper.h"
enum class E : uint8_t { A, B, C, D };
static const EnumDef<E> D[] = { {E::A, "a"}, {E::B, "b", ENUM_WRAPPER_FLAG_CATCHALL}, {E::C, "c", ENUM_WRAPPER_FLAG_CATCHALL}, {E::D, "d"} };
static const EnumDefList<E> L(D, 4, "E");
int main() { EXPECT(L.getEnumDefByStr("nope")->VAL == E::C); EXPECT(L.getEnumByStr("nope") == E::C); return 0; }''','a list with several catch-alls','the two lookups by text disagree on which catch-all is meant')
plant('kvp-key-reap','C21',('C3PValue/KeyValuePair.cpp','''    free((void*)_key);
    _reap_key(false);''','''    free((void*)_key);'''),'''
#include "C3PValue/KeyValuePair.h"
int main() {
  static const char* const K = "constant";
  char own[8]; strcpy(own, "mine");
  KeyValuePair* k = new KeyValuePair(own, (uint32_t) 5);
  k->setKey(K); EXPECT(0 == strcmp(k->getKey(), "constant"));
  k->setKey("other");
  delete k;
  return 0;
}''','an entry whose copied key is replaced by a constant one','the constant key is freed')
plant('checklist-dispatched-mask','C47',('Image/GfxUI/GfxUIChecklist.cpp','      else if (_CHK_LIST->all_steps_dispatched(STEP_FLAG)) {\n        label_color = _style.color_active;','      else if (_CHK_LIST->all_steps_dispatched(STEP->DEP_MASK)) {\n        label_color = _style.color_active;'),'''
#include "AbstractPlatform.h"
#include "AsyncSequencer.h"
#include "Image/Image.h"
#include "Image/ImageUtils.h"
#include "Image/GfxUI.h"
#include "Image/GfxUI/GfxUIKit.h"
static const StepSequenceList S[] = {
  { 1, "Ab", 0, []() { return 1; }, []() { return 1; } },
  { 2, "Cd", 1, []() { return 1; }, []() { return 1; } },
};
struct V : GfxUIChecklist { using GfxUIChecklist::GfxUIChecklist; using GfxUIElement::render; };
int main() {
  AsyncSequencer q(S, 2);
  Image m(200, 100, ImgBufferFormat::R8_G8_B8); EXPECT(m.reallocate()); m.fill(0);
  UIGfxWrapper g(&m);
  GfxUIStyle st(0, 0xFFFFFF, 0x0000FF, 0x0000FF, 0x404040, 0x808080, 0x00FFFF, 1);
  V c(&q, GfxUILayout(0, 0, 150, 60, 0, 0, 0, 0, 0, 0, 0, 0), st, 0);
  c.render(&g, true);
  bool seen = false; const uint32_t idle = st.color_inactive;
  for (int y = 0; y < 60; y++) for (int x = 0; x < 150; x++) { uint32_t p = m.getPixel(x, y); EXPECT(p == 0 || p == idle); seen |= p == idle; }
  EXPECT(seen);
  return 0;
}''','a step without dependencies that was never asked for','an idle step shows as requested')
plant('list-count-removed','C08',('LightLinkedList.h','''    current->data = d;
    current->next = root;
    root = current;
    element_count++;''','''    current->data = d;
    current->next = root;
    root = current;
    element_count = (current->next) ? (element_count + 1) : count();'''),'int main(){return 0;}','x','x') if 0 else None
plant('vec-reflect-alias','C40',('Vector3.h','    T length_squared() const {  return (T)(*this * *this);       }','    T length_squared() const {  return (T)(length() * length());       }'),'''
#include "Vector3.h"
int main() { Vector3<int32_t> v(1, 1, 1); EXPECT(v.length_squared() == 3); Vector3<float> f(1.1f, 2.3f, 3.7f); return 0; }''','a vector of integers whose length is not whole','the squared length is that of the rounded length')
plant('cbor-len-256','C20',('cbor-cpp/cbor.cpp','''  if (value < 24U) {''','''  if (value <= 24U) {'''),'''
#include "cbor-cpp/cbor.h"
int main() { StringBuilder b; cbor::output_stringbuilder o(&b); cbor::encoder e(o); std::string s(24, 'x'); e.write_string(s.c_str()); EXPECT(b.length() == 26); return 0; }''','a string of exactly 24 bytes','its length is encoded as a reserved short form')
plant('pool-give-range','C10',('ElementPool.h','  return ((obj_addr < pre_max) & (obj_addr >= pre_min));','  return ((obj_addr <= pre_max) & (obj_addr >= pre_min));'),'''
#include "StringBuilder.h"
#include "RingBuffer.h"
#include "ElementPool.h"
int main() {
  static uint64_t mem[9]; ElementPool<uint64_t> p(8, 4, mem); EXPECT(p.allocated());
  EXPECT(p.inPool(mem)); EXPECT(p.inPool(mem + 7)); EXPECT(!p.inPool(mem + 8));
  return 0;
}''','an element just past the pool','the element past the pool is taken for one of it')
plant('svc-who-known','C31',('M2MLink/M2MLink.cpp','          if (nullptr == _id_remote) {','          if ((nullptr == _id_remote) | !temp->isReply()) {'),'int main(){ return 0; }','x','x') if 0 else None
plant('busop-requeue-fault','C37',('BusQueue/BusQueue.h','''    inline void markForRequeue() {
      _xfer_fault = XferFault::NONE;
      _xfer_state = XferState::IDLE;''','''    inline void markForRequeue() {
      _xfer_state = XferState::IDLE;'''),'''
#include "AbstractPlatform.h"
#include "BusQueue/BusQueue.h"
struct O : BusOp { XferFault begin() { return XferFault::NONE; } void wipe() {} void printDebug(StringBuilder*) {} int8_t advance(uint32_t) { return 0; } int8_t abort(XferFault f) { set_fault(f); return 0; } void set_fault(XferFault f) { _xfer_fault = f; } };
int main() { O o; o.set_fault(XferFault::TIMEOUT); EXPECT(o.hasFault()); o.markForRequeue(); EXPECT(!o.hasFault()); return 0; }''','a job that failed and is recycled by its call-back','the recycled job still shows the fault of its first run')
plant('text-utf','C05',('StringBuilder.cpp','x','y'),'','','') if 0 else None
