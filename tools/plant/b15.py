import sys; sys.path.insert(0,'/verif/tools/plant'); from plant import plant as plant_
import re
LINKS=re.search(r"LINKS='''(.*?)'''",open('/verif/tools/plant/b9.py').read(),re.S).group(1).replace('\\\\','\\')
UI=re.search(r"\nUI='''(.*?)'''",open('/verif/tools/plant/b11.py').read(),re.S).group(1)
def plant(*a):
  try: plant_(*a)
  except AssertionError as e: print(a[0],'ASSERT',str(e)[:300])
  sys.stdout.flush()
PAIR='''
  M2MLinkOpts o(500, 3000, 600, TCode::CBOR, 0); M2MLink* a = new M2MLink(&o); M2MLink* b = new M2MLink(&o); Pipe ab, ba; ab.to = b; ba.to = a; a->setEfferant(&ab); b->setEfferant(&ba); a->setCallback(on_msg); b->setCallback(on_msg); IdentityUUID ia("alice"), ib("bob"); a->localIdentity(&ia); b->localIdentity(&ib);
  auto run = [&](int n) { StringBuilder l; for (int i = 0; i < n; i++) { now_us += 5000; a->poll(&l); ab.flow(); b->poll(&l); ba.flow(); l.clear(); } };
  run(2000); EXPECT(a->isConnected() && b->isConnected());
'''
STY='GfxUIStyle st(0x202020, 0xFFFFFF, 0xFFFFFF, 0xA0A0A0, 0x808080, 0xFFFFFF, 0x202020, 1);'
plant('log-empty-fmt','C38',('AbstractPlatform.cpp','int8_t ret = (0 <= msg.concatf(fmt, args)) ? 0:-1;','int8_t ret = (0 < msg.concatf(fmt, args)) ? 0:-1;'),'''
#include "AbstractPlatform.h"
static int lines = 0;
void c3p_log(uint8_t, const char*, StringBuilder* m) { lines++; }
int main() { c3p_log(3, "t", "%s", "x"); EXPECT(1 == lines); c3p_log(3, "t", "%s", ""); EXPECT(2 == lines); return 0; }''','a formatted message that comes out empty','its line is lost')
plant('reset-keeps-peer','C33',('M2MLink/M2MLink.cpp','''  if (nullptr != _id_remote) {
    // TODO: Follow logic tree for Identity storage. For now, just wipe it.
    Identity* tmp_ptr = _id_remote;
    _id_remote = nullptr;
    delete tmp_ptr;
  }
}''','''}'''),'''
#define CONFIG_C3P_IDENTITY_SUPPORT
#include "C3PValue/C3PType.cpp"
#include "C3PValue/KeyValuePair.cpp"
'''+LINKS+'''
int main() {'''+PAIR+'''
  run(3000); EXPECT(nullptr != b->remoteIdentity()); StringBuilder l; b->hangup(false); for (int i = 0; i < 3; i++) { now_us += 5000; b->poll(&l); } EXPECT(0 == b->reset()); b->poll(&l); EXPECT(nullptr == b->remoteIdentity()); return 0; }''','a reset after a session with introductions','the former counterparty is still named')
plant('ident-name-8bit','C33',('Identity/Identity.cpp','''    int str_bytes = 0;
    if (_handle) {''','''    uint8_t str_bytes = 0;
    if (_handle) {'''),'''
#include "AbstractPlatform.h"
#include "Identity/IdentityUUID.h"
int main() { static char t[300]; memset(t, 'x', 299); IdentityUUID i(t); static uint8_t b[1000]; memset(b, 'z', sizeof(b)); const int n = i.length(); EXPECT(n == i.toBuffer(b)); Identity* r = Identity::fromBuffer(b, n); EXPECT(nullptr != r); EXPECT(0 == strcmp(r->getHandle(), t)); StringBuilder s, u; i.toString(&s); r->toString(&u); EXPECT(s.length() == u.length()); uint8_t c[1000]; EXPECT(n == r->toBuffer(c)); EXPECT(0 == memcmp(b, c, n)); EXPECT('x' == b[270]); return 0; }''','a name of more than 255 characters','its UUID is written over the name')
plant('textarea-exact','C47',('Image/GfxUI/GfxUITextArea.cpp','''while ((additional_length + _scrollback.length()) > _max_scrollback_bytes) {''','''while ((additional_length + _scrollback.length()) >= _max_scrollback_bytes) {'''),UI+'''
int main() { Image im(100, 100, ImgBufferFormat::R8_G8_B8); im.reallocate(); UIGfxWrapper g(&im); '''+STY+''' GfxUITextArea t(GfxUILayout(0, 0, 100, 100, 0, 0, 0, 0, 0, 0, 0, 0), st, GFXUI_TXTAREA_FLAG_SCROLLABLE); t.scrollbackLength(20);
  StringBuilder s("0123456789\\n"); t.pushBuffer(&s); s.concat("abcdefghij"); t.pushBuffer(&s); t.render(&g, true); bool any = false; for (int x = 0; x < 100; x++) for (int y = 9; y < 16; y++) any |= (0x202020 != im.getPixel(x, y)); EXPECT(any); return 0; }''','text that fills the scrollback exactly','a line is dropped for nothing')
plant('clear-keeps-scroll','C47',('Image/GfxUI/GfxUITextArea.cpp','''  _scrollback.clear();
  if (scrollable()) {
    _top_line = 0;
  }
  _need_redraw(true);''','''  _scrollback.clear();
  _need_redraw(true);'''),UI+'''
static Image im(100, 33, ImgBufferFormat::R8_G8_B8); static bool drawn(int y0) { for (int x = 0; x < 6; x++) for (int y = y0; y < y0 + 7; y++) if (0x202020 != im.getPixel(x, y)) return true; return false; }
int main() { im.reallocate(); UIGfxWrapper g(&im); '''+STY+''' GfxUITextArea t(GfxUILayout(0, 0, 100, 33, 0, 0, 0, 0, 0, 0, 0, 0), st, GFXUI_TXTAREA_FLAG_SCROLLABLE); t.scrollbackLength(2000); PriorityQueue<GfxUIElement*> cl;
  StringBuilder s("a\\nb\\nc\\nd\\ne\\nf\\ng\\nh\\n"); t.pushBuffer(&s); t.render(&g, true); t.notify(GfxUIEvent::MOVE_UP, 5, 5, &cl); t.notify(GfxUIEvent::MOVE_UP, 5, 5, &cl);
  t.clear(); s.concat("a\\nb\\nc\\nd\\ne\\nf\\ng\\nh\\n"); t.pushBuffer(&s); EXPECT(!t.notify(GfxUIEvent::MOVE_DOWN, 5, 5, &cl)); return 0; }''','a scrolled area is cleared and filled again before it is rendered','it shows old lines')
plant('children-reap-unmarked','C45',('Image/GfxUI/GfxUI.cpp','''    GfxUIElement* ui_obj = _children.dequeue();
    if (ui_obj->shouldReap()) {''','''    GfxUIElement* ui_obj = _children.dequeue();
    if (ui_obj->shouldReap() && !ui_obj->muteRender()) {'''),UI+'''
static int dead = 0; struct K : public GfxUIElement { K() : GfxUIElement(0, 0, 10, 10, GFXUI_FLAG_FREE_THIS_ELEMENT) {} ~K() { dead++; } int _render(UIGfxWrapper*) override { return 1; } bool _notify(const GfxUIEvent, PixUInt, PixUInt, PriorityQueue<GfxUIElement*>*) override { return false; } };
int main() { { GfxUIGroup g(0, 0, 100, 100); K* k = new K(); k->muteRender(true); g.add_child(k); } EXPECT(1 == dead); return 0; }''','a child that is muted when its parent goes','it leaks')
plant('move-children-later','C45',('Image/GfxUI/GfxUI.cpp','''  _x += shift_x;
  _y += shift_y;
  if (_children.hasNext()) {''','''  _x += shift_x;
  _y += shift_y;
  if (_children.hasNext() && !muteRender()) {'''),UI+'''
struct K : public GfxUIElement { K() : GfxUIElement(5, 5, 10, 10, 0) {} int _render(UIGfxWrapper*) override { return 1; } bool _notify(const GfxUIEvent, PixUInt, PixUInt, PriorityQueue<GfxUIElement*>*) override { return false; } };
int main() { K k; GfxUIGroup g(0, 0, 100, 100); g.add_child(&k); g.muteRender(true); g.reposition(10, 20); EXPECT(15 == k.elementPosX()); EXPECT(25 == k.elementPosY()); return 0; }''','an element is moved while muted','what is within it stays')
plant('slider-edge','C45',('Image/GfxUI/GfxUISlider.cpp','''        const float PIX_POS_REL = x - internalPosX();
        tmp_percentage = strict_min(''','''        const uint32_t PIX_POS_REL = x - internalPosX();
        tmp_percentage = strict_min('''),UI+'''
int main() { '''+STY+''' GfxUISlider t(GfxUILayout(0, 0, 100, 20, 0, 0, 10, 10, 0, 0, 0, 0), st, 0); PriorityQueue<GfxUIElement*> cl; t.notify(GfxUIEvent::TOUCH, 60, 5, &cl); t.notify(GfxUIEvent::TOUCH, 3, 5, &cl); EXPECT((double) 0 == t.value()); return 0; }''','a touch in the left margin','the slider goes to the right end')
plant('zoom-one-side','C45',('Image/GfxUI/GfxUISlider.cpp','''((_frac_0 != tmp_frac_0) || (_frac_1 != tmp_frac_1))''','''((_frac_0 != tmp_frac_0) && (_frac_1 != tmp_frac_1))'''),UI+'''
int main() { '''+STY+''' GfxUIZoomSlider t(GfxUILayout(0, 0, 100, 20, 0, 0, 0, 0, 0, 0, 0, 0), st, 0); t.value(0.5f, 1.0f); PriorityQueue<GfxUIElement*> cl; t.notify(GfxUIEvent::MOVE_UP, 60, 5, &cl); EXPECT(t.markWidth() > 0.502f); return 0; }''','the mark is widened while at one end','it does not widen')
plant('tab-content-late','C45',('Image/GfxUI/GfxUITabBar.cpp','''    content->elementActive(selected);
    content->muteRender(!selected);
    _add_child(content);''','''    content->elementActive(selected);
    content->muteRender(!selected && (1 < _tab_bar.tabCount()));
    _add_child(content);'''),UI+'''
static int drawn = 0; struct K : public GfxUIElement { K() : GfxUIElement(5, 5, 10, 10, 0) {} int _render(UIGfxWrapper*) override { drawn++; return 1; } bool _notify(const GfxUIEvent, PixUInt, PixUInt, PriorityQueue<GfxUIElement*>*) override { return false; } };
int main() { '''+STY+''' K a, b; Image im(100, 100, ImgBufferFormat::R8_G8_B8); im.reallocate(); UIGfxWrapper g(&im); GfxUITabbedContentPane t(GfxUILayout(0, 0, 100, 100, 0, 0, 0, 0, 0, 0, 0, 0), st, 0); t.addTab("a", &a, false); t.addTab("b", &b, true); a.muteRender(); EXPECT(a.muteRender()); return 0; }''','the first content is added unselected','it is drawn over the active one')

U="""
#include "AbstractPlatform.h"
#include "BusQueue/UARTAdapter.h"
struct U : public UARTAdapter {
  U(int t = 32) : UARTAdapter(1, 255, 255, 255, 255, t, 32) {}
  int8_t _pf_init() { _adapter_set_flag(UART_FLAG_HAS_TX | UART_FLAG_HAS_RX | UART_FLAG_UART_READY); return 0; }
  int8_t _pf_deinit() { return 0; }
  int8_t _pf_poll() { _handle_rx_push(); return 0; }
  void irq_handler() {}
  void feed(const char* t) { while (*t) _rx_buffer.insert((uint8_t) *t++); }
};
int main() { UARTOpts o; memset((void*) &o, 0, sizeof(o)); o.bitrate = 9600; o.bit_per_word = 8; o.stop_bits = UARTStopBit::STOP_1; o.parity = UARTParityBit::NONE; o.flow_control = UARTFlowControl::NONE;
"""
plant('uart-reset-rx','C42',('BusQueue/UARTAdapter.cpp',"""    _tx_buffer.clear();
    _rx_buffer.clear();""","""    _tx_buffer.clear();"""),U+'''U u; u.init(&o); u.feed("old"); u.reset(); u.feed("new"); StringBuilder s; u.read(&s); EXPECT(3 == s.length()); return 0; }''','bytes are waiting when the UART is reset','they come with the next session')
plant('uart-frags-full','C42',('BusQueue/UARTAdapter.cpp',"""          const int32_t BYTES_TO_INSERT = strict_min((int32_t) frag_len, BYTES_REMAINING);""","""          const int32_t BYTES_TO_INSERT = strict_min((int32_t) frag_len, strict_max(BYTES_REMAINING, (int32_t) 1)); if (frag_len > (BYTES_REMAINING << 3)) break;"""),U+'''U u; u.init(&o); StringBuilder s; for (int i = 0; i < 30; i++) s.concat((char) \'a\'); s.string(); StringBuilder t("cccccccccccccccccccccccc"); s.concatHandoff(&t); u.pushBuffer(&s); EXPECT(32 == u.pendingTxBytes()); return 0; }''','a fragment over eight times what still fits','the room is not used')
