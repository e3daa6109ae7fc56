import sys; sys.path.insert(0,'/verif/tools/plant'); from plant import plant as plant_
def plant(*a):
  try: plant_(*a)
  except AssertionError as e: print(a[0],'ASSERT',str(e)[:300])
VIEW='''
#include "AbstractPlatform.h"
#include "FlagContainer.h"
#include "PriorityQueue.h"
#include "ElementPool.h"
#include "TimerTools/TimerTools.h"
#include "TimeSeries/TimeSeries.h"
#include "C3PLogger.h"
#include "TimerTools/C3PScheduler.h"
#include "Image/ImageUtils.h"
#include "Image/GfxUI.h"
static bool seen(Image* im, const char* s, uint32_t fg, int size) {
  int n = strlen(s) * 6 * size, h = 8 * size; Image one(n, h, ImgBufferFormat::R8_G8_B8); one.reallocate(); one.fillRect(0, 0, n, h, 0); one.setTextSize(size); one.setTextColor(0xFFFFFF, 0); one.setCursor(0, 0);
  for (const char* p = s; *p; p++) one.writeChar(*p);
  for (int y = 0; y + h <= (int) im->y(); y++) for (int x = 0; x + n <= (int) im->x(); x++) {
    bool ok = true; for (int j = 0; ok && j < h; j++) for (int i = 0; ok && i < n; i++) ok = ((one.getPixel(i, j) != 0) == (im->getPixel(x + i, y + j) == fg));
    if (ok) return true; }
  return false;
}
'''
LINK='''
#include "M2MLink/M2MLink.h"
#include "Identity/IdentityUUID.h"
#include <malloc.h>
struct Pipe : public BufferAccepter { M2MLink* to = nullptr; int refuse = 0; StringBuilder q;
  int8_t pushBuffer(StringBuilder* b) override { if (refuse > 0) { refuse--; return -1; } q.concatHandoff(b); return 1; }
  int32_t bufferAvailable() override { return 100000; }
  void flow() { if (q.length() > 0) to->pushBuffer(&q); } };
static int got = 0;
static void on_msg(uint32_t, M2MMsg* m) { got++; }
'''
RUN='''
  M2MLinkOpts o(500, 300, 1000, TCode::CBOR, 0); M2MLink* a = new M2MLink(&o); M2MLink* b = new M2MLink(&o); Pipe ab, ba; ab.to = b; ba.to = a; a->setEfferant(&ab); b->setEfferant(&ba); a->setCallback(on_msg); b->setCallback(on_msg); IdentityUUID ia("alice"), ib("bob"); a->localIdentity(&ia); b->localIdentity(&ib);
  auto run = [&](int n) { StringBuilder l; for (int i = 0; i < n; i++) { now_us += 5000; a->poll(&l); ab.flow(); b->poll(&l); ba.flow(); l.clear(); } };
  run(2000); EXPECT(a->isConnected() && b->isConnected()); EXPECT(a->linkIdle());
'''
plant('schedule-idle-sign','C48',('Image/GfxUI/GfxUIC3PScheduler.cpp','      line.concatf("Last executed %u us ago        ", (micros() - _sched->lastExec()));','      const int AGO = (int) (micros() - _sched->lastExec());\n      line.concatf("Last executed %d us ago        ", AGO);'),VIEW+'''
int main() {
  C3PScheduler* S = C3PScheduler::getInstance(); int ran = 0;
  C3PScheduledLambda q("job", 1000, -1, true, [&]() { ran++; return 0; }); S->addSchedule(&q);
  now_us += 5000; S->advanceScheduler(); S->serviceSchedules(); S->serviceSchedules(); EXPECT(ran == 1); q.enabled(false); now_us += 3000000000ull;
  Image im(700, 400, ImgBufferFormat::R8_G8_B8); im.reallocate(); im.fillRect(0, 0, 700, 400, 0); UIGfxWrapper g(&im);
  GfxUIC3PSchedule v(&q, GfxUILayout(0, 0, 700, 64, 0, 0, 0, 0, 0, 0, 0, 0), GfxUIStyle(0, 0xFFFFFF, 0xFFFFFF, 0xA0A0A0, 0x808080, 0xFFFFFF, 0x202020, 2), 0);
  v.render(&g, true); EXPECT(seen(&im, "Last executed 3000000000 us ago", 0xe0e0e0, 1));
  return 0;
}''','a schedule whose last run is more than 2^31 us ago','its view shows a negative time')
plant('schedule-view-order','C48',('Image/GfxUI/GfxUIC3PScheduler.cpp','''        for (unsigned int x = 0; x < SCH_COUNT; x++) {
          if (sch_ptrs[x] == tst_ptr) {''','''        for (unsigned int x = i; x < SCH_COUNT; x++) {   // Elements are in the order of the schedules.
          if (sch_ptrs[x] == tst_ptr) {'''),VIEW+'''
int main() {
  C3PScheduler* S = C3PScheduler::getInstance(); int ran = 0; Image im(700, 600, ImgBufferFormat::R8_G8_B8); im.reallocate(); im.fillRect(0, 0, 700, 600, 0); UIGfxWrapper g(&im);
  auto f = [&]() { ran++; return 0; }; C3PScheduledLambda a("alpha", 1000, -1, true, f), b("bravo", 50000000, -1, true, f), d("delta", 1000, -1, true, f), e("echo", 50000000, -1, true, f);
  GfxUIStyle st(0, 0xFFFFFF, 0xFFFFFF, 0xA0A0A0, 0x808080, 0xFFFFFF, 0x202020, 2); GfxUIC3PScheduler v(GfxUILayout(0, 0, 700, 600, 0, 0, 0, 0, 0, 0, 0, 0), st, 0);
  C3PSchedule* all[4] = {&a, &b, &d, &e}; for (int i = 0; i < 4; i++) { EXPECT(0 <= S->addSchedule(all[i])); v.render(&g, true); for (int k = 0; k < 3; k++) { now_us += 1500; S->advanceScheduler(); S->serviceSchedules(); } }
  PriorityQueue<GfxUIElement*> log; v.notify(GfxUIEvent::TOUCH, 500, 14, &log); v.notify(GfxUIEvent::RELEASE, 500, 14, &log);
  im.fillRect(0, 0, 700, 600, 0); v.render(&g, true); v.render(&g, true);
  int n = 0; for (int y = 28; y + 64 <= 600; y++) { bool lit = false; for (int x = 350; x < 700; x++) lit |= im.getPixel(x, y) == 0x00CC00; bool up = false; for (int x = 350; x < 700; x++) up |= im.getPixel(x, y - 1) == 0x00CC00; if (lit && !up) n++; }
  EXPECT(seen(&im, "alpha", 0xA0A0A0, 2) && seen(&im, "bravo", 0xA0A0A0, 2) && seen(&im, "delta", 0xA0A0A0, 2) && seen(&im, "echo", 0xA0A0A0, 2)); printf("%d rows\\n", n); EXPECT(n == 4);
  return 0;
}''','a schedule is added after others came in another order (as service does)','a schedule is listed twice')
plant('tree-key-width','C48',('Image/GfxUI/GfxUIKeyValuePair.cpp','    const int MAX_STR_LEN = (key_list.maximumFragmentLength() + 4);','    const int MAX_STR_LEN = (strlen(key_list.position(0)) + 4);'),VIEW+'''
#include "C3PValue/KeyValuePair.h"
int main() {
  Image im(700, 100, ImgBufferFormat::R8_G8_B8); im.reallocate(); im.fillRect(0, 0, 700, 100, 0); UIGfxWrapper g(&im); GfxUIStyle st(0, 0xFFFFFF, 0xFFFFFF, 0xA0A0A0, 0x808080, 0xFFFFFF, 0x202020, 1);
  KeyValuePair a("abc", (uint32_t) 1234567), b("a_longer_key", (uint32_t) 7654321); a.link(&b, false);
  GfxUIKeyValuePair v(&a, GfxUILayout(0, 0, 700, 100, 0, 0, 0, 0, 0, 0, 0, 0), st, 0); for (int i = 0; i < 4; i++) v.render(&g, true);
  EXPECT(seen(&im, "\\"abc\\":", 0xA0A0A0, 1)); EXPECT(seen(&im, "\\"a_longer_key\\":", 0xA0A0A0, 1)); EXPECT(seen(&im, "1234567", 0xA0A0A0, 1) && seen(&im, "7654321", 0xA0A0A0, 1));
  return 0;
}''','a tree with a key longer than its first','the value is drawn over the key')
plant('link-refused-dropped','C30',('M2MLink/M2MLink.cpp','''        if (0 == temp->serialize(&temp_out)) {
          if (0 <= _relay_to_output_target(&temp_out)) {
            // If the buffer was moved to the transport driver...
            temp->markSent();
            new_priority = M2MLINK_PRIORITY_WAITING_FOR_ACK;
            gc_msg = !temp->expectsReply();
''','''        if (0 == temp->serialize(&temp_out)) {
          gc_msg = !temp->expectsReply();   // Nothing to wait for, once sent.
          if (0 <= _relay_to_output_target(&temp_out)) {
            // If the buffer was moved to the transport driver...
            temp->markSent();
            new_priority = M2MLINK_PRIORITY_WAITING_FOR_ACK;
'''),LINK+'int main() {'+RUN+'''
  for (int i = 0; i < 4; i++) { KeyValuePair p("n", (uint32_t) i); EXPECT(0 <= a->send(&p, false)); if (i == 2) ab.refuse = 1; run(50); EXPECT(got == i + 1); }
  return 0;
}''','the transport refuses a message that asks for no reply','the message is lost')
plant('link-ident-again','C31',('M2MLink/M2MLink.cpp','''          if (nullptr == _id_remote) {
            C3PValue* ident_container''','''          {
            C3PValue* ident_container'''),LINK+'int main() {'+RUN+'''
  StringBuilder out; auto who = [&](int n) { for (int i = 0; i < n; i++) { StringBuilder cmd("who"); b->console_handler(&out, &cmd); out.clear(); run(30); } };
  who(3); EXPECT(b->remoteIdentity()); Identity* was = b->remoteIdentity(); who(3); EXPECT(b->remoteIdentity() == was);
  return 0;
}''','a counterparty that identifies itself again','the identity held before is leaked, and pointers to it go stale')
plant('series-u64-sign','C22',('TimeSeries/TimeSeries.cpp','template <> void TimeSeries<uint64_t>::_serialize_value(cbor::encoder* enc, uint32_t idx) {   enc->write_int(samples[idx]);  }','template <> void TimeSeries<uint64_t>::_serialize_value(cbor::encoder* enc, uint32_t idx) {   enc->write_int((int64_t) samples[idx]);  }'),'''
#include "TimeSeries/TimeSeries.h"
#include "C3PValue/KeyValuePair.h"
int main() {
  TimeSeries<uint64_t> t((uint32_t) 2); t.init(); t.feedSeries(5); t.feedSeries(0x8000000000000005ull); C3PValue v(&t); StringBuilder o; v.serialize(&o, TCode::CBOR);
  const uint8_t w[9] = {0x1B, 0x80, 0, 0, 0, 0, 0, 0, 5}; bool hit = false; for (int i = 0; i + 9 <= o.length(); i++) hit |= !memcmp(o.string() + i, w, 9); EXPECT(hit);
  return 0;
}''','a series of 64-bit samples, with one of 2^63 or more','it is encoded as a negative number')
plant('b64-refused-order','C23',('Pipes/BufferAccepter/Base64/C3P_B64.cpp','''        if ((0 == _encode(&tmp_src, &tmp_dest)) && (-1 != _efferant->pushBuffer(&tmp_dest))) {
          ret = (PUSH_LEN == TAKE_LEN) ? 1 : 0;
        }
        else {
          buf->prependHandoff(&tmp_src);''','''        if ((0 == _encode(&tmp_src, &tmp_dest)) && (-1 != _efferant->pushBuffer(&tmp_dest))) {
          ret = (PUSH_LEN == TAKE_LEN) ? 1 : 0;
        }
        else {
          buf->concatHandoff(&tmp_src);'''),'''
#include "Pipes/BufferAccepter/Base64/C3P_B64.h"
struct No : public BufferAccepter { int8_t pushBuffer(StringBuilder* b) override { return -1; } int32_t bufferAvailable() override { return 1000; } };
int main() {
  No n; Base64Encoder e(&n); e.inputLength(3); StringBuilder b("abcdefgh"); EXPECT(-1 == e.pushBuffer(&b)); EXPECT(0 == strcmp("abcdefgh", (char*) b.string()));
  e.inputLength(0); EXPECT(-1 == e.pushBuffer(&b)); EXPECT(0 == strcmp("abcdefgh", (char*) b.string()));
  return 0;
}''','the next stage rejects a chunk, of a buffer longer than it','the buffer is left with its chunk moved to its end')
