import sys; sys.path.insert(0,'/verif/tools/plant'); from plant import plant as plant_
def plant(*a):
  try: plant_(*a)
  except AssertionError as e: print(a[0],'ASSERT',str(e)[:300])
UI='''
#include "AbstractPlatform.h"
#include "FlagContainer.h"
#include "PriorityQueue.h"
#include "ElementPool.h"
#include "TimerTools/TimerTools.h"
#include "TimeSeries/TimeSeries.h"
#include "C3PLogger.h"
#include "TimerTools/C3PScheduler.h"
#include "Image/ImageUtils.h"
#include "Image/GfxUI.h"
'''
plant('search-disable-absent','C25',('MultiStringSearch.cpp','''          matches_this_run++;
        }
      }
      else {
        locate_results[i] = -1;
      }''','''          matches_this_run++;
        }
        else {
          // If it isn't in what remains, don't spend more time on this needle.
          _sdef_pool[i].enabled = false;
        }
      }
      else {
        locate_results[i] = -1;
      }'''),'''
#include "MultiStringSearch.h"
int main() { MultiStringSearch s(3); s.addSearchTerm((const uint8_t*) "x", 1); s.addSearchTerm((const uint8_t*) "abc", 3); s.addSearchTerm((const uint8_t*) "b", 1);
  StringBuilder h("xab"); EXPECT(1 == s.runSearch(&h, 3, 0)); EXPECT(0 == s.continueSearch()); return 0; }''','a needle that is cut off by the end of the subject, after a match of another','what is a part of the cut needle is reported as a match')
plant('console-shortcut-first','C28',('Console/C3PConsole.cpp','''      if (0 == StringBuilder::strcasecmp(tmp->cmd, str)) {
        ret = tmp;
      }
      i++;
    }
    if ((nullptr == ret) && (1 == strlen(str))) {
      // If we failed on the whole string, and the input was only one character
      //   long, look for shortcuts...
      i = 0;
      while ((nullptr == ret) && (i < cmd_def_count)) {
        ConsoleCommand* tmp = _cmd_list.get(i);
        if (tmp->shortcut == *(str)) {
          ret = tmp;
        }
        i++;
      }
    }''','''      // Take a match by the whole string, or by the shortcut, if the input was
      //   only one character long.
      if (0 == StringBuilder::strcasecmp(tmp->cmd, str)) {
        ret = tmp;
      }
      else if ((1 == strlen(str)) && (tmp->shortcut == *(str))) {
        ret = tmp;
      }
      i++;
    }'''),'''
#include "AbstractPlatform.h"
#include "Console/C3PConsole.h"
static int got = 0; static int c1(StringBuilder* o, StringBuilder* a) { got = 1; return 0; } static int c2(StringBuilder* o, StringBuilder* a) { got = 2; return 0; }
int main() { ParsingConsole c(64); ConsoleCommand a("go", 'g', "", "", 0, c1), b("G", 'x', "", "", 0, c2); c.defineCommand(&a); c.defineCommand(&b); c.init(); c.setRXTerminator(LineTerm::LF);
  StringBuilder l; l.concat("g\\n"); c.pushBuffer(&l); EXPECT(got == 2); return 0; }''','a command whose name is the shortcut of an earlier one','the other command runs')
plant('pq-absent-break','C09',('PriorityQueue.h','''    if (current->priority >= nu_pri) {
      insert_pointer = current;
      return_value++;
    }
    current = current->next;
  }''','''    if (current->priority < nu_pri) {   // The place has been found.
      break;
    }
    insert_pointer = current;
    return_value++;
    current = current->next;
  }'''),'''
#include "PriorityQueue.h"
int main() { char a, b, d; PriorityQueue<char*> q; q.insert(&a, 1); q.insert(&b, 5); q.insert(&d, 2); EXPECT(-1 == q.insertIfAbsent(&a, 3)); EXPECT(3 == q.size()); return 0; }''','a conditional insertion of what is present at a lower priority','it is in the queue twice')
plant('blob-style-stale','C50',('Image/GfxUI/GfxUIBlobRender.cpp','          _plotter->setStyler(_styler);','          if (p_check > 0) {\n            _plotter->setStyler(_styler);\n          }'),UI+'''
#include "Image/GfxUI/GfxUIBlobRender.h"
#include <malloc.h>
// Memory that is deleted is spoiled, and not used again.
void operator delete(void* p) noexcept { if (p) memset(p, 0x55, malloc_usable_size(p)); }
void operator delete(void* p, unsigned int) noexcept { operator delete(p); }
int main() { mallopt(M_PERTURB, 0x55);
  Image im(400, 300, ImgBufferFormat::R8_G8_B8); im.reallocate(); im.fillRect(0, 0, 400, 300, 0); UIGfxWrapper g(&im); GfxUIStyle st(0x202020, 0xFFFFFF, 0xFFFFFF, 0xA0A0A0, 0x808080, 0xFFFFFF, 0x202020, 1);
  uint8_t b[64]; memset(b, 0xC0, 64); C3PValue val(b, 64); GfxUIBlobRender* v = new GfxUIBlobRender(&val, GfxUILayout(0, 0, 400, 300, 0, 0, 0, 0, 0, 0, 0, 0), st, 0); v->render(&g, true); v->render(&g, true);
  EXPECT(im.getPixel(1, 1) == 0xC0C0C0); PriorityQueue<GfxUIElement*> log; v->notify(GfxUIEvent::TOUCH, 240 + 159 - 20, 26 + 8, &log); v->notify(GfxUIEvent::RELEASE, 240 + 159 - 20, 26 + 8, &log); v->render(&g);  v->render(&g);  EXPECT(im.getPixel(1, 1) == 0); return 0; }''','a style is chosen while the plotter stays','the plotter keeps a styler that was deleted')
plant('stopwatch-avg-drift','C14',('TimerTools/StopWatch.cpp','  _run_time_average = _run_time_total / _executions;','  _run_time_average += ((int32_t) (_run_time_last - _run_time_average)) / ((int32_t) _executions);   // No need for the total.'),'''
#include "AbstractPlatform.h"
#include "TimerTools/TimerTools.h"
int main() { StopWatch w; w.addRuntime(0, 10); for (int i = 0; i < 9; i++) w.addRuntime(0, 1); EXPECT(w.meanTime() == 1); return 0; }''','times that differ by less than their number','the mean does not follow')
plant('cbor-static-fit','C20',('cbor-cpp/cbor.cpp','  if (_offset + size - 1 < _capacity) {','  if (_offset + size < _capacity) {'),'''
#include "cbor-cpp/cbor.h"
int main() { uint8_t b[8]; cbor::output_static o(8, b); cbor::encoder e(o); e.write_string("seven_c"); EXPECT(o.size() == 8); return 0; }''','a text that fills the output exactly','it is left out')
plant('record-hash-tail','C34',('Storage/SimpleDataRecord.cpp','static_hash_wrapper_fxn((inbound_buf+DATARECORD_BASE_SIZE), _data_length)','static_hash_wrapper_fxn((inbound_buf+DATARECORD_BASE_SIZE), (buf_len - DATARECORD_BASE_SIZE))'),'''
#include "Storage/Storage.h"
struct R : SimpleDataRecord { std::string body; R() : SimpleDataRecord(0, StorageRecordType::C3POBJ_ON_ICE) {}
  int8_t serialize(StringBuilder* o, TCode) { o->concat((uint8_t*) body.data(), (int) body.size()); return 0; }
  int8_t deserialize(StringBuilder* i, TCode) { body.assign((char*) i->string(), i->length()); return 0; } };
int main() { R r; r.body = std::string(300, 'q'); StringBuilder o; EXPECT(0 == r.save(9, "name", &o)); o.concat("padding"); R g; EXPECT(0 == g.load(9, o.string(), o.length())); EXPECT(g.body == r.body); return 0; }''','a record read with the rest of its page','it is refused')
