import sys; sys.path.insert(0,'/verif/tools/plant'); from plant import plant as plant_
def plant(*a):
  try: plant_(*a)
  except AssertionError as e: print(a[0],'ASSERT',str(e)[:300])
  sys.stdout.flush()
plant('ring-bulk-16','C07',('RingBuffer.h','''  const uint32_t COUNT_TO_TAKE = strict_min((uint32_t) added_elements, (uint32_t) vacancy());''','''  const uint16_t COUNT_TO_TAKE = strict_min((uint32_t) added_elements, (uint32_t) vacancy());'''),'''
#include "AbstractPlatform.h"
#include "RingBuffer.h"
static uint8_t b[70000];
int main() { RingBuffer<uint8_t> r(70000); EXPECT(70000 == r.insert(b, 70000)); EXPECT(70000 == r.count()); return 0; }''','more than 65535 elements inserted at once','only some of them go in')
plant('pq-pri-diff','C09',('PriorityQueue.h','''(nu_pri <= current->priority)) {''','''(0 >= (int) ((unsigned int) nu_pri - (unsigned int) current->priority))) {'''),'''
#include "AbstractPlatform.h"
#include "PriorityQueue.h"
int main() { PriorityQueue<int*> q; int u, v; q.insert(&u, 2000000000); q.insert(&v, -2000000000); EXPECT(&u == q.dequeue()); EXPECT(&v == q.dequeue()); return 0; }''','priorities more than 2^31 apart','the lower goes first')
plant('list-size-16','C08',('LightLinkedList.h','''    int element_count;''','''    uint16_t element_count;'''),'''
#include "AbstractPlatform.h"
#include "LightLinkedList.h"
int main() { static char v[66000]; LinkedList<char*> q; for (int i = 0; i < 66000; i++) q.insertAtHead(v + i); EXPECT(66000 == q.size()); return 0; }''','a list of more than 65535 elements','its size is misstated')
plant('sb-copy-16','C01',('StringBuilder.cpp','''    const uint32_t COPY_LENGTH = strict_min(LIMIT_LEN, (uint32_t) SUBJECT_LENGTH);''','''    const uint16_t COPY_LENGTH = strict_min(LIMIT_LEN, (uint32_t) SUBJECT_LENGTH);'''),'''
#include "AbstractPlatform.h"
#include "StringBuilder.h"
static uint8_t b[70000];
int main() { StringBuilder s; memset(b, 1, 70000); s.concat(b, 70000); memset(b, 0, 70000); EXPECT(70000 == s.copyToBuffer(b, 70000)); EXPECT(1 == b[69999]); return 0; }''','more than 65535 bytes copied out at once','only some of them are')
plant('sb-replace-16','C02',('StringBuilder.cpp','''  const int HAYSTACK_LEN = length();''','''  const uint16_t HAYSTACK_LEN = length();'''),'''
#include "AbstractPlatform.h"
#include "StringBuilder.h"
static uint8_t b[70000];
int main() { StringBuilder s; memset(b, 'a', 70000); b[69990] = 'x'; s.concat(b, 70000); EXPECT(1 == s.replace("x", "yy")); EXPECT(70001 == s.length()); return 0; }''','a replacement in a string of more than 65535 bytes','bytes are lost')
plant('sb-implode-16','C03',('StringBuilder.cpp','''      const int TOTAL_STR_LEN = ((TOK_COUNT-1) * DELIM_LEN) + TOKD_STR_LEN;''','''      const uint16_t TOTAL_STR_LEN = ((TOK_COUNT-1) * DELIM_LEN) + TOKD_STR_LEN;'''),'''
#include "AbstractPlatform.h"
#include "StringBuilder.h"
static uint8_t b[40000];
int main() { StringBuilder s; memset(b, 'a', 40000); s.concat(b, 40000); s.concat(b, 40000); s.implode("--"); EXPECT(80002 == s.length()); return 0; }''','tokens of more than 65535 bytes imploded','bytes are lost, or written past the end')
plant('needle-16','C25',('MultiStringSearch.h','''    const int      SEARCH_STR_LEN;''','''    const uint16_t SEARCH_STR_LEN;'''),'''
#include "AbstractPlatform.h"
#include "MultiStringSearch.h"
static uint8_t b[70000];
int main() { memset(b, 'a', 70000); MultiStringSearch m(2); m.addSearchTerm(b, 66000); StringBuilder s; s.concat(b, 70000); b[60000] = 'b'; EXPECT(0 == m.runSearch(&s, 70000, 0)); return 0; }''','a needle of more than 65535 bytes','it is found where it is not')
plant('b64-flen-16','C23',('Pipes/BufferAccepter/Base64/C3P_B64.cpp','''  int flen = (4*(src_len + pad))/3 ;''','''  uint16_t flen = (4*(src_len + pad))/3 ;'''),'''
#include "AbstractPlatform.h"
#include "Pipes/BufferAccepter/Base64/C3P_B64.h"
static uint8_t b[60000];
int main() { StringBuilderSink k(200000); Base64Encoder e(&k); StringBuilder s; s.concat(b, 60000); EXPECT(1 == e.pushBuffer(&s)); EXPECT(80000 == k.length()); return 0; }''','more than 49149 bytes encoded at once','the heap is written past the end')
plant('kvp-count-8','C18',('C3PValue/KeyValuePair.cpp','''        uint32_t kvp_count = 0;''','''        uint8_t kvp_count = 0;'''),'''
#include "AbstractPlatform.h"
#include "C3PValue/KeyValuePair.h"
int main() { KeyValuePair k("k0", (uint32_t) 0); for (int i = 1; i < 300; i++) { char n[8]; sprintf(n, "k%d", i); k.append((uint32_t) i, n); } StringBuilder w; EXPECT(0 == k.serialize(&w, TCode::CBOR)); KeyValuePair* r = KeyValuePair::unserialize(w.string(), w.length(), TCode::CBOR); EXPECT(nullptr != r); EXPECT(300 == r->count()); return 0; }''','a map of more than 255 entries','it does not come back')
plant('recur-16','C13',('TimerTools/C3PScheduler.h','''    int32_t      _recurrences;''','''    int16_t      _recurrences;'''),'''
#include "AbstractPlatform.h"
#include "TimerTools/C3PScheduler.h"
static int n = 0;
int main() { C3PScheduledLambda l("x", 1000, 100000, true, []() -> int8_t { n++; return 0; }); EXPECT(100000 == l.recurrence()); return 0; }''','a schedule of more than 32767 recurrences','it stops too soon')
