From 55013ca451fc6da851394b4d5bad85faf05e9fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:18 +0000
Subject: [PATCH 001/224] fix: StringBuilder::concatf() overflowed its stack
 buffer on long output

---
 src/StringBuilder.cpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 86eea3a..c35e995 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -945,16 +945,22 @@ int StringBuilder::concatf(const char* format, ...) {
 * @return the byte count written to this StringBuilder, or negative on failure.
 */
 int StringBuilder::concatf(const char* format, va_list args) {
-  int len = strlen(format);
-  unsigned short f_codes = 0;  // Count how many format codes are in use...
-  for (unsigned short i = 0; i < len; i++) {  if (*(format+i) == '%') f_codes++; }
-  // Allocate (hopefully) more space than we will need....
-  const int est_len = len + 512 + (f_codes * 15);   // TODO: Iterate on failure of vsprintf().
-  char temp[est_len];
-  memset(temp, 0, est_len);
   int ret = 0;
-  ret = vsprintf(temp, format, args);
-  if (ret > 0) concat((char *) temp);
+  va_list measure_args;   // The arguments are needed twice. Once to find the...
+  va_copy(measure_args, args);
+  ret = vsnprintf(nullptr, 0, format, measure_args);  // ...exact length...
+  va_end(measure_args);
+  if (ret > 0) {
+    char* temp = (char*) malloc(ret + 1);
+    if (nullptr != temp) {
+      vsnprintf(temp, (ret + 1), format, args);  // ...and again for content.
+      concat(temp);
+      free(temp);
+    }
+    else {
+      ret = -1;
+    }
+  }
   return ret;
 }
 
-- 
2.43.0


From eaf9af69e5b4e168f04087b798afcdfb5b50bb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:52 +0000
Subject: [PATCH 002/224] fix: StringBuilder::concat(double) overflowed a
 24-byte buffer on large values

---
 src/StringBuilder.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index c35e995..a30f290 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -894,10 +894,7 @@ void StringBuilder::concat(unsigned int nu) {
   concat(temp);
 }
 void StringBuilder::concat(double nu) {
-  char temp[24];
-  memset(temp, 0, sizeof(temp));
-  sprintf(temp, "%f", nu);
-  concat(temp);
+  concatf("%f", nu);   // A large double needs over 300 characters.
 }
 
 
-- 
2.43.0


From a7e55de67932d7658e7029c4537f6a1bf7a07c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:52 +0000
Subject: [PATCH 003/224] fix: StringBuilder::byteAt() read out-of-bounds on a
 negative offset

---
 src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index a30f290..0e02c2f 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -363,7 +363,7 @@ uint8_t* StringBuilder::string() {
 */
 uint8_t StringBuilder::byteAt(const int OFFSET) {
   uint8_t ret = 0;
-  if (_root) {
+  if (_root && (0 <= OFFSET)) {
     int offset = OFFSET;
     StrLL* ll_with_byte = _get_ll_containing_offset(_root, &offset);
     if (nullptr != ll_with_byte) {
-- 
2.43.0


From a3b9988beb8129b049f76b0ee11b4b8fac844029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:33 +0000
Subject: [PATCH 004/224] fix: Base64Decoder was constructed with an
 uninitialized input length

---
 src/Pipes/BufferAccepter/Base64/C3P_B64.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Pipes/BufferAccepter/Base64/C3P_B64.h b/src/Pipes/BufferAccepter/Base64/C3P_B64.h
index 9f970a2..c7795a1 100644
--- a/src/Pipes/BufferAccepter/Base64/C3P_B64.h
+++ b/src/Pipes/BufferAccepter/Base64/C3P_B64.h
@@ -103,7 +103,7 @@ class Base64Encoder : public BufferCoDec {
 */
 class Base64Decoder : public BufferCoDec {
   public:
-    Base64Decoder(BufferAccepter* eff = nullptr) : BufferCoDec(eff) {};
+    Base64Decoder(BufferAccepter* eff = nullptr) : BufferCoDec(eff), _input_length(0) {};
     ~Base64Decoder() {};
 
     /* Implementation of BufferAccepter. */
-- 
2.43.0


From f8e7bbcfbe1ca75bfe9237cc3998a0890e7e1a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:34 +0000
Subject: [PATCH 005/224] fix: StringBuilder::concatHandoffLimit() lost or
 over-took content around fragment boundaries

---
 src/StringBuilder.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 0e02c2f..d894b4f 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -693,7 +693,7 @@ void StringBuilder::concatHandoffLimit(StringBuilder* donar, unsigned int len_li
     donar->_root = nullptr;          // Inform the donar instance...
     int offset = (len_limit - 1);    // Get the StrLL containing the last byte to be transfered.
     StrLL* ll_with_byte = _get_ll_containing_offset(old_root, &offset);
-    if ((nullptr != ll_with_byte) & (0 < offset)) {
+    if ((nullptr != ll_with_byte) & (0 <= offset)) {
       // We're going to leave some data with the donor. How much?
       if ((ll_with_byte->len - 1) == offset) {
         // The requested length fit neatly on a fragment boundary.
@@ -717,6 +717,7 @@ void StringBuilder::concatHandoffLimit(StringBuilder* donar, unsigned int len_li
             *(ll_with_byte->str + i) = *(ll_with_byte->str + i + LEN_LEFT);
           }
           ll_with_byte->len = LEN_RIGHT;
+          *(ll_with_byte->str + LEN_RIGHT) = 0;   // Retain the guard-rail.
           donar->_root = ll_with_byte;    // Inform the donar instance...
 
           // Seek through the input and find the point where we need to snip.
@@ -726,7 +727,7 @@ void StringBuilder::concatHandoffLimit(StringBuilder* donar, unsigned int len_li
           }
           // To the extent that we can simply move memory references around, do
           //   so. All leading StrLL that fits within the limit is taken directly.
-          if (current != old_root) {
+          if (ll_with_byte != old_root) {
             current->next = split_left;       // Snip the list where we left it.
             _stack_str_onto_list(old_root);   // Attach the fragment list before
           }
-- 
2.43.0


From 143d0c5182e01911ac3c81829d92a55b6013953c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:41 +0000
Subject: [PATCH 006/224] fix: StringBuilder::locate() mixed absolute and
 relative offsets when backing out of a partial match

---
 src/StringBuilder.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index d894b4f..6bc286a 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -1112,7 +1112,6 @@ int StringBuilder::locate(const uint8_t* NEEDLE, int NEEDLE_LEN, int start_offse
     int search_offset  = start_offset;
     int strll_offset   = start_offset;
     StrLL* src_ll      = _get_ll_containing_offset(_root, &strll_offset);
-    StrLL* retrace_ll  = src_ll;
     int retrace_offset = start_offset;
     while ((nullptr != src_ll) & (-1 == ret)) {
       if (*(src_ll->str + strll_offset) == *(NEEDLE + match_length++)) {
@@ -1122,7 +1121,6 @@ int StringBuilder::locate(const uint8_t* NEEDLE, int NEEDLE_LEN, int start_offse
         else if (1 == match_length) {
           // First hit on the needle. Store the current search state just in
           //   case we need to roll back to it after a failure to find a long needle.
-          retrace_ll  = src_ll;
           retrace_offset = search_offset;
         }
       }
@@ -1130,7 +1128,7 @@ int StringBuilder::locate(const uint8_t* NEEDLE, int NEEDLE_LEN, int start_offse
         if (match_length > 1) {
           search_offset = retrace_offset;
           strll_offset  = search_offset;
-          src_ll = _get_ll_containing_offset(retrace_ll, &strll_offset);
+          src_ll = _get_ll_containing_offset(_root, &strll_offset);
         }
         search_offset++;
         match_length  = 0;
-- 
2.43.0


From 5b931b3b5398a2fa44a1fdfab44ef6e4938055f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:42 +0000
Subject: [PATCH 007/224] fix: StringBuilder::replace() missed matches that
 overlap a failed partial match

---
 src/StringBuilder.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 6bc286a..0529144 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -1272,10 +1272,14 @@ int StringBuilder::replace(const char* needle, const char* replace) {
         }
       }
       else {                       // Bytes disagree.
-        if (1 < search_hit_idx) {  // If we were into a search, back out of our
-          remaining_search_len++;  //   postfixed iterator actions so the
-          intra_frag_idx--;        //   current byte gets compared against the
-        }                          //   first needle byte.
+        if (1 < search_hit_idx) {
+          // If we were into a search, back out of it so that the byte following
+          //   the first byte of the failed match is the next to be compared
+          //   against the first needle byte.
+          remaining_search_len += (search_hit_idx - 1);
+          intra_frag_idx = (HAYSTACK_LEN - remaining_search_len);
+          src_ll = _get_ll_containing_offset(_root, &intra_frag_idx);
+        }
         search_hit_idx = 0;        // Reset the search.
       }
 
-- 
2.43.0


From 9097604bd37d8a5bd69bc4652d5f049f7d506356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:43 +0000
Subject: [PATCH 008/224] fix: StringBuilder::implode() refused two one-byte
 tokens

---
 src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 0529144..6a33ee0 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -1337,7 +1337,7 @@ int StringBuilder::implode(const char* delim) {
     const int DELIM_LEN     = strlen(delim);
     const int TOKD_STR_LEN  = length();
     const int TOK_COUNT     = count();
-    if ((DELIM_LEN > 0) & (TOKD_STR_LEN > 2) & (TOK_COUNT > 1)) {
+    if ((DELIM_LEN > 0) & (TOKD_STR_LEN >= 2) & (TOK_COUNT > 1)) {
       // In order for this operation to make sense, we need to have at least
       //   two tokens, and a total string length of at least 2 characters.
       const int TOTAL_STR_LEN = ((TOK_COUNT-1) * DELIM_LEN) + TOKD_STR_LEN;
-- 
2.43.0


From ec53d1daf7f39b57af7d6a689f77dac333c6dee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:44 +0000
Subject: [PATCH 009/224] fix: StringBuilder::position_as_uint64() considered
 only 8 digits of an over-long hex string

---
 src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 6a33ee0..1cd0a27 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -494,7 +494,7 @@ uint64_t StringBuilder::position_as_uint64(int pos) {
       len -= 2;
       temp += 2;
       // Only so big an int we can handle...
-      int max_bytes = (len > 16) ? 8 : len;
+      int max_bytes = (len > 16) ? 16 : len;
       for (int i = 0; i < max_bytes; i++) {
         switch (*(temp + i)) {
           case '0':  case '1':  case '2':  case '3':  case '4':
-- 
2.43.0


From 7bbbc32f08f757d9c46d7edc3c72ff70c53d2834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:28 +0000
Subject: [PATCH 010/224] fix: StringBuilder::replace() never matched a needle
 containing bytes above 0x7F

---
 src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 1cd0a27..bff0f41 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -1231,7 +1231,7 @@ int StringBuilder::replace(const char* needle, const char* replace) {
     //   needlessly, roll through its fragment list and compare as we go.
     // One byte per-loop is compared against the delimiter.
     while ((!allocation_failure) & (remaining_search_len-- > 0) & (nullptr != src_ll)) {
-      if (*(src_ll->str + intra_frag_idx++) == *(needle + search_hit_idx++)) {
+      if (*(src_ll->str + intra_frag_idx++) == (uint8_t) *(needle + search_hit_idx++)) {
         // Bytes match.
         if (NEEDLE_LEN == search_hit_idx) {  // If it is the conclusion of a match...
           // Create a copy of the string up-to the first byte of the needle...
-- 
2.43.0


From 329a603b6b5521da83c8f4f48a0c935c5a486a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:01 +0000
Subject: [PATCH 011/224] fix: stringToTimestamp() lost a day in every year
 following a leap year

---
 src/CppPotpourri.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CppPotpourri.cpp b/src/CppPotpourri.cpp
index 9fd5626..7457b12 100644
--- a/src/CppPotpourri.cpp
+++ b/src/CppPotpourri.cpp
@@ -79,7 +79,7 @@ uint64_t stringToTimestamp(const char* str) {
 
   if (year >= 1972) {
     // Check for leap year.
-    days += ((year - 1972) >> 2);  // Extra days caused by leap-years.
+    days += ((year - 1969) >> 2);  // Extra days caused by prior leap-years.
     if ((((year - 1972) % 4) == 0) && (month > 2)) {
       // If it is at-least March of this year, and this year is a leap-year, add another 86400.
       days++;
-- 
2.43.0


From aaabb1ee85da0fb2260ff584223b15247ab2dddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:02 +0000
Subject: [PATCH 012/224] fix: randomArt() indexed past its symbol table, and
 never ended on long digests

---
 src/CppPotpourri.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CppPotpourri.cpp b/src/CppPotpourri.cpp
index 7457b12..da355a6 100644
--- a/src/CppPotpourri.cpp
+++ b/src/CppPotpourri.cpp
@@ -176,7 +176,7 @@ int randomArt(uint8_t* dgst_raw, unsigned int dgst_raw_len, const char* title, S
   bzero(&array, ARSZ);
   uint8_t pos = 76;
 
-  for (uint16_t idx = 0; idx < dgst_raw_len; idx++) {
+  for (unsigned int idx = 0; idx < dgst_raw_len; idx++) {
     uint8_t temp = *(dgst_raw + idx);
     for (uint8_t i = 0; i < 4; i++) {
       if (ra_new_position(&pos, (temp & 0x03))) array[pos]++;
@@ -196,7 +196,7 @@ int randomArt(uint8_t* dgst_raw, unsigned int dgst_raw_len, const char* title, S
   line_buf[20] = '\0';
   for (uint8_t i = 0; i < YLIM; i++) {
     for (uint8_t j = 0; j < XLIM; j++) {
-      *(line_buf + j + 1) = *(ra_symbols + array[j + (XLIM * i)] % 18);
+      *(line_buf + j + 1) = *(ra_symbols + array[j + (XLIM * i)] % 17);
     }
     temp.concatf(line_buf);
   }
-- 
2.43.0


From 89398ea77e1c82a61a347a542832c9715fb93799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:20 +0000
Subject: [PATCH 013/224] fix: LinkedList::remove(T) stopped looking after it
 removed the head

---
 src/LightLinkedList.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LightLinkedList.h b/src/LightLinkedList.h
index b8ba35f..55231c8 100644
--- a/src/LightLinkedList.h
+++ b/src/LightLinkedList.h
@@ -268,7 +268,7 @@ template <class T> bool LinkedList<T>::remove(T test_data) {
       free(current);
       element_count--;
       return_value = true;
-      current = (nullptr == prior) ? nullptr : prior->next;
+      current = (nullptr == prior) ? root : prior->next;
     }
     else {
       prior = current;
-- 
2.43.0


From 45b8c5af316767b1356c8187dc23855c2756fc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:29 +0000
Subject: [PATCH 014/224] fix: PriorityQueue::remove(T) stopped looking after
 it removed the head

---
 src/PriorityQueue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PriorityQueue.h b/src/PriorityQueue.h
index f9004c8..89851a5 100644
--- a/src/PriorityQueue.h
+++ b/src/PriorityQueue.h
@@ -563,7 +563,7 @@ template <class T> bool PriorityQueue<T>::remove(T test_data) {
       free(current);
       element_count--;
       return_value = true;
-      current = (nullptr == prior) ? nullptr : prior->next;
+      current = (nullptr == prior) ? root : prior->next;
     }
     else {
       prior = current;
-- 
2.43.0


From 6c7fbab5875a3cc6a3859ba181042346880dccf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:38 +0000
Subject: [PATCH 015/224] fix: PriorityQueue::insertIfAbsent() reported the
 position ahead of the one it used

---
 src/PriorityQueue.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PriorityQueue.h b/src/PriorityQueue.h
index 89851a5..571b596 100644
--- a/src/PriorityQueue.h
+++ b/src/PriorityQueue.h
@@ -220,6 +220,7 @@ template <class T> int PriorityQueue<T>::insertIfAbsent(T d, int nu_pri) {
     else {
       nu->next = insert_pointer->next;
       insert_pointer->next = nu;
+      return_value++;   // We went in behind the node last counted.
     }
     element_count++;
   }
-- 
2.43.0


From 4ca556a6ac715894a18fc59264360bf10cba4ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:47 +0000
Subject: [PATCH 016/224] fix: RingBuffer::cull() divided by zero on a ring of
 no capacity

---
 src/RingBuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/RingBuffer.h b/src/RingBuffer.h
index f39eeab..64b9ada 100644
--- a/src/RingBuffer.h
+++ b/src/RingBuffer.h
@@ -130,7 +130,7 @@ template <class T> void RingBuffer<T>::clear() {
 * @returns the number of elements dropped.
 */
 template <class T> int RingBuffer<T>::cull(const unsigned int CULL_COUNT) {
-  if (!allocated() || (0 == CULL_COUNT)) {  return -1;  }
+  if (!allocated() || (0 == CULL_COUNT) || (0 == _CAPAC)) {  return -1;  }
   const uint32_t SAFE_CULL_COUNT = strict_min((uint32_t) CULL_COUNT, (uint32_t) _count);
   _r = ((_r + SAFE_CULL_COUNT) % _CAPAC);
   _count -= SAFE_CULL_COUNT;
-- 
2.43.0


From 3f26325284198d7b3745ead9dcf31d8c11373298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:19 +0000
Subject: [PATCH 017/224] fix: ElementPool::take() overdrew instead of
 populating the pool on first use

---
 src/ElementPool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ElementPool.h b/src/ElementPool.h
index f268029..e2140dc 100644
--- a/src/ElementPool.h
+++ b/src/ElementPool.h
@@ -193,7 +193,7 @@ template <class T> bool ElementPool<T>::inPool(T* e) {
 * @return a reference to the preallocated element.
 */
 template <class T> T* ElementPool<T>::take() {
-  T* ret = _list.get();
+  T* ret = allocated() ? _list.get() : nullptr;
   if (nullptr == ret) {
     ret = new T();
     _overdraws++;
-- 
2.43.0


From 0af39e1c65b78b6a5ad0f8cda40ce8da6d948296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:28 +0000
Subject: [PATCH 018/224] fix: BusAdapter::purge_queued_work_by_dev() skipped
 the job behind each one it purged

---
 src/BusQueue/BusQueue.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/BusQueue/BusQueue.h b/src/BusQueue/BusQueue.h
index ec1e43d..5af4b72 100644
--- a/src/BusQueue/BusQueue.h
+++ b/src/BusQueue/BusQueue.h
@@ -428,7 +428,8 @@ template <class T> class BusAdapter : public BusOpCallback, public C3PPollable {
     */
     int8_t purge_queued_work_by_dev(BusOpCallback* cb_obj) {
       int8_t ret = 0;
-      for (int i = 0; i < work_queue.size(); i++) {
+      int i = 0;
+      while (i < work_queue.size()) {
         T* current = work_queue.get(i);
         if ((nullptr != current) && (current->callback == cb_obj)) {
           ret++;
@@ -439,6 +440,9 @@ template <class T> class BusAdapter : public BusOpCallback, public C3PPollable {
           }
           _reclaim_queue_item(current);   // Delete the queued work AND its buffer.
         }
+        else {
+          i++;
+        }
       }
       return ret;
     };
-- 
2.43.0


From c3363a43dbd357835c24062da36590939be16fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:29 +0000
Subject: [PATCH 019/224] fix: I2CAdapter::queue_io_job() reported failure for
 every job it started immediately

---
 src/BusQueue/I2CAdapter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/BusQueue/I2CAdapter.cpp b/src/BusQueue/I2CAdapter.cpp
index c4fecb5..1548d27 100644
--- a/src/BusQueue/I2CAdapter.cpp
+++ b/src/BusQueue/I2CAdapter.cpp
@@ -172,6 +172,7 @@ FAST_FUNC int8_t I2CAdapter::queue_io_job(BusOp* op) {
     //   immediately under this condition.
     // Put this work item in the active slot and start the bus operations.
     current_job = nu;
+    ret = 0;
     if (XferFault::NONE != nu->begin()) {
       c3p_log(LOG_LEV_ERROR, __PRETTY_FUNCTION__, "I2C%u:\tFailed to begin transfer while short-circuiting the queue.\n", ADAPTER_NUM);
     }
-- 
2.43.0


From 72d2c75c6ad379d825f32dcbd54238bda00a32eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:30 +0000
Subject: [PATCH 020/224] fix: I2CBusOp constructor discarded its address
 arguments

---
 src/BusQueue/I2CBusOp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BusQueue/I2CBusOp.cpp b/src/BusQueue/I2CBusOp.cpp
index b8cb977..5445616 100644
--- a/src/BusQueue/I2CBusOp.cpp
+++ b/src/BusQueue/I2CBusOp.cpp
@@ -47,8 +47,8 @@ I2CBusOp::I2CBusOp(BusOpcode nu_op, BusOpCallback* requester) : I2CBusOp() {
 *   under the exclusive control of the caller.
 */
 I2CBusOp::I2CBusOp(BusOpcode nu_op, uint8_t dev_addr, int16_t sub_addr, uint8_t* buffer, uint16_t len) : I2CBusOp() {
-  dev_addr     = dev_addr;
-  sub_addr     = sub_addr;
+  this->dev_addr = dev_addr;
+  this->sub_addr = sub_addr;
   set_opcode(nu_op);
   setBuffer(buffer, len);
 };
-- 
2.43.0


From e68a85c2e5dff6d1e955afa7c6c0697797b55b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:31 +0000
Subject: [PATCH 021/224] fix: SPIBusOp::wipe() left the frequency limit of the
 previous use in place

---
 src/BusQueue/SPIBusOp.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/BusQueue/SPIBusOp.cpp b/src/BusQueue/SPIBusOp.cpp
index 4eefa26..31f4552 100644
--- a/src/BusQueue/SPIBusOp.cpp
+++ b/src/BusQueue/SPIBusOp.cpp
@@ -248,6 +248,7 @@ FAST_FUNC int8_t SPIBusOp::_assert_cs(bool asrt) {
 FAST_FUNC void SPIBusOp::wipe() {
   BusOp::_busop_wipe(this);
   // Flags that deal with memory management are untouched.
+  _max_freq   = 0;
   _cs_pin     = 255;
   _param_len  = 0;
   xfer_params[0] = 0;
-- 
2.43.0


From 1f12fa96aed98c9806c0a1ca802cfb3d30a86255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:31 +0000
Subject: [PATCH 022/224] fix: UARTAdapter::write() reported 4294967295 bytes
 written when its buffer was full

---
 src/BusQueue/UARTAdapter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BusQueue/UARTAdapter.cpp b/src/BusQueue/UARTAdapter.cpp
index 051a09c..c4d4669 100644
--- a/src/BusQueue/UARTAdapter.cpp
+++ b/src/BusQueue/UARTAdapter.cpp
@@ -244,7 +244,8 @@ uint32_t UARTAdapter::write(StringBuilder* buf) {
 uint32_t UARTAdapter::write(uint8_t* buf, uint32_t len) {
   uint32_t ret = 0;
   if (txCapable()) {
-    ret = _tx_buffer.insert(buf, len);
+    const int INSERT_RET = _tx_buffer.insert(buf, len);   // Negative if full.
+    ret = (0 < INSERT_RET) ? (uint32_t) INSERT_RET : 0;
   }
   return ret;
 }
-- 
2.43.0


From 27043d11a2def919c4c16c081f33fccd350d70be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:26 +0000
Subject: [PATCH 023/224] fix: StopWatch::markStop() before any markStart()
 read an uninitialized member

---
 src/TimerTools/StopWatch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimerTools/StopWatch.cpp b/src/TimerTools/StopWatch.cpp
index 3f8b4af..47f8eb6 100644
--- a/src/TimerTools/StopWatch.cpp
+++ b/src/TimerTools/StopWatch.cpp
@@ -28,7 +28,7 @@ limitations under the License.
 /**
 * Constructor
 */
-StopWatch::StopWatch(uint32_t _t) : _tag(_t) {
+StopWatch::StopWatch(uint32_t _t) : _tag(_t), _start_micros(0) {
   reset();
 }
 
-- 
2.43.0


From c4950b61946ba09a2b98783f5cff19a22f491c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:27 +0000
Subject: [PATCH 024/224] fix: On LP64, every schedule was due on every tick
 once micros() exceeded 32 bits

---
 src/TimerTools/C3PScheduler.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/TimerTools/C3PScheduler.cpp b/src/TimerTools/C3PScheduler.cpp
index 0cbb4a9..0c2a876 100644
--- a/src/TimerTools/C3PScheduler.cpp
+++ b/src/TimerTools/C3PScheduler.cpp
@@ -242,7 +242,9 @@ FAST_FUNC void C3PScheduler::advanceScheduler() {
   for (uint32_t i = 0; i < _active.count(); i++) {
     C3PSchedule* current = _active.peek(i, false);
     if ((nullptr != current) && current->enabled()) {
-      if ((ULONG_MAX >> 1) > micros_since(current->_exec_at)) {
+      // Schedule times are stored as unsigned int, and must be compared as such
+      //   (even if the platform's micros() is wider).
+      if ((UINT_MAX >> 1) > ((unsigned int) micros() - current->_exec_at)) {
         if (0 != _exec_queue.insertIfAbsent(current)) {
           // TODO: Anomaly tracking...
         }
-- 
2.43.0


From 05206e9b4e6a4463d94ba1a8a93fd6ce514e7c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:28 +0000
Subject: [PATCH 025/224] fix: A schedule disabled while it waited for service
 was executed regardless

---
 src/TimerTools/C3PScheduler.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/TimerTools/C3PScheduler.cpp b/src/TimerTools/C3PScheduler.cpp
index 0c2a876..4fb871e 100644
--- a/src/TimerTools/C3PScheduler.cpp
+++ b/src/TimerTools/C3PScheduler.cpp
@@ -226,7 +226,9 @@ FAST_FUNC void C3PScheduler::serviceSchedules() {
     // Service queue will refuse to process until the ISR has been pinged.
     C3PSchedule* current = _exec_queue.get();
     while (nullptr != current) {
-      current->execute();
+      if (current->enabled()) {   // It may have been disabled while it was queued.
+        current->execute();
+      }
       current = _exec_queue.get();
     }
     profiler_service.markStop();
-- 
2.43.0


From c2dd49d36b50d0853bd3ed3e835d30e21b3f96f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:29 +0000
Subject: [PATCH 026/224] fix: StopWatch lost any measurement that began when
 micros() read zero

---
 src/TimerTools/StopWatch.cpp | 6 +++---
 src/TimerTools/TimerTools.h  | 3 ++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/TimerTools/StopWatch.cpp b/src/TimerTools/StopWatch.cpp
index 47f8eb6..f447a5d 100644
--- a/src/TimerTools/StopWatch.cpp
+++ b/src/TimerTools/StopWatch.cpp
@@ -28,7 +28,7 @@ limitations under the License.
 /**
 * Constructor
 */
-StopWatch::StopWatch(uint32_t _t) : _tag(_t), _start_micros(0) {
+StopWatch::StopWatch(uint32_t _t) : _tag(_t), _start_micros(0), _started(false) {
   reset();
 }
 
@@ -56,7 +56,7 @@ ISR_FUNC bool StopWatch::addRuntime(const unsigned long START_TIME, const unsign
   _run_time_worst   = strict_max(_run_time_last, _run_time_worst);
   _run_time_total  += _run_time_last;
   _run_time_average = _run_time_total / _executions;
-  _start_micros     = 0;
+  _started          = false;
   return true;
 }
 
@@ -64,7 +64,7 @@ ISR_FUNC bool StopWatch::addRuntime(const unsigned long START_TIME, const unsign
 ISR_FUNC bool StopWatch::markStop() {
   const uint32_t STOP_TIME = micros();
   bool ret = false;
-  if (_start_micros > 0) {
+  if (_started) {
     addRuntime(_start_micros, STOP_TIME);
     ret = true;
   }
diff --git a/src/TimerTools/TimerTools.h b/src/TimerTools/TimerTools.h
index 0469d71..993b21e 100644
--- a/src/TimerTools/TimerTools.h
+++ b/src/TimerTools/TimerTools.h
@@ -42,7 +42,7 @@ class StopWatch {
     inline uint32_t meanTime() {     return _run_time_average;   };
     inline uint32_t totalTime() {    return _run_time_total;     };
     inline uint32_t executions() {   return _executions;         };
-    inline void     markStart() {    _start_micros = (uint32_t) micros();   };
+    inline void     markStart() {    _start_micros = (uint32_t) micros();  _started = true;  };
     bool  markStop();
     bool  addRuntime(const unsigned long START_TIME, const unsigned long STOP_TIME);
     void  reset();
@@ -62,6 +62,7 @@ class StopWatch {
     uint32_t _run_time_average;
     uint32_t _run_time_total;
     uint32_t _executions;
+    bool     _started;  // Zero is a valid start time, so it can't mean "not started".
 };
 
 
-- 
2.43.0


From c7a985faa337a47d347de2bec8b86a8900886ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:30 +0000
Subject: [PATCH 027/224] fix: A schedule was executed twice if the scheduler
 was advanced during its execution

---
 src/TimerTools/C3PScheduler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/TimerTools/C3PScheduler.cpp b/src/TimerTools/C3PScheduler.cpp
index 4fb871e..3928873 100644
--- a/src/TimerTools/C3PScheduler.cpp
+++ b/src/TimerTools/C3PScheduler.cpp
@@ -243,7 +243,8 @@ FAST_FUNC void C3PScheduler::serviceSchedules() {
 FAST_FUNC void C3PScheduler::advanceScheduler() {
   for (uint32_t i = 0; i < _active.count(); i++) {
     C3PSchedule* current = _active.peek(i, false);
-    if ((nullptr != current) && current->enabled()) {
+    // A schedule that is executing right now has yet to decide its next time.
+    if ((nullptr != current) && current->enabled() && !current->executingNow()) {
       // Schedule times are stored as unsigned int, and must be compared as such
       //   (even if the platform's micros() is wider).
       if ((UINT_MAX >> 1) > ((unsigned int) micros() - current->_exec_at)) {
-- 
2.43.0


From d15d5d4fa0d559baf0ddb093036c6ff7f7507d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:08 +0000
Subject: [PATCH 028/224] fix: The SI symbols for centi and deci were printed
 as milli

---
 src/EnumeratedTypeCodes.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/EnumeratedTypeCodes.cpp b/src/EnumeratedTypeCodes.cpp
index c340344..92ce16b 100644
--- a/src/EnumeratedTypeCodes.cpp
+++ b/src/EnumeratedTypeCodes.cpp
@@ -36,8 +36,8 @@ const char* const SIUnitToStr(const int8_t OOM, const bool sym) {
     case -9:   return (sym ? "n" : "nano");
     case -6:   return (sym ? "u" : "micro");
     case -3:   return (sym ? "m" : "milli");
-    case -2:   return (sym ? "m" : "centi");
-    case -1:   return (sym ? "m" : "deci");
+    case -2:   return (sym ? "c" : "centi");
+    case -1:   return (sym ? "d" : "deci");
     case 0:    return "";
     case 1:    return (sym ? "da" : "deca");
     case 2:    return (sym ? "h" : "hecto");
-- 
2.43.0


From 52accedb4aad877d9d317eaba7b8eea069b95a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:31 +0000
Subject: [PATCH 029/224] fix: C3PTrace extracted path and action from the
 wrong bits of the trace word

---
 src/TimerTools/C3PTrace.cpp | 4 ++--
 src/TimerTools/C3PTrace.h   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/TimerTools/C3PTrace.cpp b/src/TimerTools/C3PTrace.cpp
index bc07e50..fba41ee 100644
--- a/src/TimerTools/C3PTrace.cpp
+++ b/src/TimerTools/C3PTrace.cpp
@@ -52,7 +52,7 @@ ISR_FUNC void C3PTrace::leave_trace(const uint32_t TRACE_WORD) {
   const unsigned int NOW = micros();
   if (recording()) {
     const uint32_t SPATIAL_WORD = (C3P_TRACE_WORD_SPATIAL_MASK & TRACE_WORD);
-    const TraceAction ACTION = (const TraceAction) (TRACE_WORD & C3P_TRACE_WORD_SPATIAL_MASK);
+    const TraceAction ACTION = (const TraceAction) ((TRACE_WORD & C3P_TRACE_WORD_ACTN_MASK) >> C3P_TRACE_WORD_ACTN_OFFSET);
     if (0 == _trace_points.vacancy()) {
       _trace_points.get();
     }
@@ -62,7 +62,7 @@ ISR_FUNC void C3PTrace::leave_trace(const uint32_t TRACE_WORD) {
       case TraceAction::PATH_START:
       case TraceAction::PATH_STOP:
         {
-          const uint8_t  PATH_ID    = (uint8_t) ((TRACE_WORD & C3P_TRACE_WORD_SPATIAL_MASK) >> C3P_TRACE_WORD_PATH_OFFSET);
+          const uint8_t  PATH_ID    = (uint8_t) ((TRACE_WORD & C3P_TRACE_WORD_PATH_MASK) >> C3P_TRACE_WORD_PATH_OFFSET);
           bool path_root_created = false;
           TracePath* path_container = _trace_paths.getByPriority((int32_t) PATH_ID);
           if (nullptr == path_container) {
diff --git a/src/TimerTools/C3PTrace.h b/src/TimerTools/C3PTrace.h
index bed446e..c588bb5 100644
--- a/src/TimerTools/C3PTrace.h
+++ b/src/TimerTools/C3PTrace.h
@@ -75,7 +75,7 @@ class StringBuilder;
 #define C3P_TRACE_WORD_LINE_OFFSET  (0)
 #define C3P_TRACE_WORD_FILE_OFFSET  (CONFIG_C3P_TRACE_WORD_LINE_BITS)
 #define C3P_TRACE_WORD_PATH_OFFSET  (CONFIG_C3P_TRACE_WORD_LINE_BITS + CONFIG_C3P_TRACE_WORD_FILE_BITS)
-#define C3P_TRACE_WORD_ACTN_OFFSET  (CONFIG_C3P_TRACE_WORD_LINE_BITS + CONFIG_C3P_TRACE_WORD_FILE_BITS + C3P_TRACE_WORD_PATH_OFFSET)
+#define C3P_TRACE_WORD_ACTN_OFFSET  (CONFIG_C3P_TRACE_WORD_LINE_BITS + CONFIG_C3P_TRACE_WORD_FILE_BITS + CONFIG_C3P_TRACE_WORD_PATH_BITS)
 
 // Define mask values for each field in the trace word.
 #define C3P_TRACE_WORD_LINE_MASK    ((0xFFFFFFFF >> (32 - CONFIG_C3P_TRACE_WORD_LINE_BITS)) << C3P_TRACE_WORD_LINE_OFFSET)
-- 
2.43.0


From f4a4444e10814cd46446f06d8e5ec9ac1b1e05f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:31 +0000
Subject: [PATCH 030/224] fix: TracePath::serialize() looked up its end-points
 by the start-point, and printed none

---
 src/TimerTools/C3PTrace.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimerTools/C3PTrace.cpp b/src/TimerTools/C3PTrace.cpp
index fba41ee..0247351 100644
--- a/src/TimerTools/C3PTrace.cpp
+++ b/src/TimerTools/C3PTrace.cpp
@@ -188,7 +188,7 @@ int TracePath::serialize(StringBuilder* out, const TCode FORMAT) {
           StringBuilder::styleHeader2(out, (char*) tmp.string());
           StopWatch::printDebugHeader(out);
           for (int i = 0; i < ENDPOINT_COUNT; i++) {
-            StopWatch* path_stopwatch = _pathways.getByPriority((int32_t) _start_point.trace_word);
+            StopWatch* path_stopwatch = _pathways.get(i);
             if (nullptr != path_stopwatch) {
               TracePoint end_point(0, path_stopwatch->tag());
               tmp.clear();
-- 
2.43.0


From 7f80c34dbcadcd9b01704cd3a2dad8dc6b954242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:23 +0000
Subject: [PATCH 031/224] fix: TracePath freed the StopWatch that it had just
 placed at the head of its list

---
 src/TimerTools/C3PTrace.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimerTools/C3PTrace.cpp b/src/TimerTools/C3PTrace.cpp
index 0247351..b0f029e 100644
--- a/src/TimerTools/C3PTrace.cpp
+++ b/src/TimerTools/C3PTrace.cpp
@@ -254,7 +254,7 @@ ISR_FUNC bool TracePath::recordStop(const uint32_t TRACE_WORD, const TracePoint*
     if (nullptr != path_stopwatch) {
       ret = path_stopwatch->addRuntime((uint32_t) _start_point.ts_micros, (uint32_t) POINT->ts_micros);
       if (path_timing_created) {
-        ret &= (_pathways.insert(path_stopwatch, (int32_t) POINT->trace_word));
+        ret &= (0 <= _pathways.insert(path_stopwatch, (int32_t) POINT->trace_word));
       }
     }
     if (path_timing_created & !ret) {  // Clean up any mess we might have left
-- 
2.43.0


From aa4f353bd55795458539b7dd7cb844d597eae303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:22 +0000
Subject: [PATCH 032/224] fix: setting a UINT8 from a too-large UINT16 read
 past the source value

---
 src/C3PValue/C3PType.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index d351aa5..d78ed03 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -1047,6 +1047,7 @@ template <> int8_t      C3PTypeConstraint<uint8_t>::set_from(void* dest, const T
         *d = (uint8_t) *((uint16_t*) src);
         return 0;
       }
+      break;
     case TCode::UINT32:
       if (*((uint32_t*) src) <= UINT8_MAX) {
         *d = (uint8_t) *((uint32_t*) src);
-- 
2.43.0


From f6cf4f04d36798ca987ea89985c48c9b1a9ea403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:23 +0000
Subject: [PATCH 033/224] fix: a UINT32 value accepted negative INT64 values

---
 src/C3PValue/C3PType.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index d78ed03..be7b9fb 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -1300,7 +1300,7 @@ template <> int8_t      C3PTypeConstraint<uint32_t>::set_from(void* dest, const
       }
       break;
     case TCode::INT64:
-      if (*((int64_t*) src) <= UINT32_MAX) {
+      if ((*((int64_t*) src) <= UINT32_MAX) & (*((int64_t*) src) >= 0)) {
         *d = (uint32_t) *((int64_t*) src);
         return 0;
       }
-- 
2.43.0


From 45248ed03391b63b29e02085ac64e9a98f10550a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:24 +0000
Subject: [PATCH 034/224] fix: an INT64 value accepted UINT64 values that it
 can't represent

---
 src/C3PValue/C3PType.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index be7b9fb..5dcb837 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -893,7 +893,7 @@ template <> int8_t      C3PTypeConstraint<int64_t>::set_from(void* dest, const T
     case TCode::UINT64:
       {
         int64_t s = _load_from_mem(src);
-        if (s <= INT64_MAX) {
+        if (s >= 0) {   // A set sign bit means it exceeds INT64_MAX.
           d = s;
           ret = 0;
         }
-- 
2.43.0


From 8f1dfbeeae2e2caae711ae6e44c5450fe5666ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:26 +0000
Subject: [PATCH 035/224] fix: 64-bit values were printed truncated on 32-bit
 platforms

---
 src/C3PValue/C3PType.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index 5dcb837..d82fdf8 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -853,7 +853,7 @@ template <> int         C3PTypeConstraint<int32_t>::deserialize(void* obj, Strin
 ///
 template <> void        C3PTypeConstraint<int64_t>::to_string(void* obj, StringBuilder* out) {
   int64_t yuck = _load_from_mem(obj);
-  out->concatf("%ld", yuck);
+  out->concatf("%lld", (long long) yuck);
 }
 
 template <> int8_t C3PTypeConstraint<int64_t>::representable_by(const TCode DEST_TYPE) {
@@ -1399,7 +1399,7 @@ template <> int         C3PTypeConstraint<uint32_t>::deserialize(void* obj, Stri
 ///
 template <> void        C3PTypeConstraint<uint64_t>::to_string(void* obj, StringBuilder* out) {
   uint64_t yuck = _load_from_mem(obj);
-  out->concatf("%lu", yuck);
+  out->concatf("%llu", (unsigned long long) yuck);
 }
 
 template <> int8_t C3PTypeConstraint<uint64_t>::representable_by(const TCode DEST_TYPE) {
-- 
2.43.0


From 6b946e16b55d62b8861960d2c567592d4fb7ce0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:37 +0000
Subject: [PATCH 036/224] fix: a C3PValue made from a double was truncated to
 an integer on 64-bit platforms

---
 src/C3PValue/C3PValue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C3PValue/C3PValue.h b/src/C3PValue/C3PValue.h
index c3ab4f1..d7a67e0 100644
--- a/src/C3PValue/C3PValue.h
+++ b/src/C3PValue/C3PValue.h
@@ -126,7 +126,7 @@ class C3PValue {
     #if (64 == __BUILD_ALU_WIDTH)
       C3PValue(uint64_t val) : C3PValue(TCode::UINT64,   (void*)(uintptr_t) val) {};
       C3PValue(int64_t  val) : C3PValue(TCode::INT64,    (void*)(uintptr_t) val) {};
-      C3PValue(double   val) : C3PValue(TCode::DOUBLE,   (void*)(uintptr_t) val) {};
+      C3PValue(double   val) : C3PValue(TCode::DOUBLE,   nullptr) {  set(val);  };
     #else
       // Values like these will be passed on the stack, by value.
       C3PValue(uint64_t val) : C3PValue(TCode::UINT64,   (void*) &val) {};
-- 
2.43.0


From d3b090b0fb8acf37c2deed83578f1f6e4c30b68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:46 +0000
Subject: [PATCH 037/224] fix: C3PValue::set() with a string kept a pointer to
 its own argument

---
 src/C3PValue/C3PValue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/C3PValue/C3PValue.h b/src/C3PValue/C3PValue.h
index d7a67e0..442eaeb 100644
--- a/src/C3PValue/C3PValue.h
+++ b/src/C3PValue/C3PValue.h
@@ -181,8 +181,8 @@ class C3PValue {
     inline int8_t set(bool x) {          return set_from(TCode::BOOLEAN,      (void*) &x);  };
     inline int8_t set(float x) {         return set_from(TCode::FLOAT,        (void*) &x);  };
     inline int8_t set(double x) {        return set_from(TCode::DOUBLE,       (void*) &x);  };
-    inline int8_t set(const char* x) {   return set_from(TCode::STR,          (void*) &x);  };
-    inline int8_t set(char* x) {         return set_from(TCode::STR,          (void*) &x);  };
+    inline int8_t set(const char* x) {   return set_from(TCode::STR,          (void*) x);  };
+    inline int8_t set(char* x) {         return set_from(TCode::STR,          (void*) x);  };
     inline int8_t set(Vector3u32* x) {   return set_from(TCode::VECT_3_UINT32, (void*) x);  };
     inline int8_t set(Vector3u16* x) {   return set_from(TCode::VECT_3_UINT16, (void*) x);  };
     inline int8_t set(Vector3u8*  x) {   return set_from(TCode::VECT_3_UINT8,  (void*) x);  };
-- 
2.43.0


From 035f3ca27d2b4e62da41daca3812760f0746be44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:07 +0000
Subject: [PATCH 038/224] fix: StringBuilder references in C3PValue were
 dereferenced once too often

---
 src/C3PValue/C3PType.cpp | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index d82fdf8..63a1dd4 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -2477,25 +2477,18 @@ template <> uint32_t    C3PTypeConstraint<StringBuilder*>::length(void* obj) {
 
 template <> void        C3PTypeConstraint<StringBuilder*>::to_string(void* obj, StringBuilder* out) {
   if (nullptr != obj) {
-    StringBuilder* o = nullptr;
-    memcpy((void*) &o, obj, sizeof(StringBuilder*));
-    if (nullptr != o) {
-      out->concat(o);
-    }
+    out->concat((StringBuilder*) obj);
   }
 }
 
 template <> int8_t      C3PTypeConstraint<StringBuilder*>::set_from(void* dest, const TCode SRC_TYPE, void* src) {
-  StringBuilder* d = (StringBuilder*) dest;
   int8_t ret = -1;
-  if ((nullptr != d) && (nullptr != src)) {
+  if ((nullptr != dest) && (nullptr != src)) {
     switch (SRC_TYPE) {
       //case TCode::STR:     d = *((char**) src);    return 0;
       case TCode::STR_BUILDER:
-        if (nullptr != dest) {
-          memcpy(dest, src, sizeof(StringBuilder*));
-          ret = 0;
-        }
+        *((StringBuilder**) dest) = (StringBuilder*) src;
+        ret = 0;
         break;
       default:  break;
     }
@@ -2544,8 +2537,7 @@ template <> int         C3PTypeConstraint<StringBuilder*>::serialize(void* obj,
       {
         cbor::output_stringbuilder output(out);
         cbor::encoder encoder(output);
-        StringBuilder* o = nullptr;
-        memcpy((void*) &o, obj, sizeof(StringBuilder*));
+        StringBuilder* o = (StringBuilder*) obj;
         encoder.write_string((char*) o->string());
         ret = 0;   // TODO: Safe SB API.
       }
-- 
2.43.0


From ada1eced2dde33cddf40f61f118aca235fa9191f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:08 +0000
Subject: [PATCH 039/224] fix: setting a BINARY C3PValue from another overwrote
 the memory after it

---
 src/C3PValue/C3PValue.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 5eaeb8c..6c1fa44 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -333,9 +333,10 @@ void* C3PValue::_type_pun_set() {
     //   _target_mem as its dest argument to a set() fxn.
     return &_target_mem;
   }
-  else if (!_is_val_by_ref()) {
+  else if (!_is_val_by_ref() || is_ptr_len()) {
     // Value-by-copy data that didn't fit inside void* will have been indirected
-    //   into a separate allocation. Return that pointer.
+    //   into a separate allocation. Return that pointer. The same is true of the
+    //   shim for the pointer-length types.
     return _target_mem;
   }
   else {
-- 
2.43.0


From cd66e505e694fe861cf52aa68d69e493d29b3067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:09 +0000
Subject: [PATCH 040/224] fix: a BINARY C3PValue without a value held an
 uninitialized pointer and length

---
 src/C3PValue/C3PValue.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 6c1fa44..654bf20 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -164,6 +164,7 @@ C3PValue::C3PValue(const TCode TC, void* ptr, uint8_t mem_flgs)
       _target_mem = malloc(sizeof(C3PBinBinder));
       if (nullptr != _target_mem) {
         //((C3PBinBinder*) _target_mem)->tcode = TC;
+        memset(_target_mem, 0, sizeof(C3PBinBinder));
         _set_flags(true, C3PVAL_MEM_FLAG_VALUE_BY_REF);
         // TODO: Is this the correct choice? We know that we are responsible for
         //   freeing the C3PBinBinder we just created, and I don't want to mix
-- 
2.43.0


From b4e80885737a8435ba9ae8babad05066b96c0b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:11 +0000
Subject: [PATCH 041/224] fix: FLOAT and DOUBLE declare that they are
 representable by BOOLEAN, but refused the conversion

---
 src/C3PValue/C3PType.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index 63a1dd4..996193f 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -1693,6 +1693,7 @@ template <> int8_t      C3PTypeConstraint<float>::get_as(void* src, const TCode
   // To avoid inducing bugs related to alignment, we copy the value byte-wise
   //   into our on-stack storage, where it's alignment can be controlled.
   switch (DEST_TYPE) {
+    case TCode::BOOLEAN:    *((bool*) dest) = (0 != _load_from_mem(src));  return 0;
     case TCode::FLOAT:      memcpy(dest, src, FIXED_LEN);  return 0;
     case TCode::DOUBLE:
       {
@@ -1789,6 +1790,7 @@ template <> int8_t      C3PTypeConstraint<double>::set_from(void* dest, const TC
 
 template <> int8_t      C3PTypeConstraint<double>::get_as(void* src, const TCode DEST_TYPE, void* dest) {
   switch (DEST_TYPE) {
+    case TCode::BOOLEAN:    *((bool*) dest) = (0 != _load_from_mem(src));   return 0;
     case TCode::DOUBLE:     memcpy(dest, src, FIXED_LEN);   return 0;
     default:  break;
   }
-- 
2.43.0


From 42e0f774839a28a9439c6c5f244f3eead55b581a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:12 +0000
Subject: [PATCH 042/224] fix: get_as_bool() tested the storage of the value,
 rather than the value

---
 src/C3PValue/C3PValue.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 654bf20..e314b0d 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -460,8 +460,12 @@ int64_t C3PValue::get_as_int64(int8_t* success) {
 
 /* Casts the value into (!/= 0). */
 bool C3PValue::get_as_bool(int8_t* success) {
+  bool ret = false;
+  if (0 != get_as(TCode::BOOLEAN, (void*) &ret)) {
+    ret = (0 != _target_mem);  // Not a numeric. Anything at all is "true".
+  }
   if (success) {  *success = true;  }
-  return (0 != _target_mem);
+  return ret;
 }
 
 
-- 
2.43.0


From 2fba86c51542cc83dd613ee4873dc7e90c4031f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:57 +0000
Subject: [PATCH 043/224] fix: replacing the content that a C3PValue owned
 leaked it, and later free'd the replacement

---
 src/C3PValue/C3PValue.cpp | 33 +++++++++++++++++++++++++++++++++
 src/C3PValue/C3PValue.h   |  3 ++-
 2 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index e314b0d..2a3a8c2 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -356,7 +356,11 @@ int8_t C3PValue::set_from(const TCode SRC_TYPE, void* src) {
   int8_t ret = -1;
   C3PType* t_helper = getTypeHelper(_TCODE);
   if (nullptr != t_helper) {
+    void* const PRIOR_REF = _owned_reference();
     ret = t_helper->set_from(_type_pun_set(), SRC_TYPE, src);
+    if (0 == ret) {
+      _reap_replaced_reference(PRIOR_REF);
+    }
   }
   if (0 == ret) {
     _set_trace++;
@@ -365,6 +369,33 @@ int8_t C3PValue::set_from(const TCode SRC_TYPE, void* src) {
 }
 
 
+/*
+* @return The reference that this object is responsible for free'ing, or nullptr.
+*/
+void* C3PValue::_owned_reference() {
+  if (reapValue() && _is_val_by_ref() && (nullptr != _target_mem)) {
+    return (is_ptr_len() ? ((C3PBinBinder*) _target_mem)->buf : _target_mem);
+  }
+  return nullptr;
+}
+
+
+/*
+* Called following the assignment of a new value. If a reference that we owned
+*   was replaced by it, free the prior reference. The new one belongs to someone
+*   else, until reapValue(true) is called.
+*/
+void C3PValue::_reap_replaced_reference(void* prior) {
+  if ((nullptr != prior) && (prior != _owned_reference())) {
+    C3PType* t_helper = getTypeHelper(_TCODE);
+    if (is_ptr_len() || (nullptr == t_helper) || (0 > t_helper->destruct(prior))) {
+      free(prior);  // No destructor semantics. Just free.
+    }
+    reapValue(false);
+  }
+}
+
+
 int8_t C3PValue::set(C3PValue* src) {
   return ((nullptr == src) ? -2 : set_from(src->tcode(), src->_type_pun_get()));
 }
@@ -397,8 +428,10 @@ int8_t C3PValue::get_as(uint8_t** v, uint32_t* l) {
 int8_t C3PValue::set(uint8_t* src, uint32_t l, const TCode SRC_TYPE) {
   int8_t ret = -1;
   if (nullptr != _target_mem) {
+    void* const PRIOR_REF = _owned_reference();
     ((C3PBinBinder*) _target_mem)->buf = src;
     ((C3PBinBinder*) _target_mem)->len = l;
+    _reap_replaced_reference(PRIOR_REF);
     _set_trace++;
     ret = 0;
   }
diff --git a/src/C3PValue/C3PValue.h b/src/C3PValue/C3PValue.h
index 442eaeb..cd5efbb 100644
--- a/src/C3PValue/C3PValue.h
+++ b/src/C3PValue/C3PValue.h
@@ -316,7 +316,8 @@ class C3PValue {
 
 
     KeyValuePair* _next_sib_with_key();
-    void _reap_existing_value();
+    void* _owned_reference();
+    void  _reap_replaced_reference(void* prior);
 
     void* _type_pun_get();
     void* _type_pun_set();
-- 
2.43.0


From 955bdc5ff965291cf2d48f2d78150e46c01520e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:58 +0000
Subject: [PATCH 044/224] fix: pointer-length access to other types of C3PValue
 treated the value as a pointer

---
 src/C3PValue/C3PValue.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 2a3a8c2..67cbf5c 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -415,7 +415,7 @@ int8_t C3PValue::get_as(uint8_t** v, uint32_t* l) {
   int8_t ret = -1;
   if ((nullptr != v) & (nullptr != l)) {
     ret--;
-    if (nullptr != _target_mem) {
+    if (is_ptr_len() && (nullptr != _target_mem)) {
       *v = ((C3PBinBinder*) _target_mem)->buf;
       *l = ((C3PBinBinder*) _target_mem)->len;
       ret = 0;
@@ -427,7 +427,7 @@ int8_t C3PValue::get_as(uint8_t** v, uint32_t* l) {
 // TODO: Audit. Might be wrong-headed.
 int8_t C3PValue::set(uint8_t* src, uint32_t l, const TCode SRC_TYPE) {
   int8_t ret = -1;
-  if (nullptr != _target_mem) {
+  if (is_ptr_len() && (nullptr != _target_mem)) {
     void* const PRIOR_REF = _owned_reference();
     ((C3PBinBinder*) _target_mem)->buf = src;
     ((C3PBinBinder*) _target_mem)->len = l;
-- 
2.43.0


From d2a01d41a75521b45da7580cef4501ba6412a18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:12 +0000
Subject: [PATCH 045/224] fix: setting a vector from a BINARY value ignored the
 length of the buffer

---
 src/C3PValue/C3PType.cpp | 56 ++++++++++++++++++++++++++++++++++------
 1 file changed, 48 insertions(+), 8 deletions(-)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index 996193f..b0e3e44 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -1847,7 +1847,12 @@ template <> int8_t      C3PTypeConstraint<Vector3f64>::set_from(void* dest, cons
       //   case relies on the storage order of that shim. Provided that
       //   assumption holds, the following should be true:
       //         *((Vector3f**) src)  ==  *(((C3PBinBinder*) src)->buf)
-      case TCode::BINARY:           _store_in_mem(dest, _load_from_mem(*((Vector3f64**) src)));   return 0;
+      case TCode::BINARY:
+        if (FIXED_LEN == ((C3PBinBinder*) src)->len) {
+          _store_in_mem(dest, _load_from_mem(*((Vector3f64**) src)));
+          return 0;
+        }
+        break;
       default:  break;
     }
   }
@@ -1913,7 +1918,12 @@ template <> int8_t      C3PTypeConstraint<Vector3u8>::set_from(void* dest, const
       //   case relies on the storage order of that shim. Provided that
       //   assumption holds, the following should be true:
       //         *((Vector3f**) src)  ==  *(((C3PBinBinder*) src)->buf)
-      case TCode::BINARY:           _store_in_mem(dest, _load_from_mem(*((Vector3u8**) src)));   return 0;
+      case TCode::BINARY:
+        if (FIXED_LEN == ((C3PBinBinder*) src)->len) {
+          _store_in_mem(dest, _load_from_mem(*((Vector3u8**) src)));
+          return 0;
+        }
+        break;
       default:  break;
     }
   }
@@ -1979,7 +1989,12 @@ template <> int8_t      C3PTypeConstraint<Vector3i8>::set_from(void* dest, const
       //   case relies on the storage order of that shim. Provided that
       //   assumption holds, the following should be true:
       //         *((Vector3f**) src)  ==  *(((C3PBinBinder*) src)->buf)
-      case TCode::BINARY:           _store_in_mem(dest, _load_from_mem(*((Vector3i8**) src)));   return 0;
+      case TCode::BINARY:
+        if (FIXED_LEN == ((C3PBinBinder*) src)->len) {
+          _store_in_mem(dest, _load_from_mem(*((Vector3i8**) src)));
+          return 0;
+        }
+        break;
       default:  break;
     }
   }
@@ -2050,7 +2065,12 @@ template <> int8_t      C3PTypeConstraint<Vector3f>::set_from(void* dest, const
       //   case relies on the storage order of that shim. Provided that
       //   assumption holds, the following should be true:
       //         *((Vector3f**) src)  ==  *(((C3PBinBinder*) src)->buf)
-      case TCode::BINARY:           _store_in_mem(dest, _load_from_mem(*((Vector3f**) src)));   return 0;
+      case TCode::BINARY:
+        if (FIXED_LEN == ((C3PBinBinder*) src)->len) {
+          _store_in_mem(dest, _load_from_mem(*((Vector3f**) src)));
+          return 0;
+        }
+        break;
       default:  break;
     }
   }
@@ -2134,7 +2154,12 @@ template <> int8_t      C3PTypeConstraint<Vector3u32>::set_from(void* dest, cons
       //   case relies on the storage order of that shim. Provided that
       //   assumption holds, the following should be true:
       //         *((Vector3f**) src)  ==  *(((C3PBinBinder*) src)->buf)
-      case TCode::BINARY:           _store_in_mem(dest, _load_from_mem(*((Vector3u32**) src)));   return 0;
+      case TCode::BINARY:
+        if (FIXED_LEN == ((C3PBinBinder*) src)->len) {
+          _store_in_mem(dest, _load_from_mem(*((Vector3u32**) src)));
+          return 0;
+        }
+        break;
       default:  break;
     }
   }
@@ -2200,7 +2225,12 @@ template <> int8_t      C3PTypeConstraint<Vector3i32>::set_from(void* dest, cons
       //   case relies on the storage order of that shim. Provided that
       //   assumption holds, the following should be true:
       //         *((Vector3f**) src)  ==  *(((C3PBinBinder*) src)->buf)
-      case TCode::BINARY:           _store_in_mem(dest, _load_from_mem(*((Vector3i32**) src)));   return 0;
+      case TCode::BINARY:
+        if (FIXED_LEN == ((C3PBinBinder*) src)->len) {
+          _store_in_mem(dest, _load_from_mem(*((Vector3i32**) src)));
+          return 0;
+        }
+        break;
       default:  break;
     }
   }
@@ -2266,7 +2296,12 @@ template <> int8_t      C3PTypeConstraint<Vector3u16>::set_from(void* dest, cons
       //   case relies on the storage order of that shim. Provided that
       //   assumption holds, the following should be true:
       //         *((Vector3f**) src)  ==  *(((C3PBinBinder*) src)->buf)
-      case TCode::BINARY:           _store_in_mem(dest, _load_from_mem(*((Vector3u16**) src)));   return 0;
+      case TCode::BINARY:
+        if (FIXED_LEN == ((C3PBinBinder*) src)->len) {
+          _store_in_mem(dest, _load_from_mem(*((Vector3u16**) src)));
+          return 0;
+        }
+        break;
       default:  break;
     }
   }
@@ -2332,7 +2367,12 @@ template <> int8_t      C3PTypeConstraint<Vector3i16>::set_from(void* dest, cons
       //   case relies on the storage order of that shim. Provided that
       //   assumption holds, the following should be true:
       //         *((Vector3f**) src)  ==  *(((C3PBinBinder*) src)->buf)
-      case TCode::BINARY:           _store_in_mem(dest, _load_from_mem(*((Vector3i16**) src)));   return 0;
+      case TCode::BINARY:
+        if (FIXED_LEN == ((C3PBinBinder*) src)->len) {
+          _store_in_mem(dest, _load_from_mem(*((Vector3i16**) src)));
+          return 0;
+        }
+        break;
       default:  break;
     }
   }
-- 
2.43.0


From 9989a0f9d3329a57c019a1cdd3e990ff818524bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:46 +0000
Subject: [PATCH 046/224] fix: conversions to DOUBLE were done in single
 precision when built with -fsingle-precision-constant

---
 src/C3PValue/C3PType.cpp | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index b0e3e44..445fe60 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -522,7 +522,7 @@ template <> int8_t      C3PTypeConstraint<int8_t>::get_as(void* src, const TCode
       break;
     case TCode::BOOLEAN:    *((bool*) dest) = (0 != s);         return 0;
     case TCode::FLOAT:      *((float*) dest) = (s * 1.0F);      return 0;
-    case TCode::DOUBLE:     *((double*) dest) = (s * 1.0D);     return 0;
+    case TCode::DOUBLE:     *((double*) dest) = ((double) s);     return 0;
     default:  break;
   }
   return -1;
@@ -666,7 +666,7 @@ template <> int8_t      C3PTypeConstraint<int16_t>::get_as(void* src, const TCod
       break;
     case TCode::BOOLEAN:    *((bool*) dest)   = (0 != s);       return 0;
     case TCode::FLOAT:      *((float*) dest)  = (s * 1.0F);     return 0;
-    case TCode::DOUBLE:     *((double*) dest) = (s * 1.0D);     return 0;
+    case TCode::DOUBLE:     *((double*) dest) = ((double) s);     return 0;
     default:  break;
   }
   return -1;
@@ -811,7 +811,7 @@ template <> int8_t      C3PTypeConstraint<int32_t>::get_as(void* src, const TCod
       break;
     case TCode::BOOLEAN:    *((bool*) dest)   = (0 != s);       return 0;
     case TCode::FLOAT:      *((float*) dest)  = (s * 1.0F);     return 0;
-    case TCode::DOUBLE:     *((double*) dest) = (s * 1.0D);     return 0;
+    case TCode::DOUBLE:     *((double*) dest) = ((double) s);     return 0;
     default:  break;
   }
   return -1;
@@ -955,7 +955,7 @@ template <> int8_t      C3PTypeConstraint<int64_t>::get_as(void* src, const TCod
       }
       break;
     case TCode::BOOLEAN:    *((bool*) dest)   = (0 != s);        return 0;
-    case TCode::DOUBLE:     *((double*) dest) = (s * 1.0D);      return 0;
+    case TCode::DOUBLE:     *((double*) dest) = ((double) s);      return 0;
     default:  break;
   }
   return -1;
@@ -1084,7 +1084,7 @@ template <> int8_t      C3PTypeConstraint<uint8_t>::get_as(void* src, const TCod
     case TCode::UINT64:     *((uint64_t*) dest) = (uint64_t) s;  return 0;
     case TCode::BOOLEAN:    *((bool*) dest)   = (0 != s);        return 0;
     case TCode::FLOAT:      *((float*) dest)  = (s * 1.0F);      return 0;
-    case TCode::DOUBLE:     *((double*) dest) = (s * 1.0D);      return 0;
+    case TCode::DOUBLE:     *((double*) dest) = ((double) s);      return 0;
     default:  break;
   }
   return -1;
@@ -1218,7 +1218,7 @@ template <> int8_t      C3PTypeConstraint<uint16_t>::get_as(void* src, const TCo
     case TCode::UINT64:     *((uint64_t*) dest) = (uint64_t) s;  return 0;
     case TCode::BOOLEAN:    *((bool*) dest)   = (0 != s);        return 0;
     case TCode::FLOAT:      *((float*) dest)  = (s * 1.0F);      return 0;
-    case TCode::DOUBLE:     *((double*) dest) = (s * 1.0D);      return 0;
+    case TCode::DOUBLE:     *((double*) dest) = ((double) s);      return 0;
     default:  break;
   }
   return -1;
@@ -1358,7 +1358,7 @@ template <> int8_t      C3PTypeConstraint<uint32_t>::get_as(void* src, const TCo
     case TCode::UINT64:     *((uint64_t*) dest) = (uint64_t) s;  return 0;
     case TCode::BOOLEAN:    *((bool*) dest)   = (0 != s);        return 0;
     case TCode::FLOAT:      *((float*) dest)  = (s * 1.0F);      return 0;
-    case TCode::DOUBLE:     *((double*) dest) = (s * 1.0D);      return 0;
+    case TCode::DOUBLE:     *((double*) dest) = ((double) s);      return 0;
     default:  break;
   }
   return -1;
@@ -1510,7 +1510,7 @@ template <> int8_t      C3PTypeConstraint<uint64_t>::get_as(void* src, const TCo
       break;
     case TCode::UINT64:     *((uint64_t*) dest) = (uint64_t) s;    return 0;
     case TCode::BOOLEAN:    *((bool*) dest)     = (0 != s);        return 0;
-    case TCode::DOUBLE:     *((double*) dest)   = (s * 1.0D);      return 0;
+    case TCode::DOUBLE:     *((double*) dest)   = ((double) s);      return 0;
     default:  break;
   }
   return -1;
@@ -1697,7 +1697,7 @@ template <> int8_t      C3PTypeConstraint<float>::get_as(void* src, const TCode
     case TCode::FLOAT:      memcpy(dest, src, FIXED_LEN);  return 0;
     case TCode::DOUBLE:
       {
-        double s_d = (1.0d * _load_from_mem(src));
+        double s_d = ((double) _load_from_mem(src));
         memcpy(dest, (void*) &s_d, sizeOfType(TCode::DOUBLE));
       }
       return 0;
@@ -1762,20 +1762,20 @@ template <> int8_t      C3PTypeConstraint<double>::set_from(void* dest, const TC
   int8_t ret = -1;
   double d = 0.0d;
   switch (SRC_TYPE) {
-    case TCode::INT8:     d = (1.0d * *((int8_t*) src));        ret = 0;   break;
-    case TCode::INT16:    d = (1.0d * *((int16_t*) src));       ret = 0;   break;
-    case TCode::INT32:    d = (1.0d * *((int32_t*) src));       ret = 0;   break;
-    case TCode::INT64:    d = (1.0d * *((int64_t*) src));       ret = 0;   break;
-    case TCode::UINT8:    d = (1.0d * *((uint8_t*) src));       ret = 0;   break;
-    case TCode::UINT16:   d = (1.0d * *((uint16_t*) src));      ret = 0;   break;
-    case TCode::UINT32:   d = (1.0d * *((uint32_t*) src));      ret = 0;   break;
-    case TCode::UINT64:   d = (1.0d * *((uint64_t*) src));      ret = 0;   break;
+    case TCode::INT8:     d = ((double) *((int8_t*) src));        ret = 0;   break;
+    case TCode::INT16:    d = ((double) *((int16_t*) src));       ret = 0;   break;
+    case TCode::INT32:    d = ((double) *((int32_t*) src));       ret = 0;   break;
+    case TCode::INT64:    d = ((double) *((int64_t*) src));       ret = 0;   break;
+    case TCode::UINT8:    d = ((double) *((uint8_t*) src));       ret = 0;   break;
+    case TCode::UINT16:   d = ((double) *((uint16_t*) src));      ret = 0;   break;
+    case TCode::UINT32:   d = ((double) *((uint32_t*) src));      ret = 0;   break;
+    case TCode::UINT64:   d = ((double) *((uint64_t*) src));      ret = 0;   break;
     case TCode::BOOLEAN:  d = (*((bool*) src) ? 1.0d : 0.0d);   ret = 0;   break;
     case TCode::FLOAT:
       {
         float s = 0.0f;
         memcpy((void*) &s, src, sizeOfType(TCode::FLOAT));
-        d = (1.0d * *((float*) src));
+        d = ((double) *((float*) src));
         ret = 0;
       }
       break;
-- 
2.43.0


From 0149f64059c863f0d5c2207c9a0a516d39edbd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:05 +0000
Subject: [PATCH 047/224] fix: C3PValue.h chose its constructors by a build
 constant that it didn't include

---
 src/C3PValue/C3PType.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/C3PValue/C3PType.h b/src/C3PValue/C3PType.h
index 3b130e4..bc70cc5 100644
--- a/src/C3PValue/C3PType.h
+++ b/src/C3PValue/C3PType.h
@@ -38,6 +38,7 @@ TODO: There is inconsistency in this subsystem regarding property lookups.
 
 #include <inttypes.h>
 #include <stddef.h>
+#include "../Meta/Rationalizer.h"
 #include "../Vector3.h"
 
 // For-dec of class types to avoid including them.
-- 
2.43.0


From b618e014c51d1bdc7d0b1ded68a55c089e6fe268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:43 +0000
Subject: [PATCH 048/224] fix: CBOR encoder dropped the low byte of 64-bit
 integers from 256 to 65535

---
 src/cbor-cpp/cbor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index 2d01cdc..dbfbc71 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -349,6 +349,7 @@ void encoder::write_type_value64(int major_type, uint64_t value) {
   else if(value < 65536ULL) {
     _out->put_byte((uint8_t) (major_type | 25));
     _out->put_byte((uint8_t) (value >> 8));
+    _out->put_byte((uint8_t) value);
   }
   else if(value < 4294967296ULL) {
     _out->put_byte((uint8_t) (major_type | 26));
-- 
2.43.0


From 5979fa1d90c081d9f6737555aa66ce93482899ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:44 +0000
Subject: [PATCH 049/224] fix: CBOR typed arrays of single-byte integers were
 given the wrong RFC 8746 tags

---
 src/cbor-cpp/cbor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index dbfbc71..17ee012 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -448,7 +448,8 @@ int8_t encoder::write_typed_array(const uint32_t TAG_VAL, const void* PTR, const
   }
   const uint32_t BYTE_COUNT = (COUNT * t_size);
   if (0 < BYTE_COUNT) {
-    write_type_value(6, (TAG_VAL + (PF_IS_LITTLE_ENDIAN ? 4:0)));
+    // Single-byte elements have no endianness. RFC 8746 gives 68 and 76 to other purposes.
+    write_type_value(6, (TAG_VAL + ((PF_IS_LITTLE_ENDIAN & (t_size > 1)) ? 4:0)));
     write_bytes((const uint8_t*) PTR, BYTE_COUNT);
     return 0;
   }
-- 
2.43.0


From 85b46a8889d2c0e2424ad04436d49ad36634504a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:46 +0000
Subject: [PATCH 050/224] fix: CBOR input_stringbuilder read 16-bit fields in
 the wrong byte order

---
 src/cbor-cpp/cbor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index 17ee012..1ccf299 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -70,8 +70,8 @@ uint16_t input_stringbuilder::get_short() {
   if (nullptr != _str_bldr) {
     uint8_t buf[2] = {0, 0};
     const int THIS_SIZE = _str_bldr->copyToBuffer(buf, 2, _offset);
-    value |= ((uint16_t) buf[1] << 8);
-    value |= ((uint16_t) buf[0]);
+    value |= ((uint16_t) buf[0] << 8);
+    value |= ((uint16_t) buf[1]);
     _update_local_vars(THIS_SIZE);
   }
   return value;
-- 
2.43.0


From 76480727d72219409316bc9d4ff00e7250a19e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:47 +0000
Subject: [PATCH 051/224] fix: CBOR decoder misread negative integers at the
 ends of their ranges, and all 8-byte ones

---
 src/cbor-cpp/cbor.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index 1ccf299..2c66c97 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -678,8 +678,8 @@ void decoder::run() {
         switch(_currentLength) {
           case 1:
           {
-            uint8_t diff = _in->get_byte()+1;
-            if (diff < 128u) {
+            const int16_t diff = (int16_t) _in->get_byte() + 1;
+            if (diff <= 128) {
               _listener->on_integer((int8_t) -(diff));
             }
             else {
@@ -690,8 +690,8 @@ void decoder::run() {
           break;
           case 2:
           {
-            uint16_t diff = _in->get_short()+1;
-            if (diff < 32768u) {
+            const int32_t diff = (int32_t) _in->get_short() + 1;
+            if (diff <= 32768) {
               _listener->on_integer((int16_t) -(diff));
             }
             else {
@@ -703,16 +703,23 @@ void decoder::run() {
           case 4:
           temp = _in->get_int();
           if(temp <= INT32_MAX) {
-            _listener->on_integer(((int32_t) -(temp+1)));
-          } else if(temp == 2147483648u) {
-            _listener->on_integer((int32_t) INT32_MIN);
+            _listener->on_integer((int32_t) (-1 - (int32_t) temp));
           } else {
             _listener->on_extra_integer(temp, -1);
           }
           _state = STATE_TYPE;
           break;
           case 8:
-          _listener->on_integer(_in->get_long());
+          {
+            const uint64_t temp64 = _in->get_long();
+            if (temp64 <= INT64_MAX) {
+              _listener->on_integer((int64_t) (-1 - (int64_t) temp64));
+            }
+            else {
+              _listener->on_extra_integer(temp64, -1);
+            }
+          }
+          _state = STATE_TYPE;
           break;
         }
       } else break;
-- 
2.43.0


From 19ecb6b4ae2d12d85f3a3dd59000ea64311713ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:48 +0000
Subject: [PATCH 052/224] fix: CBOR decoder took lengths over 2^31 to be
 negative

---
 src/cbor-cpp/cbor.cpp | 42 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index 2c66c97..0b67210 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -735,8 +735,14 @@ void decoder::run() {
           _state = STATE_BYTES_DATA;
           break;
           case 4:
-          _currentLength = _in->get_int();
-          _state = STATE_BYTES_DATA;
+          _currentLength = (int) _in->get_int();
+          if (0 <= _currentLength) {
+            _state = STATE_BYTES_DATA;
+          }
+          else {   // Lengths are signed in this class.
+            _state = STATE_ERROR;
+            _listener->on_error("extra long bytes");
+          }
           break;
           case 8:
           _state = STATE_ERROR;
@@ -763,8 +769,14 @@ void decoder::run() {
           _state = STATE_STRING_DATA;
           break;
           case 4:
-          _currentLength = _in->get_int();
-          _state = STATE_STRING_DATA;
+          _currentLength = (int) _in->get_int();
+          if (0 <= _currentLength) {
+            _state = STATE_STRING_DATA;
+          }
+          else {   // Lengths are signed in this class.
+            _state = STATE_ERROR;
+            _listener->on_error("extra long array");
+          }
           break;
           case 8:
           _state = STATE_ERROR;
@@ -792,8 +804,15 @@ void decoder::run() {
           _state = STATE_TYPE;
           break;
           case 4:
-          _listener->on_array(_in->get_int());
-          _state = STATE_TYPE;
+          temp = _in->get_int();
+          if (temp <= INT32_MAX) {
+            _listener->on_array((int) temp);
+            _state = STATE_TYPE;
+          }
+          else {   // Lengths are signed in this class.
+            _state = STATE_ERROR;
+            _listener->on_error("extra long array");
+          }
           break;
           case 8:
           _state = STATE_ERROR;
@@ -813,8 +832,15 @@ void decoder::run() {
           _state = STATE_TYPE;
           break;
           case 4:
-          _listener->on_map(_in->get_int());
-          _state = STATE_TYPE;
+          temp = _in->get_int();
+          if (temp <= INT32_MAX) {
+            _listener->on_map((int) temp);
+            _state = STATE_TYPE;
+          }
+          else {   // Lengths are signed in this class.
+            _state = STATE_ERROR;
+            _listener->on_error("extra long map");
+          }
           break;
           case 8:
           _state = STATE_ERROR;
-- 
2.43.0


From 631227875216498eea919767e5bef318b1c3bfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:49 +0000
Subject: [PATCH 053/224] fix: CBOR decoder held whole strings on the stack,
 whatever their length

---
 src/cbor-cpp/cbor.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index 0b67210..7e49e00 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -752,10 +752,17 @@ void decoder::run() {
       } else break;
     } else if(_state == STATE_BYTES_DATA) {
       if(_in->has_bytes(_currentLength)) {
-        uint8_t data[_currentLength] = {0, };
+        // The length is only limited by the input, so this can't be on the stack.
+        uint8_t* data = (uint8_t*) malloc((size_t) _currentLength + 1);
+        if (nullptr == data) {
+          _state = STATE_ERROR;
+          _listener->on_error("no memory for bytes");
+          break;
+        }
         _in->get_bytes(data, _currentLength);
         _state = STATE_TYPE;
         _listener->on_bytes(data, _currentLength);
+        free(data);
       } else break;
     } else if(_state == STATE_STRING_SIZE) {
       if(_in->has_bytes(_currentLength)) {
@@ -786,11 +793,18 @@ void decoder::run() {
       } else break;
     } else if(_state == STATE_STRING_DATA) {
       if(_in->has_bytes(_currentLength)) {
-        uint8_t data[_currentLength + 1];
+        // The length is only limited by the input, so this can't be on the stack.
+        uint8_t* data = (uint8_t*) malloc((size_t) _currentLength + 1);
+        if (nullptr == data) {
+          _state = STATE_ERROR;
+          _listener->on_error("no memory for string");
+          break;
+        }
         _in->get_bytes(data, _currentLength);
         data[_currentLength] = '\0';
         _state = STATE_TYPE;
         _listener->on_string((char*) data);
+        free(data);
       } else break;
     } else if(_state == STATE_ARRAY) {
       if(_in->has_bytes(_currentLength)) {
-- 
2.43.0


From e7ade56710d86628d72bc38aa44a256f59712486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:50 +0000
Subject: [PATCH 054/224] fix: CBOR output_static released its malloc'd buffer
 with delete

---
 src/cbor-cpp/cbor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index 7e49e00..43ed1d6 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -208,7 +208,7 @@ output_static::output_static(uint32_t cap, uint8_t* buf) : _buffer(buf), _capaci
 
 output_static::~output_static() {
   if (_should_free & (nullptr != _buffer)) {
-    delete _buffer;
+    free(_buffer);
     _buffer = nullptr;
   }
 }
-- 
2.43.0


From 37fc5410ce80c4278d77e074c53884bfc07a87dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:51 +0000
Subject: [PATCH 055/224] fix: CBOR input_static read a float through an
 unaligned pointer

---
 src/cbor-cpp/cbor.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index 43ed1d6..b96ac60 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -276,7 +276,9 @@ float input_static::get_float() {
     _data[_offset + 0]
   };
   _offset += 4;
-  return *((float*) (&value[0]));
+  float ret;
+  memcpy(&ret, value, sizeof(ret));
+  return ret;
 }
 
 double input_static::get_double() {
-- 
2.43.0


From e2c79b06aec8a009a5b7c2c2ee8c57167373eaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:11 +0000
Subject: [PATCH 056/224] fix: CBOR decoder lost a trailing empty string or
 buffer from a self-deleting source

---
 src/cbor-cpp/cbor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index b96ac60..f9a2c70 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -51,7 +51,7 @@ bool input_stringbuilder::has_bytes(int count) {
   if (nullptr != _str_bldr) {
     return ((_str_bldr->length() - (_consume_input ? 0 : _offset)) >= count);
   }
-  return false;
+  return (0 >= count);  // Nothing is always available.
 }
 
 
-- 
2.43.0


From 0f1b7bd0ab25395682efac7d7535e6264d8558ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:14 +0000
Subject: [PATCH 057/224] fix: serializing a BINARY value wrote the memory
 following its pointer-length shim, instead of its content

---
 src/C3PValue/C3PType.cpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index 445fe60..27e9bab 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -2647,6 +2647,31 @@ template <> int8_t      C3PTypeConstraint<C3PBinBinder>::get_as(void* src, const
   return -1;
 }
 
+template <> int         C3PTypeConstraint<C3PBinBinder>::serialize(void* obj, StringBuilder* out, const TCode FORMAT) {
+  int8_t ret = -1;
+  if (_pointer_safety_check(obj)) {
+    C3PBinBinder* binder = (C3PBinBinder*) obj;
+    if ((nullptr != binder->buf) | (0 == binder->len)) {
+      switch (FORMAT) {
+        case TCode::CBOR:
+          {
+            cbor::output_stringbuilder output(out);
+            cbor::encoder encoder(output);
+            if (TCode::BINARY != TCODE) {   // BINARY is a native CBOR type.
+              encoder.write_tag(C3P_CBOR_VENDOR_CODE | TcodeToInt(TCODE));
+            }
+            encoder.write_bytes(binder->buf, binder->len);
+            ret = 0;   // TODO: Safe SB API.
+          }
+          break;
+
+        default:  break;
+      }
+    }
+  }
+  return ret;
+}
+
 
 
 ////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 586eabccbf3f5e0005266a0804cec5f9ee508750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:16 +0000
Subject: [PATCH 058/224] fix: serializing a StringBuilder value stopped at its
 first null byte, and crashed without a StringBuilder

---
 src/C3PValue/C3PType.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index 27e9bab..bed748a 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -2580,8 +2580,10 @@ template <> int         C3PTypeConstraint<StringBuilder*>::serialize(void* obj,
         cbor::output_stringbuilder output(out);
         cbor::encoder encoder(output);
         StringBuilder* o = (StringBuilder*) obj;
-        encoder.write_string((char*) o->string());
-        ret = 0;   // TODO: Safe SB API.
+        if (nullptr != o) {
+          encoder.write_string((char*) o->string(), o->length());
+          ret = 0;   // TODO: Safe SB API.
+        }
       }
       break;
 
-- 
2.43.0


From 16f7db4cd6bc387b25848b57a0131071fd6c1ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:17 +0000
Subject: [PATCH 059/224] fix: C3PValue::drop() only observed its destruct
 argument for the first value of a list

---
 src/C3PValue/C3PValue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 67cbf5c..e818c46 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -648,7 +648,7 @@ int8_t C3PValue::drop(C3PValue** prior, C3PValue* drop, bool destruct) {
     }
     return 0;
   }
-  return (_next) ? _next->drop(&_next, drop) : -1;
+  return (_next) ? _next->drop(&_next, drop, destruct) : -1;
 }
 
 
-- 
2.43.0


From 56b43bc36b2ee87658f1b8148991c4b3087e3e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:18 +0000
Subject: [PATCH 060/224] fix: a KeyValuePair with a value that can't be
 serialized produced a corrupt CBOR map

---
 src/C3PValue/KeyValuePair.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/C3PValue/KeyValuePair.cpp b/src/C3PValue/KeyValuePair.cpp
index 1891d2c..f9d75d4 100644
--- a/src/C3PValue/KeyValuePair.cpp
+++ b/src/C3PValue/KeyValuePair.cpp
@@ -271,7 +271,10 @@ int8_t KeyValuePair::serialize(StringBuilder* out, const TCode FORMAT) {
             char* tmp_key = src->getKey();
             if ((nullptr != tmp_key) && (strlen(tmp_key) > 0)) {
               local_encoder.write_string(tmp_key);
-              ret = t_helper->serialize(src->_type_pun_get(), &local_output, FORMAT);
+              if (0 != t_helper->serialize(src->_type_pun_get(), &local_output, FORMAT)) {
+                return -2;   // A key without a value would corrupt the map.
+              }
+              ret = 0;
               kvp_count++;
             }
             else {
-- 
2.43.0


From 057ba219dfce9291a1350637672aa74403f08658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:19 +0000
Subject: [PATCH 061/224] fix: printing a KeyValuePair list took the first
 value for every nested KeyValuePair

---
 src/C3PValue/KeyValuePair.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C3PValue/KeyValuePair.cpp b/src/C3PValue/KeyValuePair.cpp
index f9d75d4..4c8c3c6 100644
--- a/src/C3PValue/KeyValuePair.cpp
+++ b/src/C3PValue/KeyValuePair.cpp
@@ -363,7 +363,7 @@ int8_t KeyValuePair::_encode_to_printable(StringBuilder* out, const unsigned int
         {
           // If the value is a KVP, recurse with a deeper indentation to
           //   render it.
-          KeyValuePair* tmp = (KeyValuePair*) _type_pun_get();
+          KeyValuePair* tmp = (KeyValuePair*) src->_type_pun_get();
           if (nullptr != tmp) {
             out->concat("{\n");
             tmp->_encode_to_printable(out, (LEVEL+1));
-- 
2.43.0


From 54939ec622d7c7a0810ea2be60e6826b05b476e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:20 +0000
Subject: [PATCH 062/224] fix: C3PValueDecoder invented missing bytes,
 truncated 64-bit lengths, and refused empty strings and buffers

---
 src/C3PValue/C3PValue.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index e818c46..b1c8e35 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -856,7 +856,7 @@ C3PValue* C3PValueDecoder::_next(uint32_t* offset) {
   uint32_t local_offset  = *offset;
   bool consume_without_value = false;
 
-  if (INPUT_LEN > 0) {
+  if (INPUT_LEN > local_offset) {
     uint64_t _length_extra  = 0;   // Length of data specified by the length field above.
     const uint8_t C_TYPE    = _in->byteAt(local_offset++);   // The first byte
     const uint8_t MAJORTYPE = (uint8_t) (C_TYPE >> 5);
@@ -878,6 +878,7 @@ C3PValue* C3PValueDecoder::_next(uint32_t* offset) {
         }
         else {
           c3p_log(LOG_LEV_WARN, LOCAL_LOG_TAG, "Invalid MAJ/MIN combination (0x%02x/0x%02x)", MAJORTYPE, MINORTYPE);
+          return nullptr;   // Reserved, or of indefinite length.
         }
         break;
     }
@@ -885,7 +886,7 @@ C3PValue* C3PValueDecoder::_next(uint32_t* offset) {
 
     // For types that observe _length_extra, they will generally also want to
     //   know if there are enough bytes to satisfy the parse.
-    const bool HAVE_EXTRA_LEN = ((_length_extra > 0) & (INPUT_LEN >= (local_offset + _length_extra32)));
+    const bool HAVE_EXTRA_LEN = (_length_extra <= (uint64_t) (INPUT_LEN - local_offset));
 
     // Second pass. Form a return object, if possible.
     switch (MAJORTYPE) {
@@ -935,7 +936,7 @@ C3PValue* C3PValueDecoder::_next(uint32_t* offset) {
 
       case 2:  // Raw bytes
         if (HAVE_EXTRA_LEN) {
-          uint8_t* new_buf = (uint8_t*) malloc(_length_extra32);
+          uint8_t* new_buf = (uint8_t*) malloc(_length_extra32 + 1);
           if (nullptr != new_buf) {
             if ((int32_t) _length_extra32 == _in->copyToBuffer(new_buf, _length_extra32, local_offset)) {
               value = new C3PValue(new_buf, _length_extra32);
@@ -965,17 +966,21 @@ C3PValue* C3PValueDecoder::_next(uint32_t* offset) {
         }
         break;
 
-      case 4:  value = _handle_array(&local_offset, _length_extra32);  break;
+      case 4:
+        if (HAVE_EXTRA_LEN) {   // Each element takes at least one byte.
+          value = _handle_array(&local_offset, _length_extra32);
+        }
+        break;
       case 5:
         // Only bother parsing further if we have enough bytes to satisfy the
         //   minimum length requirement for a map of the stated length, assuming
         //   two bytes per map entry. TODO: Are 0-length string allowed here?
-        if (INPUT_LEN >= (local_offset + (_length_extra32 * 2))) {
+        if ((_length_extra <= INPUT_LEN) && ((_length_extra32 * 2ULL) <= (uint64_t) (INPUT_LEN - local_offset))) {
           value = _handle_map(&local_offset, _length_extra32);
         }
         break;
       case 6:
-        if (C3P_CBOR_VENDOR_CODE == (_length_extra32 & 0xFFFFFF00)) {
+        if (C3P_CBOR_VENDOR_CODE == (_length_extra & ~((uint64_t) 0xFF))) {
           // We noticed our vendor code, mask it off and see if see have a type
           //   helper for it.
           const TCode TC = IntToTcode(_length_extra32 & 0x000000FF);
@@ -1081,7 +1086,7 @@ C3PValue* C3PValueDecoder::_handle_map(uint32_t* offset, uint32_t count) {
       uint64_t len_key64 = 0;
       if (_get_length_field(&local_offset, &len_key64, MINOR)) {
         len_key = (uint32_t) len_key64;
-        if (INPUT_LEN >= (local_offset + len_key + 1)) {  // +1 for the value byte.
+        if ((local_offset < INPUT_LEN) && (len_key64 < (uint64_t) (INPUT_LEN - local_offset))) {  // < leaves room for the value byte.
           uint8_t buf_key[len_key+1];
           *(buf_key + len_key) = '\0';
           if ((int32_t) len_key == _in->copyToBuffer(buf_key, len_key, local_offset)) {
-- 
2.43.0


From 02f758f345477b380fb8b4c429d77d09ae47730d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:21 +0000
Subject: [PATCH 063/224] fix: C3PValueDecoder held whole strings and keys on
 the stack, whatever their length

---
 src/C3PValue/C3PValue.cpp | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index b1c8e35..8e7b0e7 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -955,13 +955,17 @@ C3PValue* C3PValueDecoder::_next(uint32_t* offset) {
       case 3:  // String
         if (HAVE_EXTRA_LEN) {
           // If there are enough bytes to satisfy the parse...
-          uint8_t new_buf[_length_extra32+1];
-          *(new_buf + _length_extra32) = '\0';
-          if ((int32_t) _length_extra32 == _in->copyToBuffer(new_buf, _length_extra32, local_offset)) {
-            value = new C3PValue((char*) new_buf);
-            if (nullptr != value) {
-              local_offset += _length_extra32;
+          // The length is only limited by the input, so this can't be on the stack.
+          uint8_t* new_buf = (uint8_t*) malloc(_length_extra32 + 1);
+          if (nullptr != new_buf) {
+            *(new_buf + _length_extra32) = '\0';
+            if ((int32_t) _length_extra32 == _in->copyToBuffer(new_buf, _length_extra32, local_offset)) {
+              value = new C3PValue((char*) new_buf);   // This takes a copy.
+              if (nullptr != value) {
+                local_offset += _length_extra32;
+              }
             }
+            free(new_buf);
           }
         }
         break;
@@ -1087,9 +1091,10 @@ C3PValue* C3PValueDecoder::_handle_map(uint32_t* offset, uint32_t count) {
       if (_get_length_field(&local_offset, &len_key64, MINOR)) {
         len_key = (uint32_t) len_key64;
         if ((local_offset < INPUT_LEN) && (len_key64 < (uint64_t) (INPUT_LEN - local_offset))) {  // < leaves room for the value byte.
-          uint8_t buf_key[len_key+1];
-          *(buf_key + len_key) = '\0';
-          if ((int32_t) len_key == _in->copyToBuffer(buf_key, len_key, local_offset)) {
+          // The length is only limited by the input, so this can't be on the stack.
+          char* buf_key = (char*) malloc(len_key + 1);
+          if ((nullptr != buf_key) && ((int32_t) len_key == _in->copyToBuffer((uint8_t*) buf_key, len_key, local_offset))) {
+            *(buf_key + len_key) = '\0';
             local_offset += len_key;
             // Now the dangerous part. Recurse into next(), and parse out the
             //  next C3PValue.
@@ -1102,7 +1107,7 @@ C3PValue* C3PValueDecoder::_handle_map(uint32_t* offset, uint32_t count) {
                 // TODO: Implement isCompound() instead of this mess.
                 if (value->has_key()) {
                   // We have to reallocate the container to allow for a key.
-                  tmp_kvp = new KeyValuePair((char*) buf_key, (KeyValuePair*) value);
+                  tmp_kvp = new KeyValuePair(buf_key, (KeyValuePair*) value);
                   if (tmp_kvp) {
                     tmp_kvp->reapContainer(true);
                     tmp_kvp->reapValue(true);
@@ -1111,7 +1116,7 @@ C3PValue* C3PValueDecoder::_handle_map(uint32_t* offset, uint32_t count) {
                 }
                 else {
                   tmp_kvp = new KeyValuePair(
-                    value->tcode(), (char*) buf_key,
+                    value->tcode(), buf_key,
                     (C3PVAL_MEM_FLAG_REAP_VALUE | C3PVAL_MEM_FLAG_REAP_KEY | C3PVAL_MEM_FLAG_REAP_CNTNR)
                   );
                   if (tmp_kvp) {
@@ -1147,6 +1152,7 @@ C3PValue* C3PValueDecoder::_handle_map(uint32_t* offset, uint32_t count) {
               }
             }
           }
+          free(buf_key);
         }
       }
     }
-- 
2.43.0


From 015da9b4247a22666f4e5e9caf567ccd565499a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:22 +0000
Subject: [PATCH 064/224] fix: C3PValueDecoder wrapped negative integers that
 don't fit an INT64 into positive ones

---
 src/C3PValue/C3PValue.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 8e7b0e7..54e1fc8 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -923,7 +923,10 @@ C3PValue* C3PValueDecoder::_next(uint32_t* offset) {
             else {                                 value = new C3PValue((int64_t) -(_length_extra+1));  }
             break;
           case 27:
-            value = new C3PValue((int64_t) -(_length_extra+1));
+            if (_length_extra <= INT64_MAX) {
+              value = new C3PValue((int64_t) (-1 - (int64_t) _length_extra));
+            }
+            else c3p_log(LOG_LEV_WARN, LOCAL_LOG_TAG, "NINT doesn't fit an INT64");
             break;
           default:
             if (MINORTYPE < 24) {
-- 
2.43.0


From 520dec1043b3cef728b046c085402df8b591753a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:32 +0000
Subject: [PATCH 065/224] fix: C3PValueDecoder assumed the length of nested
 tags, and gave an unset value when their content didn't fit the type

---
 src/C3PValue/C3PValue.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 54e1fc8..6ff913c 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -1220,9 +1220,12 @@ C3PValue* C3PValueDecoder::_handle_tag(uint32_t* offset, C3PType* t_helper) {
     }
     else if (6 == MAJOR) {
       // If it wasn't a map, but was a nested tag, it means we should recurse.
-      local_offset++;  // TODO: This is not correct, and only works because of coincidence.
-      local_offset++;  //   Need to handle differrent tag lengths differently.
-      C3PValue* inner_tagged_val = _next(&local_offset);
+      uint64_t inner_tag = 0;
+      C3PValue* inner_tagged_val = nullptr;
+      local_offset++;
+      if (_get_length_field(&local_offset, &inner_tag, (CTYPE & 31))) {
+        inner_tagged_val = _next(&local_offset);
+      }
       if (nullptr != inner_tagged_val) {
         //StringBuilder tmp_sb;
         //tmp_sb.concatf("Decoded %s (Nested tag 0x%02x):", t_helper->NAME, CTYPE);
@@ -1231,7 +1234,17 @@ C3PValue* C3PValueDecoder::_handle_tag(uint32_t* offset, C3PType* t_helper) {
         ret = new C3PValue(t_helper->TCODE, nullptr, MEM_FLGS);
         if (nullptr != ret) {
           // TODO: Hopefully C3PValue knows what to do with this?
-          ret->set(inner_tagged_val);
+          if (0 == ret->set(inner_tagged_val)) {
+            // As with map values, we might have just taken something with its
+            //   own life-cycle. In that case, it is no longer the parser's.
+            if (t_helper->is_ptr()) {
+              inner_tagged_val->reapValue(false);
+            }
+          }
+          else {
+            delete ret;
+            ret = nullptr;
+          }
         }
         delete inner_tagged_val;
       }
-- 
2.43.0


From 858910f2d56899259bb00c708f85e3b296e24ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:41 +0000
Subject: [PATCH 066/224] fix: C3PValueDecoder recursed as deeply as its input
 asked

---
 src/C3PValue/C3PValue.cpp | 9 +++++++++
 src/C3PValue/C3PValue.h   | 5 +++++
 2 files changed, 14 insertions(+)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 6ff913c..3f7f0b6 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -888,6 +888,14 @@ C3PValue* C3PValueDecoder::_next(uint32_t* offset) {
     //   know if there are enough bytes to satisfy the parse.
     const bool HAVE_EXTRA_LEN = (_length_extra <= (uint64_t) (INPUT_LEN - local_offset));
 
+    // Arrays, maps, and tags are parsed by recursion. Don't allow the input to
+    //   decide how much of the stack that takes.
+    if ((MAJORTYPE >= 4) & (MAJORTYPE <= 6) & (_depth >= CONFIG_C3P_CBOR_MAX_NESTING)) {
+      c3p_log(LOG_LEV_WARN, LOCAL_LOG_TAG, "Input is nested too deeply.");
+      return nullptr;
+    }
+    _depth++;
+
     // Second pass. Form a return object, if possible.
     switch (MAJORTYPE) {
       case 0:  // positive integer
@@ -1026,6 +1034,7 @@ C3PValue* C3PValueDecoder::_next(uint32_t* offset) {
         }
         break;
     }
+    _depth--;
   }
 
   if (consume_without_value | (nullptr != value)) {
diff --git a/src/C3PValue/C3PValue.h b/src/C3PValue/C3PValue.h
index cd5efbb..07bc21e 100644
--- a/src/C3PValue/C3PValue.h
+++ b/src/C3PValue/C3PValue.h
@@ -336,6 +336,10 @@ class C3PValue {
 * This is a decoder class that prefers to rely on heap allocation of a
 *   complicated type-wrapper object to support unknown type flows.
 */
+#ifndef CONFIG_C3P_CBOR_MAX_NESTING
+  #define CONFIG_C3P_CBOR_MAX_NESTING  32   // Limits the stack that an input can cause to be used.
+#endif
+
 class C3PValueDecoder {
   public:
     C3PValueDecoder(StringBuilder* in) : _in(in) {};
@@ -346,6 +350,7 @@ class C3PValueDecoder {
 
   private:
     StringBuilder* _in;
+    uint8_t        _depth = 0;   // How deeply nested is the item being parsed?
 
     bool       _get_length_field(uint32_t* offset, uint64_t* val_ret, uint8_t minorType);
     C3PValue*  _next(uint32_t* offset);
-- 
2.43.0


From 966a386428560f8467404e525486fdc781e3216f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:42 +0000
Subject: [PATCH 067/224] fix: lists of C3PValues used stack in proportion to
 their length, and were decoded in quadratic time

---
 src/C3PValue/C3PValue.cpp | 51 ++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 20 deletions(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 3f7f0b6..462845a 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -205,13 +205,15 @@ C3PValue::~C3PValue() {
     ((KeyValuePair*) this)->setKey("");
   }
 
-  // Wipe out any chain of siblings.
-  if (nullptr != _next) {
-    C3PValue* a = _next;       // Concurrency measures being taken here. Null
-    _next       = nullptr;     //   the accessible ref prior to deleting it.
-    if (a->reapContainer()) {  // If we SHOULD delete it, that is...
-      delete a;
-    }
+  // Wipe out any chain of siblings. This is done without recursion, because the
+  //   list might be long.
+  C3PValue* a = _next;         // Concurrency measures being taken here. Null
+  _next       = nullptr;       //   the accessible ref prior to deleting it.
+  while ((nullptr != a) && a->reapContainer()) {  // If we SHOULD delete it, that is...
+    C3PValue* b = a->_next;
+    a->_next    = nullptr;
+    delete a;
+    a = b;
   }
 
   // Finally, Turn our attention to the data we ourselves hold.
@@ -597,15 +599,14 @@ KeyValuePair* C3PValue::_next_sib_with_key() {
 * @param linked_val is the value to link as a sibling.
 */
 C3PValue* C3PValue::link(C3PValue* linked_val, bool reap_cont) {
-  if (nullptr == _next) {
-    if (nullptr != linked_val) {
-      linked_val->reapContainer(reap_cont);
-    }
-    _next = linked_val;
+  C3PValue* last = this;
+  while (nullptr != last->_next) {
+    last = last->_next;
   }
-  else {
-    _next->link(linked_val, reap_cont);
+  if (nullptr != linked_val) {
+    linked_val->reapContainer(reap_cont);
   }
+  last->_next = linked_val;
   return linked_val;
 }
 
@@ -626,7 +627,11 @@ int8_t C3PValue::unlink(C3PValue* linked_val, bool destruct) {
 * @return The number of sibling values.
 */
 uint32_t C3PValue::count() {
-  return (1 + ((nullptr == _next) ? 0 : _next->count()));
+  uint32_t ret = 1;
+  for (C3PValue* v = _next; nullptr != v; v = v->_next) {
+    ret++;
+  }
+  return ret;
 }
 
 
@@ -1049,7 +1054,8 @@ C3PValue* C3PValueDecoder::_next(uint32_t* offset) {
 C3PValue* C3PValueDecoder::_handle_array(uint32_t* offset, uint32_t count) {
   const uint32_t INPUT_LEN = _in->length();
   uint32_t local_offset    = *offset;
-  C3PValue* ret = nullptr;
+  C3PValue* ret  = nullptr;
+  C3PValue* tail = nullptr;   // Lists might be long. Don't search for their ends.
   bool bailout = false;
 
   while (!bailout & (count > 0)) {
@@ -1059,8 +1065,10 @@ C3PValue* C3PValueDecoder::_handle_array(uint32_t* offset, uint32_t count) {
     if (nullptr != value) {
       // For now, we handle this with a sloppy grouping of the elements.
       //   This might, after all, be a heterogenously typed array.
-      if (nullptr == ret) {  ret = value;       }
-      else {                 ret->link(value);  }
+      if (nullptr == ret) {  ret = value;        }
+      else {                 tail->link(value);  }
+      tail = value;
+      while (nullptr != tail->nextValue()) {  tail = tail->nextValue();  }
       bailout = false;
     }
     count--;
@@ -1088,7 +1096,8 @@ C3PValue* C3PValueDecoder::_handle_array(uint32_t* offset, uint32_t count) {
 */
 C3PValue* C3PValueDecoder::_handle_map(uint32_t* offset, uint32_t count) {
   const uint32_t INPUT_LEN = _in->length();
-  KeyValuePair* ret = nullptr;
+  KeyValuePair* ret        = nullptr;
+  C3PValue*     tail       = nullptr;   // Lists might be long. Don't search for their ends.
   uint32_t local_offset    = *offset;
   uint32_t len_key         = 0;
   bool bailout = false;
@@ -1154,8 +1163,10 @@ C3PValue* C3PValueDecoder::_handle_map(uint32_t* offset, uint32_t count) {
                   ret = tmp_kvp;
                 }
                 else {
-                  ret->link(tmp_kvp, true);
+                  tail->link(tmp_kvp, true);
                 }
+                tail = tmp_kvp;
+                while (nullptr != tail->nextValue()) {  tail = tail->nextValue();  }
                 bailout = false;
               }
 
-- 
2.43.0


From 472eb538fee40b9fb711244fc766a67d7915326d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:44 +0000
Subject: [PATCH 068/224] fix: CBORArgListener leaked every key, and erased
 strings that weren't in a map

---
 src/C3PValue/KeyValuePair.cpp | 11 +++++------
 src/C3PValue/KeyValuePair.h   |  1 +
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/C3PValue/KeyValuePair.cpp b/src/C3PValue/KeyValuePair.cpp
index 4c8c3c6..0ebd059 100644
--- a/src/C3PValue/KeyValuePair.cpp
+++ b/src/C3PValue/KeyValuePair.cpp
@@ -422,22 +422,21 @@ void CBORArgListener::_caaa(KeyValuePair* nu) {
   if (0 < _wait_map) {
     _wait_map--;
     if (nullptr != _wait) {
-      nu->setKey(_wait);
+      nu->setKey(_wait);   // This takes a copy.
+      free(_wait);
       _wait = nullptr;
     }
   }
-  else {
-    nu->set(_wait);
-  }
 
   if (0 < _wait_array) _wait_array--;
 
-  if ((nullptr != built) && (nullptr != *built)) {
-    (*built)->link(nu);
+  if (nullptr != *built) {
+    ((nullptr != _tail) ? _tail : *built)->link(nu);
   }
   else {
     *built = nu;
   }
+  _tail = nu;
 }
 
 
diff --git a/src/C3PValue/KeyValuePair.h b/src/C3PValue/KeyValuePair.h
index 3852ea1..8d15be8 100644
--- a/src/C3PValue/KeyValuePair.h
+++ b/src/C3PValue/KeyValuePair.h
@@ -274,6 +274,7 @@ class KeyValuePair : public C3PValue {
 
     private:
       KeyValuePair** built               = nullptr;
+      KeyValuePair*  _tail               = nullptr;   // The last value added, so that the list isn't searched.
       char*          _wait               = nullptr;
       int            _wait_map           = 0;
       int            _wait_array         = 0;
-- 
2.43.0


From f9eb9bff17b50ac633d1e2cbab2fa3545dbbd92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:45 +0000
Subject: [PATCH 069/224] fix: CBORArgListener kept a pointer into the
 decoder's own buffer

---
 src/C3PValue/KeyValuePair.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/C3PValue/KeyValuePair.cpp b/src/C3PValue/KeyValuePair.cpp
index 0ebd059..7131880 100644
--- a/src/C3PValue/KeyValuePair.cpp
+++ b/src/C3PValue/KeyValuePair.cpp
@@ -480,7 +480,14 @@ void CBORArgListener::on_bytes(uint8_t* data, int size) {
     _pending_c3p_tag = TCode::NONE;
   }
   else {
-    _caaa(new KeyValuePair(data, size));
+    // The decoder's buffer won't outlive this call.
+    uint8_t* temp = (uint8_t*) malloc(size + 1);
+    if (nullptr != temp) {
+      memcpy(temp, data, size);
+      KeyValuePair* nu_kvp = new KeyValuePair(temp, size);
+      nu_kvp->reapValue(true);
+      _caaa(nu_kvp);
+    }
   }
 };
 
-- 
2.43.0


From 1012242efb4679a6acd6ed9d2eed7325f9dc5a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:47 +0000
Subject: [PATCH 070/224] fix: CBORArgListener read unaligned values, and
 leaked its vectors, identities, images, and nested KeyValuePairs

---
 src/C3PValue/KeyValuePair.cpp | 72 +++++++++++++++++------------------
 1 file changed, 36 insertions(+), 36 deletions(-)

diff --git a/src/C3PValue/KeyValuePair.cpp b/src/C3PValue/KeyValuePair.cpp
index 7131880..4803d1a 100644
--- a/src/C3PValue/KeyValuePair.cpp
+++ b/src/C3PValue/KeyValuePair.cpp
@@ -549,19 +549,42 @@ KeyValuePair* CBORArgListener::_inflate_c3p_type(uint8_t* data, int size, const
 
   switch (TC) {
     case TCode::NONE:            break;
-    case TCode::INT8:            ret = new KeyValuePair(*((int8_t*)data));    break;
-    case TCode::INT16:           ret = new KeyValuePair(*((int16_t*)data));   break;
-    case TCode::INT32:           ret = new KeyValuePair(*((int32_t*)data));   break;
-    case TCode::UINT8:           ret = new KeyValuePair(*((uint8_t*)data));   break;
-    case TCode::UINT16:          ret = new KeyValuePair(*((uint16_t*)data));  break;
-    case TCode::UINT32:          ret = new KeyValuePair(*((uint32_t*)data));  break;
-    case TCode::INT64:           ret = new KeyValuePair(*((int64_t*)data));   break;
+    // The data might not be aligned, and is best copied according to the type.
+    // A set from any fixed-length type's own TCode copies precisely its length.
+    case TCode::INT8:
+    case TCode::INT16:
+    case TCode::INT32:
+    case TCode::INT64:
+    case TCode::UINT8:
+    case TCode::UINT16:
+    case TCode::UINT32:
+    case TCode::UINT64:
+    case TCode::BOOLEAN:
+    case TCode::FLOAT:
+    case TCode::DOUBLE:
+    case TCode::VECT_3_FLOAT:
+    case TCode::VECT_3_DOUBLE:
+    case TCode::VECT_3_INT8:
+    case TCode::VECT_3_UINT8:
+    case TCode::VECT_3_INT16:
+    case TCode::VECT_3_UINT16:
+    case TCode::VECT_3_INT32:
+    case TCode::VECT_3_UINT32:
+      {
+        uint64_t aligned[3] = {0, };
+        memcpy(aligned, data, size);
+        if (TCode::BOOLEAN == TC) {   // Only zero and one are valid representations.
+          *((uint8_t*) aligned) = (0 != *data);
+        }
+        ret = new KeyValuePair(TC);
+        if ((nullptr != ret) && (0 != ret->set_from(TC, aligned))) {
+          delete ret;
+          ret = nullptr;
+        }
+      }
+      break;
     case TCode::INT128:          break;
-    case TCode::UINT64:          ret = new KeyValuePair(*((uint64_t*)data));  break;
     case TCode::UINT128:         break;
-    case TCode::BOOLEAN:         ret = new KeyValuePair((0 != *data));  break;
-    case TCode::FLOAT:           ret = new KeyValuePair(*((float*)data));   break;
-    case TCode::DOUBLE:          ret = new KeyValuePair(*((double*)data));  break;
     //case TCode::VECT_2_FLOAT:
     //case TCode::VECT_2_DOUBLE:
     //case TCode::VECT_2_INT8:
@@ -570,30 +593,6 @@ KeyValuePair* CBORArgListener::_inflate_c3p_type(uint8_t* data, int size, const
     //case TCode::VECT_2_UINT16:
     //case TCode::VECT_2_INT32:
     //case TCode::VECT_2_UINT32:
-    case TCode::VECT_3_FLOAT:
-      ret = new KeyValuePair(new Vector3<float>(*((float*)(data+0)), *((float*)(data+4)), *((float*)(data+8))));
-      break;
-    case TCode::VECT_3_DOUBLE:
-      ret = new KeyValuePair(new Vector3<double>(*((double*)(data+0)), *((double*)(data+8)), *((double*)(data+16))));
-      break;
-    case TCode::VECT_3_INT8:
-      ret = new KeyValuePair(new Vector3<int8_t>(*((int8_t*)(data+0)), *((int8_t*)(data+1)), *((int8_t*)(data+2))));
-      break;
-    case TCode::VECT_3_UINT8:
-      ret = new KeyValuePair(new Vector3<uint8_t>(*((uint8_t*)(data+0)), *((uint8_t*)(data+1)), *((uint8_t*)(data+2))));
-      break;
-    case TCode::VECT_3_INT16:
-      ret = new KeyValuePair(new Vector3<int16_t>(*((int16_t*)(data+0)), *((int16_t*)(data+2)), *((int16_t*)(data+4))));
-      break;
-    case TCode::VECT_3_UINT16:
-      ret = new KeyValuePair(new Vector3<uint16_t>(*((uint16_t*)(data+0)), *((uint16_t*)(data+2)), *((uint16_t*)(data+4))));
-      break;
-    case TCode::VECT_3_INT32:
-      ret = new KeyValuePair(new Vector3<int32_t>(*((int32_t*)(data+0)), *((int32_t*)(data+4)), *((int32_t*)(data+8))));
-      break;
-    case TCode::VECT_3_UINT32:
-      ret = new KeyValuePair(new Vector3<uint32_t>(*((uint32_t*)(data+0)), *((uint32_t*)(data+4)), *((uint32_t*)(data+8))));
-      break;
     //case TCode::VECT_4_FLOAT:
     //case TCode::URL:
     //case TCode::JSON:
@@ -652,8 +651,9 @@ KeyValuePair* CBORArgListener::_inflate_c3p_type(uint8_t* data, int size, const
 
   // If we can't fit the value into the KVP class, it means we new'd it.
   if (nullptr != ret) {
+    C3PType* t_helper = getTypeHelper(TC);
     ret->reapContainer(true);
-    ret->reapValue(!typeIsPointerPunned(TC));
+    ret->reapValue((nullptr != t_helper) && t_helper->is_ptr());
   }
   return ret;
 }
-- 
2.43.0


From d104902550620e851247e32ad67cbeff00ae9dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:56 +0000
Subject: [PATCH 071/224] fix: CBORArgListener recursed as deeply as its input
 asked

---
 src/C3PValue/KeyValuePair.cpp | 11 +++++++++--
 src/C3PValue/KeyValuePair.h   |  3 ++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/C3PValue/KeyValuePair.cpp b/src/C3PValue/KeyValuePair.cpp
index 4803d1a..d4dfdeb 100644
--- a/src/C3PValue/KeyValuePair.cpp
+++ b/src/C3PValue/KeyValuePair.cpp
@@ -405,7 +405,7 @@ int8_t KeyValuePair::_encode_to_printable(StringBuilder* out, const unsigned int
 *   its own parallel implementation that was derived from it.
 *******************************************************************************/
 
-CBORArgListener::CBORArgListener(KeyValuePair** target) {    built = target;    }
+CBORArgListener::CBORArgListener(KeyValuePair** target, const uint8_t DEPTH) : _depth(DEPTH) {    built = target;    }
 
 CBORArgListener::~CBORArgListener() {
   // JIC...
@@ -609,7 +609,14 @@ KeyValuePair* CBORArgListener::_inflate_c3p_type(uint8_t* data, int size, const
     // Inflation of KVPs.
     case TCode::KVP:
       {
-        KeyValuePair* tmp = KeyValuePair::unserialize(data, size, TCode::CBOR);
+        // Don't allow the input to decide how much of the stack we use.
+        KeyValuePair* tmp = nullptr;
+        if (_depth < CONFIG_C3P_CBOR_MAX_NESTING) {
+          CBORArgListener listener(&tmp, _depth + 1);
+          cbor::input_static input(data, size);
+          cbor::decoder decoder(input, listener);
+          decoder.run();
+        }
         if (tmp) {
           ret = new KeyValuePair(tmp);
         }
diff --git a/src/C3PValue/KeyValuePair.h b/src/C3PValue/KeyValuePair.h
index 8d15be8..2a5c65b 100644
--- a/src/C3PValue/KeyValuePair.h
+++ b/src/C3PValue/KeyValuePair.h
@@ -243,7 +243,7 @@ class KeyValuePair : public C3PValue {
 #if defined(CONFIG_C3P_CBOR)
   class CBORArgListener : public cbor::listener {
     public:
-      CBORArgListener(KeyValuePair**);
+      CBORArgListener(KeyValuePair**, const uint8_t DEPTH = 0);
       ~CBORArgListener();
 
       void on_integer(int8_t);
@@ -279,6 +279,7 @@ class KeyValuePair : public C3PValue {
       int            _wait_map           = 0;
       int            _wait_array         = 0;
       TCode          _pending_c3p_tag = TCode::NONE;
+      const uint8_t  _depth;                          // How many KVPs enclose this one?
 
       /* Please forgive the stupid name. */
       void _caaa(KeyValuePair*);
-- 
2.43.0


From 5f2faea2433e38d13f435d03b8fd9fec583b6c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:22 +0000
Subject: [PATCH 072/224] fix: buffers decoded from CBOR maps were leaked

---
 src/C3PValue/C3PValue.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 462845a..b9bfb3c 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -1146,6 +1146,7 @@ C3PValue* C3PValueDecoder::_handle_map(uint32_t* offset, uint32_t count) {
                       // We might have just taken something with its own
                       //   life-cycle from the parser. We don't want it to be
                       //   free'd when its container is reaped.
+                      tmp_kvp->reapValue(value->reapValue());
                       value->reapValue(false);
                       // There may have been other values attached. Take them as well.
                       C3PValue* tagalong = value->nextValue();
-- 
2.43.0


From 879bd5036dd69b647bb008241085553922226c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:43 +0000
Subject: [PATCH 073/224] fix: CBORArgListener never received large negative
 integers, and mispaired the keys after them

---
 src/C3PValue/KeyValuePair.cpp | 23 +++++++++++++++++++----
 src/C3PValue/KeyValuePair.h   |  7 +++----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/C3PValue/KeyValuePair.cpp b/src/C3PValue/KeyValuePair.cpp
index d4dfdeb..ffb35fc 100644
--- a/src/C3PValue/KeyValuePair.cpp
+++ b/src/C3PValue/KeyValuePair.cpp
@@ -533,10 +533,25 @@ void CBORArgListener::on_map(int size) {
   }
 };
 
-void CBORArgListener::on_extra_integer(unsigned long long value, int sign) {}
-void CBORArgListener::on_extra_integer(long long value, int sign) {}
-void CBORArgListener::on_extra_tag(unsigned long long tag) {}
-void CBORArgListener::on_extra_special(unsigned long long tag) {}
+
+/*
+* Integers that didn't fit the type that is as wide as their encoding. If we
+*   ignored them, the next item in the map would be taken to be their key's value.
+*/
+void CBORArgListener::on_extra_integer(uint64_t value, int sign) {
+  if (0 <= sign) {
+    on_integer(value);
+  }
+  else if (value <= (uint64_t) INT64_MAX) {
+    on_integer((int64_t) (-1 - (int64_t) value));
+  }
+  else {
+    on_error("NINT doesn't fit an INT64");
+  }
+}
+
+void CBORArgListener::on_extra_tag(uint64_t tag) {}
+void CBORArgListener::on_extra_special(uint64_t tag) {}
 
 
 KeyValuePair* CBORArgListener::_inflate_c3p_type(uint8_t* data, int size, const TCode TC) {
diff --git a/src/C3PValue/KeyValuePair.h b/src/C3PValue/KeyValuePair.h
index 2a5c65b..55efaa1 100644
--- a/src/C3PValue/KeyValuePair.h
+++ b/src/C3PValue/KeyValuePair.h
@@ -267,10 +267,9 @@ class KeyValuePair : public C3PValue {
       void on_undefined();
       void on_error(const char* error);
 
-      void on_extra_integer(unsigned long long value, int sign);
-      void on_extra_integer(long long value, int sign);
-      void on_extra_tag(unsigned long long tag);
-      void on_extra_special(unsigned long long tag);
+      void on_extra_integer(uint64_t value, int sign);
+      void on_extra_tag(uint64_t tag);
+      void on_extra_special(uint64_t tag);
 
     private:
       KeyValuePair** built               = nullptr;
-- 
2.43.0


From 3babbdcf5a3413e4d03862cc3d5fd67935081190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:35 +0000
Subject: [PATCH 074/224] fix: values made from an Identity or Image didn't
 take it, and crashed when printed or serialized

---
 src/C3PValue/C3PType.cpp | 64 ++++++++++++++++++++++++++++++----------
 1 file changed, 48 insertions(+), 16 deletions(-)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index bed748a..87fcc39 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -2684,26 +2684,43 @@ template <> int8_t      C3PTypeConstraint<Identity*>::destruct(void* obj) {
   int8_t ret = -1;  if (_pointer_safety_check(obj)) {  ret++;  delete ((Identity*) obj);  }  return ret;
 }
 
-template <> uint32_t    C3PTypeConstraint<Identity*>::length(void* obj) {  return ((Identity*) obj)->length();  }
-template <> void        C3PTypeConstraint<Identity*>::to_string(void* obj, StringBuilder* out) {  ((Identity*) obj)->toString(out);  }
+template <> uint32_t    C3PTypeConstraint<Identity*>::length(void* obj) {  return ((nullptr != obj) ? ((Identity*) obj)->length() : 0);  }
+template <> void        C3PTypeConstraint<Identity*>::to_string(void* obj, StringBuilder* out) {
+  if (nullptr != obj) {  ((Identity*) obj)->toString(out);  }
+}
 
 template <> int8_t      C3PTypeConstraint<Identity*>::set_from(void* dest, const TCode SRC_TYPE, void* src) {
-  switch (SRC_TYPE) {
-    default:  break;
+  int8_t ret = -1;
+  if (nullptr != dest) {
+    switch (SRC_TYPE) {
+      case TCode::IDENTITY:
+        *((Identity**) dest) = (Identity*) src;
+        ret = 0;
+        break;
+      default:  break;
+    }
   }
-  return -1;
+  return ret;
 }
 
 template <> int8_t      C3PTypeConstraint<Identity*>::get_as(void* src, const TCode DEST_TYPE, void* dest) {
-  switch (DEST_TYPE) {
-    default:  break;
+  int8_t ret = -1;
+  if (nullptr != dest) {
+    switch (DEST_TYPE) {
+      case TCode::IDENTITY:
+        *((Identity**) dest) = (Identity*) src;
+        ret = 0;
+        break;
+      default:  break;
+    }
   }
-  return -1;
+  return ret;
 }
 
 template <> int         C3PTypeConstraint<Identity*>::serialize(void* obj, StringBuilder* out, const TCode FORMAT) {
   int8_t ret = -1;
   Identity* ident = ((Identity*) obj);
+  if (nullptr == ident) {  return ret;  }
   switch (FORMAT) {
     case TCode::BINARY:
       break;
@@ -2865,29 +2882,44 @@ template <> int8_t      C3PTypeConstraint<Image*>::destruct(void* obj) {
   int8_t ret = -1;  if (_pointer_safety_check(obj)) {  ret++;  delete ((Image*) obj);  }  return ret;
 }
 
-template <> uint32_t    C3PTypeConstraint<Image*>::length(void* obj) {  return ((Image*) obj)->bytesUsed();  }
+template <> uint32_t    C3PTypeConstraint<Image*>::length(void* obj) {  return ((nullptr != obj) ? ((Image*) obj)->bytesUsed() : 0);  }
 template <> void        C3PTypeConstraint<Image*>::to_string(void* obj, StringBuilder* out) {
   Image* img = (Image*) obj;
-  img->printImageInfo(out, false);
+  if (nullptr != img) {  img->printImageInfo(out, false);  }
 }
 
 template <> int8_t      C3PTypeConstraint<Image*>::set_from(void* dest, const TCode SRC_TYPE, void* src) {
-  switch (SRC_TYPE) {
-    default:  break;
+  int8_t ret = -1;
+  if (nullptr != dest) {
+    switch (SRC_TYPE) {
+      case TCode::IMAGE:
+        *((Image**) dest) = (Image*) src;
+        ret = 0;
+        break;
+      default:  break;
+    }
   }
-  return -1;
+  return ret;
 }
 
 template <> int8_t      C3PTypeConstraint<Image*>::get_as(void* src, const TCode DEST_TYPE, void* dest) {
-  switch (DEST_TYPE) {
-    default:  break;
+  int8_t ret = -1;
+  if (nullptr != dest) {
+    switch (DEST_TYPE) {
+      case TCode::IMAGE:
+        *((Image**) dest) = (Image*) src;
+        ret = 0;
+        break;
+      default:  break;
+    }
   }
-  return -1;
+  return ret;
 }
 
 template <> int         C3PTypeConstraint<Image*>::serialize(void* obj, StringBuilder* out, const TCode FORMAT) {
   int8_t ret = -1;
   Image* img = ((Image*) obj);
+  if (nullptr == img) {  return ret;  }
 
   switch (FORMAT) {
     case TCode::BINARY:
-- 
2.43.0


From f04aea4f935e6f26c963b69aba39ae77846b63e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:14 +0000
Subject: [PATCH 075/224] fix: buffers decoded from nested CBOR tags were
 leaked

---
 src/C3PValue/C3PValue.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index b9bfb3c..485d30f 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -1259,6 +1259,7 @@ C3PValue* C3PValueDecoder::_handle_tag(uint32_t* offset, C3PType* t_helper) {
             // As with map values, we might have just taken something with its
             //   own life-cycle. In that case, it is no longer the parser's.
             if (t_helper->is_ptr()) {
+              ret->reapValue(inner_tagged_val->reapValue());
               inner_tagged_val->reapValue(false);
             }
           }
-- 
2.43.0


From d1fe828c153348322f700df97de50497bb93b081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:31 +0000
Subject: [PATCH 076/224] fix: Base64 codecs promised more space than their
 results had, and lost the excess

---
 src/Pipes/BufferAccepter/Base64/C3P_B64.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp b/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp
index 9decb13..6e455e8 100644
--- a/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp
+++ b/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp
@@ -40,9 +40,12 @@ I have reproduced his original commentary, where it still applies. And may have
 
 #include "C3P_B64.h"
 
-// TODO: These are wrong. Calulate the real values once it works.
-#define BASE64_DECODE_SCALING_FACTOR 0.8
-#define BASE64_ENCODE_SCALING_FACTOR 1.2
+// Every three bytes of binary data occupy four characters of text.
+static int32_t b64_encodable_length(const int32_t SPACE) {   return ((SPACE / 4) * 3);   }
+static int32_t b64_decodable_length(const int32_t SPACE) {
+  // Bounded, so that the result can't overflow.
+  return (strict_min((SPACE / 3), (int32_t) 0x1FFFFFFF) * 4);
+}
 
 
 /*******************************************************************************
@@ -133,7 +136,7 @@ int8_t Base64Encoder::pushBuffer(StringBuilder* buf) {
     if ((TAKE_LEN > 0) && (TAKE_LEN <= PUSH_LEN)) {
       // If the pushed length is more than 0, and at least the size we need, make
       //   sure we'll have space for the result.
-      if (TAKE_LEN < AVAILABLE_LEN) {
+      if (TAKE_LEN <= AVAILABLE_LEN) {
         // Take the bytes, and transform them.
         StringBuilder tmp_src;
         StringBuilder tmp_dest;
@@ -155,7 +158,7 @@ int8_t Base64Encoder::pushBuffer(StringBuilder* buf) {
 int32_t Base64Encoder::bufferAvailable() {
   int32_t ret = 0;
   if (nullptr != _efferant) {
-    ret = _efferant->bufferAvailable() * BASE64_ENCODE_SCALING_FACTOR;
+    ret = b64_encodable_length(_efferant->bufferAvailable());
   }
   return ret;
 }
@@ -350,7 +353,7 @@ int8_t Base64Decoder::pushBuffer(StringBuilder* buf) {
     if ((TAKE_LEN > 0) && (TAKE_LEN <= PUSH_LEN)) {
       // If the pushed length is more than 0, and at least the size we need, make
       //   sure we'll have space for the result.
-      if (TAKE_LEN < AVAILABLE_LEN) {
+      if (TAKE_LEN <= AVAILABLE_LEN) {
         // Take the bytes, and transform them.
         StringBuilder tmp_src;
         StringBuilder tmp_dest;
@@ -372,7 +375,7 @@ int8_t Base64Decoder::pushBuffer(StringBuilder* buf) {
 int32_t Base64Decoder::bufferAvailable() {
   int32_t ret = 0;
   if (nullptr != _efferant) {
-    ret = _efferant->bufferAvailable() * BASE64_DECODE_SCALING_FACTOR;
+    ret = b64_decodable_length(_efferant->bufferAvailable());
   }
   return ret;
 }
-- 
2.43.0


From b93ec5136f7aa770318904442c6ea65659ac9296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:32 +0000
Subject: [PATCH 077/224] fix: Base64 codecs discarded data that their efferant
 rejected

---
 src/Pipes/BufferAccepter/Base64/C3P_B64.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp b/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp
index 6e455e8..3c33a3c 100644
--- a/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp
+++ b/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp
@@ -141,8 +141,8 @@ int8_t Base64Encoder::pushBuffer(StringBuilder* buf) {
         StringBuilder tmp_src;
         StringBuilder tmp_dest;
         tmp_src.concatHandoffLimit(buf, TAKE_LEN);
-        if (0 == _encode(&tmp_src, &tmp_dest)) {
-          _efferant->pushBuffer(&tmp_dest);
+        // If the efferant rejects the result outright, so do we.
+        if ((0 == _encode(&tmp_src, &tmp_dest)) && (-1 != _efferant->pushBuffer(&tmp_dest))) {
           ret = (PUSH_LEN == TAKE_LEN) ? 1 : 0;
         }
         else {
@@ -358,8 +358,8 @@ int8_t Base64Decoder::pushBuffer(StringBuilder* buf) {
         StringBuilder tmp_src;
         StringBuilder tmp_dest;
         tmp_src.concatHandoffLimit(buf, TAKE_LEN);
-        if (0 == _decode(&tmp_src, &tmp_dest)) {
-          _efferant->pushBuffer(&tmp_dest);
+        // If the efferant rejects the result outright, so do we.
+        if ((0 == _decode(&tmp_src, &tmp_dest)) && (-1 != _efferant->pushBuffer(&tmp_dest))) {
           ret = (PUSH_LEN == TAKE_LEN) ? 1 : 0;
         }
         else {
-- 
2.43.0


From 6bf12c8e7e590fe28c9656869acb7616f0b571b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:33 +0000
Subject: [PATCH 078/224] fix: BufferAccepterFork lost and repeated data once
 its sides took different lengths

---
 src/Pipes/BufferAccepter/BufferAccepter.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/Pipes/BufferAccepter/BufferAccepter.cpp b/src/Pipes/BufferAccepter/BufferAccepter.cpp
index deff6d9..49fd668 100644
--- a/src/Pipes/BufferAccepter/BufferAccepter.cpp
+++ b/src/Pipes/BufferAccepter/BufferAccepter.cpp
@@ -59,15 +59,16 @@ int32_t StringBuilderSink::bufferAvailable() {
 
 int8_t BufferAccepterFork::pushBuffer(StringBuilder* buf) {
   int8_t ret = -1;
-  const int32_t BYTES_OFFERED = buf->length();
+  const int32_t BYTES_OFFERED = ((nullptr != buf) ? buf->length() : 0);
   const int32_t BYTES_TO_TAKE = strict_min(bufferAvailable(), BYTES_OFFERED);
   if (0 < BYTES_TO_TAKE) {
     // We could be risky at this point, but we do a pedantic deep-copy instead.
     // Note the drift distance for each side of the fork.
     const int32_t LEFT_OFFER_LEN  = (BYTES_TO_TAKE - _left_drift);
     const int32_t RIGHT_OFFER_LEN = (BYTES_TO_TAKE - _right_drift);
-    int32_t left_range_covered  = BYTES_TO_TAKE;
-    int32_t right_range_covered = BYTES_TO_TAKE;
+    // The side that is attached covers at least what it took on prior calls.
+    int32_t left_range_covered  = ((nullptr != _left_hand)  ? strict_max(BYTES_TO_TAKE, _left_drift)  : BYTES_TO_TAKE);
+    int32_t right_range_covered = ((nullptr != _right_hand) ? strict_max(BYTES_TO_TAKE, _right_drift) : BYTES_TO_TAKE);
     if ((nullptr != _left_hand) & (LEFT_OFFER_LEN > 0)) {
       StringBuilder deep_copy(buf->string() + _left_drift, LEFT_OFFER_LEN);
       _left_hand->pushBuffer(&deep_copy);
@@ -79,11 +80,13 @@ int8_t BufferAccepterFork::pushBuffer(StringBuilder* buf) {
       right_range_covered -= deep_copy.length();
     }
     const int32_t TOTAL_TAKEN = strict_min(left_range_covered, right_range_covered);
-    buf->cull(TOTAL_TAKEN);
-    _left_drift  = (TOTAL_TAKEN - left_range_covered);
-    _right_drift = (TOTAL_TAKEN - right_range_covered);
-
-    ret = (BYTES_OFFERED == TOTAL_TAKEN) ? 1 : 0;
+    if (0 < TOTAL_TAKEN) {
+      buf->cull(TOTAL_TAKEN);
+      ret = (BYTES_OFFERED == TOTAL_TAKEN) ? 1 : 0;
+    }
+    // If one side took more than the other, it must not see those bytes again.
+    _left_drift  = ((nullptr != _left_hand)  ? (left_range_covered - TOTAL_TAKEN)  : 0);
+    _right_drift = ((nullptr != _right_hand) ? (right_range_covered - TOTAL_TAKEN) : 0);
   }
   return ret;
 }
-- 
2.43.0


From a70938dade77b39e1fba56f9f8726df7dc029181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:02 +0000
Subject: [PATCH 079/224] fix: C3PTypePipeSink reported a partial claim when it
 took nothing, and counted no bytes

---
 src/Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.cpp b/src/Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.cpp
index ffcefcd..5e9e934 100644
--- a/src/Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.cpp
+++ b/src/Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.cpp
@@ -128,7 +128,7 @@ C3PTypePipeSink::~C3PTypePipeSink() {
 int8_t C3PTypePipeSink::pushBuffer(StringBuilder* incoming) {
   int8_t ret = -1;
   C3PValue* val_to_emit = nullptr;
-  if (nullptr != _value_cb) {
+  if ((nullptr != _value_cb) & (nullptr != incoming)) {
     const uint32_t INCOMING_LEN = incoming->length();
     const uint32_t SAFE_LEN     = strict_min(_MAX_BUFFER, INCOMING_LEN);
     do {
@@ -142,9 +142,13 @@ int8_t C3PTypePipeSink::pushBuffer(StringBuilder* incoming) {
         incoming->prependHandoff(&tmp_stbldr);
       }
     } while (nullptr != val_to_emit);
-    return (incoming->isEmpty(true) ? 1: 0);
+    const uint32_t TAKEN_LEN = (INCOMING_LEN - incoming->length());
+    if (0 < TAKEN_LEN) {
+      _byte_count += TAKEN_LEN;
+      ret = (incoming->isEmpty(true) ? 1: 0);
+    }
   }
-  return -1;
+  return ret;
 }
 
 
-- 
2.43.0


From 2feed84a621cccf3ac8ee192fe88815266b81656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:01 +0000
Subject: [PATCH 080/224] fix: MultiStringSearch reported matches beyond the
 end of the search

---
 src/MultiStringSearch.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/MultiStringSearch.cpp b/src/MultiStringSearch.cpp
index e5539e3..77c3215 100644
--- a/src/MultiStringSearch.cpp
+++ b/src/MultiStringSearch.cpp
@@ -177,7 +177,7 @@ int MultiStringSearch::continueSearch() {
   int ret = 0;
   _last_match = nullptr;
   if (searchRunning()) {
-    const int INPUT_LEN = _src->length();
+    const int INPUT_LEN = strict_min((int32_t) _src->length(), (int32_t) (_starting_offset + _search_length));
     // If this passes, we are assured that at least needle is enabled.
     // Update our search bounds.
     _update_next_starting_offsets(_next_starting_offset);
@@ -193,6 +193,9 @@ int MultiStringSearch::continueSearch() {
         const int REMAINING_SEARCH_LEN = (INPUT_LEN - _sdef_pool[i].offset_start);
         const int NEEDLE_COMPARE_LEN   = strict_min((int32_t) REMAINING_SEARCH_LEN, (int32_t) _sdef_pool[i].SEARCH_STR_LEN);
         locate_results[i] = _src->locate(_sdef_pool[i].SEARCH_STR, NEEDLE_COMPARE_LEN, _sdef_pool[i].offset_start);
+        if (locate_results[i] > (INPUT_LEN - NEEDLE_COMPARE_LEN)) {
+          locate_results[i] = -1;   // That match is not within the bounds of the search.
+        }
         if (-1 < locate_results[i]) {
           // There was a match on a needle. Was it complete?
           const bool WAS_COMPLETE_MATCH = (NEEDLE_COMPARE_LEN == _sdef_pool[i].SEARCH_STR_LEN);
-- 
2.43.0


From e33ae72551130da6b631e4bc884bd7c0b6fb94e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:02 +0000
Subject: [PATCH 081/224] fix: MultiStringSearch skipped to the last of its
 matches, rather than reporting the first

---
 src/MultiStringSearch.cpp | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/MultiStringSearch.cpp b/src/MultiStringSearch.cpp
index 77c3215..ffa8043 100644
--- a/src/MultiStringSearch.cpp
+++ b/src/MultiStringSearch.cpp
@@ -184,8 +184,8 @@ int MultiStringSearch::continueSearch() {
 
     int locate_results[_defs_added] = {0, };
     int  matches_this_run = 0;
-    int  longest_match    = 0;
-    bool longest_match_is_partial = false;
+    int  first_match      = -1;
+    bool first_match_is_partial = false;
     for (uint8_t i = 0; i < _defs_added; i++) {
       //printf("continue iteration (%d) \n", i);
       // For any searches still running, find the next occurance.
@@ -203,17 +203,16 @@ int MultiStringSearch::continueSearch() {
             // If a needle had a complete match, we mark its def to reflect so.
             _sdef_pool[i].offset_start = locate_results[i];
             _sdef_pool[i].offset_end   = (locate_results[i] + _sdef_pool[i].SEARCH_STR_LEN);
-            _needles_found++;
             //printf("(%d) Found complete match %d\n", i, locate_results[i]);
           }
 
-          if (longest_match < locate_results[i]) {            // If this was at least the longest
-            longest_match_is_partial = !WAS_COMPLETE_MATCH;   //   match so far, we set the
-          }                                                   //   feasibility of more searching.
-          else if (longest_match == locate_results[i]) {      // If it is tied for longest, we
-            longest_match_is_partial |= !WAS_COMPLETE_MATCH;  //   may be done with the search.
+          if ((0 > first_match) | (locate_results[i] < first_match)) {  // If this is the first match
+            first_match_is_partial = !WAS_COMPLETE_MATCH;     //   in the subject so far, we set
+            first_match = locate_results[i];                  //   the feasibility of more searching.
+          }
+          else if (first_match == locate_results[i]) {        // If it is tied for first, we may be
+            first_match_is_partial |= !WAS_COMPLETE_MATCH;    //   done with the search.
           }
-          longest_match = strict_max((int32_t) longest_match, (int32_t) locate_results[i]);
           matches_this_run++;
         }
       }
@@ -223,14 +222,16 @@ int MultiStringSearch::continueSearch() {
     }
 
     // Did we have matches?
-    //printf("matches_this_run = %d \t longest_match_is_partial = %c\n", matches_this_run, (longest_match_is_partial ? '1':'0'));
-    if ((!longest_match_is_partial) & (0 < matches_this_run)) {
+    //printf("matches_this_run = %d \t longest_match_is_partial = %c\n", matches_this_run, (first_match_is_partial ? '1':'0'));
+    if ((!first_match_is_partial) & (0 < matches_this_run)) {
+      _needles_found++;
       // With all the results collected from each locate() on each possible
       //   substring, did anything come back positive for a match? Return the
-      //   longest match that is also complete.
+      //   longest of those complete matches that occur first in the subject.
       for (uint8_t i = 0; i < _defs_added; i++) {
         if (-1 != locate_results[i]) {
-          if (locate_results[i] == longest_match) {
+          const bool LONGER = ((nullptr == _last_match) || (_last_match->SEARCH_STR_LEN < _sdef_pool[i].SEARCH_STR_LEN));
+          if ((locate_results[i] == first_match) & LONGER) {
             _sdef_pool[i].offset_end = (locate_results[i] + _sdef_pool[i].SEARCH_STR_LEN);
             _last_match = &_sdef_pool[i];
             _next_starting_offset = _sdef_pool[i].offset_end;
@@ -241,7 +242,7 @@ int MultiStringSearch::continueSearch() {
       }
     }
     else {
-      // If the longest match was also a partial match, or there were no matches
+      // If the first match was also a partial match, or there were no matches
       //   on this run, the search is concluded because we don't want to
       //   unwittingly replace longer strings that are cut off with (possibly
       //   overlapping) substrings that are complete matches.
-- 
2.43.0


From d42e87a95a8fb977e76af6b5e496f99f21c133b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:57 +0000
Subject: [PATCH 082/224] fix: TimeSeries::indexIsWhichSample() gave sample
 indices for memory beyond its window

---
 src/TimeSeries/TimeSeries.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimeSeries/TimeSeries.cpp b/src/TimeSeries/TimeSeries.cpp
index 1245479..c05a8bd 100644
--- a/src/TimeSeries/TimeSeries.cpp
+++ b/src/TimeSeries/TimeSeries.cpp
@@ -65,7 +65,7 @@ TimeSeriesBase::~TimeSeriesBase() {
 */
 uint32_t TimeSeriesBase::indexIsWhichSample(const uint32_t MEM_IDX) {
   uint32_t ret = 0;
-  if (initialized() & (_samples_total > MEM_IDX)) {
+  if ((windowSize() > MEM_IDX) & (_samples_total > MEM_IDX)) {
     const uint32_t BACKSET_SAMPLE_IDX = (((0 == _sample_idx) ? _window_size : _sample_idx) - 1);
     const uint32_t IDX_DELTA = ((BACKSET_SAMPLE_IDX >= MEM_IDX) ? BACKSET_SAMPLE_IDX : (_window_size + BACKSET_SAMPLE_IDX)) - MEM_IDX;
     ret = ((_samples_total - IDX_DELTA) - 1);
-- 
2.43.0


From 1e7b69a9af46147f2414a1f6779492609a8f8fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:07 +0000
Subject: [PATCH 083/224] fix: TimeSeries::copyValueRange() missed the
 most-recent sample in relative mode

---
 src/TimeSeries/TimeSeries.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimeSeries/TimeSeries.h b/src/TimeSeries/TimeSeries.h
index 350956a..4f216b0 100644
--- a/src/TimeSeries/TimeSeries.h
+++ b/src/TimeSeries/TimeSeries.h
@@ -495,7 +495,7 @@ template <class T> int8_t TimeSeries<T>::copyValueRange(T* buf, const uint32_t C
     if (COUNT > 0) {
       ret--;
       if (_samples_total >= (COUNT + OFFSET)) {  // Do so many samples exist?
-        const uint32_t PRE_MOD_IDX = (ABS_IDX ? OFFSET : ((windowSize() + OFFSET + _sample_idx) - (COUNT+1)));
+        const uint32_t PRE_MOD_IDX = (ABS_IDX ? OFFSET : ((windowSize() + OFFSET + _sample_idx) - COUNT));
         markClean();  // Do this here (specifically) to minimize concurrency grief.
         // TODO: Inefficient for the sake of expediency. Should be a split copy
         //   and a single modulus operation.
-- 
2.43.0


From 593802780a5c4a4d16c828c482ae7f0cd051e286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:16 +0000
Subject: [PATCH 084/224] fix: the median of a TimeSeries or SensorFilter
 overflowed its type for large values

---
 src/TimeSeries/SensorFilter.h |  2 +-
 src/TimeSeries/TimeSeries.h   | 13 ++++++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/TimeSeries/SensorFilter.h b/src/TimeSeries/SensorFilter.h
index 2b0d1c2..2e32673 100644
--- a/src/TimeSeries/SensorFilter.h
+++ b/src/TimeSeries/SensorFilter.h
@@ -558,7 +558,7 @@ template <class T> T SensorFilter<T>::_calculate_median() {
     // ...otherwise, we take the mean to the two middle values.
     uint32_t lower = (_window_size-1) >> 1;
     uint32_t upper = lower + 1;
-    ret = (sorted[upper] + sorted[lower]) / 2;
+    ret = timeseries_midpoint(sorted[lower], sorted[upper]);
   }
   return ret;
 }
diff --git a/src/TimeSeries/TimeSeries.h b/src/TimeSeries/TimeSeries.h
index 4f216b0..6384eab 100644
--- a/src/TimeSeries/TimeSeries.h
+++ b/src/TimeSeries/TimeSeries.h
@@ -273,6 +273,17 @@ template <class T> class TimeSeries3 : public TimeSeriesBase {
 
 
 
+/**
+* Returns the mean of two ordered values, rounded toward zero if T is integral.
+* Won't overflow, even if the sum of the arguments would.
+*/
+template <class T> T timeseries_midpoint(const T LOWER, const T UPPER) {
+  if (LOWER == UPPER) {                        return LOWER;                            }
+  if ((LOWER < T(0)) != (UPPER < T(0))) {      return ((LOWER + UPPER) / 2);            }
+  return ((UPPER < T(0)) ? (UPPER + ((LOWER - UPPER) / 2)) : (LOWER + ((UPPER - LOWER) / 2)));
+}
+
+
 /*******************************************************************************
 * Single-value variant
 *******************************************************************************/
@@ -639,7 +650,7 @@ template <class T> int8_t TimeSeries<T>::_calculate_median() {
       // ...otherwise, we take the mean to the two middle values.
       uint32_t lower = (_window_size-1) >> 1;
       uint32_t upper = lower + 1;
-      _median = (sorted[upper] + sorted[lower]) / 2;
+      _median = timeseries_midpoint(sorted[lower], sorted[upper]);
     }
     _set_flags(true, TIMESERIES_FLAG_VALID_MEDIAN);
   }
-- 
2.43.0


From 80b287edf6b34f56c209b639f51b9d66d8f1bcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:23 +0000
Subject: [PATCH 085/224] fix: TimeSeries overran its memory if its size
 overflowed, and kept a stale depth after a failed allocation

---
 src/TimeSeries/TimeSeries.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/TimeSeries/TimeSeries.h b/src/TimeSeries/TimeSeries.h
index 6384eab..42768cd 100644
--- a/src/TimeSeries/TimeSeries.h
+++ b/src/TimeSeries/TimeSeries.h
@@ -364,8 +364,11 @@ template <class T> int8_t TimeSeries<T>::_reallocate_sample_window(uint32_t win)
         free(samples);
         samples = nullptr;
       }
+      _window_size = 0;
       if (win > 0) {
-        samples = (T*) malloc(win * sizeof(T));
+        if (win <= (SIZE_MAX / sizeof(T))) {
+          samples = (T*) malloc(win * sizeof(T));
+        }
         if (nullptr != samples) {
           _window_size = win;
           ret = _zero_samples();
@@ -373,7 +376,6 @@ template <class T> int8_t TimeSeries<T>::_reallocate_sample_window(uint32_t win)
       }
       else {       // Program asked for no sample depth. Return success, having
         ret = 0;   //   basically de-initialized the class.
-        _window_size = 0;
       }
     }
     else {         // We can't reallocate if we were constructed with
-- 
2.43.0


From 83135fdef0c189fcb4b0c48144dde5e47aa10d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:01 +0000
Subject: [PATCH 086/224] fix: a C3PValue that owned a TimeSeries deleted it as
 an incomplete type, leaking what it held

---
 src/C3PValue/C3PType.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index 87fcc39..af93058 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -28,6 +28,7 @@ This file contains the implementation of type constraints for our wrapped types.
 #include "KeyValuePair.h"
 #include "../StringBuilder.h"
 #include "../TimerTools/TimerTools.h"
+#include "../TimeSeries/TimeSeries.h"
 
 /* CBOR support should probably be required to parse/pack. */
 #if defined(CONFIG_C3P_CBOR)
-- 
2.43.0


From 678a653b364161ebc3a15cbba9cffd110e614a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:43 +0000
Subject: [PATCH 087/224] fix: a TimeSeries reduced to no depth remained dirty,
 and kept reporting stale statistics

---
 src/TimeSeries/TimeSeries.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/TimeSeries/TimeSeries.h b/src/TimeSeries/TimeSeries.h
index 42768cd..f3fae74 100644
--- a/src/TimeSeries/TimeSeries.h
+++ b/src/TimeSeries/TimeSeries.h
@@ -358,13 +358,12 @@ template <class T> int8_t TimeSeries<T>::_reallocate_sample_window(uint32_t win)
   if (win != _window_size) {
     if (_self_allocated())  {
       _set_flags(false, TIMESERIES_FLAG_FILTER_INITD);
-      _sample_idx    = 0;
-      _samples_total = 0;
       if (nullptr != samples) {
         free(samples);
         samples = nullptr;
       }
       _window_size = 0;
+      _zero_samples();   // Whatever happens next, prior samples and stats are gone.
       if (win > 0) {
         if (win <= (SIZE_MAX / sizeof(T))) {
           samples = (T*) malloc(win * sizeof(T));
-- 
2.43.0


From 8ad5f455b55c91ea45ebbbaa9b11f37419bb561c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:37 +0000
Subject: [PATCH 088/224] fix: a purged SensorFilter kept its sample index, and
 declared its window full too soon

---
 src/TimeSeries/SensorFilter.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/TimeSeries/SensorFilter.h b/src/TimeSeries/SensorFilter.h
index 2e32673..2e44cd0 100644
--- a/src/TimeSeries/SensorFilter.h
+++ b/src/TimeSeries/SensorFilter.h
@@ -318,6 +318,7 @@ template <class T> int8_t SensorFilter<T>::_reallocate_sample_window(uint32_t wi
 template <class T> int8_t SensorFilter<T>::_zero_samples() {
   int8_t ret = -1;
   _samples_total = 0;
+  _sample_idx    = 0;
   last_value = T(0);
   min_value  = T(0);
   max_value  = T(0);
@@ -654,7 +655,12 @@ template <class T> int8_t SensorFilter3<T>::_reallocate_sample_window(uint32_t w
 template <class T> int8_t SensorFilter3<T>::_zero_samples() {
   int8_t ret = -1;
   _samples_total = 0;
+  _sample_idx    = 0;
+  _window_full   = false;
+  invalidateStats();
   last_value(T(0), T(0), T(0));
+  min_value(T(0), T(0), T(0));
+  max_value(T(0), T(0), T(0));
   _mean(T(0), T(0), T(0));
   _rms(T(0), T(0), T(0));
   _stdev(T(0), T(0), T(0));
-- 
2.43.0


From b93cdf79fccf828be6a886b53f2c8b657dbf1e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:47 +0000
Subject: [PATCH 089/224] fix: the moving average of a SensorFilter of signed
 integers was nonsense for negative values

---
 src/TimeSeries/SensorFilter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimeSeries/SensorFilter.h b/src/TimeSeries/SensorFilter.h
index 2e44cd0..64bcd3d 100644
--- a/src/TimeSeries/SensorFilter.h
+++ b/src/TimeSeries/SensorFilter.h
@@ -410,7 +410,7 @@ template <class T> int8_t SensorFilter<T>::feedFilter(T val) {
             break;
           case FilteringStrategy::MOVING_AVG:
             // Calculate the moving average...
-            last_value = ((last_value * (_window_size-1)) + val) / _window_size;
+            last_value = (T) ((((double) last_value * (_window_size-1)) + (double) val) / _window_size);
             break;
           case FilteringStrategy::MOVING_MED:
             // Calculate the moving median...
-- 
2.43.0


From 4576b29eb92de5fe113ba7081248ab59fd3968ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:55 +0000
Subject: [PATCH 090/224] fix: a SensorFilter without depth dereferenced a null
 pointer, and its memory was overrun if its size overflowed

---
 src/TimeSeries/SensorFilter.h | 37 +++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/TimeSeries/SensorFilter.h b/src/TimeSeries/SensorFilter.h
index 64bcd3d..64adba4 100644
--- a/src/TimeSeries/SensorFilter.h
+++ b/src/TimeSeries/SensorFilter.h
@@ -284,20 +284,25 @@ template <class T> int8_t SensorFilter<T>::_reallocate_sample_window(uint32_t wi
   int8_t ret = -1;
   if (win != _window_size) {
     if (!_static_alloc) {
-      _window_size = win;
-      _window_full = false;
       if (nullptr != samples) {
         free(samples);
         samples = nullptr;
       }
-      if (_window_size > 0) {
-        samples = (T*) malloc(_window_size * sizeof(T));
-        ret = _zero_samples();
-        _sample_idx = 0;
+      _window_size = 0;
+      _zero_samples();   // Whatever happens next, prior samples and stats are gone.
+      if (win > 0) {
+        if (win <= (SIZE_MAX / sizeof(T))) {
+          samples = (T*) malloc(win * sizeof(T));
+        }
+        if (nullptr != samples) {
+          _window_size = win;
+          ret = _zero_samples();
+        }
       }
       else {   // Program asked for no sample depth.
         ret = 0;
       }
+      _filter_initd = (_window_size > 0);
     }
     else {
       // We can't reallocate if we were constructed with a buffer.
@@ -531,8 +536,9 @@ template <class T> double SensorFilter<T>::_calculate_stdev() {
 * @return the median of the contents of the filter.
 */
 template <class T> T SensorFilter<T>::_calculate_median() {
-  T sorted[_window_size];
   T ret = T(0);
+  if (!_filter_initd) {  return ret;  }
+  T sorted[_window_size];
   for (uint32_t i = 0; i < _window_size; i++) {
     sorted[i] = samples[i];
   }
@@ -621,20 +627,25 @@ template <class T> int8_t SensorFilter3<T>::_reallocate_sample_window(uint32_t w
   int8_t ret = -1;
   if (win != _window_size) {
     if (!_static_alloc) {
-      _window_size = win;
-      _window_full = false;
       if (nullptr != samples) {
         free(samples);
         samples = nullptr;
       }
-      if (_window_size > 0) {
-        samples = (Vector3<T>*) malloc(_window_size * sizeof(Vector3<T>));
-        ret = _zero_samples();
-        _sample_idx = 0;
+      _window_size = 0;
+      _zero_samples();   // Whatever happens next, prior samples and stats are gone.
+      if (win > 0) {
+        if (win <= (SIZE_MAX / sizeof(Vector3<T>))) {
+          samples = (Vector3<T>*) malloc(win * sizeof(Vector3<T>));
+        }
+        if (nullptr != samples) {
+          _window_size = win;
+          ret = _zero_samples();
+        }
       }
       else {   // Program asked for no sample depth.
         ret = 0;
       }
+      _filter_initd = (_window_size > 0);
     }
     else {
       // We can't reallocate if we were constructed with a buffer.
-- 
2.43.0


From 6afff55a2801e4f35a6a95d902d1650f3af38217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:02 +0000
Subject: [PATCH 091/224] fix: a SensorFilter with a window of one neither
 counted nor measured its sample

---
 src/TimeSeries/SensorFilter.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/TimeSeries/SensorFilter.h b/src/TimeSeries/SensorFilter.h
index 64adba4..e0f3aa3 100644
--- a/src/TimeSeries/SensorFilter.h
+++ b/src/TimeSeries/SensorFilter.h
@@ -425,6 +425,8 @@ template <class T> int8_t SensorFilter<T>::feedFilter(T val) {
       }
     }
     else {   // This is a null filter with extra steps.
+      samples[0] = val;
+      _samples_total++;
       last_value = val;
       _window_full = true;
       ret = 1;
@@ -793,6 +795,9 @@ template <class T> int8_t SensorFilter3<T>::feedFilter(T x, T y, T z) {
       }
     }
     else {   // This is a null filter with extra steps.
+      samples[0](x, y, z);
+      _samples_total++;
+      _window_full = true;
       last_value(x, y, z);
       ret = 1;
     }
-- 
2.43.0


From 7e84e229648a8baec996e2c621b7d1d50b37d29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:17 +0000
Subject: [PATCH 092/224] fix: the console executed unterminated input, and
 broke lines up by any part of their terminator

---
 src/Console/C3PConsole.cpp | 49 +++++++++++++++-----------------------
 src/Console/C3PConsole.h   |  2 +-
 2 files changed, 20 insertions(+), 31 deletions(-)

diff --git a/src/Console/C3PConsole.cpp b/src/Console/C3PConsole.cpp
index b231db8..cde4331 100644
--- a/src/Console/C3PConsole.cpp
+++ b/src/Console/C3PConsole.cpp
@@ -207,10 +207,10 @@ int8_t ParsingConsole::_process_buffer() {
     _buffer.clear();
     ret = -2;
   }
-  else if (_line_ending_rxd()) {
-    while (0 < _buffer.count()) {
-      StringBuilder tmp_str_bldr(_buffer.position_trimmed(0));
-      _buffer.drop_position(0);
+  else {
+    StringBuilder rx_line;
+    while (_line_ending_rxd(&rx_line)) {
+      StringBuilder tmp_str_bldr(rx_line.position_trimmed(0));
       if (!tmp_str_bldr.isEmpty()) {
         ret = (0 != ret) ? ret : 0;
         _history_idx = _max_history;
@@ -422,37 +422,26 @@ void ParsingConsole::printHistory(StringBuilder* output) {
 
 
 /**
-* Checks for the configured terminator in the input stream, and tokenizes the
-*   line if found.
+* Checks for the configured terminator in the input stream, and takes the
+*   first complete line if there is one. Whatever follows the terminator is left
+*   in the buffer.
 *
-* @return true if there is a line-ending in the buffer.
+* @param line The buffer that will receive the line, without its terminator.
+* @return true if there was a complete line in the buffer.
 */
-bool ParsingConsole::_line_ending_rxd() {
+bool ParsingConsole::_line_ending_rxd(StringBuilder* line) {
   const char* const L_TERM = lineTerminatorLiteralStr(_rx_terminator);
-  const int L_TERM_LEN = strlen(L_TERM);
-  bool ret = false;
-  bool buf_has_lterm = false;
-  switch (L_TERM_LEN) {
-    case 2:
-      buf_has_lterm = _buffer.contains(L_TERM);
-      break;
-    case 1:
-      buf_has_lterm = _buffer.contains(L_TERM[0]);
-      break;
-    case 0:
-    default:
-      break;
-  }
-
-  if (buf_has_lterm) {
-    if (0 < _buffer.split(L_TERM)) {
-      ret = true;
-    }
-    else {
-      _buffer.clear();
+  const int L_TERM_LEN = lineTerminatorLength(_rx_terminator);
+  const int LINE_LEN = (0 < L_TERM_LEN) ? _buffer.locate((const uint8_t*) L_TERM, L_TERM_LEN) : -1;
+  line->clear();
+  if (0 <= LINE_LEN) {
+    if (0 < LINE_LEN) {
+      line->concat(_buffer.string(), LINE_LEN);
     }
+    _buffer.cull(LINE_LEN + L_TERM_LEN);
+    return true;
   }
-  return ret;
+  return false;
 }
 
 
diff --git a/src/Console/C3PConsole.h b/src/Console/C3PConsole.h
index fb86877..a9717c3 100644
--- a/src/Console/C3PConsole.h
+++ b/src/Console/C3PConsole.h
@@ -171,7 +171,7 @@ class ParsingConsole : public C3PConsole, public BufferCoDec {
     void   _append_to_history(StringBuilder*);  // Appends a command to the history.
     void   _cull_history();                     // Trims the history list back to bounds.
 
-    bool _line_ending_rxd();
+    bool _line_ending_rxd(StringBuilder*);
     int8_t _process_buffer();
 
     /* Flag manipulation inlines */
-- 
2.43.0


From 99919b6b64384fa691833d5d8795c288b231df52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:19 +0000
Subject: [PATCH 093/224] fix: the console noticed a backspace only at the
 start of a push, and left the rest of that push unread

---
 src/Console/C3PConsole.cpp | 54 ++++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 19 deletions(-)

diff --git a/src/Console/C3PConsole.cpp b/src/Console/C3PConsole.cpp
index cde4331..db868e7 100644
--- a/src/Console/C3PConsole.cpp
+++ b/src/Console/C3PConsole.cpp
@@ -159,27 +159,43 @@ int8_t ParsingConsole::pushBuffer(StringBuilder* incoming) {
   // TODO: Implement cursor keys.
   //   U: 0x1b, 0x5b, 0x41   D: 0x1b, 0x5b, 0x42
   //   L: 0x1b, 0x5b, 0x44   R: 0x1b, 0x5b, 0x43
-  uint8_t first_byte = *(incoming->string());
-  if (localEcho()) {
-    _response.concat(incoming);  // We do it this way to copy the buffer. printToLog() will take it.
-    //incoming->printDebug(&_response); Uncomment to hex dump received characters.
-    if (0x08 == first_byte) {
-      uint8_t last_chr_erase[] = {0x20, 0x08};
-      _response.concat(last_chr_erase, 2);
+  const uint8_t BACKSPACE = 0x08;
+  do {
+    const int BACKSPACE_IDX = incoming->locate(&BACKSPACE, 1);
+    if (0 == BACKSPACE_IDX) {   // If we see the backspace key...
+      if (localEcho()) {
+        uint8_t last_chr_erase[] = {BACKSPACE, 0x20, BACKSPACE};
+        _response.concat(last_chr_erase, 3);
+        printToLog(nullptr);   // Flush the log out of the console.
+      }
+      const int BLEN = _buffer.length();
+      if (1 < BLEN) {   // ...and we have accumulated input...
+        _buffer.cull(0, BLEN-1);  // Drop the last character of the buffer.
+      }
+      else {
+        _buffer.clear();
+      }
+      incoming->cull(1);  // Drop the first character of the input.
     }
-    printToLog(nullptr);   // Flush the log out of the console.
-  }
-  if (0x08 == first_byte) {   // If we see the backspace key...
-    int blen = _buffer.length();
-    if (0 < blen) {   // ...and we have accumulated input...
-      _buffer.cull(0, blen-1);  // Drop the last character of the buffer.
+    else {
+      // Take everything up to the next backspace.
+      StringBuilder segment;
+      if (0 < BACKSPACE_IDX) {
+        segment.concat(incoming->string(), BACKSPACE_IDX);
+        incoming->cull(BACKSPACE_IDX);
+      }
+      else {
+        segment.concatHandoff(incoming);
+      }
+      if (localEcho()) {
+        _response.concat(&segment);  // We do it this way to copy the buffer. printToLog() will take it.
+        //segment.printDebug(&_response); Uncomment to hex dump received characters.
+        printToLog(nullptr);   // Flush the log out of the console.
+      }
+      _buffer.concatHandoff(&segment);  // Take the buffer.
+      _process_buffer();  // TODO: Observe return code.
     }
-    incoming->cull(1);  // Drop the first character of the input.
-  }
-  else {
-    _buffer.concatHandoff(incoming);  // Take the buffer.
-    _process_buffer();  // TODO: Observe return code.
-  }
+  } while (0 < incoming->length());
   return 1;
 }
 
-- 
2.43.0


From 19655c8dcb44185764af5066d7dc9b17bd0c8e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:20 +0000
Subject: [PATCH 094/224] fix: the console's history options turned its prompt
 off

---
 src/Console/C3PConsole.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Console/C3PConsole.cpp b/src/Console/C3PConsole.cpp
index db868e7..3248e17 100644
--- a/src/Console/C3PConsole.cpp
+++ b/src/Console/C3PConsole.cpp
@@ -528,7 +528,6 @@ int8_t ParsingConsole::console_handler_conf(StringBuilder* text_return, StringBu
   }
   else if (0 == StringBuilder::strcasecmp(cmd, "history")) {
     if (1 < args->count()) {
-      emitPrompt(0 != arg1);
       char* subcmd = args->position_trimmed(1);
       if (0 == StringBuilder::strcasecmp(subcmd, "clear")) {
         clearHistory();
-- 
2.43.0


From 3b17829d362bceca447aad98a22166a53ec2501d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:27 +0000
Subject: [PATCH 095/224] fix: the console reported the length of its log
 modulo 256

---
 src/Console/C3PConsole.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Console/C3PConsole.h b/src/Console/C3PConsole.h
index a9717c3..9e7d0e3 100644
--- a/src/Console/C3PConsole.h
+++ b/src/Console/C3PConsole.h
@@ -132,7 +132,7 @@ class ParsingConsole : public C3PConsole, public BufferCoDec {
     void maxHistoryDepth(uint8_t);
     inline uint8_t maxHistoryDepth() {    return _max_history;       };
     inline uint8_t historyDepth() {       return _history.size();    };
-    inline uint8_t logLength() {          return _response.length(); };
+    inline uint32_t logLength() {          return _response.length(); };
 
     // Console features...
     inline bool localEcho() {          return _console_flag(CONSOLE_FLAG_LOCAL_ECHO);           };
-- 
2.43.0


From 3dc3bf3c88c3c027fd08b8c4d131389f23f0d28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:28 +0000
Subject: [PATCH 096/224] fix: where va_list is a char*, concatf() with one
 char* argument took it for a va_list and crashed

---
 src/BusQueue/UARTAdapter.cpp                       | 6 +++---
 src/Console/C3PConsole.cpp                         | 4 ++--
 src/Image/GfxUI/GfxUIIdentity.cpp                  | 2 +-
 src/Image/GfxUI/GfxUIKeyValuePair.cpp              | 2 +-
 src/M2MLink/M2MLink.cpp                            | 2 +-
 src/Pipes/TripleAxisPipe/TripleAxisCompass.cpp     | 2 +-
 src/Pipes/TripleAxisPipe/TripleAxisOrientation.cpp | 2 +-
 src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp        | 8 ++++----
 8 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/BusQueue/UARTAdapter.cpp b/src/BusQueue/UARTAdapter.cpp
index c4d4669..35ac7cc 100644
--- a/src/BusQueue/UARTAdapter.cpp
+++ b/src/BusQueue/UARTAdapter.cpp
@@ -135,9 +135,9 @@ void UARTAdapter::printDebug(StringBuilder* output) {
   output->concat("\tOpts:\n\t------------------------\n");
   output->concatf("\tChar size:\t%u bits\n", _opts.bit_per_word);
   output->concatf("\tStart bits:\t%u\n",     _opts.start_bits);
-  output->concatf("\tStop bits:\t%s\n",      str_stp);
-  output->concatf("\tParity:\t\t%s\n",       str_par);
-  output->concatf("\tFlow CTRL:\t%s\n\n",    str_flw);
+  output->concatf("\tStop bits:\t%s\n",      (const char*) str_stp);
+  output->concatf("\tParity:\t\t%s\n",       (const char*) str_par);
+  output->concatf("\tFlow CTRL:\t%s\n\n",    (const char*) str_flw);
 
   if (initialized()) {
     if (rxCapable()) {
diff --git a/src/Console/C3PConsole.cpp b/src/Console/C3PConsole.cpp
index 3248e17..ade9f44 100644
--- a/src/Console/C3PConsole.cpp
+++ b/src/Console/C3PConsole.cpp
@@ -248,7 +248,7 @@ int8_t ParsingConsole::_process_buffer() {
             // TODO: Change to prompt color.
           }
           // Write the prompt to the log.
-          _response.concatf("\n%s", _prompt_string);
+          _response.concatf("\n%s", (const char*) _prompt_string);
         }
       }
     }
@@ -420,7 +420,7 @@ void ParsingConsole::printHelp(StringBuilder* output, char* specific_cmd) {
     tmpcmd->printDetailedHelp(output);
   }
   else {
-    output->concatf("Command '%s' not supported.\n", specific_cmd);
+    output->concatf("Command '%s' not supported.\n", (const char*) specific_cmd);
   }
 }
 
diff --git a/src/Image/GfxUI/GfxUIIdentity.cpp b/src/Image/GfxUI/GfxUIIdentity.cpp
index 439f7f6..6fa696a 100644
--- a/src/Image/GfxUI/GfxUIIdentity.cpp
+++ b/src/Image/GfxUI/GfxUIIdentity.cpp
@@ -83,7 +83,7 @@ int GfxUIIdentity::_render(UIGfxWrapper* ui_gfx) {
   _txt_meta.clear();
   if (nullptr != _ident) {
     StringBuilder _tmp_sbldr;
-    _tmp_sbldr.concatf("%s\n", _ident->getHandle());
+    _tmp_sbldr.concatf("%s\n", (const char*) _ident->getHandle());
     _txt_handle.pushBuffer(&_tmp_sbldr);
 
     _tmp_sbldr.concatf("%s\n", Identity::identityTypeString(_ident->identityType()));
diff --git a/src/Image/GfxUI/GfxUIKeyValuePair.cpp b/src/Image/GfxUI/GfxUIKeyValuePair.cpp
index 9684fa5..d129641 100644
--- a/src/Image/GfxUI/GfxUIKeyValuePair.cpp
+++ b/src/Image/GfxUI/GfxUIKeyValuePair.cpp
@@ -85,7 +85,7 @@ int GfxUIKeyValuePair::_render(UIGfxWrapper* ui_gfx) {
       char* cur_key = key_list.position_trimmed(0);
       current_kvp   = _kvp->valueWithKey(cur_key);
       StringBuilder keystr;
-      keystr.concatf("\"%s\":", cur_key);
+      keystr.concatf("\"%s\":", (const char*) cur_key);
 
       ui_gfx->img()->setCursor(i_x, (i_y + tracked_y));
       ui_gfx->img()->setTextColor(_style.color_active, _style.color_bg);
diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 6ad4df1..c1f43d5 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -470,7 +470,7 @@ void M2MLink::printDebug(StringBuilder* output) {
   if (isConnected()) {
     output->concat("\n-- Counterparty:\n");
     if (nullptr != remoteIdentity()) {
-      output->concatf("\t[%s]:\t", remoteIdentity()->getHandle());
+      output->concatf("\t[%s]:\t", (const char*) remoteIdentity()->getHandle());
       remoteIdentity()->toString(output);
       output->concat('\n');
     }
diff --git a/src/Pipes/TripleAxisPipe/TripleAxisCompass.cpp b/src/Pipes/TripleAxisPipe/TripleAxisCompass.cpp
index b1e3d39..7bbc573 100644
--- a/src/Pipes/TripleAxisPipe/TripleAxisCompass.cpp
+++ b/src/Pipes/TripleAxisPipe/TripleAxisCompass.cpp
@@ -112,7 +112,7 @@ FAST_FUNC int8_t TripleAxisCompass::pushVector(const SpatialSense s, Vector3f* d
 void TripleAxisCompass::printPipe(StringBuilder* output, uint8_t stage, uint8_t verbosity) {
   StringBuilder indent;
   for (uint8_t i = 0; i < stage; i++) {    indent.concat("    ");    }
-  output->concatf("%s+-< 3AxisPipe: Compass >----------------\n", (char*) indent.string());
+  output->concatf("%s+-< 3AxisPipe: Compass >----------------\n", (const char*) indent.string());
   output->concatf("%s| Has callback:   %c\n", (char*) indent.string(), (nullptr != _CALLBACK)?'y':'n');
   output->concatf("%s| Seq number:     %u\n", (char*) indent.string(), _update_count);
   output->concatf("%s| Field %s:    (%.4f, %.4f, %.4f)  Magnitude: %.4f\n", (char*) indent.string(), (dataReady()?"FRESH":"STALE"), (double) _field.x, (double) _field.y, (double) _field.z, (double) _field.length());
diff --git a/src/Pipes/TripleAxisPipe/TripleAxisOrientation.cpp b/src/Pipes/TripleAxisPipe/TripleAxisOrientation.cpp
index 5770649..1397d09 100644
--- a/src/Pipes/TripleAxisPipe/TripleAxisOrientation.cpp
+++ b/src/Pipes/TripleAxisPipe/TripleAxisOrientation.cpp
@@ -92,7 +92,7 @@ int8_t TripleAxisOrientation::pushVector(const SpatialSense s, Vector3f* data, V
 void TripleAxisOrientation::printPipe(StringBuilder* output, uint8_t stage, uint8_t verbosity) {
   StringBuilder indent;
   for (uint8_t i = 0; i < stage; i++) {    indent.concat("    ");    }
-  output->concatf("%s+-< 3AxisPipe: Orientation >----------------\n", (char*) indent.string());
+  output->concatf("%s+-< 3AxisPipe: Orientation >----------------\n", (const char*) indent.string());
   output->concatf("%s| Seq number:     %u\n", (char*) indent.string(), _update_count);
   output->concatf("%s| Last update:    %u\n", (char*) indent.string(), _last_update);
   if (_data_period) {
diff --git a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
index 3c9906b..81485e5 100644
--- a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
+++ b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
@@ -66,7 +66,7 @@ FAST_FUNC int8_t TripleAxisFork::pushVector(const SpatialSense s, Vector3f* data
 void TripleAxisFork::printPipe(StringBuilder* output, uint8_t stage, uint8_t verbosity) {
   StringBuilder indent;
   for (uint8_t i = 0; i < stage; i++) {    indent.concat("    ");    }
-  output->concatf("%s+-< 3AxisPipe: Fork >-------------------\n", (char*) indent.string());
+  output->concatf("%s+-< 3AxisPipe: Fork >-------------------\n", (const char*) indent.string());
   indent.clear();
   if ((verbosity > 0) && (nullptr != _LEFT)) {
     _LEFT->printPipe(output, stage+1, verbosity);
@@ -139,7 +139,7 @@ FAST_FUNC int8_t TripleAxisConvention::pushVector(const SpatialSense s, Vector3f
 void TripleAxisConvention::printPipe(StringBuilder* output, uint8_t stage, uint8_t verbosity) {
   StringBuilder indent;
   for (uint8_t i = 0; i < stage; i++) {    indent.concat("    ");    }
-  output->concatf("%s+-< 3AxisPipe: Convention >-------------\n", (char*) indent.string());
+  output->concatf("%s+-< 3AxisPipe: Convention >-------------\n", (const char*) indent.string());
   indent.clear();
   if ((verbosity > 0) && (nullptr != _NXT)) {
     _NXT->printPipe(output, stage+1, verbosity);
@@ -217,7 +217,7 @@ void TripleAxisTerminus::reset() {
 void TripleAxisTerminus::printPipe(StringBuilder* output, uint8_t stage, uint8_t verbosity) {
   StringBuilder indent;
   for (uint8_t i = 0; i < stage; i++) {    indent.concat("    ");    }
-  output->concatf("%s+-< 3AxisPipe: Terminus >---------------\n", (char*) indent.string());
+  output->concatf("%s+-< 3AxisPipe: Terminus >---------------\n", (const char*) indent.string());
   output->concatf("%s| Has callback:   %c\n", (char*) indent.string(), (nullptr != _CALLBACK)?'y':'n');
   output->concatf("%s| Seq number:     %u\n", (char*) indent.string(), _update_count);
   output->concatf("%s| SpatialSense:   %s\n", (char*) indent.string(), TripleAxisPipe::spatialSenseStr(_SENSE));
@@ -329,7 +329,7 @@ void TripleAxisSingleFilter::printPipe(StringBuilder* output, uint8_t stage, uin
   bool was_dirty = dirty();
   StringBuilder indent;
   for (uint8_t i = 0; i < stage; i++) {    indent.concat("    ");    }
-  output->concatf("%s+-< 3AxisPipe: SingleFilter >-----------\n", (char*) indent.string());
+  output->concatf("%s+-< 3AxisPipe: SingleFilter >-----------\n", (const char*) indent.string());
   output->concatf("%s| SpatialSense:   %s\n", (char*) indent.string(), TripleAxisPipe::spatialSenseStr(_SENSE));
   if (verbosity > 5) {
     SensorFilter3<float>::printFilter(output);
-- 
2.43.0


From 460eb2bc3680ce57298dda3ad41f68d04fbe7de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:53 +0000
Subject: [PATCH 097/224] fix: M2MMsgHdr: count every length byte in the
 message length

---
 src/M2MLink/M2MMsgHdr.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/M2MLink/M2MMsgHdr.cpp b/src/M2MLink/M2MMsgHdr.cpp
index 6316f1a..1833853 100644
--- a/src/M2MLink/M2MMsgHdr.cpp
+++ b/src/M2MLink/M2MMsgHdr.cpp
@@ -58,7 +58,7 @@ M2MMsgHdr::M2MMsgHdr(M2MMsgCode m, uint8_t pl_len, uint8_t f, uint32_t i) :
   if (needed_total_sz > 0x0000FFFE) calcd_len_sz++;
   if (needed_total_sz <= 0x00FFFFFD) {  // Anything larger than this is invalid.
     flags = ((flags & ~M2MMSGHDR_FLAG_ENCODES_LENGTH_BYTES) | (calcd_len_sz << 4));
-    msg_len = needed_total_sz;
+    msg_len = needed_total_sz + (calcd_len_sz - 1);   // The minimum header includes one length byte.
     chk_byte = (uint8_t) (flags + msg_len + (uint8_t)msg_code + M2MLINK_SERIALIZATION_VERSION);
   }
 }
@@ -97,12 +97,13 @@ int M2MMsgHdr::header_length() {
 bool M2MMsgHdr::set_payload_length(uint32_t pl_len) {
   bool ret = false;
   uint8_t calcd_len_sz = 1;
+  if (pl_len > 0x00FFFFFD) return ret;  // Can't possibly fit, and the sum below might wrap.
   uint32_t needed_total_sz = id_length() + pl_len + M2MMSGHDR_MINIMUM_HEADER_SIZE;
   if (needed_total_sz > 0x000000FF) calcd_len_sz++;
   if (needed_total_sz > 0x0000FFFE) calcd_len_sz++;
   if (needed_total_sz <= 0x00FFFFFD) {  // Anything larger than this is invalid.
     flags = ((flags & ~M2MMSGHDR_FLAG_ENCODES_LENGTH_BYTES) | (calcd_len_sz << 4));
-    msg_len = needed_total_sz;
+    msg_len = needed_total_sz + (calcd_len_sz - 1);   // The minimum header includes one length byte.
     chk_byte = calc_hdr_chcksm();
     ret = true;
   }
-- 
2.43.0


From 56ccef4bd3af500ffed420282c1114fe4e0579d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:54 +0000
Subject: [PATCH 098/224] fix: M2MMsg: refuse headers without a length, or with
 a length that doesn't cover the header

---
 src/M2MLink/M2MMsg.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/M2MLink/M2MMsg.cpp b/src/M2MLink/M2MMsg.cpp
index 9def5e4..3dbeab6 100644
--- a/src/M2MLink/M2MMsg.cpp
+++ b/src/M2MLink/M2MMsg.cpp
@@ -60,13 +60,17 @@ int8_t M2MMsg::attempt_header_parse(M2MMsgHdr* hdr, StringBuilder* dat_in) {
 
     const uint8_t len_l = hdr->len_length();
     const uint8_t id_l  = hdr->id_length();
-    if (hdr->header_length() <= AVAILABLE_LEN) {
+    if (0 == hdr->header_length()) {
+      ret = -3;   // The length field is not optional.
+    }
+    else if (hdr->header_length() <= AVAILABLE_LEN) {
       // Write the multibyte value as big-endian.
       for (uint8_t i = 0; i < len_l; i++) hdr->msg_len = ((hdr->msg_len << 8) | *(tmp_buf++));
       for (uint8_t i = 0; i < id_l; i++)  hdr->msg_id  = ((hdr->msg_id << 8)  | *(tmp_buf++));
       hdr->chk_byte = *(tmp_buf++);
       ret = -3;
-      if (hdr->chk_byte == hdr->calc_hdr_chcksm()) {       // Does the checksum match?
+      // Does the checksum match, and does the message at least contain its header?
+      if ((hdr->chk_byte == hdr->calc_hdr_chcksm()) && (0 <= hdr->payload_length())) {
         ret = 1;
         if (0 < hdr->payload_length()) {
           ret = (hdr->total_length() > AVAILABLE_LEN) ? 0 : 2;
-- 
2.43.0


From e76cfb6349f93f177fb9b48c480efadaaf25908f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:55 +0000
Subject: [PATCH 099/224] fix: M2MMsg: free the received payload, and don't
 hold the reply's

---
 src/M2MLink/M2MMsg.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/M2MLink/M2MMsg.cpp b/src/M2MLink/M2MMsg.cpp
index 3dbeab6..9ebdeec 100644
--- a/src/M2MLink/M2MMsg.cpp
+++ b/src/M2MLink/M2MMsg.cpp
@@ -134,6 +134,10 @@ M2MMsg::M2MMsg(M2MMsgHdr* hdr, BusOpcode d) : _header(hdr), _op(d) {
 * Destructor.
 */
 M2MMsg::~M2MMsg() {
+  if (nullptr != _kvp) {
+    delete _kvp;   // Unserialized from a message we received.
+    _kvp = nullptr;
+  }
 }
 
 
@@ -160,6 +164,10 @@ void M2MMsg::wipe() {
   _flags       = 0;
   _header.wipe();
   _accumulator.clear();
+  if (nullptr != _kvp) {
+    delete _kvp;
+    _kvp = nullptr;
+  }
 }
 
 
@@ -238,11 +246,15 @@ int M2MMsg::reply(KeyValuePair* kvp, bool reply_expected) {
     _header.expectsReply(reply_expected);
     _header.isReply(true);
     _accumulator.clear();
+    if (nullptr != _kvp) {
+      delete _kvp;   // The payload we received is no longer relevant.
+    }
     _kvp = kvp;
     _class_clear_flag(M2MMSG_FLAG_ACCUMULATOR_COMPLETE);
     if (0 == serialize(&_accumulator)) {
       ret = 0;
     }
+    _kvp = nullptr;   // The caller retains ownership of the payload.
   }
   return ret;
 }
-- 
2.43.0


From f2b59f75f1eaf9590e67f3414be7e733ef708222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:56 +0000
Subject: [PATCH 100/224] fix: M2MMsg: report failure if the payload could not
 be serialized

---
 src/M2MLink/M2MMsg.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/M2MLink/M2MMsg.cpp b/src/M2MLink/M2MMsg.cpp
index 9ebdeec..0e90e66 100644
--- a/src/M2MLink/M2MMsg.cpp
+++ b/src/M2MLink/M2MMsg.cpp
@@ -346,10 +346,11 @@ int M2MMsg::serialize(StringBuilder* buf) {
     int payload_len = 0;
     if (nullptr != _kvp) {
       ret--;
-      if (0 == _kvp->serialize(&payload, _encoding)) {
-        ret--;
-        payload_len = payload.length();
+      if (0 != _kvp->serialize(&payload, _encoding)) {
+        return ret;   // Don't send a message without its payload.
       }
+      ret--;
+      payload_len = payload.length();
     }
     if (_header.set_payload_length(payload_len)) {
       ret--;
-- 
2.43.0


From 18be13427e3bf6a6077b797d9659f228c1428773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:57 +0000
Subject: [PATCH 101/224] fix: M2MLink: don't index the service list with slots
 it doesn't have

---
 src/M2MLink/M2MLink.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index c1f43d5..7c4fc49 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -1128,11 +1128,8 @@ int8_t M2MLink::_invoke_msg_callback(M2MMsg* msg) {
 */
 int8_t M2MLink::_offer_msg_to_service(uint8_t slot, M2MMsg* msg) {
   int8_t ret = -1;
-  if (CONFIG_C3PLINK_SERVICE_SLOTS > slot) {
-    ret++;
-  }
-  if (nullptr != _svc_list[slot]) {   // Call the callback, if it is set.
-    ret++;
+  if ((CONFIG_C3PLINK_SERVICE_SLOTS > slot) && (nullptr != _svc_list[slot])) {   // Call the callback, if it is set.
+    ret += 2;
     _svc_list[slot]->_handle_msg(_session_tag, msg);
     if (BusOpcode::TX == msg->direction()) {
       // If the message is now marked as TX, it means the application wants to
-- 
2.43.0


From d1a51369f54bb2d27474315c08ca42ee924d22e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:59 +0000
Subject: [PATCH 102/224] fix: M2MLink: free WHO and LOG payloads, and survive
 a LOG message without one

---
 src/M2MLink/M2MLink.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 7c4fc49..2eb8779 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -795,8 +795,8 @@ int8_t M2MLink::_churn_inbound() {
           // We are being queried about our Identity.
           if (_id_loc) {
             // If we have one assigned, serialize and relay it as a reply.
-            KeyValuePair* a = new KeyValuePair("ident", _id_loc);
-            int8_t ret_local = temp->reply(a, true);
+            KeyValuePair a("ident", _id_loc);
+            int8_t ret_local = temp->reply(&a, true);
             const uint8_t VERB_LEV = (0 > ret_local) ? LOG_LEV_ERROR : LOG_LEV_INFO;
             if (_verbosity >= VERB_LEV) {
               c3p_log(VERB_LEV, __PRETTY_FUNCTION__, "Link 0x%08x reply to WHO returns %u.\n", _session_tag, ret_local);
@@ -812,6 +812,9 @@ int8_t M2MLink::_churn_inbound() {
             c3p_log(LOG_LEV_ERROR, __PRETTY_FUNCTION__, "Link 0x%08x Failed to reply to WHO\n", _session_tag);
           }
         }
+        if (nullptr != kvps_rxd) {
+          delete kvps_rxd;
+        }
         break;
 
       case M2MMsgCode::DHT_FXN:
@@ -976,7 +979,7 @@ int8_t M2MLink::_handle_msg_log(M2MMsg* msg) {
   if (_flags.value(M2MLINK_FLAG_ALLOW_LOG_WRITE)) {   // Will we allow a write to our log?
     ret++;
     KeyValuePair* inbound_kvp = nullptr;
-    if (0 == msg->getPayload(&inbound_kvp)) {
+    if ((0 == msg->getPayload(&inbound_kvp)) && (nullptr != inbound_kvp)) {
       char* inbound_log = nullptr;
       if (0 == inbound_kvp->valueWithKey("b", &inbound_log)) {
         // TODO: Surround with randomly-generated tags to prevent confusion.
@@ -985,7 +988,7 @@ int8_t M2MLink::_handle_msg_log(M2MMsg* msg) {
       else {
         if (LOG_LEV_NOTICE <= _verbosity) c3p_log(LOG_LEV_NOTICE, __PRETTY_FUNCTION__, "Link 0x%08x failed to decompose LOG message.\n", _session_tag);
       }
-      //delete inbound_kvp;
+      delete inbound_kvp;
     }
     else {
       if (LOG_LEV_NOTICE <= _verbosity) c3p_log(LOG_LEV_NOTICE, __PRETTY_FUNCTION__, "Link 0x%08x failed to find LOG payload.\n", _session_tag);
@@ -1471,8 +1474,8 @@ int8_t M2MLink::_send_who_message() {
   if (nullptr != msg) {
     ret--;
     if (_id_loc) {
-      KeyValuePair* a = new KeyValuePair("ident", _id_loc);
-      msg->setPayload(a);
+      KeyValuePair a("ident", _id_loc);
+      msg->setPayload(&a);
     }
     if (0 == _send_msg(msg)) {
       ret = 0;
-- 
2.43.0


From d11e9b6d4122a172aba054720225669bcbf1458b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:00 +0000
Subject: [PATCH 103/224] fix: M2MLink: a reply only releases (and frees)
 messages that were waiting for one

---
 src/M2MLink/M2MLink.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 2eb8779..613cb60 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -953,12 +953,14 @@ int8_t M2MLink::_churn_outbound() {
 */
 int8_t M2MLink::_clear_waiting_send_by_id(uint32_t id) {
   int8_t ret = 0;
-  for (int i = 0; i < _outbound_messages.size(); i++) {
+  for (int i = (_outbound_messages.size() - 1); i >= 0; i--) {
     M2MMsg* temp = _outbound_messages.get(i);
     if (nullptr != temp) {
-      if (id == temp->uniqueId()) {
+      // Only messages that were sent, and are waiting on a reply can be satisfied by one.
+      if ((id == temp->uniqueId()) && temp->expectsReply() && temp->wasSent()) {
         temp->markACKd();
         _outbound_messages.remove(temp);
+        _reclaim_m2mmsg(temp);
         ret = 1;
       }
     }
-- 
2.43.0


From f5fa80d892f6a9b50d5646b912d6e5eb508e7e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:01 +0000
Subject: [PATCH 104/224] fix: M2MLink: a reply that demands its own reply
 still satisfies the message it replies to

---
 src/M2MLink/M2MLink.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 613cb60..c614f00 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -668,6 +668,11 @@ int8_t M2MLink::_churn_inbound() {
     M2MMsg* temp = _inbound_messages.dequeue();
     KeyValuePair* kvps_rxd = nullptr;
 
+    if (temp->isReply()) {
+      // Do this now. The handler might turn this message into a further reply.
+      _clear_waiting_send_by_id(temp->uniqueId());
+    }
+
     if (_verbosity >= LOG_LEV_INFO) {
       StringBuilder tmp_log;
       tmp_log.concatf("Link 0x%08x processing inbound...\n", _session_tag);
@@ -865,9 +870,6 @@ int8_t M2MLink::_churn_inbound() {
     }
 
     if (gc_message) {
-      if (temp->isReply()) {
-        _clear_waiting_send_by_id(temp->uniqueId());
-      }
       _reclaim_m2mmsg(temp);
     }
   }
-- 
2.43.0


From b0159a052a064382f6c0e1f5b13d990b094b1373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:02 +0000
Subject: [PATCH 105/224] fix: M2MLink: don't leak the CONNECT message after
 replying to it

---
 src/M2MLink/M2MLink.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index c614f00..8c6281b 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -713,10 +713,8 @@ int8_t M2MLink::_churn_inbound() {
           _flags.set(M2MLINK_FLAG_ESTABLISHED);
         }
         else if (temp->expectsReply()) {
-          if (0 == temp->ack()) {
-            gc_message = false;
-          }
-          else if (_verbosity >= LOG_LEV_ERROR) c3p_log(LOG_LEV_ERROR, __PRETTY_FUNCTION__, "Link 0x%08x Failed to reply to CONNECT\n", _session_tag);
+          // NOTE: The reply isn't queued. It is sent here, and then dropped.
+          if ((0 != temp->ack()) && (_verbosity >= LOG_LEV_ERROR)) c3p_log(LOG_LEV_ERROR, __PRETTY_FUNCTION__, "Link 0x%08x Failed to reply to CONNECT\n", _session_tag);
           //if (_verbosity >= LOG_LEV_INFO) {
           //  StringBuilder tmp_log;
           //  tmp_log.concatf("Link 0x%08x responding with...\n", _session_tag);
-- 
2.43.0


From f26a0a5865309d9dfade5edc9634d53641d53fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:03 +0000
Subject: [PATCH 106/224] fix: M2MLink: don't dereference null messages while
 logging errors

---
 src/M2MLink/M2MLink.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 8c6281b..4edf21e 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -617,7 +617,7 @@ int8_t M2MLink::_send_msg(M2MMsg* msg) {
   if ((0 > ret) & (LOG_LEV_ERROR >= _verbosity)) {
     StringBuilder tmp_log;
     tmp_log.concatf("Link 0x%08x failed in _send_msg(): %d\n", _session_tag, ret);
-    msg->printDebug(&tmp_log);
+    if (nullptr != msg) msg->printDebug(&tmp_log);
     c3p_log(LOG_LEV_ERROR, __PRETTY_FUNCTION__, &tmp_log);
   }
   return ret;
@@ -1419,7 +1419,7 @@ int8_t M2MLink::_send_connect_message() {
     if (_verbosity >= LOG_LEV_CRIT) {
       StringBuilder tmp_log;
       tmp_log.concatf("Link 0x%08x failed to serialize a connect header.\n", _session_tag);
-      _working->printDebug(&tmp_log);
+      connect_msg.printDebug(&tmp_log);
       c3p_log(LOG_LEV_CRIT, __PRETTY_FUNCTION__, &tmp_log);
     }
   }
-- 
2.43.0


From a1e0526f45498e31150faf7fe852769ddca75fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:53 +0000
Subject: [PATCH 107/224] fix: M2MLink: repeat an unanswered CONNECT, rather
 than wait for its reply forever

---
 src/M2MLink/M2MLink.cpp | 8 ++++++++
 src/M2MLink/M2MLink.h   | 1 +
 2 files changed, 9 insertions(+)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 4edf21e..7ca3443 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -274,6 +274,13 @@ int8_t M2MLink::poll(StringBuilder* log_ret) {
           _send_sync_packet(true);
         }
       }
+      // A CONNECT message is lost if the counterparty was still resyncing when
+      //   it arrived. So repeat it until there is a reply.
+      if ((M2MLinkState::SYNC_TENTATIVE == currentState()) && _fsm_is_stable()) {
+        if (millis_since(_ms_last_connect) > _opts.ms_timeout) {
+          _send_connect_message();
+        }
+      }
       break;
   }
   int8_t ret = _fsm_poll();                 // Poll the link's FSM.
@@ -1408,6 +1415,7 @@ int8_t M2MLink::_send_sync_packet(bool need_reply) {
 */
 int8_t M2MLink::_send_connect_message() {
   int8_t ret = -1;
+  _ms_last_connect = millis();
   // TODO: For now, this will just send a connection message directly to the transport.
   StringBuilder connect_packet;
   M2MMsgHdr connect_header(M2MMsgCode::CONNECT, 0, true);
diff --git a/src/M2MLink/M2MLink.h b/src/M2MLink/M2MLink.h
index 4a503b4..c21b9cf 100644
--- a/src/M2MLink/M2MLink.h
+++ b/src/M2MLink/M2MLink.h
@@ -525,6 +525,7 @@ class M2MLink : public StateMachine<M2MLinkState>, public BufferCoDec {
     uint32_t        _session_tag    = 0;        // Allows the application to keep track of our callbacks.
     uint32_t        _ms_last_send   = 0;        // At what time did the last message go out?
     uint32_t        _ms_last_rec    = 0;        // At what time did the last message come in?
+    uint32_t        _ms_last_connect = 0;       // At what time did we last send a CONNECT?
     uint16_t        _sync_losses    = 0;        // How many times this session have we lost sync?
     uint16_t        _unackd_sends   = 0;        // How many messages that needed an ACK failed to get one?
     M2MMsg*         _working        = nullptr;  // If we are in the middle of receiving a message,
-- 
2.43.0


From e527aa876347cdbcb91be83d2d8cb19f7192418b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:54 +0000
Subject: [PATCH 108/224] fix: M2MLink: take the last few bytes of a message
 even if nothing follows them

---
 src/M2MLink/M2MLink.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 7ca3443..a80fcac 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -1204,7 +1204,8 @@ int8_t M2MLink::_process_input_buffer() {
   }
 
   if (proc_fallthru) {
-    if (_inbound_buf.length() >= 4) {
+    // A header has a minimum length, but the rest of a message might have any.
+    if ((nullptr != _working) || (_inbound_buf.length() >= M2MMSGHDR_MINIMUM_HEADER_SIZE)) {
       if (nullptr == _working) {
         M2MMsgHdr _header;
         int8_t ret_header = M2MMsg::attempt_header_parse(&_header, &_inbound_buf);
-- 
2.43.0


From 4165d3d02a44403a359d0733572bb7dab448f3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:03 +0000
Subject: [PATCH 109/224] fix: M2MLink: losing sync before the session was
 established left the link stuck

---
 src/M2MLink/M2MLink.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index a80fcac..e89ef02 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -1542,12 +1542,13 @@ int8_t M2MLink::_fsm_poll() {
 
     // Exit conditions: We've exchanged CONNECT messages.
     case M2MLinkState::SYNC_TENTATIVE:
-      fsm_advance = _flags.value(M2MLINK_FLAG_ESTABLISHED);
+      // If sync is lost before that happens, it has to be regained first.
+      fsm_advance = _flags.value(M2MLINK_FLAG_ESTABLISHED) | _fsm_is_next_pos(M2MLinkState::SYNC_RESYNC);
       break;
 
     // Exit conditions: An acceptable authentication has happened.
     case M2MLinkState::PENDING_AUTH:
-      fsm_advance = _flags.value(M2MLINK_FLAG_AUTHD);
+      fsm_advance = _flags.value(M2MLINK_FLAG_AUTHD) | _fsm_is_next_pos(M2MLinkState::SYNC_RESYNC);
       break;
 
     // Exit conditions: These states are canonically stable. So we advance when
@@ -1562,6 +1563,7 @@ int8_t M2MLink::_fsm_poll() {
       if (!_outbound_messages.hasNext()) {
         fsm_advance = _flags.value(M2MLINK_FLAG_HANGUP_RXD) & _flags.value(M2MLINK_FLAG_HANGUP_TXD);
       }
+      fsm_advance |= _fsm_is_next_pos(M2MLinkState::SYNC_RESYNC);
       break;
 
     // Exit conditions: The application has called reset(), to take this link
@@ -1693,7 +1695,10 @@ int8_t M2MLink::_fsm_set_position(M2MLinkState new_state) {
 
 int8_t M2MLink::_fsm_insert_sync_states() {
   int8_t ret = -1;
-  if (0 == _fsm_prepend_state(M2MLinkState::SYNC_TENTATIVE)) {
+  if (_fsm_is_next_pos(M2MLinkState::SYNC_RESYNC)) {
+    ret = 0;   // Already planned. Don't fill the route with it.
+  }
+  else if (0 == _fsm_prepend_state(M2MLinkState::SYNC_TENTATIVE)) {
     if (0 == _fsm_prepend_state(M2MLinkState::SYNC_RESYNC)) {
       ret = 0;
     }
-- 
2.43.0


From 57d46490a4c277aa1c1141e13bea1d5c72a8816a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:10 +0000
Subject: [PATCH 110/224] fix: M2MLink: an abrupt hangup was ignored while
 syncing, or while hanging up

---
 src/M2MLink/M2MLink.cpp | 8 +++++++-
 src/M2MLink/M2MLink.h   | 1 +
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index e89ef02..09a9e50 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -333,6 +333,7 @@ int8_t M2MLink::hangup(bool graceful) {
     //   with the PENDING_HANGUP state. Obliterate the existing dialogs.
     _purge_inbound();
     _purge_outbound();
+    _flags.set(M2MLINK_FLAG_HANGUP_FORCED);
     ret = _fsm_set_route(1, M2MLinkState::HUNGUP);
   }
   return ret;
@@ -1580,6 +1581,11 @@ int8_t M2MLink::_fsm_poll() {
       break;
   }
 
+  // A forced hangup doesn't wait for the counterparty in any state.
+  if (_flags.value(M2MLINK_FLAG_HANGUP_FORCED) & _fsm_is_next_pos(M2MLinkState::HUNGUP)) {
+    fsm_advance = true;
+  }
+
   // If the current state's exit criteria is met, we advance the FSM.
   if (fsm_advance & (-1 != ret)) {
     ret = (0 == _fsm_advance()) ? 1 : 0;
@@ -1665,7 +1671,7 @@ int8_t M2MLink::_fsm_set_position(M2MLinkState new_state) {
       case M2MLinkState::HUNGUP:
         //_reset_class();
         _flags.set(M2MLINK_FLAG_ON_HOOK);
-        _flags.clear(M2MLINK_FLAG_ESTABLISHED);
+        _flags.clear(M2MLINK_FLAG_ESTABLISHED | M2MLINK_FLAG_HANGUP_FORCED);
         state_entry_success = true;
         break;
 
diff --git a/src/M2MLink/M2MLink.h b/src/M2MLink/M2MLink.h
index c21b9cf..a7e287d 100644
--- a/src/M2MLink/M2MLink.h
+++ b/src/M2MLink/M2MLink.h
@@ -129,6 +129,7 @@ NOTE: This has been a mad binge to port over all this work from ManuvrOS. Five
 #define M2MLINK_FLAG_SEND_KA         0x00000100  // We will send a keep-alive on a defined interval.
 #define M2MLINK_FLAG_ON_HOOK         0x00000200  // Following HANGUP, the app needs to reset this.
 #define M2MLINK_FLAG_ALLOW_LOG_WRITE 0x00000400  // Do we allow a counterparty to write to our log?
+#define M2MLINK_FLAG_HANGUP_FORCED   0x00000800  // The application doesn't want to wait for an orderly hangup.
 
 // These M2MLink flags are allowed to be passed in as configuration.
 #define M2MLINK_FLAG_ALLOWABLE_DEFAULT_MASK (M2MLINK_FLAG_AUTH_REQUIRED | \
-- 
2.43.0


From 9dc54d64cb3cea2409032f30d89e77b5d3c54e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:28 +0000
Subject: [PATCH 111/224] fix: M2MLink: a LOG message whose line isn't a string
 overran the stack

---
 src/M2MLink/M2MLink.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 09a9e50..7741ad9 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -991,7 +991,8 @@ int8_t M2MLink::_handle_msg_log(M2MMsg* msg) {
     KeyValuePair* inbound_kvp = nullptr;
     if ((0 == msg->getPayload(&inbound_kvp)) && (nullptr != inbound_kvp)) {
       char* inbound_log = nullptr;
-      if (0 == inbound_kvp->valueWithKey("b", &inbound_log)) {
+      C3PValue* log_val = inbound_kvp->valueWithKey("b");
+      if ((nullptr != log_val) && (0 == log_val->get_as(&inbound_log))) {
         // TODO: Surround with randomly-generated tags to prevent confusion.
         _remote_log.concatf("Link 0x%08x counterparty says:\n%s\n", _session_tag, inbound_log);
       }
-- 
2.43.0


From 2e62f50aac9dbd4ed824f8dcf1519c8aeaf271d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:06 +0000
Subject: [PATCH 112/224] fix: M2MLink: losing sync put off a forced hangup

---
 src/M2MLink/M2MLink.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 7741ad9..4866726 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -1702,8 +1702,8 @@ int8_t M2MLink::_fsm_set_position(M2MLinkState new_state) {
 
 int8_t M2MLink::_fsm_insert_sync_states() {
   int8_t ret = -1;
-  if (_fsm_is_next_pos(M2MLinkState::SYNC_RESYNC)) {
-    ret = 0;   // Already planned. Don't fill the route with it.
+  if (_fsm_is_next_pos(M2MLinkState::SYNC_RESYNC) | _flags.value(M2MLINK_FLAG_HANGUP_FORCED)) {
+    ret = 0;   // Already planned, or pointless. Don't fill the route with it.
   }
   else if (0 == _fsm_prepend_state(M2MLinkState::SYNC_TENTATIVE)) {
     if (0 == _fsm_prepend_state(M2MLinkState::SYNC_RESYNC)) {
-- 
2.43.0


From b0f25896e5148b35cd8e176c26ea66b50f5c6ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:45 +0000
Subject: [PATCH 113/224] fix: M2MLink: repeated hangups, replies, and sync
 losses filled the state route until the link was stuck

---
 src/M2MLink/M2MLink.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 4866726..d99b64e 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -276,7 +276,7 @@ int8_t M2MLink::poll(StringBuilder* log_ret) {
       }
       // A CONNECT message is lost if the counterparty was still resyncing when
       //   it arrived. So repeat it until there is a reply.
-      if ((M2MLinkState::SYNC_TENTATIVE == currentState()) && _fsm_is_stable()) {
+      if (M2MLinkState::SYNC_TENTATIVE == currentState()) {
         if (millis_since(_ms_last_connect) > _opts.ms_timeout) {
           _send_connect_message();
         }
@@ -311,7 +311,10 @@ int8_t M2MLink::hangup(bool graceful) {
     case M2MLinkState::LIVE:
       forced_hangup = !graceful;
       if (graceful) {
-        ret = _fsm_append_route(2, M2MLinkState::PENDING_HANGUP, M2MLinkState::HUNGUP);
+        ret = -2;
+        if (!_fsm_state_planned(M2MLinkState::PENDING_HANGUP)) {
+          ret = _fsm_append_route(2, M2MLinkState::PENDING_HANGUP, M2MLinkState::HUNGUP);
+        }
       }
       break;
 
@@ -715,7 +718,7 @@ int8_t M2MLink::_churn_inbound() {
               }
             }
           }
-          else {
+          else if (_fsm_is_stable()) {
             _fsm_append_route(1, M2MLinkState::LIVE);
           }
           _flags.set(M2MLINK_FLAG_ESTABLISHED);
@@ -750,7 +753,9 @@ int8_t M2MLink::_churn_inbound() {
           if (0 == temp->ack()) {
             if (0 == _send_msg(temp)) {
               gc_message = false;
-              _fsm_append_route(2, M2MLinkState::PENDING_HANGUP, M2MLinkState::HUNGUP);
+              if (!_fsm_state_planned(M2MLinkState::HUNGUP)) {
+                _fsm_append_route(2, M2MLinkState::PENDING_HANGUP, M2MLinkState::HUNGUP);
+              }
             }
           }
           if (gc_message & (_verbosity >= LOG_LEV_ERROR)) {
@@ -1705,6 +1710,9 @@ int8_t M2MLink::_fsm_insert_sync_states() {
   if (_fsm_is_next_pos(M2MLinkState::SYNC_RESYNC) | _flags.value(M2MLINK_FLAG_HANGUP_FORCED)) {
     ret = 0;   // Already planned, or pointless. Don't fill the route with it.
   }
+  else if (M2MLinkState::SYNC_RESYNC == currentState()) {
+    ret = 0;   // Already underway.
+  }
   else if (0 == _fsm_prepend_state(M2MLinkState::SYNC_TENTATIVE)) {
     if (0 == _fsm_prepend_state(M2MLinkState::SYNC_RESYNC)) {
       ret = 0;
-- 
2.43.0


From 51d22c2ba361d6e635f9d559e5417ebee5a4cb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:46 +0000
Subject: [PATCH 114/224] fix: M2MLink: searching for sync ate the middle of a
 message being received

---
 src/M2MLink/M2MLink.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index d99b64e..7665142 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -1178,6 +1178,12 @@ int8_t M2MLink::_process_input_buffer() {
   switch (currentState()) {
     // If the link is actively trying to attain sync...
     case M2MLinkState::SYNC_RESYNC:
+      if (nullptr != _working) {
+        // Sync was found, and a message has begun after it. Culling the input
+        //   would take bytes from the middle of that message.
+        proc_fallthru = true;
+        break;
+      }
       switch (_process_for_sync()) {
         case -1:   // insufficient length. No change to input data.
         case 0:    // no sync was found and so the input data was maximally culled.
-- 
2.43.0


From d2afc5b5b3fbc1b660f7b9234a44e3f7e3a1cf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:27 +0000
Subject: [PATCH 115/224] fix: M2MMsgHdr: an ID drawn as zero made a message
 that could not be sent

---
 src/M2MLink/M2MMsgHdr.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/M2MLink/M2MMsgHdr.cpp b/src/M2MLink/M2MMsgHdr.cpp
index 1833853..12977ff 100644
--- a/src/M2MLink/M2MMsgHdr.cpp
+++ b/src/M2MLink/M2MMsgHdr.cpp
@@ -42,7 +42,8 @@ M2MMsgHdr::M2MMsgHdr(M2MMsgCode m, uint8_t pl_len, uint8_t f, uint32_t i) :
     // Assign an ID automatically, if needed.
     if (M2MMsgCode::SYNC_KEEPALIVE != m) {
       // SYNC is allowed to have a reply with no ID.
-      msg_id = (0x00FFFFFF & randomUInt32());
+      // Zero isn't an ID, and such a header would be invalid.
+      do {  msg_id = (0x00FFFFFF & randomUInt32());  } while (0 == msg_id);
     }
   }
 
-- 
2.43.0


From f7f64029b3eb68755198c48979a4ce57574c1ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:22 +0000
Subject: [PATCH 116/224] fix: a time series' map can't overwrite memory with
 values of unexpected types

---
 src/TimeSeries/TimeSeries.cpp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/TimeSeries/TimeSeries.cpp b/src/TimeSeries/TimeSeries.cpp
index c05a8bd..784a789 100644
--- a/src/TimeSeries/TimeSeries.cpp
+++ b/src/TimeSeries/TimeSeries.cpp
@@ -251,22 +251,33 @@ template <> int C3PTypeConstraint<TimeSeriesBase*>::serialize(void* _obj, String
 }
 
 
+/*
+* Takes the value of a key, provided it can be represented as the type at trg.
+* The map may have come from anywhere, so the types of its values can't be
+*   assumed. If the key is missing, or has an unusable type, trg is unchanged.
+*/
+template <class T> static bool _take_typed_value(KeyValuePair* kvp, const char* KEY, T* trg) {
+  C3PValue* val = kvp->valueWithKey(KEY);
+  return ((nullptr != val) && (0 == val->get_as(trg)));
+}
+
+
 template <> int8_t C3PTypeConstraint<TimeSeriesBase*>::construct(void* _obj, KeyValuePair* kvp) {
   int8_t ret = -1;
   if ((nullptr != _obj) & (nullptr != kvp)) {
     ret--;
     // Always take win, because it may indicate a re-windowing.
     uint32_t win_sz = 0;
-    const bool CONTAINED_WIN_KEY = (0 == kvp->valueWithKey("win", &win_sz));
+    const bool CONTAINED_WIN_KEY = _take_typed_value(kvp, "win", &win_sz);
 
     TimeSeriesBase* obj = *((TimeSeriesBase**) _obj);
     if (nullptr == obj) {
       // TimeSeriesBase requires tc in order to allocate, and having windowSize
       //   up-front is also helpful (but not required). If the key isn't in the
       //   received structure, it will be left as zero.
-      TCode tc_val = TCode::NONE;
-      if (0 == kvp->valueWithKey("tc", (uint8_t*) &tc_val)) {
-        switch (tc_val) {
+      uint8_t tc_val = 0;
+      if (_take_typed_value(kvp, "tc", &tc_val)) {
+        switch ((TCode) tc_val) {
           case TCode::UINT8:   obj = (TimeSeriesBase*) new TimeSeries<uint8_t>(win_sz);   break;
           case TCode::UINT16:  obj = (TimeSeriesBase*) new TimeSeries<uint16_t>(win_sz);  break;
           case TCode::UINT32:  obj = (TimeSeriesBase*) new TimeSeries<uint32_t>(win_sz);  break;
@@ -296,8 +307,8 @@ template <> int8_t C3PTypeConstraint<TimeSeriesBase*>::construct(void* _obj, Key
       // First: Do the order invariant things.
       char* name_val   = nullptr;
       char* unit_val   = nullptr;
-      kvp->valueWithKey("n", &name_val);
-      kvp->valueWithKey("u", &unit_val);
+      _take_typed_value(kvp, "n", &name_val);
+      _take_typed_value(kvp, "u", &unit_val);
       if (name_val) {  obj->name(name_val);             }
       if (unit_val) {  obj->units((SIUnit*) unit_val);  }
 
@@ -307,11 +318,11 @@ template <> int8_t C3PTypeConstraint<TimeSeriesBase*>::construct(void* _obj, Key
         obj->windowSize(win_sz);  // This will initialize, as well.
       }
 
-      kvp->valueWithKey("ttl", &(obj->_samples_total));
+      _take_typed_value(kvp, "ttl", &(obj->_samples_total));
 
       uint32_t idx_val = 0;
       C3PValue* dat_val = kvp->valueWithKey("dat");
-      const bool CONTAINED_IDX_KEY = (0 == kvp->valueWithKey("idx", &idx_val));
+      const bool CONTAINED_IDX_KEY = _take_typed_value(kvp, "idx", &idx_val);
       if (CONTAINED_IDX_KEY & (nullptr != dat_val)) {
         // The dat and idx keys go together, and refer to the (samples)
         //   beginning at the (absolute index), respectively.
-- 
2.43.0


From fc6c6b7740dfca0c741c1ba2764eb4c8a5db2fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:23 +0000
Subject: [PATCH 117/224] fix: a time series' samples end where the next key of
 its map begins

---
 src/TimeSeries/TimeSeries.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/TimeSeries/TimeSeries.cpp b/src/TimeSeries/TimeSeries.cpp
index 784a789..1be5dc6 100644
--- a/src/TimeSeries/TimeSeries.cpp
+++ b/src/TimeSeries/TimeSeries.cpp
@@ -328,8 +328,11 @@ template <> int8_t C3PTypeConstraint<TimeSeriesBase*>::construct(void* _obj, Key
         //   beginning at the (absolute index), respectively.
         // But because we took ttl already, we need to do a direct mem
         //   manipulation, rather than calling feedSeries().
-        const uint32_t SAMPLE_COUNT = strict_min(dat_val->count(), obj->windowSize());
-        const uint32_t ADJUSTED_IDX = idx_val + (SAMPLE_COUNT - dat_val->count());
+        // NOTE: The values chained to dat end where the next key begins.
+        uint32_t dat_count = 1;
+        for (C3PValue* v = dat_val->nextValue(); ((nullptr != v) && !v->has_key()); v = v->nextValue()) {  dat_count++;  }
+        const uint32_t SAMPLE_COUNT = strict_min(dat_count, obj->windowSize());
+        const uint32_t ADJUSTED_IDX = idx_val + (SAMPLE_COUNT - dat_count);
         const uint32_t SIZE_OF_TYPE = sizeOfType(obj->tcode());
         uint32_t count = 0;
         while ((nullptr != dat_val) && (count < SAMPLE_COUNT)) {
-- 
2.43.0


From 1e01057b90234f3c7e431cb2fc1358dbfc26986d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:43 +0000
Subject: [PATCH 118/224] fix: an identity without a whole handle or UUID was
 read past its buffer

---
 src/Identity/Identity.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/Identity/Identity.cpp b/src/Identity/Identity.cpp
index 3d2b991..5ec3156 100644
--- a/src/Identity/Identity.cpp
+++ b/src/Identity/Identity.cpp
@@ -104,9 +104,16 @@ Identity* Identity::fromBuffer(uint8_t* buf, int len) {
     uint16_t ident_flg = (((uint16_t) *(buf+2)) << 8) + *(buf+3);
     IdentFormat fmt = (IdentFormat) *(buf+4);
 
-    if (ident_len <= len) {
-      len -= (IDENTITY_BASE_PERSIST_LENGTH - 1);  // Incur deficit for null-term.
-      buf += (IDENTITY_BASE_PERSIST_LENGTH - 1);  // Incur deficit for null-term.
+    // Only the bytes that the identity claims are its own, and they must contain
+    //   the handle's null-terminator.
+    if ((ident_len <= len) && (ident_len >= IDENTITY_BASE_PERSIST_LENGTH)) {
+      len = (int) ident_len - (IDENTITY_BASE_PERSIST_LENGTH - 1);  // Incur deficit for null-term.
+      buf += (IDENTITY_BASE_PERSIST_LENGTH - 1);                   // Incur deficit for null-term.
+      const uint8_t* TERM = (const uint8_t*) memchr(buf, 0, len);
+      if (nullptr == TERM) {
+        return return_value;
+      }
+      const int EXTRA_LEN = len - (int) ((TERM - buf) + 1);
 
       // TODO: I now have a better way of doing this. Implementation will have to wait.
       switch (fmt) {
@@ -114,7 +121,9 @@ Identity* Identity::fromBuffer(uint8_t* buf, int len) {
           // TODO: Ill-conceived? Why persist a hardware serial number???
           break;
         case IdentFormat::UUID:
-          return_value = (Identity*) new IdentityUUID(buf, (uint16_t) len);
+          if (EXTRA_LEN >= (int) sizeof(UUID)) {
+            return_value = (Identity*) new IdentityUUID(buf, (uint16_t) len);
+          }
           break;
         case IdentFormat::L2_MAC:
           // TODO: This
-- 
2.43.0


From 29c11d9e67d29fac626f589724f1336a2c0fcf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:51 +0000
Subject: [PATCH 119/224] fix: an identity with a handle of 64K or more lost
 its terminator

---
 src/Identity/Identity.cpp | 7 ++++---
 src/Identity/Identity.h   | 1 +
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Identity/Identity.cpp b/src/Identity/Identity.cpp
index 5ec3156..b758386 100644
--- a/src/Identity/Identity.cpp
+++ b/src/Identity/Identity.cpp
@@ -220,11 +220,12 @@ void Identity::staticToString(Identity* ident, StringBuilder* output) {
 
 Identity::Identity(const char* nom, IdentFormat _f) {
   _format = _f;
-  _ident_len = strlen(nom);   // TODO: Scary....
+  // The length of the whole identity must fit its length field.
+  _ident_len = (uint16_t) strnlen(nom, IDENTITY_MAX_HANDLE_LENGTH);
   _handle = (char*) malloc(_ident_len + 1);
   if (_handle) {
-    // Also copies the required null-terminator.
-    for (int i = 0; i < _ident_len+1; i++) *(_handle + i) = *(nom+i);
+    memcpy(_handle, nom, _ident_len);
+    *(_handle + _ident_len) = '\0';
   }
   _ident_len += IDENTITY_BASE_PERSIST_LENGTH;
 }
diff --git a/src/Identity/Identity.h b/src/Identity/Identity.h
index b258281..c2ecfaf 100644
--- a/src/Identity/Identity.h
+++ b/src/Identity/Identity.h
@@ -76,6 +76,7 @@ class Identity;  // Forward-dec
 
 
 #define IDENTITY_BASE_PERSIST_LENGTH   6  // The minimum size of the base identity class.
+#define IDENTITY_MAX_HANDLE_LENGTH     0xFF00  // Longer handles are truncated.
 #define IDENTITY_BASE_SERIAL_VERSION   1  // The serializer version.
 
 
-- 
2.43.0


From 2a933c476372d5f40208f224f3c5f2a07a12cd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:52 +0000
Subject: [PATCH 120/224] fix: an identity could only be found by the address
 of its handle

---
 src/Identity/Identity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Identity/Identity.cpp b/src/Identity/Identity.cpp
index b758386..0453275 100644
--- a/src/Identity/Identity.cpp
+++ b/src/Identity/Identity.cpp
@@ -311,7 +311,7 @@ Identity* Identity::getIdentity(IdentFormat fmt) {
 * @return     An instance of Identity that is of the given format.
 */
 Identity* Identity::getIdentity(const char* nom) {
-  if (nom == _handle) {  // TODO: Direct comparison won't work here.
+  if ((nullptr != nom) && (0 == strcmp(nom, getHandle()))) {
     return this;
   }
   else if (_next) {
-- 
2.43.0


From b6ffee6741c8e8c43e9fb9273837c13b710f6132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:53 +0000
Subject: [PATCH 121/224] fix: a link that knew its counterparty's identity
 leaked it on destruction

---
 src/M2MLink/M2MLink.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 7665142..77b8b7b 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -190,6 +190,10 @@ M2MLink::~M2MLink() {
     _reclaim_m2mmsg(_working);
     _working = nullptr;
   }
+  if (nullptr != _id_remote) {
+    delete _id_remote;
+    _id_remote = nullptr;
+  }
 }
 
 
-- 
2.43.0


From 597d1603b423266c9e6de321b734d49e88caef29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:16 +0000
Subject: [PATCH 122/224] fix: a value freed an object that it was only lent,
 if its type isn't built

---
 src/C3PValue/C3PValue.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 485d30f..1c998b7 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -229,7 +229,8 @@ C3PValue::~C3PValue() {
       }
       free(_target_mem);  // We are always responsible for this.
     }
-    else if (!_is_val_by_ref()) {
+    else if (!_is_val_by_ref() && (nullptr != getTypeHelper(_TCODE))) {
+      // NOTE: If the build doesn't support the type, we won't have allocated.
       if (!_is_ptr_punned()) {
         // In cases where we allocated the memory by this class for the sake of
         //   facilitating value-by-copy, we will free it, regardless of what
-- 
2.43.0


From 7f3ed84b1a2072254bca0a154c71ae7613b58c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:11 +0000
Subject: [PATCH 123/224] fix: record names whose length is a multiple of 256
 were refused

The length was truncated to 8 bits before being limited to the size of the key.
---
 src/Storage/SimpleDataRecord.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Storage/SimpleDataRecord.cpp b/src/Storage/SimpleDataRecord.cpp
index 8c20fda..311fe3c 100644
--- a/src/Storage/SimpleDataRecord.cpp
+++ b/src/Storage/SimpleDataRecord.cpp
@@ -244,7 +244,7 @@ int8_t SimpleDataRecord::load(uint32_t storage_tag, StringBuilder* inbound_buf)
 * @return 0 on success. -1 on failure of rule-check.
 */
 int8_t SimpleDataRecord::_sanitize_name(const char* name) {
-  const uint8_t NAME_LENGTH = strict_min((uint8_t) sizeof(_key), (uint8_t) strlen(name));
+  const uint8_t NAME_LENGTH = (uint8_t) strict_min((uint32_t) sizeof(_key), (uint32_t) strlen(name));
   int8_t ret = -1;
   if (NAME_LENGTH > 0) {
     for (uint8_t i = 0; i < sizeof(_key); i++) {
-- 
2.43.0


From 7cf00d169928f2ed52b7517953127b0151372b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 124/224] fix: the hash of a data record didn't depend on its
 content

The fall-back hash was only a function of the length. So corrupted payloads
were loaded, and isDirty() didn't notice changes. This is FNV-1a, as the comment
proposes.
---
 src/Storage/SimpleDataRecord.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Storage/SimpleDataRecord.cpp b/src/Storage/SimpleDataRecord.cpp
index 311fe3c..6603cf8 100644
--- a/src/Storage/SimpleDataRecord.cpp
+++ b/src/Storage/SimpleDataRecord.cpp
@@ -16,7 +16,12 @@ uint32_t static_hash_wrapper_fxn(const uint8_t* BUF, const uint32_t LEN) {
       // But we'll fall back to something simple if we don't have one.
       // https://en.wikipedia.org/wiki/Fowler%E2%80%93Noll%E2%80%93Vo_hash_function
     #endif  // __HAS_CRYPT_WRAPPER
-  return (0xAAAAAAAA ^ LEN);  // TODO
+  uint32_t ret = 0x811C9DC5;
+  for (uint32_t i = 0; i < LEN; i++) {
+    ret ^= *(BUF + i);
+    ret *= 0x01000193;
+  }
+  return ret;
 }
 
 
-- 
2.43.0


From 67d61713b4ca90a47fc4a9336871618fc3568bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:13 +0000
Subject: [PATCH 125/224] fix: loading a data record trusted the length it
 claims, and a refused load changed the record

The overload for StringBuilder hashed as many bytes as the descriptor claimed,
regardless of how many there were, and handed any excess to the parser. A refused
descriptor replaced that of the record (possibly with a format that it couldn't
subsequently be saved with).
---
 src/Storage/SimpleDataRecord.cpp | 45 ++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/src/Storage/SimpleDataRecord.cpp b/src/Storage/SimpleDataRecord.cpp
index 6603cf8..a96c03f 100644
--- a/src/Storage/SimpleDataRecord.cpp
+++ b/src/Storage/SimpleDataRecord.cpp
@@ -183,13 +183,24 @@ int8_t SimpleDataRecord::save(uint32_t storage_tag, const char* name, StringBuil
 */
 int8_t SimpleDataRecord::load(uint32_t storage_tag, uint8_t* inbound_buf, uint32_t buf_len) {
   int8_t ret = -1;
-  if (buf_len > DATARECORD_BASE_SIZE) {
+  // If the load is refused, this record must remain as it was.
+  const uint32_t PRIOR_TAG         = _storage_tag;
+  const uint8_t  PRIOR_VERSION     = _version;
+  const uint8_t  PRIOR_FLAGS       = _flags;
+  const TCode    PRIOR_FORMAT      = _format;
+  const uint32_t PRIOR_DATA_LENGTH = _data_length;
+  const uint64_t PRIOR_TIMESTAMP   = _timestamp;
+  const uint32_t PRIOR_HASH        = _hash;
+  uint8_t PRIOR_KEY[sizeof(_key)];
+  memcpy(PRIOR_KEY, _key, sizeof(_key));
+
+  if ((nullptr != inbound_buf) && (buf_len > DATARECORD_BASE_SIZE)) {
     StringBuilder desc_container(inbound_buf, DATARECORD_BASE_SIZE);
     if (0 == _descriptor_deserialize(&desc_container)) {
       ret--;
       if (_storage_tag == storage_tag) {
+        ret--;
         if ((buf_len - DATARECORD_BASE_SIZE) >= _data_length) {
-          ret--;
           if (_hash == static_hash_wrapper_fxn((inbound_buf+DATARECORD_BASE_SIZE), _data_length)) {
             // Hash matches. Cull the useless edges of the buffer...
             ret--;
@@ -203,6 +214,17 @@ int8_t SimpleDataRecord::load(uint32_t storage_tag, uint8_t* inbound_buf, uint32
       }
     }
   }
+
+  if (0 != ret) {
+    _storage_tag = PRIOR_TAG;
+    _version     = PRIOR_VERSION;
+    _flags       = PRIOR_FLAGS;
+    _format      = PRIOR_FORMAT;
+    _data_length = PRIOR_DATA_LENGTH;
+    _timestamp   = PRIOR_TIMESTAMP;
+    _hash        = PRIOR_HASH;
+    memcpy(_key, PRIOR_KEY, sizeof(_key));
+  }
   return ret;
 }
 
@@ -215,21 +237,10 @@ int8_t SimpleDataRecord::load(uint32_t storage_tag, uint8_t* inbound_buf, uint32
 *         -4 on failure to deserialize
 */
 int8_t SimpleDataRecord::load(uint32_t storage_tag, StringBuilder* inbound_buf) {
-  int8_t ret = -1;
-  if (0 == _descriptor_deserialize(inbound_buf)) {
-    ret--;
-    if (_storage_tag == storage_tag) {
-      ret--;
-      if (_hash == static_hash_wrapper_fxn((inbound_buf->string()+DATARECORD_BASE_SIZE), _data_length)) {
-        // Hash matches. Cull the useless edges of the buffer...
-        inbound_buf->cull(DATARECORD_BASE_SIZE);
-        ret--;
-        if (0 == deserialize(inbound_buf, _format)) {
-          _dr_set_flag(DATA_RECORD_FLAG_WAS_LOADED);
-          ret = 0;
-        }
-      }
-    }
+  const int8_t ret = load(storage_tag, inbound_buf->string(), inbound_buf->length());
+  if ((0 == ret) | (-4 == ret)) {
+    // Hash matched. Cull the useless edges of the buffer...
+    inbound_buf->cull(DATARECORD_BASE_SIZE);
   }
   return ret;
 }
-- 
2.43.0


From d348eea844bdafdfba3df09fc5e577918d79eb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:21 +0000
Subject: [PATCH 126/224] fix: configuration records couldn't be loaded

The serialized values were declared to be as many array elements as there are
keys, and a key whose value was never set was written without a value. Loaded
values were appended to the existing data, where they were never seen, and made
the record fail to serialize from then on.
---
 src/Storage/RecordTypes/ConfRecord.cpp | 109 ++++++++++++++++++++++---
 src/Storage/RecordTypes/ConfRecord.h   |   1 +
 2 files changed, 98 insertions(+), 12 deletions(-)

diff --git a/src/Storage/RecordTypes/ConfRecord.cpp b/src/Storage/RecordTypes/ConfRecord.cpp
index a1a89c7..395875b 100644
--- a/src/Storage/RecordTypes/ConfRecord.cpp
+++ b/src/Storage/RecordTypes/ConfRecord.cpp
@@ -263,13 +263,36 @@ int8_t ConfRecord::serialize(StringBuilder* out, TCode format) {
       {
         cbor::output_stringbuilder output(out);
         cbor::encoder encoder(output);
-        encoder.write_map(2);
+        // Values that have never been set might have no representation. They
+        //   are left out.
+        StringBuilder packed_values;
+        StringBuilder key_export;
+        uint32_t packed_count = 0;
+        _key_list(&key_export);
+        while (0 < key_export.count()) {
+          char* key_str = key_export.position(0);
+          KeyValuePair* src = _kvp->valueWithKey(key_str);
+          if (nullptr != src) {
+            StringBuilder packed;
+            C3PValue val(src->tcode());
+            if ((0 == val.set((C3PValue*) src)) && (0 == val.serialize(&packed, format))) {
+              cbor::output_stringbuilder key_output(&packed_values);
+              cbor::encoder key_encoder(key_output);
+              key_encoder.write_string(key_str);
+              packed_values.concatHandoff(&packed);
+              packed_count++;
+            }
+          }
+          key_export.drop_position(0);
+        }
+        encoder.write_map((0 < packed_count) ? 2 : 1);
           serialize_cbor_kvp_for_record(&encoder);  // Accounts for the first KVP.
-          encoder.write_string(_list_name());    // Accounts for the second KVP.
-          encoder.write_array(_key_count());
-          _kvp->serialize(out, format);
-
-        ret = 0;  // TODO: Error handling?
+          if (0 < packed_count) {
+            encoder.write_string(_list_name());     // Accounts for the second KVP.
+            encoder.write_map(packed_count);
+            out->concatHandoff(&packed_values);
+          }
+        ret = 0;
       }
       #endif
       break;
@@ -283,20 +306,82 @@ int8_t ConfRecord::serialize(StringBuilder* out, TCode format) {
 }
 
 
+/**
+* Takes the values of our own keys from the given data. Keys that are unknown to
+*   us are ignored, and values of ours that aren't given remain as they are.
+* If any value can't be converted to the type of its key, nothing is changed.
+*
+* @param src is the data to take the values from.
+* @return 0 on success, -3 for type conversion failure, -4 for allocation failure.
+*/
+int8_t ConfRecord::_take_values(KeyValuePair* src) {
+  int8_t ret = 0;
+  KeyValuePair* staged = nullptr;
+  StringBuilder key_export;
+  _key_list(&key_export);
+  while ((0 == ret) && (0 < key_export.count())) {
+    char* key_str = key_export.position(0);
+    KeyValuePair* val = src->valueWithKey(key_str);
+    if (nullptr != val) {
+      KeyValuePair* nu = new KeyValuePair(_key_tcode(key_str), key_str, C3PVAL_MEM_FLAG_REAP_CNTNR);
+      ret = -4;
+      if (nullptr != nu) {
+        ret = -3;
+        if (0 == nu->set((C3PValue*) val)) {
+          // The staged value takes any reference that the parser had allocated.
+          nu->reapValue(val->reapValue());
+          val->reapValue(false);
+          ret = 0;
+        }
+        if (nullptr == staged) {  staged = nu;        }
+        else {                    staged->link(nu);   }
+      }
+    }
+    key_export.drop_position(0);
+  }
+
+  C3PValue* current = staged;
+  while ((0 == ret) && (nullptr != current)) {
+    KeyValuePair* dest = _kvp->valueWithKey(((KeyValuePair*) current)->getKey());
+    if ((nullptr != dest) && (0 == dest->set(current))) {
+      dest->reapValue(current->reapValue());
+      current->reapValue(false);
+    }
+    current = current->nextValue();
+  }
+  if (nullptr != staged) {  delete staged;  }
+  return ret;
+}
+
+
 int8_t ConfRecord::deserialize(StringBuilder* raw, TCode format) {
   int8_t ret = -1;
-  if (!allocated()) {
+  if (!allocated(true)) {
     return ret;  // TODO: Return contract spec'd where?
   }
   switch (format) {
     case TCode::CBOR:
       #if defined(__BUILD_HAS_CBOR)
       {
-        CBORArgListener cl(&_kvp);
-        cbor::input_static input(raw->string(), raw->length());
-        cbor::decoder decoder(input, cl);
-        decoder.run();
-        ret = (decoder.failed() ? -2 : 0);
+        StringBuilder input(raw->string(), raw->length());
+        C3PValueDecoder decoder(&input);
+        C3PValue* root = decoder.next();
+        ret = -2;
+        if (nullptr != root) {
+          if (root->has_key() && input.isEmpty()) {
+            KeyValuePair* list = ((KeyValuePair*) root)->valueWithKey(_list_name());
+            if (nullptr != list) {
+              KeyValuePair* src = ((TCode::KVP == list->tcode()) ? list->get_as_kvp() : nullptr);
+              if (nullptr != src) {
+                ret = _take_values(src);
+              }
+            }
+            else if (1 == root->count()) {
+              ret = 0;  // A record without values has no list.
+            }
+          }
+          delete root;
+        }
       }
       #endif
       break;
diff --git a/src/Storage/RecordTypes/ConfRecord.h b/src/Storage/RecordTypes/ConfRecord.h
index 41da4b5..c3f71df 100644
--- a/src/Storage/RecordTypes/ConfRecord.h
+++ b/src/Storage/RecordTypes/ConfRecord.h
@@ -112,6 +112,7 @@ class ConfRecord : public SimpleDataRecord {
 
     int8_t  _discard_allocations();
     int32_t _allocate_kvp();
+    int8_t  _take_values(KeyValuePair*);
 
     int8_t _set_conf(const char* KEY, const TCode, void* val);
     int8_t _get_conf(const char* KEY, const TCode, void* val);
-- 
2.43.0


From 4fee879bd5308558d98d99dae7f12e5676cf6819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:21 +0000
Subject: [PATCH 127/224] fix: image sizes overflowed, and the buffer was then
 too small

The number of bits was computed in 32 bits, and the number of pixels as a signed
int. A failed allocation left the flag of ownership, by which a buffer that was
lent later on would have been freed.
---
 src/Image/Image.cpp | 12 ++++++++----
 src/Image/Image.h   |  2 +-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index d59501c..8c2bd5d 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -566,11 +566,11 @@ bool Image::reallocate() {
 
 uint32_t Image::bytesUsed() {
   if (ImgBufferFormat::UNALLOCATED == _buf_fmt) return 0;
-  const uint32_t PIXEL_COUNT  = pixels();
+  const uint64_t PIXEL_COUNT  = ((uint64_t) _x * _y);
   const uint8_t  BPP          = _bits_per_pixel();
-  const uint32_t TOTAL_BITS   = (PIXEL_COUNT * BPP);
+  const uint64_t TOTAL_BITS   = (PIXEL_COUNT * BPP);
   const uint32_t PADDING_BYTE = ((TOTAL_BITS & 7) ? 1:0);
-  return ((TOTAL_BITS >> 3) + PADDING_BYTE);
+  return (uint32_t) strict_min((uint64_t) ((TOTAL_BITS >> 3) + PADDING_BYTE), (uint64_t) 0xFFFFFFFF);
 };
 
 
@@ -586,9 +586,13 @@ int8_t Image::_buffer_allocator() {
         return ret;
       }
       free(_buffer);
+      _buffer = nullptr;
+      _ours(false);
     }
     ret--;
-    _buffer = (uint8_t*) malloc(bytesUsed());
+    if (0xFFFFFFFF > bytesUsed()) {   // The size saturates if it isn't representable.
+      _buffer = (uint8_t*) malloc(bytesUsed());
+    }
     if (allocated()) {
       _ours(true);
       memset(_buffer, 0, bytesUsed());
diff --git a/src/Image/Image.h b/src/Image/Image.h
index 26f10c3..6041b2e 100644
--- a/src/Image/Image.h
+++ b/src/Image/Image.h
@@ -219,7 +219,7 @@ class Image {
     inline uint8_t*        buffer() {         return _buffer;                                };
     inline ImgBufferFormat format() {         return _buf_fmt;                               };
     inline bool            allocated() {      return (nullptr != _buffer);                   };
-    inline uint32_t        pixels() {         return (_x * _y);                              };
+    inline uint32_t        pixels() {         return ((uint32_t) _x * _y);                   };
 
     inline uint8_t         bitsPerPixel() {   return _bits_per_pixel(_buf_fmt);              };
     inline bool            isFrameBuffer() {  return _img_flag(C3P_IMG_FLAG_IS_FRAMEBUFFER); };
-- 
2.43.0


From a20607a1486cfcc4b3dfd4d8a1dd52c51056986d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:23 +0000
Subject: [PATCH 128/224] fix: an image that refused a new size or format took
 it without the buffer for it

Drawing then went beyond the end of the buffer the image was lent.
---
 src/Image/Image.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index 8c2bd5d..d945e1e 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -536,6 +536,10 @@ bool Image::setBufferByCopy(uint8_t* buf, ImgBufferFormat fmt) {
         memcpy(_buffer, buf, bytesUsed());
         return true;
       }
+      else if (allocated()) {
+        // The existing buffer remains. So its format must as well.
+        _buf_fmt = old_fmt;
+      }
     }
   }
   else {
@@ -550,9 +554,17 @@ bool Image::setBufferByCopy(uint8_t* buf, ImgBufferFormat fmt) {
 
 
 bool Image::setSize(PixUInt x, PixUInt y) {
+  const PixUInt PRIOR_X = _x;
+  const PixUInt PRIOR_Y = _y;
   _x = x;
   _y = y;
-  return (0 == _buffer_allocator());
+  const bool ret = (0 == _buffer_allocator());
+  if (!ret && allocated()) {
+    // The existing buffer remains. So its size must as well.
+    _x = PRIOR_X;
+    _y = PRIOR_Y;
+  }
+  return ret;
 }
 
 
-- 
2.43.0


From 50f5d6a6dd1e4dc73210c468c2731fe2679a7f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:29 +0000
Subject: [PATCH 129/224] fix: setting a pixel wrote out of bounds, and wasn't
 what was then read

Neither the bounds nor the presence of the buffer were checked, such that
drawing beyond an edge corrupted memory, or the next line. 24-bit pixels were
written at a stride of four bytes, 16-bit pixels in the byte order of the host,
and the return value was always false.
---
 src/Image/Image.cpp | 17 +++++++++--------
 src/Image/Image.h   | 35 +++++++++++++++++++++++++----------
 2 files changed, 34 insertions(+), 18 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index d945e1e..698396e 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -914,11 +914,10 @@ void Image::_remap_for_orientation(PixUInt* xn, PixUInt* yn) {
 */
 uint32_t Image::getPixel(PixUInt x, PixUInt y) {
   uint32_t ret = 0;
-  uint32_t sz = bytesUsed();
   _remap_for_orientation(&x, &y);
-  uint32_t offset = _pixel_offset(x, y);
 
-  if (offset < sz) {
+  if (_in_bounds(x, y)) {
+    uint32_t offset = _pixel_offset(x, y);
     switch (_buf_fmt) {
       case ImgBufferFormat::R8_G8_B8_ALPHA:    // 32-bit color
         // TODO: Presumption of little-endian framebuffer.
@@ -1058,6 +1057,9 @@ uint32_t Image::getPixelAsFormat(PixUInt x, PixUInt y, ImgBufferFormat target_fm
 */
 bool Image::setPixel(PixUInt x, PixUInt y, uint32_t c) {
   _remap_for_orientation(&x, &y);
+  if (!_in_bounds(x, y)) {
+    return false;
+  }
   switch (_buf_fmt) {
     case ImgBufferFormat::R3_G3_B2:          // 8-bit color
     case ImgBufferFormat::GREY_8:            // 8-bit greyscale
@@ -1085,9 +1087,9 @@ bool Image::setPixel(PixUInt x, PixUInt y, uint32_t c) {
       break;
     case ImgBufferFormat::UNALLOCATED:       // Buffer unallocated
     default:
-      break;;
+      return false;
   }
-  return false;
+  return true;
 }
 
 
@@ -1096,9 +1098,8 @@ bool Image::setPixel(PixUInt x, PixUInt y, uint32_t c) {
 */
 bool Image::setPixel(PixUInt x, PixUInt y, uint8_t r, uint8_t g, uint8_t b) {
   _remap_for_orientation(&x, &y);
-  uint32_t sz = bytesUsed();
-  uint32_t offset = _pixel_offset(x, y);
-  if (offset < sz) {
+  if (_in_bounds(x, y)) {
+    uint32_t offset = _pixel_offset(x, y);
     switch (_buf_fmt) {
       case ImgBufferFormat::GREY_24:           // 24-bit greyscale   TODO: Wrong. Has to be.
       case ImgBufferFormat::R8_G8_B8:          // 24-bit color
diff --git a/src/Image/Image.h b/src/Image/Image.h
index 6041b2e..7c4663b 100644
--- a/src/Image/Image.h
+++ b/src/Image/Image.h
@@ -307,25 +307,40 @@ class Image {
     int8_t _buffer_allocator();
     void _remap_for_orientation(PixUInt* x, PixUInt* y);
 
-    inline void _set_pixel_32(PixUInt x, PixUInt y, uint32_t c) {
-      *((uint32_t*) (_buffer + (_pixel_number(x, y) << 2))) = c;
+    // These write what getPixel() reads.
+    inline void _set_pixel_32(PixUInt x, PixUInt y, uint32_t c) {    _write_pixel_32(_pixel_number(x, y), c);   };
+    inline void _set_pixel_24(PixUInt x, PixUInt y, uint32_t c) {    _write_pixel_24(_pixel_number(x, y), c);   };
+    inline void _set_pixel_16(PixUInt x, PixUInt y, uint32_t c) {    _write_pixel_16(_pixel_number(x, y), c);   };
+    inline void _set_pixel_8(PixUInt x, PixUInt y, uint32_t c) {
+      *(_buffer + _pixel_number(x, y)) = (uint8_t) c;
     };
-    inline void _set_pixel_24(PixUInt x, PixUInt y, uint32_t c) {
-      // TODO: Wrong.
-      *((uint32_t*) (_buffer + (_pixel_number(x, y) << 2))) = c;
+    inline void _write_pixel_32(const uint32_t PIXEL, uint32_t c) {
+      uint8_t* p = _buffer + ((size_t) PIXEL << 2);
+      *(p + 0) = (uint8_t) (c & 0xFF);
+      *(p + 1) = (uint8_t) ((c >> 8) & 0xFF);
+      *(p + 2) = (uint8_t) ((c >> 16) & 0xFF);
+      *(p + 3) = (uint8_t) ((c >> 24) & 0xFF);
     };
-    inline void _set_pixel_16(PixUInt x, PixUInt y, uint32_t c) {
-      *((uint16_t*) (_buffer + (_pixel_number(x, y) << 1))) = (uint16_t) c;
+    inline void _write_pixel_24(const uint32_t PIXEL, uint32_t c) {
+      uint8_t* p = _buffer + ((size_t) PIXEL * 3);
+      *(p + 0) = (uint8_t) ((c >> 16) & 0xFF);
+      *(p + 1) = (uint8_t) ((c >> 8) & 0xFF);
+      *(p + 2) = (uint8_t) (c & 0xFF);
     };
-    inline void _set_pixel_8(PixUInt x, PixUInt y, uint32_t c) {
-      *(_buffer + _pixel_number(x, y)) = (uint8_t) c;
+    inline void _write_pixel_16(const uint32_t PIXEL, uint32_t c) {
+      uint8_t* p = _buffer + ((size_t) PIXEL << 1);
+      *(p + 0) = (uint8_t) ((c >> 8) & 0xFF);
+      *(p + 1) = (uint8_t) (c & 0xFF);
     };
 
     /* Linearizes the X/y value in preparation for array indexing. */
     inline uint32_t _pixel_number(uint32_t x, uint32_t y) {      return ((y * _x) + x);    };
 
     /* Returns the byte offset in the buffer that holds the pixel. */
-    inline uint32_t _pixel_offset(PixUInt x, PixUInt y) {    return ((_pixel_number(x, y) * _bits_per_pixel()) >> 3);  };
+    inline uint32_t _pixel_offset(PixUInt x, PixUInt y) {    return (uint32_t) (((uint64_t) _pixel_number(x, y) * _bits_per_pixel()) >> 3);  };
+
+    /* Is the (remapped) address within a buffer that we have? */
+    inline bool _in_bounds(PixUInt x, PixUInt y) {    return (allocated() && (x < _x) && (y < _y));    };
 
     inline bool  _is_ours() {     return _img_flag(C3P_IMG_FLAG_BUFFER_OURS); };
     inline void  _ours(bool l) {  _img_set_flag(C3P_IMG_FLAG_BUFFER_OURS, l); };
-- 
2.43.0


From b830f421f0920f375b636551451468541f50bd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:38 +0000
Subject: [PATCH 130/224] fix: monochrome images whose height isn't a multiple
 of 8 mixed up their pixels

The rows of the last partial page shared their bits with other pixels, or were
outside of the buffer. The layout of images of other heights is unchanged.
---
 src/Image/Image.cpp | 18 +++++++++---------
 src/Image/Image.h   |  6 ++++++
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index 698396e..800fbea 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -942,9 +942,9 @@ uint32_t Image::getPixel(PixUInt x, PixUInt y) {
         break;
       case ImgBufferFormat::MONOCHROME:        // Monochrome
         {
-          const uint32_t term0 = (_y >> 3);
-          const uint8_t bit_mask = 1 << (7 - (y & 0x07));
-          offset = x * term0 + (term0 - (y >> 3) - 1);
+          const uint32_t BIT = _mono_bit(x, y);
+          const uint8_t bit_mask = 1 << (7 - (BIT & 0x07));
+          offset = (BIT >> 3);
           uint8_t byte_group = *(_buffer + offset);
           // Full saturation on boolean pixel value.
           ret = (byte_group & bit_mask) ? 0xFFFFFFFF : 0;
@@ -1078,9 +1078,9 @@ bool Image::setPixel(PixUInt x, PixUInt y, uint32_t c) {
       break;
     case ImgBufferFormat::MONOCHROME:        // Monochrome
       {
-        const PixUInt term0 = (_y >> 3);
-        const uint32_t offset = x * term0 + (term0 - (y >> 3) - 1);
-        const uint8_t bit_mask = 1 << (7 - (y & 0x07));
+        const uint32_t BIT = _mono_bit(x, y);
+        const uint32_t offset = (BIT >> 3);
+        const uint8_t bit_mask = 1 << (7 - (BIT & 0x07));
         uint8_t byte_group = *(_buffer + offset);
         *(_buffer + offset) = (byte_group & ~bit_mask) | ((0 == c) ? 0 : bit_mask);
       }
@@ -1118,9 +1118,9 @@ bool Image::setPixel(PixUInt x, PixUInt y, uint8_t r, uint8_t g, uint8_t b) {
         break;
       case ImgBufferFormat::MONOCHROME:        // Monochrome
         {
-          const PixUInt term0 = (_y >> 3);
-          const uint8_t bit_mask = 1 << (7 - (y & 0x07));
-          offset = x * term0 + (term0 - (y >> 3) - 1);
+          const uint32_t BIT = _mono_bit(x, y);
+          const uint8_t bit_mask = 1 << (7 - (BIT & 0x07));
+          offset = (BIT >> 3);
           uint8_t byte_group = *(_buffer + offset);
           *(_buffer + offset) = (byte_group & ~bit_mask) | ((0 == ((uint16_t) r + g + b)) ? 0 : bit_mask);
         }
diff --git a/src/Image/Image.h b/src/Image/Image.h
index 7c4663b..ea6dedf 100644
--- a/src/Image/Image.h
+++ b/src/Image/Image.h
@@ -339,6 +339,12 @@ class Image {
     /* Returns the byte offset in the buffer that holds the pixel. */
     inline uint32_t _pixel_offset(PixUInt x, PixUInt y) {    return (uint32_t) (((uint64_t) _pixel_number(x, y) * _bits_per_pixel()) >> 3);  };
 
+    /* Monochrome pixels are stored by columns of eight-pixel pages, the lowest page first. */
+    inline uint32_t _mono_bit(PixUInt x, PixUInt y) {
+      const uint32_t PAGE_END = strict_min((uint32_t) _y, (uint32_t) ((y | 0x07) + 1));
+      return (((uint32_t) x * _y) + (_y - PAGE_END) + (y & 0x07));
+    };
+
     /* Is the (remapped) address within a buffer that we have? */
     inline bool _in_bounds(PixUInt x, PixUInt y) {    return (allocated() && (x < _x) && (y < _y));    };
 
-- 
2.43.0


From c8f9e49a57d6e75d66001350f21adb6df5f64ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:40 +0000
Subject: [PATCH 131/224] fix: discrete RGB values were garbled in 16-bit and
 8-bit images

The high bits of each channel were discarded, rather than the low ones.
---
 src/Image/Image.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index 800fbea..7a35498 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -1109,12 +1109,12 @@ bool Image::setPixel(PixUInt x, PixUInt y, uint8_t r, uint8_t g, uint8_t b) {
         break;
       case ImgBufferFormat::GREY_16:           // 16-bit greyscale   TODO: Wrong. Has to be.
       case ImgBufferFormat::R5_G6_B5:          // 16-bit color
-        *(_buffer + offset + 0) = ((uint16_t) ((r << 3) & 0xF8) << 8) | ((g >> 3) & 0x07);
-        *(_buffer + offset + 1) = ((uint16_t) ((g << 5) & 0xE0) << 8) | ((b >> 3) & 0x1F);
+        *(_buffer + offset + 0) = (r & 0xF8) | ((g >> 5) & 0x07);
+        *(_buffer + offset + 1) = ((g << 3) & 0xE0) | ((b >> 3) & 0x1F);
         break;
       case ImgBufferFormat::GREY_8:            // 8-bit greyscale    TODO: Wrong. Has to be.
       case ImgBufferFormat::R3_G3_B2:          // 8-bit color
-        *(_buffer + offset) = ((uint8_t) (r << 6) & 0xE0) | ((uint8_t) (g << 2) & 0x1C) | (b & 0x07);
+        *(_buffer + offset) = (r & 0xE0) | ((g >> 3) & 0x1C) | ((b >> 6) & 0x03);
         break;
       case ImgBufferFormat::MONOCHROME:        // Monochrome
         {
-- 
2.43.0


From 5e2aa8673f6f1dcd128ef691b4d9ccdcf5267468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:41 +0000
Subject: [PATCH 132/224] fix: filling a 24-bit image wrote beyond the end of
 its buffer

The stride was four bytes. 16-bit images were filled in the byte order of the
host, unlike getPixel() reads them, a monochrome image's last pixels were missed,
and an image without a buffer was a null dereference.
---
 src/Image/Image.cpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index 7a35498..731ce67 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -1941,32 +1941,33 @@ void Image::drawBitmap(PixUInt x, PixUInt y, const uint8_t* bitmap, PixUInt w, P
 */
 void Image::fill(uint32_t color) {
   //uint8_t bpp = _bits_per_pixel();
+  if (!allocated()) {
+    return;
+  }
   _lock(true);
   switch (_bits_per_pixel()) {
     case 32:
-      for (uint32_t i=0; i < (_x * _y); i++) {
-        *((uint32_t*) (_buffer + (i << 2))) = (uint32_t) color;
+      for (uint32_t i=0; i < pixels(); i++) {
+        _write_pixel_32(i, color);
       }
       break;
     case 24:
-      for (uint32_t i=0; i < (_x * _y); i++) {
-        *(_buffer + (i << 2) + 0) = (uint8_t) (color >> 16) & 0xFF;
-        *(_buffer + (i << 2) + 1) = (uint8_t) (color >> 8) & 0xFF;
-        *(_buffer + (i << 2) + 2) = (uint8_t) (color & 0xFF);
+      for (uint32_t i=0; i < pixels(); i++) {
+        _write_pixel_24(i, color);
       }
       break;
     case 16:
-      for (uint32_t i=0; i < (_x * _y); i++) {
-        *((uint16_t*) (_buffer + (i << 1))) = (uint16_t) color;
+      for (uint32_t i=0; i < pixels(); i++) {
+        _write_pixel_16(i, color);
       }
       break;
     case 8:
-      for (uint32_t i=0; i < (_x * _y); i++) {
+      for (uint32_t i=0; i < pixels(); i++) {
         *(_buffer + i) = (uint8_t) color;
       }
       break;
-    case 1:   // NOTE: Assumes a pixel count of mod(8).
-      for (uint32_t i=0; i < (uint32_t) ((_x * _y) >> 3); i++) {
+    case 1:
+      for (uint32_t i=0; i < bytesUsed(); i++) {
         *(_buffer + i) = (0 != color) ? 0xFF : 0x00;
       }
       break;
-- 
2.43.0


From 7732a46394e9f9a1de292b68120d5bb1c31c268b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:42 +0000
Subject: [PATCH 133/224] fix: lines to the highest coordinate never ended, and
 empty or clipped ones ran across the image

The loop's condition was always true if the line ended at the highest value of
a coordinate, which a line of length zero at the edge does. Lines whose start is
above or left of the image (such as those of a circle near the edge) were drawn
from their end to the far side of the image instead.
---
 src/Image/Image.cpp | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index 731ce67..cc490ac 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -1537,8 +1537,12 @@ void Image::drawFastVLine(PixUInt x, PixUInt y, PixUInt h, uint32_t color) {
   // Overwrite in subclasses if startWrite is defined!
   // Can be just drawLine(x, y, x, y+h-1, color);
   // or fillRect(x, y, 1, h, color);
+  // Shapes that begin above the image get here with a coordinate that wrapped
+  //   below zero, so each is advanced (and wraps) on its own.
   _lock(true);
-  drawLine(x, y, x, y+h-1, color);
+  for (PixUInt i = 0; i < h; i++) {
+    setPixel(x, y+i, color);
+  }
   _lock(false);
 }
 
@@ -1554,8 +1558,12 @@ void Image::drawFastHLine(PixUInt x, PixUInt y, PixUInt w, uint32_t color) {
   // Overwrite in subclasses if startWrite is defined!
   // Example: drawLine(x, y, x+w-1, y, color);
   // or fillRect(x, y, w, 1, color);
+  // Shapes that begin left of the image get here with a coordinate that wrapped
+  //   below zero, so each is advanced (and wraps) on its own.
   _lock(true);
-  drawLine(x, y, x+w-1, y, color);
+  for (PixUInt i = 0; i < w; i++) {
+    setPixel(x+i, y, color);
+  }
   _lock(false);
 }
 
@@ -1570,8 +1578,8 @@ void Image::drawFastHLine(PixUInt x, PixUInt y, PixUInt w, uint32_t color) {
 */
 void Image::fillRect(PixUInt x, PixUInt y, PixUInt w, PixUInt h, uint32_t color) {
   _lock(true);
-  for (uint32_t i=x; i<x+w; i++) {
-    drawLine(i, y, i, y+h-1, color);
+  for (PixUInt i = 0; i < w; i++) {
+    drawFastVLine(x+i, y, h, color);
   }
   _lock(false);
 }
@@ -1586,6 +1594,9 @@ void Image::fillRect(PixUInt x, PixUInt y, PixUInt w, PixUInt h, uint32_t color)
 *  @param    color 16-bit 5-6-5 Color to draw with
 */
 void Image::drawRect(PixUInt x, PixUInt y, PixUInt w, PixUInt h, uint32_t color) {
+  if ((0 == w) || (0 == h)) {
+    return;   // There is nothing to draw, and (x - 1) and (y - 1) are elsewhere.
+  }
   drawFastHLine(x, y, w, color);
   drawFastHLine(x, y + h - 1, w, color);
   drawFastVLine(x, y, h, color);
@@ -1602,6 +1613,9 @@ void Image::drawRect(PixUInt x, PixUInt y, PixUInt w, PixUInt h, uint32_t color)
     @param    color 16-bit 5-6-5 Color to draw with
 */
 void Image::drawRoundRect(PixUInt x, PixUInt y, PixUInt w, PixUInt h, PixUInt r, uint32_t color) {
+  if ((0 == w) || (0 == h)) {
+    return;   // There is nothing to draw, and (x - 1) and (y - 1) are elsewhere.
+  }
   PixUInt max_radius = ((w < h) ? w : h) >> 1; // 1/2 minor axis
   if (r > max_radius) r = max_radius;
   // smarter version
@@ -1627,6 +1641,9 @@ void Image::drawRoundRect(PixUInt x, PixUInt y, PixUInt w, PixUInt h, PixUInt r,
     @param    color 16-bit 5-6-5 Color to draw/fill with
 */
 void Image::fillRoundRect(PixUInt x, PixUInt y, PixUInt w, PixUInt h, PixUInt r, uint32_t color) {
+  if ((0 == w) || (0 == h)) {
+    return;   // There is nothing to draw, and (x - 1) and (y - 1) are elsewhere.
+  }
   PixUInt max_radius = ((w < h) ? w : h) >> 1; // 1/2 minor axis
   if (r > max_radius) r = max_radius;
   // smarter version
@@ -1907,10 +1924,16 @@ void Image::fillCircleHelper(PixUInt x0, PixUInt y0, PixUInt r, uint8_t corners,
         drawFastVLine(x0 - x, y0 - y, 2 * y + delta, color);
     }
     if (y != py) {
+      PixUInt column_top = y0 - px;
+      PixUInt column_len = 2 * px + delta;
+      if (0 == column_len) {   // The center of an even height is between two rows.
+        column_top--;
+        column_len = 2;
+      }
       if (corners & 1)
-        drawFastVLine(x0 + py, y0 - px, 2 * px + delta, color);
+        drawFastVLine(x0 + py, column_top, column_len, color);
       if (corners & 2)
-        drawFastVLine(x0 - py, y0 - px, 2 * px + delta, color);
+        drawFastVLine(x0 - py, column_top, column_len, color);
       py = y;
     }
     px = x;
@@ -2000,7 +2023,8 @@ void Image::drawLine(PixUInt x0, PixUInt y0, PixUInt x1, PixUInt y1, uint32_t co
   const int8_t   ystep = (y0 < y1) ? 1 : -1;
   int32_t err = (int32_t) (dx >> 1);  // NOTE: Imposes width limit of 2,147,483,648 pixels.
 
-  while (x0 <= x1) {
+  // The end might be the highest possible coordinate, so x0 can't be the loop condition.
+  for (uint32_t remaining = (uint32_t) dx + 1; 0 != remaining; remaining--) {
     if (steep) {
       setPixel(y0, x0, color);
     }
-- 
2.43.0


From 9e6fadd40db535b57d48f69f35b67e27d9e5ec88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:43 +0000
Subject: [PATCH 134/224] fix: filled triangles with an edge that leans left
 were drawn wrong, and one at the top edge crashed

The scanline crossings were computed with unsigned coordinates. A flat top at
row zero made the loop's end wrap, and divided by zero.
---
 src/Image/Image.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index cc490ac..3a215d9 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -1682,7 +1682,8 @@ void Image::drawTriangle(PixUInt x0, PixUInt y0, PixUInt x1, PixUInt y1, PixUInt
     @param    color 16-bit 5-6-5 Color to fill/draw with
 */
 void Image::fillTriangle(PixUInt x0, PixUInt y0, PixUInt x1, PixUInt y1, PixUInt x2, PixUInt y2, uint32_t color) {
-  PixUInt a, b, y, last;
+  // The slopes are signed, and their products need more bits than coordinates have.
+  int64_t a, b, y, last;
   // Sort coordinates by Y order (y2 >= y1 >= y0)
   if (y0 > y1) {
     strict_swap(&y0, &y1);
@@ -1707,9 +1708,10 @@ void Image::fillTriangle(PixUInt x0, PixUInt y0, PixUInt x1, PixUInt y1, PixUInt
     return;
   }
 
-  PixUInt dx01 = x1 - x0, dy01 = y1 - y0, dx02 = x2 - x0, dy02 = y2 - y0,
-          dx12 = x2 - x1, dy12 = y2 - y1;
-  PixUInt sa = 0, sb = 0;
+  const int64_t dx01 = (int64_t) x1 - x0, dy01 = (int64_t) y1 - y0;
+  const int64_t dx02 = (int64_t) x2 - x0, dy02 = (int64_t) y2 - y0;
+  const int64_t dx12 = (int64_t) x2 - x1, dy12 = (int64_t) y2 - y1;
+  int64_t sa = 0, sb = 0;
 
   // For upper part of triangle, find scanline crossings for segments
   // 0-1 and 0-2.  If y1=y2 (flat-bottomed triangle), the scanline y1
@@ -1717,8 +1719,8 @@ void Image::fillTriangle(PixUInt x0, PixUInt y0, PixUInt x1, PixUInt y1, PixUInt
   // error there), otherwise scanline y1 is skipped here and handled
   // in the second loop...which also avoids a /0 error here if y0=y1
   // (flat-topped triangle).
-  if (y1 == y2) {    last = y1;       }  // Include y1 scanline
-  else {             last = y1 - 1;   }  // Skip it
+  if (y1 == y2) {    last = (int64_t) y1;       }  // Include y1 scanline
+  else {             last = (int64_t) y1 - 1;   }  // Skip it
 
   for (y = y0; y <= last; y++) {
     a = x0 + sa / dy01;
@@ -1735,8 +1737,8 @@ void Image::fillTriangle(PixUInt x0, PixUInt y0, PixUInt x1, PixUInt y1, PixUInt
 
   // For lower part of triangle, find scanline crossings for segments
   // 0-2 and 1-2.  This loop is skipped if y1=y2.
-  sa = (int32_t)dx12 * (y - y1);
-  sb = (int32_t)dx02 * (y - y0);
+  sa = dx12 * (y - y1);
+  sb = dx02 * (y - y0);
   for (; y <= y2; y++) {
     a = x1 + sa / dy12;
     b = x0 + sb / dy02;
-- 
2.43.0


From bdd7133a3ae946b5442c2069757b249955dca61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:45 +0000
Subject: [PATCH 135/224] fix: ellipses were drawn with integer ratios, square
 roots of negatives, and no rotation

The column was taken as absolute rather than relative to the center.
---
 src/Image/Image.cpp | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index 3a215d9..b2f60ab 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -1810,22 +1810,22 @@ void Image::drawEllipse(PixUInt x0, PixUInt y0, PixUInt v_axis, PixUInt h_axis,
   }
   else {
     float radians = (PI/180.0) * rotation;
-    //int32_t vertical_extent   = abs(sin(radians)) * v_axis;
-    int32_t horizontal_extent = abs(cos(radians)) * h_axis;
-    int32_t starting_x = strict_max(0,             (int32_t) (x0 - horizontal_extent));
-    int32_t ending_x   = strict_min((int32_t) x(), (int32_t) (x0 + horizontal_extent));
-    for (int32_t i = starting_x; i < ending_x; i++) {
-      PixUInt a = h_axis;
-      PixUInt b = v_axis;
-      float    y_diff   = (b / a) * sqrt((a*a) - (i*i));
-      int32_t  y_top    = y0 - y_diff;
-      int32_t  y_bottom = y0 + y_diff;
-      if (y_top >= 0) {
-        setPixel(i, y_top, color);
-      }
-      if (y_bottom < (int32_t) y()) {
-        setPixel(i, y_bottom, color);
+    const double COS = cos(radians);
+    const double SIN = sin(radians);
+    const double H_SQ = (double) h_axis * h_axis;
+    const double V_SQ = (double) v_axis * v_axis;
+    // (Q_X * dx^2) + (Q_XY * dx * dy) + (EXTENT_SQ * dy^2) = (H_SQ * V_SQ)
+    const double EXTENT_SQ = (H_SQ * COS * COS) + (V_SQ * SIN * SIN);  // Horizontal extent
+    const int32_t EXTENT   = (int32_t) (sqrt(EXTENT_SQ) + 0.0001);
+    for (int32_t i = -EXTENT; i <= EXTENT; i++) {
+      double y_mid  = 0.0;
+      double y_diff = sqrt((H_SQ * SIN * SIN) + (V_SQ * COS * COS));  // If there is no width.
+      if (EXTENT_SQ >= 1.0) {
+        y_mid  = (i * (H_SQ - V_SQ) * SIN * COS) / EXTENT_SQ;
+        y_diff = (sqrt(H_SQ * V_SQ) * sqrt(strict_max(0.0, EXTENT_SQ - ((double) i * i)))) / EXTENT_SQ;
       }
+      setPixel((int32_t) x0 + i, (int32_t) lround(y0 + y_mid - y_diff), color);
+      setPixel((int32_t) x0 + i, (int32_t) lround(y0 + y_mid + y_diff), color);
     }
   }
 }
-- 
2.43.0


From 37487768426ca8b2706152ba207c640ab96a769b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:56 +0000
Subject: [PATCH 136/224] fix: text bounds were unusable for unsigned strings,
 custom fonts near an edge, and tabs

The initial maximum of -1 is the highest coordinate, and glyphs that begin left
of or above the origin (as those of any custom font at row zero do) wrapped. A
blank was taken to wrap onto the next line, which writeChar() never does. The
bounds of an empty StringBuilder were left undefined.
---
 src/Image/Image.cpp | 58 ++++++++++++++++-----------------------------
 src/Image/Image.h   |  2 +-
 2 files changed, 22 insertions(+), 38 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index b2f60ab..cab0e8d 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -1379,7 +1379,7 @@ void Image::setTextColor(uint32_t c, uint32_t bg) {
   @param    maxx  Maximum clipping value for X
   @param    maxy  Maximum clipping value for Y
 */
-void Image::_char_bounds(char c, PixUInt* x, PixUInt* y, PixUInt* minx, PixUInt* miny, PixUInt* maxx, PixUInt* maxy) {
+void Image::_char_bounds(char c, PixUInt* x, PixUInt* y, int32_t* minx, int32_t* miny, int32_t* maxx, int32_t* maxy) {
   if (_gfxFont) {
     if (c == '\n') { // Newline?
       *x  = 0;    // Reset x to zero, advance y by one line
@@ -1395,15 +1395,15 @@ void Image::_char_bounds(char c, PixUInt* x, PixUInt* y, PixUInt* minx, PixUInt*
         uint8_t xa = glyph->xAdvance;
         int8_t  xo = glyph->xOffset;
         int8_t  yo = glyph->yOffset;
-        if(textWrap() && ((*x+(((int16_t)xo+gw) * _textsize)) > _x)) {
+        if(textWrap() && (gw > 0) && (gh > 0) && ((*x+(((int16_t)xo+gw) * _textsize)) > _x)) {   // Blanks don't wrap. See writeChar().
           *x  = 0; // Reset x to zero, advance y by one line
           *y += _textsize * (uint8_t) _gfxFont->yAdvance;
         }
         int16_t ts = (int16_t) _textsize;
-        PixUInt x1 = *x + xo * ts;
-        PixUInt y1 = *y + yo * ts;
-        PixUInt x2 = x1 + gw * ts - 1;
-        PixUInt y2 = y1 + gh * ts - 1;
+        int32_t x1 = (int32_t) *x + xo * ts;   // Might be left of (or above) the image.
+        int32_t y1 = (int32_t) *y + yo * ts;
+        int32_t x2 = x1 + gw * ts - 1;
+        int32_t y2 = y1 + gh * ts - 1;
         if(x1 < *minx) *minx = x1;
         if(y1 < *miny) *miny = y1;
         if(x2 > *maxx) *maxx = x2;
@@ -1419,16 +1419,19 @@ void Image::_char_bounds(char c, PixUInt* x, PixUInt* y, PixUInt* minx, PixUInt*
       // min/max x/y unchaged -- that waits for next 'normal' character
     }
     else if (c != '\r') {  // Normal char; ignore carriage returns
+      if (c == '\t') {       // Tab is written as two spaces.
+        _char_bounds(' ', x, y, minx, miny, maxx, maxy);
+      }
       if (textWrap() && ((*x + _textsize * 6) > _x)) { // Off right?
         *x  = 0;                    // Reset x to zero,
         *y += _textsize * 8;         // advance y one line
       }
       int32_t x2 = *x + _textsize * 6 - 1; // Lower-right pixel of char
       int32_t y2 = *y + _textsize * 8 - 1;
-      if(x2 > (int32_t) *maxx) {  *maxx = x2;  }      // Track max x, y
-      if(y2 > (int32_t) *maxy) {  *maxy = y2;  }
-      if(*x < *minx) {  *minx = *x;  }      // Track min x, y
-      if(*y < *miny) {  *miny = *y;  }
+      if(x2 > *maxx) {  *maxx = x2;  }      // Track max x, y
+      if(y2 > *maxy) {  *maxy = y2;  }
+      if((int32_t) *x < *minx) {  *minx = *x;  }      // Track min x, y
+      if((int32_t) *y < *miny) {  *miny = *y;  }
       *x += _textsize * 6;             // Advance x one char
     }
   }
@@ -1451,10 +1454,10 @@ void Image::getTextBounds(const char* str, PixUInt x, PixUInt y, PixUInt* x1, Pi
   *y1 = y;
   *w  = *h = 0;
 
-  PixUInt minx = _x;
-  PixUInt miny = _y;
-  PixUInt maxx = 0;
-  PixUInt maxy = 0;
+  int32_t minx = INT32_MAX;
+  int32_t miny = INT32_MAX;
+  int32_t maxx = INT32_MIN;
+  int32_t maxy = INT32_MIN;
 
   while((c = *str++)) {
     _char_bounds(c, &x, &y, &minx, &miny, &maxx, &maxy);
@@ -1485,6 +1488,9 @@ void Image::getTextBounds(StringBuilder* str, PixUInt x, PixUInt y, PixUInt* x1,
   if (str->length() != 0) {
     getTextBounds((const uint8_t*) str->string(), x, y, x1, y1, w, h);
   }
+  else {
+    getTextBounds("", x, y, x1, y1, w, h);
+  }
 }
 
 
@@ -1499,29 +1505,7 @@ void Image::getTextBounds(StringBuilder* str, PixUInt x, PixUInt y, PixUInt* x1,
   @param    h      The boundary height, set by function
 */
 void Image::getTextBounds(const uint8_t* str, PixUInt x, PixUInt y, PixUInt* x1, PixUInt* y1, PixUInt* w, PixUInt* h) {
-  uint8_t* s = (uint8_t*) str;
-  uint8_t c;
-  *x1 = x;
-  *y1 = y;
-  *w  = *h = 0;
-
-  PixUInt minx = _x;
-  PixUInt miny = _y;
-  PixUInt maxx = -1;
-  PixUInt maxy = -1;
-
-  while((c = *s++)) {
-    _char_bounds(c, &x, &y, &minx, &miny, &maxx, &maxy);
-  }
-
-  if(maxx >= minx) {
-    *x1 = minx;
-    *w  = maxx - minx + 1;
-  }
-  if (maxy >= miny) {
-    *y1 = miny;
-    *h  = maxy - miny + 1;
-  }
+  getTextBounds((const char*) str, x, y, x1, y1, w, h);
 }
 
 
diff --git a/src/Image/Image.h b/src/Image/Image.h
index ea6dedf..612fc1d 100644
--- a/src/Image/Image.h
+++ b/src/Image/Image.h
@@ -303,7 +303,7 @@ class Image {
     uint32_t _textcolor    = 0;       // Background color for text
     uint32_t _textbgcolor  = 0;       // Text color
 
-    void _char_bounds(char c, PixUInt* x, PixUInt* y, PixUInt* minx, PixUInt* miny, PixUInt* maxx, PixUInt* maxy);
+    void _char_bounds(char c, PixUInt* x, PixUInt* y, int32_t* minx, int32_t* miny, int32_t* maxx, int32_t* maxy);
     int8_t _buffer_allocator();
     void _remap_for_orientation(PixUInt* x, PixUInt* y);
 
-- 
2.43.0


From 70c36582a458facf90b3f7c72cd196a2fab2d269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:57 +0000
Subject: [PATCH 137/224] fix: a serialized image couldn't be deserialized

The header is written with coordinates of 32 bits, but was read with those of
the build, and the format was taken from among them. The size rounded down, and
could overflow. The flag of buffer ownership isn't something for a peer to set.
---
 src/Image/Image.cpp | 45 +++++++++++++++++++--------------------------
 1 file changed, 19 insertions(+), 26 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index cab0e8d..ff1873e 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -718,33 +718,26 @@ int8_t Image::serializeWithoutBuffer(uint8_t* buf, uint32_t* len) {
 * NOTE: The deserializer does not account for orientation.
 */
 int8_t Image::deserialize(uint8_t* buf, uint32_t len) {
-  if (ImgBufferFormat::UNALLOCATED == _buf_fmt) {
-    // TODO: This is awful, and will absolutely wreck someone later.
-    //   Shunt this responsibility to C3PType.
-    const uint8_t PIX_AND_FMT_LEN = (sizeof(PixUInt) + 1);
-    if (len > PIX_AND_FMT_LEN) {
-      #if(9 > CONFIG_C3P_IMG_COORD_BITS)
-        PixUInt temp_x = (PixUInt) *(buf + 0);
-        PixUInt temp_y = (PixUInt) *(buf + 1);
-      #elif(17 > CONFIG_C3P_IMG_COORD_BITS)
-        PixUInt temp_x = ((PixUInt) *(buf + 0) << 8) | ((PixUInt) *(buf + 1));
-        PixUInt temp_y = ((PixUInt) *(buf + 2) << 8) | ((PixUInt) *(buf + 3));
-      #elif(33 > CONFIG_C3P_IMG_COORD_BITS)
-        PixUInt temp_x = ((PixUInt) *(buf + 0) << 24) | ((PixUInt) *(buf + 1) << 16) | ((PixUInt) *(buf + 2) << 8) | ((PixUInt) *(buf + 3));
-        PixUInt temp_y = ((PixUInt) *(buf + 4) << 24) | ((PixUInt) *(buf + 5) << 16) | ((PixUInt) *(buf + 6) << 8) | ((PixUInt) *(buf + 7));
-      #else
-        #error Integers for holding pixel addresses cannot be larger than 32-bit.
-      #endif
-      ImgBufferFormat temp_fmt = (ImgBufferFormat) *(buf + (PIX_AND_FMT_LEN-1));
-      uint32_t temp_f = *(buf + PIX_AND_FMT_LEN);
-      uint32_t proposed_size = (_bits_per_pixel(temp_fmt) * temp_x * temp_y) >> 3;
-      if (proposed_size == (len - (PIX_AND_FMT_LEN+1))) {
+  const uint32_t HEADER_LEN = 10;   // See serialize(). Coordinates are always 32-bit.
+  if ((ImgBufferFormat::UNALLOCATED == _buf_fmt) && !allocated() && (nullptr != buf) && (len >= HEADER_LEN)) {
+    const uint32_t TEMP_X = ((uint32_t) *(buf + 0) << 24) | ((uint32_t) *(buf + 1) << 16) | ((uint32_t) *(buf + 2) << 8) | ((uint32_t) *(buf + 3));
+    const uint32_t TEMP_Y = ((uint32_t) *(buf + 4) << 24) | ((uint32_t) *(buf + 5) << 16) | ((uint32_t) *(buf + 6) << 8) | ((uint32_t) *(buf + 7));
+    const ImgBufferFormat TEMP_FMT = (ImgBufferFormat) *(buf + 8);
+    const uint8_t  BPP       = _bits_per_pixel(TEMP_FMT);
+    const uint64_t PIXELS    = ((uint64_t) TEMP_X * TEMP_Y);
+    const uint64_t MAX_COORD = (PixUInt) -1;
+    if ((0 < BPP) && (TEMP_X <= MAX_COORD) && (TEMP_Y <= MAX_COORD) && (PIXELS <= ((uint64_t) len << 3))) {
+      if ((((PIXELS * BPP) + 7) >> 3) == (len - HEADER_LEN)) {
         // The derived and declared sizes match.
-        _x = temp_x;
-        _y = temp_y;
-        _buf_fmt  = temp_fmt;
-        _imgflags = temp_f;
-        return setBufferByCopy(buf + (PIX_AND_FMT_LEN+1)) ? 0 : -2;
+        _x = (PixUInt) TEMP_X;
+        _y = (PixUInt) TEMP_Y;
+        _buf_fmt  = TEMP_FMT;
+        _imgflags = (*(buf + 9) & ~C3P_IMG_FLAG_BUFFER_OURS);
+        if (setBufferByCopy(buf + HEADER_LEN)) {
+          return 0;
+        }
+        wipe();
+        return -2;
       }
     }
   }
-- 
2.43.0


From 1b9136bb8870c37c9966d9f53b74254a1ae97619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:59 +0000
Subject: [PATCH 138/224] fix: colors converted to greyscale were beyond its
 range, or a third of their luminance

The channels were already scaled to 8 bits when they were divided by the range of
their original format, and the weighted mean was divided by three once more.
---
 src/Image/Image.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index ff1873e..0768136 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -958,7 +958,6 @@ uint32_t Image::getPixelAsFormat(PixUInt x, PixUInt y, ImgBufferFormat target_fm
     return c;   // Nothing further to do.
   }
   uint8_t a = 0, r = 0, g = 0, b = 0;
-  uint8_t source_bpc = 8;     // Used later for greyscale conversion.
   uint8_t target_bpp = 24;    // Used later for greyscale conversion.
   uint32_t ret = 0;
   switch (_buf_fmt) {
@@ -977,13 +976,11 @@ uint32_t Image::getPixelAsFormat(PixUInt x, PixUInt y, ImgBufferFormat target_fm
       r = (uint8_t) ((c >> 11) & 0x1F) << 3;
       g = (uint8_t) ((c >> 5) & 0x3F) << 2;
       b = (uint8_t) (c & 0x1F) << 3;
-      source_bpc = 6;
       break;
     case ImgBufferFormat::R3_G3_B2:          // 8-bit color
       r = (uint8_t) ((c >> 5) & 0x07) << 5;
       g = (uint8_t) ((c >> 2) & 0x07) << 5;
       b = (uint8_t) (c & 0x03) << 6;
-      source_bpc = 3;
       break;
     case ImgBufferFormat::MONOCHROME:        // Monochrome
       if (c) {  a = 0xFF; r = 0xFF; g = 0xFF; b = 0xFF;   }
@@ -1030,9 +1027,9 @@ uint32_t Image::getPixelAsFormat(PixUInt x, PixUInt y, ImgBufferFormat target_fm
     case ImgBufferFormat::GREY_24:           // 24-bit greyscale
       {
         // Conversion from color to grey or monochrome.
-        float avg = ((r * 0.3) + (g * 0.59) + (b * 0.11)) / 3.0;
-        float lum = avg / ((1 << source_bpc) - 1);
-        ret = ((1 << target_bpp) - 1) * lum;
+        // The channels were scaled to 8 bits above, and their weights sum to 100.
+        const uint64_t LUM = (((uint64_t) r * 30) + ((uint64_t) g * 59) + ((uint64_t) b * 11));
+        ret = (uint32_t) ((((uint64_t) 1 << target_bpp) - 1) * LUM / (255 * 100));
       }
       break;
     case ImgBufferFormat::MONOCHROME:        // Monochrome
-- 
2.43.0


From 2e348fae28105a8604184e150b757a90f3657b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:00 +0000
Subject: [PATCH 139/224] fix: an image in a map couldn't be read back, and
 shifted the values after it

It was written as two byte strings, of which the tag applies to the first alone.
The reader took any content for an image.
---
 src/C3PValue/C3PType.cpp      | 9 +++------
 src/C3PValue/KeyValuePair.cpp | 8 +++++---
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index af93058..9f9e5c9 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -2930,15 +2930,12 @@ template <> int         C3PTypeConstraint<Image*>::serialize(void* obj, StringBu
       {
         uint32_t sz_buf = img->bytesUsed();
         if (sz_buf > 0) {
-          uint32_t nb_buf = 0;
-          uint8_t intermediary[32];
-          memset(intermediary, 0, 32);
-          if (0 == img->serializeWithoutBuffer(intermediary, &nb_buf)) {
+          StringBuilder intermediary;   // A tag applies to a single byte string.
+          if (0 == img->serialize(&intermediary)) {
             cbor::output_stringbuilder output(out);
             cbor::encoder encoder(output);
             encoder.write_tag(C3P_CBOR_VENDOR_CODE | TcodeToInt(TCODE));
-            encoder.write_bytes(intermediary, nb_buf);   // TODO: This might cause two discrete CBOR objects.
-            encoder.write_bytes(img->buffer(), sz_buf);
+            encoder.write_bytes(intermediary.string(), intermediary.length());
             ret = 0;   // TODO: Safe SB API.
           }
         }
diff --git a/src/C3PValue/KeyValuePair.cpp b/src/C3PValue/KeyValuePair.cpp
index ffb35fc..7e4dd4d 100644
--- a/src/C3PValue/KeyValuePair.cpp
+++ b/src/C3PValue/KeyValuePair.cpp
@@ -656,10 +656,12 @@ KeyValuePair* CBORArgListener::_inflate_c3p_type(uint8_t* data, int size, const
         {
           Image* tmp = new Image();
           if (tmp) {
-            tmp->deserialize(data, size);
-            if (tmp->allocated()) {
+            if (0 == tmp->deserialize(data, size)) {
+              ret = new KeyValuePair(tmp);
+            }
+            else {
+              delete tmp;
             }
-            ret = new KeyValuePair(tmp);
           }
         }
         break;
-- 
2.43.0


From a0ebe2a41c454040dc85ac38ffba49a948c16230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:50 +0000
Subject: [PATCH 140/224] fix: the logger's decorations couldn't be switched

The arguments were swapped, such that any of the three set the flag for severity.
---
 src/C3PLogger.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/C3PLogger.h b/src/C3PLogger.h
index fa4a05b..d870f4d 100644
--- a/src/C3PLogger.h
+++ b/src/C3PLogger.h
@@ -67,9 +67,9 @@ class C3PLogger {
     inline bool    printSeverity() {         return _class_flag(LOGGER_FLAG_PRINT_LEVEL);    };
     inline bool    printTime() {             return _class_flag(LOGGER_FLAG_PRINT_TIME);     };
     inline bool    printTag() {              return _class_flag(LOGGER_FLAG_PRINT_TAG);      };
-    inline void    printSeverity(bool x) {   _class_set_flag(LOGGER_FLAG_PRINT_LEVEL, x);    };
-    inline void    printTime(bool x) {       _class_set_flag(LOGGER_FLAG_PRINT_TIME, x);     };
-    inline void    printTag(bool x) {        _class_set_flag(LOGGER_FLAG_PRINT_TAG, x);      };
+    inline void    printSeverity(bool x) {   _class_set_flag(x, LOGGER_FLAG_PRINT_LEVEL);    };
+    inline void    printTime(bool x) {       _class_set_flag(x, LOGGER_FLAG_PRINT_TIME);     };
+    inline void    printTag(bool x) {        _class_set_flag(x, LOGGER_FLAG_PRINT_TAG);      };
 
 
   private:
-- 
2.43.0


From 2a6fa6f0aaf84f607f45edf1f5d56f489759b6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:51 +0000
Subject: [PATCH 141/224] fix: the logger neither aligned tags, nor truncated
 them to their documented length

The padding was the minimum of the tags' lengths, and thus never more than one.
---
 src/AbstractPlatform.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/AbstractPlatform.cpp b/src/AbstractPlatform.cpp
index d4494d2..8ffd18e 100644
--- a/src/AbstractPlatform.cpp
+++ b/src/AbstractPlatform.cpp
@@ -446,14 +446,14 @@ int8_t C3PLogger::print(uint8_t severity, const char* tag, StringBuilder* msg) {
     if (printTime()) {       line.concatf("%10u ", millis());                 }
     if (printSeverity()) {   line.concat(c3p_log_severity_string(severity));  }
     if (printTag()) {
-      const uint8_t TAG_LEN = (uint8_t) strlen(tag);
+      const uint8_t TAG_LEN = (uint8_t) strict_min((size_t) LOG_TAG_MAX_LEN, strlen(tag));
       if (_tag_ident < LOG_TAG_MAX_LEN) {
-        _tag_ident = strict_min(_tag_ident, strict_min((uint8_t) LOG_TAG_MAX_LEN, TAG_LEN));
+        _tag_ident = strict_max(_tag_ident, strict_min((uint8_t) LOG_TAG_MAX_LEN, TAG_LEN));
       }
-      const uint32_t MAX_FMT_STR_SZ = 12;
+      const uint32_t MAX_FMT_STR_SZ = 16;
       char ufmt_str[MAX_FMT_STR_SZ];
       memset(ufmt_str, 0, MAX_FMT_STR_SZ);
-      sprintf(ufmt_str, "%%%ds ", _tag_ident);
+      sprintf(ufmt_str, "%%%d.%ds ", _tag_ident, LOG_TAG_MAX_LEN);
       line.concatf(ufmt_str, tag);
     }
     line.concatHandoff(msg);
-- 
2.43.0


From b32b5077296ff56d0f6ed8b45e9bff03331b484d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:52 +0000
Subject: [PATCH 142/224] fix: the logger lost, held back, or reordered lines
 if the sink took a part or all of them

The return value of 0 means that a part was accepted, and 1 that all was. The rest
of a partially accepted line was dropped (or sent after the next one), and a sink
that took all of the backlog didn't get the new line.
---
 src/AbstractPlatform.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/AbstractPlatform.cpp b/src/AbstractPlatform.cpp
index 8ffd18e..86c060f 100644
--- a/src/AbstractPlatform.cpp
+++ b/src/AbstractPlatform.cpp
@@ -480,18 +480,17 @@ int8_t C3PLogger::print(uint8_t severity, const char* tag, StringBuilder* msg) {
 * @param log_line is the new item to append to the log.
 */
 void C3PLogger::_store_or_forward(StringBuilder* log_line) {
-  bool store_to_buffer = true;
   if (nullptr != _sink) {
-    bool backlog_remaining = !_log.isEmpty();
-    if (backlog_remaining) {
-      backlog_remaining = (0 != _sink->pushBuffer(&_log));
+    // A sink takes what it accepts out of the buffer, which might only be a part
+    //   of it (0), or all of it (1). Whatever remains must stay in order.
+    if (!_log.isEmpty()) {
+      _sink->pushBuffer(&_log);
     }
-    if (!backlog_remaining && (0 == _sink->pushBuffer(log_line))) {
-      // NOTE: Short-circuit evaluation above is important for ordering.
-      store_to_buffer = false;
+    if (_log.isEmpty()) {
+      _sink->pushBuffer(log_line);
     }
   }
-  if (store_to_buffer) {
+  if (!log_line->isEmpty()) {
     _log.concatHandoff(log_line);
   }
 }
-- 
2.43.0


From 65cc0d7271c9236f196cefee7a758eed976b19bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:53 +0000
Subject: [PATCH 143/224] fix: the GPS parser lost sentences at buffer
 boundaries, after null bytes, and behind long buffers

The line-ending of the last sentence was dropped by split(), such that it ran into
the next buffer's first sentence. All that followed a null byte was discarded, and
a leading one stalled the parser. The excess of a long buffer was culled by the
length it had before it was parsed.
---
 .../BufferAccepter/GPSWrapper/GPSWrapper.cpp  | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
index c878c85..c321cfa 100644
--- a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
+++ b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
@@ -149,11 +149,11 @@ static inline float minmea_tocoord(struct minmea_float *f) {
 */
 int8_t GPSWrapper::pushBuffer(StringBuilder* buf) {
   _accumulator.concatHandoff(buf);
-  const int32_t ACC_LEN = _accumulator.length();
-  if (MINMEA_MAX_LENGTH < ACC_LEN) {
+  if (MINMEA_MAX_LENGTH < _accumulator.length()) {
     _attempt_parse();
   }
 
+  const int32_t ACC_LEN = _accumulator.length();   // Whatever wasn't parsed.
   if (ACC_LEN > GPSWRAPPER_MAX_ACCUMULATOR_LEN) {
     _accumulator.cull(ACC_LEN - GPSWRAPPER_MAX_ACCUMULATOR_LEN);
   }
@@ -219,14 +219,22 @@ enum minmea_sentence_id GPSWrapper::_sentence_id(const char *sentence, bool stri
 
 
 bool GPSWrapper::_attempt_parse() {
-  if (_accumulator.split("\n") == 0) return false;
   char* line = nullptr;
   bool local_success = false;
   bool emit_callback = false;
 
-  // Always assume that the last token in the accumulator is an incomplete line.
-  while (_accumulator.count() > 1) {
-    line = _accumulator.position(0);
+  // Whatever follows the last line-ending is an incomplete line, and remains. The
+  //   buffer is walked in place, because it might contain null bytes.
+  char* const BUFFER = (char*) _accumulator.string();
+  const int32_t BUF_LEN = _accumulator.length();
+  int32_t line_start = 0;
+  for (int32_t i = 0; i < BUF_LEN; i++) {
+    if ('\n' != *(BUFFER + i)) continue;
+    *(BUFFER + i) = '\0';
+    line = (BUFFER + line_start);
+    const bool LINE_EMPTY = (line_start == i);
+    line_start = (i + 1);
+    if (LINE_EMPTY) continue;
     enum minmea_sentence_id id = _sentence_id(line, false);
     switch (id) {
       case MINMEA_SENTENCE_GSA:
@@ -348,9 +356,9 @@ bool GPSWrapper::_attempt_parse() {
       _sentences_rejected++;
       //_log.concatf("$xx%s sentence is not parsed: \n%s\n", _get_string_by_sentence_id(id), (const char*) line);
     }
-    _accumulator.drop_position(0);
   }
-  return true;
+  if (0 < line_start) _accumulator.cull(line_start);
+  return (0 < line_start);
 }
 
 
-- 
2.43.0


From 63c8569a3de25fd5c14e1bd7c4b133e347f7118e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:54 +0000
Subject: [PATCH 144/224] fix: GPS sentences that were rejected counted as
 parsed, and repeated the last location's callback

The local state carried over from the preceding lines of the same buffer.
---
 src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
index c321cfa..d82e3cd 100644
--- a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
+++ b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
@@ -235,6 +235,8 @@ bool GPSWrapper::_attempt_parse() {
     const bool LINE_EMPTY = (line_start == i);
     line_start = (i + 1);
     if (LINE_EMPTY) continue;
+    local_success = false;
+    emit_callback = false;
     enum minmea_sentence_id id = _sentence_id(line, false);
     switch (id) {
       case MINMEA_SENTENCE_GSA:
-- 
2.43.0


From bb5f27dcbc958fcb91feeaf5d9c437e7efaac9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:55 +0000
Subject: [PATCH 145/224] fix: GPS fields with many decimals overflowed their
 scale

A coordinate with 8 decimals, and any value with ten of them and leading zeros,
was garbled.
---
 src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
index d82e3cd..0abf47a 100644
--- a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
+++ b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
@@ -128,9 +128,10 @@ static inline float minmea_tofloat(struct minmea_float *f) {
 */
 static inline float minmea_tocoord(struct minmea_float *f) {
   if (f->scale == 0) {     return NAN;     }
-  int_least32_t degrees = f->value / (f->scale * 100);
-  int_least32_t minutes = f->value % (f->scale * 100);
-  return (float) degrees + (float) minutes / (60 * f->scale);
+  const int64_t SCALE = f->scale;
+  const int64_t degrees = f->value / (SCALE * 100);
+  const int64_t minutes = f->value % (SCALE * 100);
+  return (float) degrees + (float) minutes / (60 * SCALE);
 }
 
 
@@ -513,6 +514,9 @@ bool GPSWrapper::_scan(const char *sentence, const char *format, ...) {
                                     goto parse_error;
                                 }
                             }
+                            if (scale > (INT_LEAST32_MAX / 10)) {
+                                break;   /* truncate extra precision */
+                            }
                             value = (10 * value) + digit;
                             if (scale)
                                 scale *= 10;
-- 
2.43.0


From bc8835377da43ada6496dee69732a1dc829c64e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:56 +0000
Subject: [PATCH 146/224] fix: an unknown GPS altitude or speed was the
 conversion of a NaN to an integer

Which is undefined, as it is for values that are out of range.
---
 src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
index 0abf47a..14898fe 100644
--- a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
+++ b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
@@ -290,7 +290,11 @@ bool GPSWrapper::_attempt_parse() {
           if (_parse_gga(&frame, line)) {
             _loc_frame.sat_count = frame.satellites_tracked;
             switch (frame.altitude_units) {
-              case 'M': _loc_frame.altitude = (int) (minmea_tofloat(&frame.altitude) * 1000.0);   break;
+              case 'M':
+                if (0 != frame.altitude.scale) {   // If the altitude is known...
+                  _loc_frame.altitude = (uint32_t) (int64_t) (minmea_tofloat(&frame.altitude) * 1000.0);
+                }
+                break;
               default:  break;
             }
             //_log.concatf("$xxGGA: fix quality: %d\n", frame.fix_quality);
@@ -339,7 +343,9 @@ bool GPSWrapper::_attempt_parse() {
           struct minmea_sentence_vtg frame;
           if (_parse_vtg(&frame, line)) {
             _loc_frame.mag_bearing = minmea_tofloat(&frame.magnetic_track_degrees);
-            _loc_frame.speed       = (minmea_tofloat(&frame.speed_kph) * 1000000) / 3600;  // Convert to mm/sec
+            if (0 != frame.speed_kph.scale) {   // If the speed is known, convert to mm/sec.
+              _loc_frame.speed = (uint32_t) (int64_t) ((minmea_tofloat(&frame.speed_kph) * 1000000) / 3600);
+            }
             local_success = true;
             emit_callback = true;
           }
-- 
2.43.0


From 466941e8f396d0af794917dd83a75d4beaa296d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:57 +0000
Subject: [PATCH 147/224] fix: GPS timestamps were off by the local timezone

The time of a sentence is UTC, but was taken for local time.
---
 .../BufferAccepter/GPSWrapper/GPSWrapper.cpp  | 22 ++++++++-----------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
index 14898fe..659704d 100644
--- a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
+++ b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
@@ -897,19 +897,15 @@ bool GPSWrapper::_parse_vtg(struct minmea_sentence_vtg *frame, const char *sente
 
 int GPSWrapper::_gettime(struct timespec *ts, const struct minmea_date* dval, const struct minmea_time* tval) {
   if (dval->year != -1 && tval->hours != -1) {
-    struct tm tm;
-    memset(&tm, 0, sizeof(tm));
-    tm.tm_year = 2000 + dval->year - 1900;
-    tm.tm_mon  = dval->month - 1;
-    tm.tm_mday = dval->day;
-    tm.tm_hour = tval->hours;
-    tm.tm_min  = tval->minutes;
-    tm.tm_sec  = tval->seconds;
-
-    //time_t timestamp = timegm(&tm); /* See README.md if your system lacks timegm(). */
-    time_t timestamp = mktime(&tm); /* See README.md if your system lacks timegm(). */
-    if (timestamp != -1) {
-      ts->tv_sec = timestamp;
+    // GPS reports UTC. mktime() would take it for local time, and timegm() isn't
+    //   universally available. The calendar is simple until the year 2100.
+    static const uint16_t DAYS_BEFORE_MONTH[12] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334};
+    if ((0 < dval->month) && (12 >= dval->month)) {
+      const bool PAST_LEAP_DAY = (((dval->year & 3) == 0) && (dval->month > 2));
+      const int32_t DAYS_SINCE_2000 = (365 * dval->year) + ((dval->year + 3) >> 2)
+        + DAYS_BEFORE_MONTH[dval->month - 1] + (PAST_LEAP_DAY ? 1:0) + (dval->day - 1);
+      const int64_t EPOCH_OF_2000 = 946684800;   // The UNIX timestamp of 2000.01.01.
+      ts->tv_sec  = (time_t) (EPOCH_OF_2000 + ((int64_t) DAYS_SINCE_2000 * 86400) + (tval->hours * 3600) + (tval->minutes * 60) + tval->seconds);
       ts->tv_nsec = tval->microseconds * 1000;
       return 0;
     }
-- 
2.43.0


From ebbeba49aeeaee55e9bd6b16b124c69faa0878a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:58 +0000
Subject: [PATCH 148/224] fix: GPS distances were half of what they should be

The haversine formula's central angle is twice the arctangent. Between antipodes,
the root of a negative number was taken if the rounding was unfavorable.
---
 src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
index 659704d..3165eb0 100644
--- a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
+++ b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
@@ -82,7 +82,8 @@ int32_t GPSWrapper::haversineDistance(LocationFrame* p0, LocationFrame* p1) {
   double half_delta_theta  = sin(delta_theta / 2);
   double half_delta_lambda = sin(delta_lambda / 2);
   double haversine_angle   = (half_delta_theta * half_delta_theta) + cos(theta0) * cos(theta1) * (half_delta_lambda * half_delta_lambda);
-  double haversine_arctan  = atan2(sqrt(haversine_angle), sqrt(1 - haversine_angle));
+  haversine_angle = strict_min(haversine_angle, (double) 1.0);   // Rounding might exceed the range of antipodes.
+  double haversine_arctan  = 2 * atan2(sqrt(haversine_angle), sqrt(1 - haversine_angle));
   ret = (int32_t) (MEAN_RADIUS_OF_EARTH * haversine_arctan);
   return ret;
 }
-- 
2.43.0


From d9d36e4596a4328b6c1d1878b401626c4144efca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:59 +0000
Subject: [PATCH 149/224] fix: LocationFrame::printDebug() passed a 64-bit
 value for a 32-bit format

The satellite count was garbled on 32-bit platforms.
---
 src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
index 3165eb0..0e88cd9 100644
--- a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
+++ b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
@@ -38,7 +38,7 @@ extern "C" {
 *******************************************************************************/
 
 void LocationFrame::printDebug(StringBuilder* output) {
-  output->concatf("\tTimestamp: %u\n\tSat count: %u\n", timestamp, sat_count);
+  output->concatf("\tTimestamp: %u\n\tSat count: %u\n", (uint32_t) timestamp, sat_count);
   output->concatf("\t(%.6f, %.6f) heading %.2f at %u m/s\n", (double) lat, (double) lon, (double) mag_bearing, (speed / 1000));
   output->concatf("\tDOP horiz: %.3f\n\tDOP vert:  %.3f\n", (double) dop_horiz, (double) dop_vert);
 }
-- 
2.43.0


From 92784f58b0fc70a8bd63cdb75907bbd0487dd33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:12 +0000
Subject: [PATCH 150/224] fix: the angle between vectors was NaN if they were
 parallel and the rounding was unfavorable

The quotient might exceed 1, or (also if normalized) fall below -1.
---
 src/Vector3.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/Vector3.h b/src/Vector3.h
index e77d4bc..db82476 100644
--- a/src/Vector3.h
+++ b/src/Vector3.h
@@ -211,17 +211,21 @@ template <typename T> class Vector3 {
     static float angle(const Vector3<T> &v1, const Vector3<T> &v2) {
       const float V_DOT    = (float) (v1*v2);
       const float LEN_PROD = (float) (v1.length()*v2.length());
-      return ((0 != LEN_PROD) ? acosf(V_DOT / LEN_PROD) : 0.0f);
+      return ((0 != LEN_PROD) ? _acosf_bounded(V_DOT / LEN_PROD) : 0.0f);
     };
 
     // computes the angle between 2 arbitrary normalized vectors
-    // NOTE: The minimum check is to prevent floating point rounding from
-    //   causing a domain error in acosf().
     static float angle_normalized(const Vector3<T> &v1, const Vector3<T> &v2) {
-      const float V_DOT = (float) (v1*v2);
-      return acosf(((V_DOT <= 1.0f) ? V_DOT : 1.0f));
+      return _acosf_bounded((float) (v1*v2));
     };
 
+
+  private:
+    // NOTE: The bounds checks are to prevent floating point rounding from
+    //   causing a domain error in acosf().
+    static float _acosf_bounded(const float COS) {
+      return acosf((COS >= 1.0f) ? 1.0f : ((COS <= -1.0f) ? -1.0f : COS));
+    };
 };
 
 typedef Vector3<int32_t>       Vector3i32;
-- 
2.43.0


From 75f66877fdf6d69ba436ffb9ce14f62e47ac9c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:13 +0000
Subject: [PATCH 151/224] fix: Quaternion::setDown() of the vector straight
 down wasn't a rotation

The cross-product has no direction then, and all components were zero. A vector
that is longer than 1 by its rounding gave NaN.
---
 src/Quaternion.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Quaternion.cpp b/src/Quaternion.cpp
index c91fa1f..4ebeddc 100644
--- a/src/Quaternion.cpp
+++ b/src/Quaternion.cpp
@@ -61,7 +61,8 @@ float Quaternion::normalize() {
 * Assumes that +z is away from Earth.
 */
 void Quaternion::setDown(float n_x, float n_y, float n_z) {
-  float angle = acos(n_z);
+  // Rounding might have left the vector slightly longer than 1.
+  float angle = acos((n_z >= 1.0f) ? 1.0f : ((n_z <= -1.0f) ? -1.0f : n_z));
 
   // Calculate the cross-product against (0, 0, 1)...
   float cp_x = n_y;
@@ -69,7 +70,7 @@ void Quaternion::setDown(float n_x, float n_y, float n_z) {
   float cp_z = 0;
 
   // Normalize the cross-product...
-  float len = sqrt(cp_x*cp_x + cp_y*cp_y + cp_z+cp_z);
+  float len = sqrt(cp_x*cp_x + cp_y*cp_y + cp_z*cp_z);
   if (0 != len) {
     if (len != 1.0f) {
       float inv_len = 1.0f/len;
@@ -78,6 +79,9 @@ void Quaternion::setDown(float n_x, float n_y, float n_z) {
       cp_z *= inv_len;
     }
   }
+  else {
+    cp_x = 1.0f;   // Straight up or down. Any horizontal axis will do.
+  }
 
   float sin_theta = sin(angle / 2.0);
   w = cos(angle / 2.0);
-- 
2.43.0


From 3ef2956314164bb9cbfd21bed9dcc847e8918228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:06 +0000
Subject: [PATCH 152/224] fix: ImageScaler drew a single pixel's color if
 scaling down, and accepted regions that wrap

The stride was the truncated scale, which is zero below unity.
---
 src/Image/ImageUtils/ImageScalers.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/Image/ImageUtils/ImageScalers.cpp b/src/Image/ImageUtils/ImageScalers.cpp
index fc77a98..c3dc8ac 100644
--- a/src/Image/ImageUtils/ImageScalers.cpp
+++ b/src/Image/ImageUtils/ImageScalers.cpp
@@ -43,17 +43,16 @@ void ImageScaler::setParameters(float scale, PixUInt s_x, PixUInt s_y, PixUInt s
 */
 int8_t ImageScaler::apply() {
   const PixUInt SRC_X_RANGE_START = _s_x;
-  const PixUInt SRC_X_RANGE_END   = (_s_x + _s_w);
+  const uint32_t SRC_X_RANGE_END  = ((uint32_t) _s_x + _s_w);
   const PixUInt SRC_Y_RANGE_START = _s_y;
-  const PixUInt SRC_Y_RANGE_END   = (_s_y + _s_h);
+  const uint32_t SRC_Y_RANGE_END  = ((uint32_t) _s_y + _s_h);
   const PixUInt TGT_X_RANGE_START = _t_x;
-  const PixUInt TGT_X_RANGE_END   = (_t_x + (_scale * _s_w));
+  const float    TGT_X_RANGE_END  = (_t_x + truncf(_scale * _s_w));
   const PixUInt TGT_Y_RANGE_START = _t_y;
-  const PixUInt TGT_Y_RANGE_END   = (_t_y + (_scale * _s_h));
-  const PixUInt SQUARE_SIZE       = (PixUInt) _scale;
+  const float    TGT_Y_RANGE_END  = (_t_y + truncf(_scale * _s_h));
 
   int8_t ret = -1;
-  if (_source->allocated() && _target->allocated()) {
+  if (_source->allocated() && _target->allocated() && (_scale > 0.0f)) {
     ret--;
     // If the source range is valid...
     if ((_source->x() >= SRC_X_RANGE_END) && (_source->y() >= SRC_Y_RANGE_END)) {
@@ -62,6 +61,9 @@ int8_t ImageScaler::apply() {
       if ((_target->x() >= TGT_X_RANGE_END) && (_target->y() >= TGT_Y_RANGE_END)) {
         ret = 0;
         if (_scale < 1.0f) {
+          // How many source pixels go into one target pixel? The tolerance is
+          //   for ratios whose reciprocal is only approximated by the scale.
+          const uint32_t SQUARE_SIZE = (uint32_t) strict_min(65535.0f, ((1.0f / _scale) + 0.001f));
           PixUInt source_x = SRC_X_RANGE_START;
           PixUInt source_y = SRC_Y_RANGE_START;
           // If source area is larger than target area, we will need to sample an
@@ -80,6 +82,7 @@ int8_t ImageScaler::apply() {
         }
         else {
           //c3p_log(LOG_LEV_ERROR, __PRETTY_FUNCTION__, "(%u %u)\t(%u %u)", SRC_X_RANGE_START, SRC_Y_RANGE_START, _s_x, _s_y);
+          const PixUInt SQUARE_SIZE = (PixUInt) strict_min(65535.0f, _scale);
           PixUInt target_x = TGT_X_RANGE_START;
           PixUInt target_y = TGT_Y_RANGE_START;
           // If source area is smaller than target area, we will need to sample a
-- 
2.43.0


From 235b339ec85a113bffc5c932ec935767982a6092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:07 +0000
Subject: [PATCH 153/224] fix: progress bars were drawn beyond their bounds

The horizontal one blanked three columns behind it, and the vertical one as many rows
below it as there are above it.
---
 src/Image/ImageUtils/ImageUtils.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/Image/ImageUtils/ImageUtils.cpp b/src/Image/ImageUtils/ImageUtils.cpp
index cbf7d28..1aa30e8 100644
--- a/src/Image/ImageUtils/ImageUtils.cpp
+++ b/src/Image/ImageUtils/ImageUtils.cpp
@@ -62,9 +62,10 @@ void UIGfxWrapper::drawProgressBarH(
   if (draw_base) {   // Clear the way.
     _img->fillRect(x, y, w, h, bg_color);
   }
-  PixUInt pix_width = percent * (w-2);
+  if ((2 > w) | (2 > h)) {  return;  }   // No space for a border.
+  PixUInt pix_width = strict_min(1.0f, strict_max(0.0f, percent)) * (w-2);
   int blackout_x = x+1+pix_width;
-  int blackout_w = (w+2)-pix_width;
+  int blackout_w = (w-2)-pix_width;
 
   _img->fillRoundRect(blackout_x, y+1, blackout_w, h-2, 3, bg_color);
   _img->fillRoundRect(x+1, y+1, pix_width, h-2, 3, color);
@@ -95,8 +96,9 @@ void UIGfxWrapper::drawProgressBarV(
   if (draw_base) {   // Clear the way.
     _img->fillRect(x, y, w, h, bg_color);
   }
-  PixUInt pix_height = percent * (h-2);
-  int blackout_h = y+(h-1)-pix_height;
+  if ((2 > w) | (2 > h)) {  return;  }   // No space for a border.
+  PixUInt pix_height = strict_min(1.0f, strict_max(0.0f, percent)) * (h-2);
+  int blackout_h = (h-2)-pix_height;
   _img->fillRoundRect(x+1, y+1, w-2, blackout_h, 3, bg_color);
   _img->fillRoundRect(x+1, (y+h-1)-pix_height, w-2, pix_height, 3, color);
   _img->drawRoundRect(x, y, w, h, 3, fg_color);
-- 
2.43.0


From 0414af041e01dddb2a8202328dec006874665728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:08 +0000
Subject: [PATCH 154/224] fix: zoom bars were drawn beyond their bounds

The vertical one was drawn below its element if the bounds were in ascending order,
as GfxUIZoomSlider has them.
---
 src/Image/ImageUtils/ImageUtils.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Image/ImageUtils/ImageUtils.cpp b/src/Image/ImageUtils/ImageUtils.cpp
index 1aa30e8..32c41b0 100644
--- a/src/Image/ImageUtils/ImageUtils.cpp
+++ b/src/Image/ImageUtils/ImageUtils.cpp
@@ -128,12 +128,13 @@ void UIGfxWrapper::drawZoomBarH(
   bool draw_val, float fraction_left, float fraction_right
 ) {
   _img->fillRect(x, y, w, h, bg_color);
+  if ((2 > w) | (2 > h)) {  return;  }   // No space for a border.
   const PixUInt PIX_M_LEFT  = fraction_left  * (w-2);
   const PixUInt PIX_M_RIGHT = fraction_right * (w-2);
   const PixUInt PIX_M_WIDTH = strict_abs_delta(PIX_M_RIGHT, PIX_M_LEFT);
   const PixUInt PIX_RADIUS  = strict_min(w, h) / 5;
 
-  _img->fillRoundRect((x+PIX_M_LEFT), (y+1), PIX_M_WIDTH, (h-2), PIX_RADIUS, color);
+  _img->fillRoundRect((x+1+strict_min(PIX_M_LEFT, PIX_M_RIGHT)), (y+1), PIX_M_WIDTH, (h-2), PIX_RADIUS, color);
   _img->drawRoundRect(x, y, w, h, PIX_RADIUS, fg_color);
 
 
@@ -162,11 +163,12 @@ void UIGfxWrapper::drawZoomBarV(
   bool draw_val, float fraction_top, float fraction_bot
 ) {
   _img->fillRect(x, y, w, h, bg_color);
+  if ((2 > w) | (2 > h)) {  return;  }   // No space for a border.
   const PixUInt PIX_M_TOP    = fraction_top * (h-2);
   const PixUInt PIX_M_BOT    = fraction_bot * (h-2);
   const PixUInt PIX_M_HEIGHT = strict_abs_delta(PIX_M_TOP, PIX_M_BOT);
   const PixUInt PIX_RADIUS   = strict_min(w, h) / 5;
-  _img->fillRoundRect((x+1), ((y+h)-PIX_M_TOP+1), (w-2), PIX_M_HEIGHT, PIX_RADIUS, color);
+  _img->fillRoundRect((x+1), ((y+h-1)-strict_max(PIX_M_TOP, PIX_M_BOT)), (w-2), PIX_M_HEIGHT, PIX_RADIUS, color);
   _img->drawRoundRect(x, y, w, h, PIX_RADIUS, fg_color);
 
   if (draw_val && ((w-4) >= 15)) {
-- 
2.43.0


From 661f56316a3eb5c29b034033bbce150aebd629ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:09 +0000
Subject: [PATCH 155/224] fix: drawCompass() filled the image if it was given
 no space, and drawVector()'s z-axis was misplaced

The axis only ended at the element's corner if the element was at the origin.
---
 src/Image/ImageUtils/ImageUtils.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Image/ImageUtils/ImageUtils.cpp b/src/Image/ImageUtils/ImageUtils.cpp
index 32c41b0..bfbd820 100644
--- a/src/Image/ImageUtils/ImageUtils.cpp
+++ b/src/Image/ImageUtils/ImageUtils.cpp
@@ -199,9 +199,10 @@ void UIGfxWrapper::drawCompass(
 ) {
   int origin_x = x + (w >> 1);
   int origin_y = y + (h >> 1);
+  if ((4 > w) | (4 > h)) {  return;  }   // No space for a needle.
   const uint32_t RED   = _img->convertColor(0x000000FF);
   const uint32_t WHITE = _img->convertColor(0x00FFFFFF);
-  int maximal_extent = (strict_min((int16_t) w, (int16_t) h) >> 1) - 1;
+  int maximal_extent = (strict_min(w, h) >> 1) - 1;
   //const int NEEDLE_WIDTH = maximal_extent >> 3;
   _img->fillCircle(origin_x, origin_y, maximal_extent, bg_color);
   _img->drawCircle(origin_x, origin_y, maximal_extent, fg_color);
@@ -292,7 +293,9 @@ void UIGfxWrapper::drawVector(
   if (draw_axes) {   // Draw the axes? The origin is in the middle of the field.
     _img->drawFastVLine(origin_x, y, h, fg_color);
     _img->drawFastHLine(x, origin_y, w, fg_color);
-    _img->drawLine(x, (y+h), w, y, fg_color);
+    if ((0 < w) & (0 < h)) {
+      _img->drawLine(x, (y+h-1), (x+w-1), y, fg_color);
+    }
     // Only 1/8 of a cube (all vector components are positive).
     //_img->drawFastVLine(x, y, h, fg_color);
     //_img->drawFastHLine(x, (y+h), w, fg_color);
-- 
2.43.0


From c46db32a541f747662699cabd1d95fccf4a3303b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:10 +0000
Subject: [PATCH 156/224] fix: float graphs drew their lowest points below the
 graph; graphs without data or with minor grids crashed

---
 src/Image/ImageUtils/ImageGraph.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/Image/ImageUtils/ImageGraph.cpp b/src/Image/ImageUtils/ImageGraph.cpp
index 56db5dd..7d1d794 100644
--- a/src/Image/ImageUtils/ImageGraph.cpp
+++ b/src/Image/ImageUtils/ImageGraph.cpp
@@ -34,13 +34,13 @@ template <> void ImageGraph<uint32_t>::drawGraph(Image* img, const PixUInt POS_X
     img->drawFastVLine((GRAPH_X - 1), GRAPH_Y, FRUS_H, fg_color);
     img->drawFastHLine((GRAPH_X - 1), (GRAPH_Y + (FRUS_H - 1)), FRUS_W, fg_color);
 
-    if (trace0.enabled) {
+    if (trace0.enabled && (nullptr != trace0.dataset) && (0 < trace0.data_len)) {
       const PixUInt TXT_PIXEL_HEIGHT = img->getFontHeight();
       const PixUInt TXT_PIXEL_WIDTH  = img->getFontWidth();
       trace0.findBounds(GRAPH_W, GRAPH_H);
       const uint32_t SAFE_WIDTH = strict_min((uint32_t) GRAPH_W, trace0.data_len);
       uint32_t* tmp_ptr = trace0.dataset;
-      if (trace0.drawVGrid()) {
+      if (trace0.drawVGrid() && (0 != trace0.major_grid_x)) {
         // We draw the grid first so it doesn't occlude anything else. Draw
         //   left-to-right.
         const PixUInt GRAPH_LINE_FIRST_IDX = (trace0.grid_lock_x ? 0 : (trace0.major_grid_x-(trace0.offset_x % trace0.major_grid_x)));
@@ -52,7 +52,7 @@ template <> void ImageGraph<uint32_t>::drawGraph(Image* img, const PixUInt POS_X
           img->drawFastVLine(GLINE_X_REAL, GRAPH_Y, GRAPH_H, 0x202020);  // TODO: color selection.
         }
       }
-      if (trace0.drawHGrid()) {
+      if (trace0.drawHGrid() && (0 != trace0.major_grid_y)) {
         // We draw the grid first so it doesn't occlude anything else. Draw
         //   top-to-bottom.
         const uint32_t GRAPH_RANGE      = (trace0.maxValue() - trace0.minValue());
@@ -184,7 +184,7 @@ template <> void ImageGraph<uint32_t>::drawGraph(Image* img, const PixUInt POS_X
         img->writeString(&tmp_val_str);
         tmp_val_str.clear();
       }
-      if (trace0.show_value) {
+      if (trace0.show_value && (0 < SAFE_WIDTH)) {
         const uint32_t FINAL_DATUM = *(tmp_ptr + (SAFE_WIDTH-1));
         uint32_t tmp = ((FINAL_DATUM - trace0.minValue()) * trace0.v_scale());
         //img->fillCircle(x+w, tmp+y, 1, color);
@@ -222,7 +222,7 @@ template <> void ImageGraph<float>::drawGraph(Image* img, const PixUInt POS_X, c
     img->drawFastVLine((GRAPH_X - 1), GRAPH_Y, FRUS_H, fg_color);
     img->drawFastHLine((GRAPH_X - 1), (GRAPH_Y + (FRUS_H - 1)), FRUS_W, fg_color);
 
-    if (trace0.enabled) {
+    if (trace0.enabled && (nullptr != trace0.dataset) && (0 < trace0.data_len)) {
       trace0.findBounds((FRUS_W - INSET_X), (FRUS_H - INSET_Y));
       float*    tmp_ptr = trace0.dataset;
       uint32_t  tmp_len = strict_min((uint32_t) GRAPH_W, trace0.data_len);
@@ -230,7 +230,7 @@ template <> void ImageGraph<float>::drawGraph(Image* img, const PixUInt POS_X, c
         const float    DATA_VALUE = *(tmp_ptr + i);
         const uint32_t DELTA_Y    = ((DATA_VALUE - trace0.minValue()) * trace0.v_scale());
         const PixUInt PNT_X_POS  = (GRAPH_X + i);
-        const PixUInt PNT_Y_POS  = ((GRAPH_Y + FRUS_H) - DELTA_Y);
+        const PixUInt PNT_Y_POS  = (GRAPH_Y + (GRAPH_H - DELTA_Y));
         if ((int32_t) i != trace0.accented_idx) {
           // Draw a normal point on the curve.
           img->setPixel(PNT_X_POS, PNT_Y_POS, trace0.color);
@@ -313,7 +313,7 @@ template <> void ImageGraph<float>::drawGraph(Image* img, const PixUInt POS_X, c
         img->writeString(&tmp_val_str);
         tmp_val_str.clear();
       }
-      if (trace0.show_value) {
+      if (trace0.show_value && (0 < tmp_len)) {
         const float FINAL_DATUM = *(tmp_ptr + (tmp_len-1));
         float tmp = ((FINAL_DATUM - trace0.minValue()) * trace0.v_scale());
         //img->fillCircle(x+w, tmp+y, 1, color);
-- 
2.43.0


From 7c08a2af4c509e9263a8d56eb8e4e4dd88bdb4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:11 +0000
Subject: [PATCH 157/224] fix: an accented point at the image's edge filled the
 whole width of a graph

Its coordinate wrapped, and so it was taken to overflow the graph's other edge.
---
 src/Image/ImageUtils/ImageGraph.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/Image/ImageUtils/ImageGraph.cpp b/src/Image/ImageUtils/ImageGraph.cpp
index 7d1d794..07af92b 100644
--- a/src/Image/ImageUtils/ImageGraph.cpp
+++ b/src/Image/ImageUtils/ImageGraph.cpp
@@ -97,17 +97,17 @@ template <> void ImageGraph<uint32_t>::drawGraph(Image* img, const PixUInt POS_X
         else {
           // Draw an accented point on the curve.
           const PixUInt POINT_SIZE = 3;
-          PixUInt point_x = (PNT_X_POS - POINT_SIZE);
-          PixUInt point_y = (PNT_Y_POS - POINT_SIZE);
-          PixUInt point_h = ((POINT_SIZE << 1) + 1);  // Ensure an odd number.
-          PixUInt point_w = ((POINT_SIZE << 1) + 1);  // Ensure an odd number.
+          int32_t point_x = ((int32_t) PNT_X_POS - POINT_SIZE);   // Might be negative.
+          int32_t point_y = ((int32_t) PNT_Y_POS - POINT_SIZE);
+          int32_t point_h = ((POINT_SIZE << 1) + 1);  // Ensure an odd number.
+          int32_t point_w = ((POINT_SIZE << 1) + 1);  // Ensure an odd number.
 
           if (point_x < GRAPH_X) {
             // Point overflowing the left-hand element boundary?
             point_w = point_w - (GRAPH_X - point_x);
             point_x = GRAPH_X;
           }
-          else if ((point_x + point_w) > (GRAPH_X + GRAPH_W)) {
+          if ((point_x + point_w) > (GRAPH_X + GRAPH_W)) {
             // Point overflowing the right-hand element boundary?
             point_w = (GRAPH_X + GRAPH_W) - point_x;
           }
@@ -116,7 +116,7 @@ template <> void ImageGraph<uint32_t>::drawGraph(Image* img, const PixUInt POS_X
             point_h = point_h - (GRAPH_Y - point_y);
             point_y = GRAPH_Y;
           }
-          else if ((point_y + point_h) > (GRAPH_Y + GRAPH_H)) {
+          if ((point_y + point_h) > (GRAPH_Y + GRAPH_H)) {
             // Point overflowing the lower element boundary?
             point_h = point_h - ((point_y + point_h) - (GRAPH_Y + GRAPH_H));
           }
@@ -238,17 +238,17 @@ template <> void ImageGraph<float>::drawGraph(Image* img, const PixUInt POS_X, c
         else {
           // Draw an accented point on the curve.
           const PixUInt POINT_SIZE = 3;
-          PixUInt point_x = (PNT_X_POS - POINT_SIZE);
-          PixUInt point_y = (PNT_Y_POS - POINT_SIZE);
-          PixUInt point_h = ((POINT_SIZE << 1) + 1);  // Ensure an odd number.
-          PixUInt point_w = ((POINT_SIZE << 1) + 1);  // Ensure an odd number.
+          int32_t point_x = ((int32_t) PNT_X_POS - POINT_SIZE);   // Might be negative.
+          int32_t point_y = ((int32_t) PNT_Y_POS - POINT_SIZE);
+          int32_t point_h = ((POINT_SIZE << 1) + 1);  // Ensure an odd number.
+          int32_t point_w = ((POINT_SIZE << 1) + 1);  // Ensure an odd number.
 
           if (point_x < GRAPH_X) {
             // Point overflowing the left-hand element boundary?
             point_w = point_w - (GRAPH_X - point_x);
             point_x = GRAPH_X;
           }
-          else if ((point_x + point_w) > (GRAPH_X + GRAPH_W)) {
+          if ((point_x + point_w) > (GRAPH_X + GRAPH_W)) {
             // Point overflowing the right-hand element boundary?
             point_w = (GRAPH_X + GRAPH_W) - point_x;
           }
@@ -257,7 +257,7 @@ template <> void ImageGraph<float>::drawGraph(Image* img, const PixUInt POS_X, c
             point_h = point_h - (GRAPH_Y - point_y);
             point_y = GRAPH_Y;
           }
-          else if ((point_y + point_h) > (GRAPH_Y + GRAPH_H)) {
+          if ((point_y + point_h) > (GRAPH_Y + GRAPH_H)) {
             // Point overflowing the lower element boundary?
             point_h = point_h - ((point_y + point_h) - (GRAPH_Y + GRAPH_H));
           }
-- 
2.43.0


From 3f77562be88cd437ed2725514f319bbb74e0908e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:27 +0000
Subject: [PATCH 158/224] fix: pollUntilStagnant() returns if the efferant
 refuses

---
 .../BufferAccepter/TestFixtures/CoDecTestFixtures.cpp      | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Pipes/BufferAccepter/TestFixtures/CoDecTestFixtures.cpp b/src/Pipes/BufferAccepter/TestFixtures/CoDecTestFixtures.cpp
index af9b56b..08bc3d8 100644
--- a/src/Pipes/BufferAccepter/TestFixtures/CoDecTestFixtures.cpp
+++ b/src/Pipes/BufferAccepter/TestFixtures/CoDecTestFixtures.cpp
@@ -121,14 +121,15 @@ int8_t BufAcceptTestSource::poll() {
 
 
 int8_t BufAcceptTestSource::pollUntilStagnant() {
-  const int BACKLOG_LEN_0 = _backlog.length();
   int8_t ret = 0;
   bool keep_polling = true;
   while (keep_polling) {
+    const int BACKLOG_LEN_0 = _backlog.length();
     keep_polling = false;
     if (1 == poll()) {
-      keep_polling = !efferantViolatesContract();
-      ret++;
+      // Stop if the efferant took nothing. Otherwise, this would never return.
+      keep_polling = (!efferantViolatesContract() && (_backlog.length() < BACKLOG_LEN_0));
+      if (ret < INT8_MAX) {  ret++;  }
     }
   }
   return ret;
-- 
2.43.0


From 8b6d2507fb6eacf3d32e0ec48bb6c46f51267d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:10 +0000
Subject: [PATCH 159/224] fix: a graph with no horizontal grid lines converted
 an unrepresentable float

---
 src/Image/ImageUtils/ImageGraph.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Image/ImageUtils/ImageGraph.cpp b/src/Image/ImageUtils/ImageGraph.cpp
index 07af92b..f70d3ab 100644
--- a/src/Image/ImageUtils/ImageGraph.cpp
+++ b/src/Image/ImageUtils/ImageGraph.cpp
@@ -58,9 +58,10 @@ template <> void ImageGraph<uint32_t>::drawGraph(Image* img, const PixUInt POS_X
         const uint32_t GRAPH_RANGE      = (trace0.maxValue() - trace0.minValue());
         const PixUInt  GRAPH_LINE_COUNT = (GRAPH_RANGE / trace0.major_grid_y);
         const uint32_t GRAPH_LINE_FIRST_VAL = (trace0.maxValue() - (trace0.grid_lock_y ? 0 : (trace0.maxValue() % trace0.major_grid_y)));
-        const PixUInt GRAPH_LINE_FIRST_PY  = (GRAPH_H - ((GRAPH_LINE_FIRST_VAL - trace0.minValue()) * trace0.v_scale()));
 
-        if (GRAPH_LINE_COUNT < (GRAPH_H >> 2)) {   // Don't saturate the field with grid lines.
+        // If the range is narrower than the grid, the first line might be below it.
+        if ((0 < GRAPH_LINE_COUNT) && (GRAPH_LINE_COUNT < (GRAPH_H >> 2))) {   // Don't saturate the field with grid lines.
+          const PixUInt GRAPH_LINE_FIRST_PY  = (GRAPH_H - ((GRAPH_LINE_FIRST_VAL - trace0.minValue()) * trace0.v_scale()));
           const float GLINE_STRIDE = ((float) GRAPH_H / (float) GRAPH_LINE_COUNT);
           for (PixUInt i = 0; i < GRAPH_LINE_COUNT; i++) {
             const PixUInt GLINE_Y_OFFSET = (i * GLINE_STRIDE);
-- 
2.43.0


From 2b9c7155ea12b4dd737a6519cde3f12be943ad69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:00 +0000
Subject: [PATCH 160/224] fix: TripleAxisTerminus reported every accepted
 vector as refused

---
 src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
index 81485e5..b57711c 100644
--- a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
+++ b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
@@ -183,6 +183,7 @@ int8_t TripleAxisTerminus::getDataWithErr(Vector3f* d, Vector3f* e, uint32_t* c)
 FAST_FUNC int8_t TripleAxisTerminus::pushVector(const SpatialSense s, Vector3f* data, Vector3f* error) {
   int8_t ret = -1;
   if (_SENSE == s) {
+    ret = 0;
     _last_update = millis();
     _update_count++;
     _DATA.set(data);
-- 
2.43.0


From 76037bcd3aa0e79ad1bd2ea2d907914699835e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:01 +0000
Subject: [PATCH 161/224] fix: TripleAxisFork took asynchronous success for
 failure

---
 src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
index b57711c..9b5b59f 100644
--- a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
+++ b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
@@ -53,10 +53,10 @@ const char* TripleAxisPipe::spatialSenseStr(SpatialSense s) {
 */
 FAST_FUNC int8_t TripleAxisFork::pushVector(const SpatialSense s, Vector3f* data, Vector3f* error) {
   int8_t ret = -2;
-  if ((nullptr != _LEFT) && (0 == _LEFT->pushVector(s, data, error))) {
+  if ((nullptr != _LEFT) && (0 <= _LEFT->pushVector(s, data, error))) {
     ret++;
   }
-  if ((nullptr != _RIGHT) && (0 == _RIGHT->pushVector(s, data, error))) {
+  if ((nullptr != _RIGHT) && (0 <= _RIGHT->pushVector(s, data, error))) {
     ret++;
   }
   return ret;
-- 
2.43.0


From e54acbd16787c68a28160dcc2e097ab0fdb1fc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:02 +0000
Subject: [PATCH 162/224] fix: TripleAxisConvention's default wasn't without
 effect, and it lost the return code from downstream

---
 src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
index 9b5b59f..068e496 100644
--- a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
+++ b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
@@ -94,8 +94,8 @@ FAST_FUNC int8_t TripleAxisConvention::pushVector(const SpatialSense s, Vector3f
   float inversion = 1.0;
   int8_t ret = -2;
   if (nullptr != _NXT) {
-    ret++;
-    switch (_SRC_FMT) {
+    // Matching conventions (the default) result in no transform.
+    switch ((_SRC_FMT == _NXT_FMT) ? GnomonType::UNDEFINED : _SRC_FMT) {
       case GnomonType::RH_NEG_X:
       case GnomonType::LH_POS_X:
         inversion = -1.0;
@@ -128,9 +128,7 @@ FAST_FUNC int8_t TripleAxisConvention::pushVector(const SpatialSense s, Vector3f
         }
         break;
     }
-    if (0 == _NXT->pushVector(s, &stacked_dat, (nullptr != error) ? &stacked_err : nullptr)) {
-      ret = 0;
-    }
+    ret = _NXT->pushVector(s, &stacked_dat, (nullptr != error) ? &stacked_err : nullptr);
   }
   return ret;
 }
-- 
2.43.0


From 40682f4a10a8d285a6d810c8c847827eb7efcf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:03 +0000
Subject: [PATCH 163/224] fix: TripleAxisSingleFilter dereferenced absent
 errors and efferents, invented errors, and inverted the return code of a
 relay

---
 src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
index 068e496..f597951 100644
--- a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
+++ b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
@@ -269,7 +269,10 @@ FAST_FUNC int8_t TripleAxisSingleFilter::pushVector(const SpatialSense s, Vector
   if (initialized()) {
     ret = -1;
     if (_SENSE == s) {
-      Vector3f tmp_err(error);
+      Vector3f tmp_err;
+      if (nullptr != error) {
+        tmp_err.set(error);
+      }
       ret = 0;
       switch (feedFilter(data)) {
         case 0:    // Value accepted into filter. No new result.
@@ -305,7 +308,7 @@ FAST_FUNC int8_t TripleAxisSingleFilter::pushVector(const SpatialSense s, Vector
           if (nullptr != _NXT) {
             // If the vector was pushed downstream, we consider it noted. If it
             //   was rejected, we leave the class marked dirty.
-            _filter_dirty = (0 > _NXT->pushVector(s, value(), &_ERR));
+            _filter_dirty = (0 > _NXT->pushVector(s, value(), (_has_error ? &_ERR : nullptr)));
           }
           break;
         default:   // Catch-all error case. Should never happen with the earlier init().
@@ -315,8 +318,8 @@ FAST_FUNC int8_t TripleAxisSingleFilter::pushVector(const SpatialSense s, Vector
     }
     else {
       // We blindly relay vectors of SpatialSense's we aren't configured for.
-      if (0 == _NXT->pushVector(s, data, error)) {
-        ret = -5;
+      if (nullptr != _NXT) {
+        ret = _NXT->pushVector(s, data, error);
       }
     }
   }
-- 
2.43.0


From baf517fae8373b2158df2bd6f132fd9082ab6fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:12 +0000
Subject: [PATCH 164/224] fix: TripleAxisOrientation never had news without an
 efferent, swapped roll and pitch, and invented errors

---
 src/Pipes/TripleAxisPipe/TripleAxisOrientation.cpp | 8 ++++----
 src/Pipes/TripleAxisPipe/TripleAxisPipe.h          | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Pipes/TripleAxisPipe/TripleAxisOrientation.cpp b/src/Pipes/TripleAxisPipe/TripleAxisOrientation.cpp
index 1397d09..005d302 100644
--- a/src/Pipes/TripleAxisPipe/TripleAxisOrientation.cpp
+++ b/src/Pipes/TripleAxisPipe/TripleAxisOrientation.cpp
@@ -59,10 +59,10 @@ int8_t TripleAxisOrientation::pushVector(const SpatialSense s, Vector3f* data, V
           // If the vector was pushed downstream, we consider it noted. If it
           //   was rejected, we leave the class marked dirty.
           //_filter_dirty = (0 > _NXT->pushVector(SpatialSense::EULER_ANG, &_gravity, &_ERR));
-          ret = _NXT->pushVector(SpatialSense::EULER_ANG, &_gravity, &_ERR_ACC);
+          ret = _NXT->pushVector(SpatialSense::EULER_ANG, &_gravity, ((nullptr != error) ? &_ERR_ACC : nullptr));
         }
         if (!_flags.value(TRIPAX_ORIENT_FLAG_VALUE_DIRTY)) {
-          _flags.set(TRIPAX_ORIENT_FLAG_VALUE_DIRTY, (0 > ret));
+          _flags.set(TRIPAX_ORIENT_FLAG_VALUE_DIRTY, ((nullptr == _NXT) || (0 > ret)));
         }
       }
       break;
@@ -99,8 +99,8 @@ void TripleAxisOrientation::printPipe(StringBuilder* output, uint8_t stage, uint
     output->concatf("%s| Data rate:      %.2f vectors/sec\n", indent.string(), (double) (1000.0 / _data_period));
   }
   output->concatf("%s| Up:    (%.4f, %.4f, %.4f)\n", (char*) indent.string(), (double) _up.x, (double) _up.y, (double) _up.z);
-  output->concatf("%s| Pitch: %.4f\n", (char*) indent.string(), (double) _gravity.x);
-  output->concatf("%s| Roll:  %.4f\n", (char*) indent.string(), (double) _gravity.y);
+  output->concatf("%s| Pitch: %.4f\n", (char*) indent.string(), (double) _gravity.y);
+  output->concatf("%s| Roll:  %.4f\n", (char*) indent.string(), (double) _gravity.x);
 }
 
 
diff --git a/src/Pipes/TripleAxisPipe/TripleAxisPipe.h b/src/Pipes/TripleAxisPipe/TripleAxisPipe.h
index fc6db4c..7701969 100644
--- a/src/Pipes/TripleAxisPipe/TripleAxisPipe.h
+++ b/src/Pipes/TripleAxisPipe/TripleAxisPipe.h
@@ -369,8 +369,8 @@ class TripleAxisOrientation : public TripleAxisPipe {
     void markLevel();
     bool dirty();
     Vector3f* value();
-    inline float pitch() {        return _gravity.x;        };
-    inline float roll() {         return _gravity.y;        };
+    inline float pitch() {        return _gravity.y;        };
+    inline float roll() {         return _gravity.x;        };
 
 
   private:
-- 
2.43.0


From 94aee812493c2d0f9a883541e664c0f527fbe2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:13 +0000
Subject: [PATCH 165/224] fix: TripleAxisCompass doubled pitch rather than
 removing it, had no bearing without an accelerometer, and wrapped degrees as
 radians

---
 src/Pipes/TripleAxisPipe/TripleAxisCompass.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Pipes/TripleAxisPipe/TripleAxisCompass.cpp b/src/Pipes/TripleAxisPipe/TripleAxisCompass.cpp
index 7bbc573..8205cb1 100644
--- a/src/Pipes/TripleAxisPipe/TripleAxisCompass.cpp
+++ b/src/Pipes/TripleAxisPipe/TripleAxisCompass.cpp
@@ -72,6 +72,8 @@ FAST_FUNC int8_t TripleAxisCompass::pushVector(const SpatialSense s, Vector3f* d
         _ERR_COMPASS.set(&_ERR_MAG);   // TODO: Obvious wrongness.
       }
       else {
+        // Without knowledge of "up", the unit is taken to be level.
+        _bearings.x = atan2(-1 * _field.y, _field.x);
         _ERR_COMPASS.set(&_ERR_MAG);   // TODO: Obvious wrongness.
       }
       _apply_magnetic_declination();
@@ -196,10 +198,10 @@ CompassErr TripleAxisCompass::_apply_static_offset() {
 CompassErr TripleAxisCompass::_apply_tilt_compensation() {
   float phi   = atan2(_gravity.y, _gravity.z);
   float theta = atan2(_gravity.x, (_gravity.y * sin(phi) + (_gravity.z * cos(phi))));
-  _tc_field.x = (_field.x * cos(theta)) + (_field.y * sin(theta) * sin(phi)) + (_field.z * sin(theta) * cos(phi));
+  _tc_field.x = (_field.x * cos(theta)) - (_field.y * sin(theta) * sin(phi)) - (_field.z * sin(theta) * cos(phi));
   _tc_field.y = (_field.y * cos(phi)) - (_field.z * sin(phi));
   _tc_field.z = (_field.x * sin(theta)) + (_field.y * cos(theta) * sin(phi)) + (_field.z * cos(theta) * cos(phi));
-  _bearings.x = atan2(-1 * _tc_field.y, _tc_field.x) * (180 / PI);
+  _bearings.x = atan2(-1 * _tc_field.y, _tc_field.x);
   return CompassErr::NONE;
 }
 
-- 
2.43.0


From 16b646d2d6c861b4edfd76096ddca99daddb9a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:45 +0000
Subject: [PATCH 166/224] fix: a BlobPlotter refused to use all of an image,
 and accepted areas which wrap

---
 src/Image/ImageUtils/BlobPlotter.cpp | 6 +++---
 src/Image/ImageUtils/BlobPlotter.h   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Image/ImageUtils/BlobPlotter.cpp b/src/Image/ImageUtils/BlobPlotter.cpp
index 5e17e1d..786d860 100644
--- a/src/Image/ImageUtils/BlobPlotter.cpp
+++ b/src/Image/ImageUtils/BlobPlotter.cpp
@@ -181,9 +181,9 @@ bool BlobPlotter::_able_to_render() {
   if (nullptr != _styler) {
     if ((nullptr != _target) && _target->allocated()) {
       if ((0 < _t_w) & (0 < _t_h)) {
-        const PixUInt X_EXTENT = (_t_x + _t_w);
-        const PixUInt Y_EXTENT = (_t_y + _t_h);
-        safe = ((_target->x() > X_EXTENT) & (_target->y() > Y_EXTENT));
+        const uint32_t X_EXTENT = ((uint32_t) _t_x + _t_w);
+        const uint32_t Y_EXTENT = ((uint32_t) _t_y + _t_h);
+        safe = ((_target->x() >= X_EXTENT) & (_target->y() >= Y_EXTENT));
       }
     }
   }
diff --git a/src/Image/ImageUtils/BlobPlotter.h b/src/Image/ImageUtils/BlobPlotter.h
index 5f1bec3..6f7b493 100644
--- a/src/Image/ImageUtils/BlobPlotter.h
+++ b/src/Image/ImageUtils/BlobPlotter.h
@@ -186,7 +186,7 @@ class BlobPlotter {
     bool _needs_render();
     bool _able_to_render();
     int8_t _calculate_square_size(const uint32_t LEN, const uint32_t T_SIZE);
-    inline uint32_t _pixels_available() {     return (_t_w * _t_h);   };
+    inline uint32_t _pixels_available() {     return ((uint32_t) _t_w * _t_h);   };
     virtual int8_t _curve_render(const uint8_t* PTR, const uint32_t OFFSET, const uint32_t LEN) =0;
 };
 
-- 
2.43.0


From 352224b7a1e77bbbb628b4e2a527017584005faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 167/224] fix: linear blob plots drew beyond their bounds

---
 src/Image/ImageUtils/BlobPlotter.cpp | 30 +++++++++-------------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/src/Image/ImageUtils/BlobPlotter.cpp b/src/Image/ImageUtils/BlobPlotter.cpp
index 786d860..ed5c4ba 100644
--- a/src/Image/ImageUtils/BlobPlotter.cpp
+++ b/src/Image/ImageUtils/BlobPlotter.cpp
@@ -253,25 +253,14 @@ int8_t BlobPlotter::apply(bool force) {
 int8_t BlobPlotter::_calculate_square_size(const uint32_t LEN, const uint32_t T_SIZE) {
   _square_size = 0;
   const PixUInt  STRICT_SQUARE_LIMIT = strict_min(_t_w, _t_h);   // Can't have a square larger than the bounding area...
-  const double   S_TO_FILL_AREA = sqrt(((double) T_SIZE / (double) LEN));
-  if ((double) 1.0d > S_TO_FILL_AREA) return -1;
-  const PixUInt  ROUNDED_SQUARE_SIZE = (PixUInt) ceil(S_TO_FILL_AREA);
-  const PixUInt  SQUARE_SIZE    = strict_min(ROUNDED_SQUARE_SIZE, STRICT_SQUARE_LIMIT);
-  const PixUInt  BYTES_PER_ROW  = ((_t_w / SQUARE_SIZE) + 1);
-  if (0 == BYTES_PER_ROW) return -1;
-  const PixUInt  TOTAL_ROWS     = ((LEN / BYTES_PER_ROW) + 1);
-  const uint32_t UNSQUARE_BYTES = (LEN - (BYTES_PER_ROW * TOTAL_ROWS));   // Number of bytes surplus to the square.
-
-  // Pad the length to yield a square that will include all the bytes in the
-  //   range, and then recalculate the square size.
-  const uint32_t PADDED_LEN       = (LEN + (BYTES_PER_ROW - UNSQUARE_BYTES));
-  const PixUInt  P_S_TO_FILL_AREA = (PixUInt) sqrt((double) T_SIZE / (double) PADDED_LEN);
-  if (0 == P_S_TO_FILL_AREA) return -1;
-  const PixUInt  P_SQUARE_SIZE    = strict_min(P_S_TO_FILL_AREA, STRICT_SQUARE_LIMIT);
-  const uint32_t P_BYTES_PER_ROW  = ((_t_w / P_SQUARE_SIZE) + 1);
-  if (0 == P_BYTES_PER_ROW) return -1;
-  //const uint32_t P_TOTAL_ROWS     = ((LEN / P_BYTES_PER_ROW) + 1);
-  _square_size = P_SQUARE_SIZE;
+  const uint32_t S_TO_FILL_AREA = (uint32_t) sqrt(((double) T_SIZE / (double) LEN));
+  PixUInt square_size = (PixUInt) strict_min(S_TO_FILL_AREA, (uint32_t) STRICT_SQUARE_LIMIT);
+  // Only whole squares are in bounds. Shrink them until there are enough.
+  while ((0 < square_size) && (LEN > ((uint32_t) (_t_w / square_size) * (uint32_t) (_t_h / square_size)))) {
+    square_size--;
+  }
+  if (0 == square_size) return -1;
+  _square_size = square_size;
   return 0;
 }
 
@@ -439,8 +428,7 @@ int8_t BlobPlotterLinear::_curve_render(const uint8_t* PTR, const uint32_t OFFSE
     PixUInt target_y = _t_y;
     for (uint32_t i = 0; i < LEN; i++) {
       if (0 < i) {  // TODO: Letting the compiler optimize this slop away bugs me. Just write it cleaner.
-        //if (0 == (i % BYTES_PER_ROW)) {
-        if ((target_x + _square_size) >= (_t_x + _t_w)) {
+        if (0 == (i % _bytes_wide)) {
           target_x  = _t_x;
           target_y += _square_size;
         }
-- 
2.43.0


From 7c14b5f6ead598863c4c09bd8a616ccfe31f2f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:47 +0000
Subject: [PATCH 168/224] fix: Hilbert plots dropped bytes if the field wasn't
 a square

---
 src/Image/ImageUtils/BlobPlotter.cpp | 44 +++++++---------------------
 1 file changed, 11 insertions(+), 33 deletions(-)

diff --git a/src/Image/ImageUtils/BlobPlotter.cpp b/src/Image/ImageUtils/BlobPlotter.cpp
index ed5c4ba..d7c22df 100644
--- a/src/Image/ImageUtils/BlobPlotter.cpp
+++ b/src/Image/ImageUtils/BlobPlotter.cpp
@@ -303,39 +303,17 @@ uint32_t BlobPlotterHilbertCurve::_reflected_gray_to_idx(uint32_t gray) {
 */
 int8_t BlobPlotterHilbertCurve::_curve_render(const uint8_t* PTR, const uint32_t OFFSET, const uint32_t LEN) {
   int8_t ret = -1;
-  // We need to find the ratio of H/W for this dataset, and we need to do
-  //   it while (ideally) keeping a power-of-2 on the X-axis.
-  // Presume a square size of 1, just to see if it will all fit. Then, scale it
-  //   upward until it doesn't fit.
-  uint32_t crude_scale = _pixels_available() / LEN;
-  _square_size = 1;
-  while (crude_scale > 3) {
-    _square_size = _square_size * 2;    // Mul-2
-    crude_scale = crude_scale >> 2;   // Div-4
-  }
-  // These are temporary working values.
-  const uint16_t BYTES_PER_ROW = (_t_w / _square_size);
-  const uint16_t BYTES_PER_COL = (_t_h / _square_size);
-  uint16_t x0_bits = 0;
-  uint16_t x1_bits = 0;
-  // Fit as many bits as possible into the X-axis. And determine the resulting
-  //   size of each bitfield.
-  while (BYTES_PER_ROW >= pow(2, (x0_bits + 1))) {    x0_bits++;  }
-  while (BYTES_PER_COL >= pow(2, (x1_bits + 1))) {    x1_bits++;  }
-  if ((x0_bits == 0) | (x1_bits == 0) | (32 < (x0_bits + x1_bits))) {
-    c3p_log(LOG_LEV_ERROR, "BlobPlotterHilbertCurve", "Bailout. Bits (x0/x1): %u/%u\t SS: %u", x0_bits, x1_bits, _bytes_wide, _bytes_high, _square_size);
-    return ret;
-  }
-  _bytes_wide = pow(2, x0_bits);        // Now we know.
-  _bytes_high = (LEN / _bytes_wide);    // This is also certain to be properly scaled, but...
-  if ((_bytes_wide * _bytes_high) < LEN) {  _bytes_high++;  }  // ...account for possible rounding error...
-  while (_bytes_high >= pow(2, x1_bits)) {    x1_bits++;  }    // ...and re-seek the height bit-count, if needed.
-
-  // In light of the resulting true field sizes, scale-back the per-byte render
-  //   to fill the available area while still remaining within it.
-  while ((_t_w < (_square_size * _bytes_wide)) || (_t_h < (_square_size * _bytes_high))) {
-    _square_size--;
-  }
+  // The curve's field is a square, and both of its sides are the same power-of-2.
+  // Find the smallest field that will contain the data.
+  uint16_t x0_bits = 1;
+  while ((15 > x0_bits) && (LEN > (1u << (x0_bits << 1)))) {    x0_bits++;  }
+  const uint16_t x1_bits = x0_bits;
+  _bytes_wide = (1u << x0_bits);
+  _bytes_high = (1u << x1_bits);
+
+  // Scale the per-byte render to fill the available area while still remaining
+  //   within it.
+  _square_size = (strict_min(_t_w, _t_h) >> x0_bits);
   // Bailout condition. Not enough area to fully-render in terms of
   //   perfect-squares on the X-axis.
   // NOTE: This is technically not a deal-breaker for the algorithm, but
-- 
2.43.0


From 9f9e0b63e48b5dc76f9d833adfa4b0a04b61efc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 169/224] fix: GfxUILayout ignored the borders it was given, or
 left them uninitialized

---
 src/Image/GfxUI.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Image/GfxUI.h b/src/Image/GfxUI.h
index fe12149..383e9ad 100644
--- a/src/Image/GfxUI.h
+++ b/src/Image/GfxUI.h
@@ -232,7 +232,8 @@ class GfxUILayout {
 
     /* Constructor that specifies each margin specifically. */
     GfxUILayout(PixUInt x, PixUInt y, PixUInt w, PixUInt h, uint8_t m_t, uint8_t m_b, uint8_t m_l, uint8_t m_r) :
-      _x(x), _y(y), _w(w), _h(h), _mrgn_t(m_t), _mrgn_b(m_b), _mrgn_l(m_l), _mrgn_r(m_r) {};
+      _x(x), _y(y), _w(w), _h(h), _mrgn_t(m_t), _mrgn_b(m_b), _mrgn_l(m_l), _mrgn_r(m_r),
+      _bordr_t(0), _bordr_b(0), _bordr_l(0), _bordr_r(0) {};
 
     /* Fully-specified constructor. */
     GfxUILayout(
@@ -242,7 +243,7 @@ class GfxUILayout {
     ) :
       _x(x), _y(y), _w(w), _h(h),
       _mrgn_t(m_t), _mrgn_b(m_b), _mrgn_l(m_l), _mrgn_r(m_r),
-      _bordr_t(m_t), _bordr_b(m_b), _bordr_l(m_l), _bordr_r(m_r) {};
+      _bordr_t(b_t), _bordr_b(b_b), _bordr_l(b_l), _bordr_r(b_r) {};
 
     /* Copy constructor. */
     GfxUILayout(const GfxUILayout &src) :
-- 
2.43.0


From 368828951e8fa519f8c789cd06147a6192206679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 170/224] fix: GfxUIElements without a style dereferenced a
 null one

---
 src/Image/GfxUI.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Image/GfxUI.h b/src/Image/GfxUI.h
index 383e9ad..1b28e8e 100644
--- a/src/Image/GfxUI.h
+++ b/src/Image/GfxUI.h
@@ -388,7 +388,7 @@ class GfxUIElement : public GfxUILayout {
 
     GfxUIElement(const GfxUILayout layout, const GfxUIStyle style, uint32_t f);
     GfxUIElement(GfxUILayout* layout, GfxUIStyle* style, uint32_t f);
-    GfxUIElement(GfxUILayout* layout, uint32_t f) : GfxUIElement(layout, nullptr, f) {};
+    GfxUIElement(GfxUILayout* layout, uint32_t f) : GfxUIElement(GfxUILayout(layout), GfxUIStyle(), f) {};
     GfxUIElement(PixUInt x, PixUInt y, PixUInt w, PixUInt h, uint32_t f);
 
     int _add_child(GfxUIElement*);
-- 
2.43.0


From 00973cbb4ec9f4ea66d5cacecb727769ca43660c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 171/224] fix: GfxUIElement's _class_flip_flag() did nothing

---
 src/Image/GfxUI.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Image/GfxUI.h b/src/Image/GfxUI.h
index 1b28e8e..724984b 100644
--- a/src/Image/GfxUI.h
+++ b/src/Image/GfxUI.h
@@ -407,7 +407,7 @@ class GfxUIElement : public GfxUILayout {
     inline uint32_t _class_flags() {                   return _flags.raw;       };
     inline bool _class_flag(uint32_t f) {              return _flags.value(f);  };
     inline void _class_clear_flag(uint32_t f) {        _flags.clear(f);         };
-    inline void _class_flip_flag(uint32_t f) {         _flags.set(f, _flags.value(f));  };
+    inline void _class_flip_flag(uint32_t f) {         _flags.set(f, !_flags.value(f));  };
     inline void _class_set_flag(uint32_t f, bool x = true) {  _flags.set(f, x);        };
 
   private:
-- 
2.43.0


From 9178a2d02cbb0f0a185a9f71caecb5049242112f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:49 +0000
Subject: [PATCH 172/224] fix: dragging a GfxUIElement never stopped

---
 src/Image/GfxUI/GfxUI.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/Image/GfxUI/GfxUI.cpp b/src/Image/GfxUI/GfxUI.cpp
index 92d9ef3..3e6e5ec 100644
--- a/src/Image/GfxUI/GfxUI.cpp
+++ b/src/Image/GfxUI/GfxUI.cpp
@@ -169,9 +169,7 @@ bool GfxUIElement::notify(const GfxUIEvent GFX_EVNT, const PixUInt x, const PixU
                 if (isDragging()) {
                   reposition(x, y);
                 }
-                else {
-                  isDragging(GfxUIEvent::DRAG_START == GFX_EVNT);
-                }
+                isDragging(GfxUIEvent::DRAG_START == GFX_EVNT);
               }
               else {
                 // If the element isn't draggable, propagate the event.
-- 
2.43.0


From d2736af70d10195c82e7ef80597b075028958c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 173/224] fix: a zoom slider's mark left its bounds near either
 end, was mirrored, and turned inside out

---
 src/Image/GfxUI/GfxUISlider.cpp | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/Image/GfxUI/GfxUISlider.cpp b/src/Image/GfxUI/GfxUISlider.cpp
index 872e589..1248599 100644
--- a/src/Image/GfxUI/GfxUISlider.cpp
+++ b/src/Image/GfxUI/GfxUISlider.cpp
@@ -99,13 +99,10 @@ float GfxUIZoomSlider::value() {
 void GfxUIZoomSlider::value(const float NEW_CENTER) {
   const float WIDTH       = markWidth();
   const float HALF_WIDTH  = (WIDTH / 2.0f);
-  const float TMP_FRAC    = 1.0f - strict_min(1.0f, strict_max(0.0f, NEW_CENTER));
-  const float RESIDUE_0   = strict_max(0.0, (TMP_FRAC - HALF_WIDTH));
-  const float RESIDUE_1   = strict_min(1.0, (TMP_FRAC + HALF_WIDTH));
-  const float PROJ_ANTIPODE_0 = (RESIDUE_1 - WIDTH);
-  const float PROJ_ANTIPODE_1 = (RESIDUE_0 + WIDTH);
-  _frac_0 = strict_min(RESIDUE_0, PROJ_ANTIPODE_0);
-  _frac_1 = strict_max(RESIDUE_1, PROJ_ANTIPODE_1);
+  // Keep the width of the mark, and keep it in bounds.
+  const float CENTER      = strict_min((1.0f - HALF_WIDTH), strict_max(HALF_WIDTH, NEW_CENTER));
+  _frac_0 = strict_max(0.0f, (CENTER - HALF_WIDTH));
+  _frac_1 = strict_min(1.0f, (CENTER + HALF_WIDTH));
 }
 
 
@@ -151,15 +148,14 @@ bool GfxUIZoomSlider::_notify(const GfxUIEvent GFX_EVNT, PixUInt x, PixUInt y, P
       {
         const PixUInt FIELD_WIDTH_PX = (_class_flag(GFXUI_SLIDER_FLAG_VERTICAL) ? internalHeight() : internalWidth());
         const float   PIX_POS_REL    = (_class_flag(GFXUI_SLIDER_FLAG_VERTICAL) ? (y - internalPosY()) : (x - internalPosX()));
-        const float TMP_FRAC    = 1.0f - strict_min(1.0f, strict_max(0.0f, (PIX_POS_REL / (float) FIELD_WIDTH_PX)));
+        const float REL_FRAC    = strict_min(1.0f, strict_max(0.0f, (PIX_POS_REL / (float) FIELD_WIDTH_PX)));
+        const float TMP_FRAC    = (_class_flag(GFXUI_SLIDER_FLAG_VERTICAL) ? (1.0f - REL_FRAC) : REL_FRAC);
         const float WIDTH       = markWidth();
         const float HALF_WIDTH  = (WIDTH / 2.0f);
-        const float RESIDUE_0   = strict_max(0.0, (TMP_FRAC - HALF_WIDTH));
-        const float RESIDUE_1   = strict_min(1.0, (TMP_FRAC + HALF_WIDTH));
-        const float PROJ_ANTIPODE_0 = (RESIDUE_1 - WIDTH);
-        const float PROJ_ANTIPODE_1 = (RESIDUE_0 + WIDTH);
-        tmp_frac_0 = strict_min(RESIDUE_0, PROJ_ANTIPODE_0);
-        tmp_frac_1 = strict_max(RESIDUE_1, PROJ_ANTIPODE_1);
+        // Keep the width of the mark, and keep it in bounds.
+        const float CENTER      = strict_min((1.0f - HALF_WIDTH), strict_max(HALF_WIDTH, TMP_FRAC));
+        tmp_frac_0 = strict_max(0.0f, (CENTER - HALF_WIDTH));
+        tmp_frac_1 = strict_min(1.0f, (CENTER + HALF_WIDTH));
       }
       ret = true;
       break;
@@ -179,8 +175,9 @@ bool GfxUIZoomSlider::_notify(const GfxUIEvent GFX_EVNT, PixUInt x, PixUInt y, P
 
     case GfxUIEvent::MOVE_DOWN:
       // Scrolling up will decrease the righthand bound, and increase the lefthand bound.
-      tmp_frac_0 = strict_min(1.0, (_frac_0 + 0.005));
-      tmp_frac_1 = strict_max(0.0, (_frac_1 - 0.005));
+      // They meet in the middle.
+      tmp_frac_0 = strict_min(value(), (_frac_0 + 0.005f));
+      tmp_frac_1 = strict_max(value(), (_frac_1 - 0.005f));
       change_log->insert(this, (int) GFX_EVNT);
       ret = true;
       break;
-- 
2.43.0


From 0f0771b547175413ec64ea1ee5a700257054b41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 174/224] fix: scrolling below the first tab led to the wrong
 one, or nowhere

---
 src/Image/GfxUI/GfxUITabBar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Image/GfxUI/GfxUITabBar.cpp b/src/Image/GfxUI/GfxUITabBar.cpp
index 1e10904..ec8d1ac 100644
--- a/src/Image/GfxUI/GfxUITabBar.cpp
+++ b/src/Image/GfxUI/GfxUITabBar.cpp
@@ -59,7 +59,7 @@ bool GfxUITabBar::_notify(const GfxUIEvent GFX_EVNT, PixUInt x, PixUInt y, Prior
         for (uint32_t btn_idx = 0; btn_idx < BTN_COUNT; btn_idx++) {
           GfxUIButton* btn_cur = (GfxUIButton*) _children.get(btn_idx);
           if (btn_cur->pressed()) {
-            if (1 == _set_active_tab((btn_idx + movement_dir) % BTN_COUNT)) {
+            if (1 == _set_active_tab((btn_idx + BTN_COUNT + movement_dir) % BTN_COUNT)) {
               break;   // Break from the loop.
             }
           }
-- 
2.43.0


From 7b910efe201b31c4c71553cdb150d414d2ff7531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 175/224] fix: GfxUITabBar::addTab() of a selected tab didn't
 make it the active one

---
 src/Image/GfxUI/GfxUITabBar.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Image/GfxUI/GfxUITabBar.cpp b/src/Image/GfxUI/GfxUITabBar.cpp
index ec8d1ac..e8abb8d 100644
--- a/src/Image/GfxUI/GfxUITabBar.cpp
+++ b/src/Image/GfxUI/GfxUITabBar.cpp
@@ -109,6 +109,9 @@ int8_t GfxUITabBar::addTab(const char* txt, bool selected) {
         chld->resize(NEW_UNIT_W, INTRNL_H);
         x_pix_accum += NEW_UNIT_W;
       }
+      if (selected) {
+        _set_active_tab(BTN_COUNT-1);
+      }
       _need_redraw(true);
       ret = 0;
     }
-- 
2.43.0


From c6e6ce8e71c93930ed52dbff2bf711cb80143159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 176/224] fix: GfxUIElements were told twice of the same hover,
 selection, or drag

---
 src/Image/GfxUI/GfxUI.cpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/Image/GfxUI/GfxUI.cpp b/src/Image/GfxUI/GfxUI.cpp
index 3e6e5ec..83b29d2 100644
--- a/src/Image/GfxUI/GfxUI.cpp
+++ b/src/Image/GfxUI/GfxUI.cpp
@@ -171,20 +171,14 @@ bool GfxUIElement::notify(const GfxUIEvent GFX_EVNT, const PixUInt x, const PixU
                 }
                 isDragging(GfxUIEvent::DRAG_START == GFX_EVNT);
               }
-              else {
-                // If the element isn't draggable, propagate the event.
-                _notify(GFX_EVNT, x, y, change_log);
-              }
+              // Propagate the event to child class.
+              _notify(GFX_EVNT, x, y, change_log);
               break;
 
             default:
               break;
           }
           change_log->insert(this, (int) GFX_EVNT);
-          if (GFX_EVNT != GfxUIEvent::IDENTIFY) {
-            // Propagate HOVER to child class. We are returning true, in any case.
-            _notify(GFX_EVNT, x, y, change_log);
-          }
         }
         ret = true;
         break;
-- 
2.43.0


From b42556e15b801c48bf489bc3d9f5f7356ec32792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:01 +0000
Subject: [PATCH 177/224] fix: BusAdapter::purge_queued_work_by_dev(): count
 past 127 purged jobs

The queue may hold up to 255 jobs, and an int8_t made a purge of 145 of them
report -111.
---
 src/BusQueue/BusQueue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BusQueue/BusQueue.h b/src/BusQueue/BusQueue.h
index 5af4b72..fd4d605 100644
--- a/src/BusQueue/BusQueue.h
+++ b/src/BusQueue/BusQueue.h
@@ -426,8 +426,8 @@ template <class T> class BusAdapter : public BusOpCallback, public C3PPollable {
     * @param  dev  The device pointer that owns jobs we wish purged.
     * @return The number of jobs purged.
     */
-    int8_t purge_queued_work_by_dev(BusOpCallback* cb_obj) {
-      int8_t ret = 0;
+    int purge_queued_work_by_dev(BusOpCallback* cb_obj) {
+      int ret = 0;
       int i = 0;
       while (i < work_queue.size()) {
         T* current = work_queue.get(i);
-- 
2.43.0


From fd7453881a96bc8988386c8ed1b211049544f3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 178/224] fix: BusAdapter::_memory_init() never returned with
 256 or more preallocated jobs

The loop over the pool counted with a uint8_t.
---
 src/BusQueue/BusQueue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BusQueue/BusQueue.h b/src/BusQueue/BusQueue.h
index fd4d605..145a443 100644
--- a/src/BusQueue/BusQueue.h
+++ b/src/BusQueue/BusQueue.h
@@ -513,7 +513,7 @@ template <class T> class BusAdapter : public BusOpCallback, public C3PPollable {
     int8_t _memory_init() {
       int8_t ret = -1;
       if (preallocated.allocated()) {
-        for (uint8_t i = 0; i < preallocated.capacity(); i++) {
+        for (uint32_t i = 0; i < preallocated.capacity(); i++) {
           T* pa_busop = preallocated.take();
           pa_busop->shouldReap(false);
           preallocated.give(pa_busop);
-- 
2.43.0


From c36585fa97cb7d98d74eda90da0435df51365f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:08 +0000
Subject: [PATCH 179/224] fix: MultiStringSearch::runSearch() overflowed on
 lengths near INT_MAX

The sum of offset and length wrapped negative, which passed the bounds check
instead of being refused as nonsensical (-3).
---
 src/MultiStringSearch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MultiStringSearch.cpp b/src/MultiStringSearch.cpp
index ffa8043..f4cbb57 100644
--- a/src/MultiStringSearch.cpp
+++ b/src/MultiStringSearch.cpp
@@ -141,7 +141,7 @@ int MultiStringSearch::runSearch(StringBuilder* untrusted_src, const int SEARCH_
   if (nullptr != _src) {                                 return -2;  }  // Search in progress.
   if ((0 > STARTING_OFFSET) | (0 >= SEARCH_LEN)) {       return -3;  }  // Params are confused.
   const int32_t INPUT_LENGTH = untrusted_src->length();
-  if (INPUT_LENGTH < (STARTING_OFFSET + SEARCH_LEN)) {   return -3;  }  // Params are confused.
+  if (SEARCH_LEN > (INPUT_LENGTH - STARTING_OFFSET)) {   return -3;  }  // Params are confused.
   reset();
   _src = untrusted_src;
   _search_length        = SEARCH_LEN;
-- 
2.43.0


From 1bbe86807992041d5b1007257e43c9a2bb5a27e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:26 +0000
Subject: [PATCH 180/224] fix: C3PScheduledJitterProbe mismeasured jitter at
 the clock's wrap

A probe due just before the 32-bit microsecond clock wrapped, and run just
after it, recorded a jitter of nearly 71 minutes.
---
 src/TimerTools/C3PScheduler.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/TimerTools/C3PScheduler.cpp b/src/TimerTools/C3PScheduler.cpp
index 3928873..500e4eb 100644
--- a/src/TimerTools/C3PScheduler.cpp
+++ b/src/TimerTools/C3PScheduler.cpp
@@ -149,11 +149,9 @@ FAST_FUNC int8_t C3PScheduledJitterProbe::_execute() {
   int8_t ret = 0;
   if (jitter.initialized()) {
     const unsigned int NOW = micros();
-    uint32_t wrapped_jitter = (NOW - nextExec());
-    if (nextExec() > NOW) {
-      wrapped_jitter = (nextExec() - NOW);
-    }
-    jitter.feedSeries(wrapped_jitter);
+    const uint32_t LATE_BY  = (uint32_t) (NOW - nextExec());
+    const uint32_t EARLY_BY = (uint32_t) (nextExec() - NOW);
+    jitter.feedSeries(strict_min(LATE_BY, EARLY_BY));
   }
   else {
     jitter.init();
-- 
2.43.0


From 90b5d4487d96e415037b11a41e4d96dbcd6f49ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:37 +0000
Subject: [PATCH 181/224] fix: TimeSeries::dirty() missed every 65536th sample

Only the low 16 bits of the sample count were kept for comparison, so a series
fed an exact multiple of 65536 samples since its last read looked clean.
---
 src/TimeSeries/TimeSeries.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/TimeSeries/TimeSeries.h b/src/TimeSeries/TimeSeries.h
index f3fae74..afd1832 100644
--- a/src/TimeSeries/TimeSeries.h
+++ b/src/TimeSeries/TimeSeries.h
@@ -80,9 +80,9 @@ class TimeSeriesBase {
     inline uint32_t lastIndex() {          return _sample_idx;        };
     inline uint32_t totalSamples() {       return _samples_total;     };
     inline int8_t   purge() {              return _zero_samples();    };
-    inline bool     dirty() {              return (_last_trace != (0x0000FFFF & _samples_total));  };
+    inline bool     dirty() {              return (_last_trace != _samples_total);  };
     inline void     invalidateStats() {    _set_flags(false, TIMESERIES_FLAG_MASK_ALL_STATS);  };
-    inline void     markClean() {          _last_trace = (0x0000FFFF & _samples_total);   };
+    inline void     markClean() {          _last_trace = _samples_total;   };
     inline int8_t   windowSize(uint32_t x) {   return _reallocate_sample_window(x);     };
     inline uint32_t windowSize() {         return (initialized() ? _window_size : 0);   };
     uint32_t indexIsWhichSample(const uint32_t MEM_IDX);
@@ -147,7 +147,7 @@ class TimeSeriesBase {
   private:
     const TCode _TCODE;
     uint8_t     _flags;       // Class behavior flags.
-    uint16_t    _last_trace;  // A slice of the _samples_total to track updates.
+    uint32_t    _last_trace;  // A copy of _samples_total to track updates.
     char*       _name;        // An optional name for this TimeSeries.
     SIUnit*     _units;       // Optional unit specification.
 };
-- 
2.43.0


From 772dfe0d7fd13a007556d818a14978c706f29c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:29 +0000
Subject: [PATCH 182/224] fix: GfxUITextArea breaks what it is given into
 lines, and claims it

---
 src/Image/GfxUI/GfxUITextArea.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/Image/GfxUI/GfxUITextArea.cpp b/src/Image/GfxUI/GfxUITextArea.cpp
index 93cb3ba..18eb9de 100644
--- a/src/Image/GfxUI/GfxUITextArea.cpp
+++ b/src/Image/GfxUI/GfxUITextArea.cpp
@@ -117,13 +117,10 @@ int8_t GfxUITextArea::pushBuffer(StringBuilder* buf) {
       //   is a given that we can release what we have, and cull the inbound down
       //   to size.
       _scrollback.clear();
-      _scrollback.concatHandoff(buf);
       if (additional_length > _max_scrollback_bytes) {
         // Do not exceed defined maximum.
-        _scrollback.cull(strict_abs_delta(additional_length, _max_scrollback_bytes));
+        buf->cull(strict_abs_delta(additional_length, _max_scrollback_bytes));
       }
-      additional_length = 0;  // We just took all the additional length.
-      ret = 1;  // We claimed the entire buffer.
     }
     else {
       // Peak memory load will be greatly reduced if we cull the
@@ -133,12 +130,14 @@ int8_t GfxUITextArea::pushBuffer(StringBuilder* buf) {
       while ((additional_length + _scrollback.length()) > _max_scrollback_bytes) {
         _scrollback.drop_position(0);
       }
-      _scrollback.concatHandoff(buf);
-      _scrollback.string();
-      buf->split("\n");
     }
 
-    // In all cases, we now need to re-tokenize the buffer on a per-line basis.
+    // In all cases, the scrollback is tokenized on a per-line basis.
+    if (0 < buf->split("\n")) {
+      _scrollback.concatHandoff(buf);
+    }
+    buf->clear();  // There is nothing left in it but line-ends.
+    ret = 1;  // We claimed the entire buffer.
     uint32_t lines = _scrollback.count();
     if (scrollable()) {
       // If the desired top_line is such that the last line of the text
@@ -150,8 +149,9 @@ int8_t GfxUITextArea::pushBuffer(StringBuilder* buf) {
       // TODO: Not quite there....
       //_top_line = strict_range_bind(lines, 0, (_max_rows - lines));
     }
-    else {
-      // We may as well drop any lines that will never be viewed again.
+    else if (0 < _max_rows) {
+      // We may as well drop any lines that will never be viewed again. This
+      //   can't be known until the area has been rendered.
       while (lines > _max_rows) {
         _scrollback.drop_position(0);
         lines--;
-- 
2.43.0


From 30b72d479e762ef04f930fe9d6a737bd8099b2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:30 +0000
Subject: [PATCH 183/224] fix: GfxUITextArea fits its lines to its present size

---
 src/Image/GfxUI/GfxUITextArea.cpp | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/Image/GfxUI/GfxUITextArea.cpp b/src/Image/GfxUI/GfxUITextArea.cpp
index 18eb9de..47904f5 100644
--- a/src/Image/GfxUI/GfxUITextArea.cpp
+++ b/src/Image/GfxUI/GfxUITextArea.cpp
@@ -23,15 +23,13 @@ int GfxUITextArea::_render(UIGfxWrapper* ui_gfx) {
   uint16_t y_adv = ui_gfx->img()->getFontHeight();
   if (y_adv) _max_rows = i_h / y_adv;
 
-  if (0 == _max_cols) {
-    // This probably means the object hasn't been rendered yet.
-    // NOTE: Code below assumes monospaced fonts. Use the commented code if
-    //   this assumption fails one day.
-    // void getTextBounds(const uint8_t* s, uint32_t x, uint32_t y, uint32_t* x1, uint32_t* y1, uint32_t* w, uint32_t* h);
-    // void getTextBounds(StringBuilder*, uint32_t x, uint32_t y, uint32_t* x1, uint32_t* y1, uint32_t* w, uint32_t* h);
-    uint16_t x_adv = ui_gfx->img()->getFontWidth();
-    if (x_adv) _max_cols = i_w / x_adv;
-  }
+  // NOTE: Code below assumes monospaced fonts. Use the commented code if
+  //   this assumption fails one day.
+  // void getTextBounds(const uint8_t* s, uint32_t x, uint32_t y, uint32_t* x1, uint32_t* y1, uint32_t* w, uint32_t* h);
+  // void getTextBounds(StringBuilder*, uint32_t x, uint32_t y, uint32_t* x1, uint32_t* y1, uint32_t* w, uint32_t* h);
+  // The area might have been resized since the last render.
+  uint16_t x_adv = ui_gfx->img()->getFontWidth();
+  if (x_adv) _max_cols = i_w / x_adv;
 
   if ((0 < _max_cols) & (0 < _max_rows)) {
     ui_gfx->img()->fillRect(i_x, i_y, i_w, i_h, _style.color_bg);
@@ -52,12 +50,11 @@ int GfxUITextArea::_render(UIGfxWrapper* ui_gfx) {
     while (line_count > 0) {
       char* line = _scrollback.position(line_idx);
       if (line) {
-        if (strlen(line) > _max_cols) {
-          // Shorten the line length to fit the area.
-          *(line + _max_cols) = 0;  // TODO: Ugly. Won't go backward.
-        }
         ui_gfx->img()->setCursor(i_x, i_y + (next_row * y_adv));
-        ui_gfx->img()->writeString((const char*) line);
+        // Only write as much of the line as will fit the area.
+        for (uint16_t n = 0; (n < _max_cols) && (0 != *(line + n)); n++) {
+          ui_gfx->img()->writeChar((uint8_t) *(line + n));
+        }
         next_row++;
       }
       line_count--;
-- 
2.43.0


From 85f65c7c4537a93478a6bb025a9166235f6e0265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:31 +0000
Subject: [PATCH 184/224] fix: GfxUITextArea scrolled beyond its text shows the
 text

---
 src/Image/GfxUI/GfxUITextArea.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Image/GfxUI/GfxUITextArea.cpp b/src/Image/GfxUI/GfxUITextArea.cpp
index 47904f5..144e6bf 100644
--- a/src/Image/GfxUI/GfxUITextArea.cpp
+++ b/src/Image/GfxUI/GfxUITextArea.cpp
@@ -37,6 +37,8 @@ int GfxUITextArea::_render(UIGfxWrapper* ui_gfx) {
     uint16_t line_idx   = 0;
     if (line_count > _max_rows) {
       if (scrollable()) {
+        // Lines might have been lost since we were scrolled.
+        _top_line  = strict_min(_top_line, (uint16_t) (line_count - _max_rows));
         line_idx   = (line_count - _max_rows) - _top_line;
         line_count = strict_min((uint16_t) (line_count-line_idx), _max_rows);
       }
@@ -46,6 +48,9 @@ int GfxUITextArea::_render(UIGfxWrapper* ui_gfx) {
         line_count = _max_rows;
       }
     }
+    else {
+      _top_line = 0;   // There is nothing to scroll.
+    }
 
     while (line_count > 0) {
       char* line = _scrollback.position(line_idx);
-- 
2.43.0


From 4fa34e28e77efa2d653cd7b79b5b2b7dbe57ae1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:34 +0000
Subject: [PATCH 185/224] fix: GfxUITextArea::scrollbackLength() returns a
 length

---
 src/Image/GfxUI/GfxUIKit.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Image/GfxUI/GfxUIKit.h b/src/Image/GfxUI/GfxUIKit.h
index 7638b7e..a60a903 100644
--- a/src/Image/GfxUI/GfxUIKit.h
+++ b/src/Image/GfxUI/GfxUIKit.h
@@ -292,7 +292,7 @@ class GfxUITextArea : public GfxUIElement, public BufferAccepter {
     inline void scrollable(bool x) { _class_set_flag(GFXUI_TXTAREA_FLAG_SCROLLABLE, x);  };
     inline bool scrollable() {       return _class_flag(GFXUI_TXTAREA_FLAG_SCROLLABLE);  };
     inline void scrollbackLength(uint32_t x) {  _max_scrollback_bytes = x;     };
-    inline bool scrollbackLength() {            return _max_scrollback_bytes;  };
+    inline uint32_t scrollbackLength() {            return _max_scrollback_bytes;  };
     void clear();
 
 
-- 
2.43.0


From 194e2ea831920230298e43513239a60fee8402dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:35 +0000
Subject: [PATCH 186/224] fix: GfxUIStopWatch draws a watch whose run times are
 all the same

---
 src/Image/GfxUI/GfxUIStopWatch.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Image/GfxUI/GfxUIStopWatch.cpp b/src/Image/GfxUI/GfxUIStopWatch.cpp
index 471ba71..db03863 100644
--- a/src/Image/GfxUI/GfxUIStopWatch.cpp
+++ b/src/Image/GfxUI/GfxUIStopWatch.cpp
@@ -57,8 +57,8 @@ int GfxUIStopWatch::_render(UIGfxWrapper* ui_gfx) {
 
   if (0 < _stopwatch->executions()) {
     const uint32_t TIME_RANGE = (_stopwatch->worstTime() - _stopwatch->bestTime());
-    const float PRCNT_MEAN = (float) (_stopwatch->meanTime() - _stopwatch->bestTime()) / (float) TIME_RANGE;
-    const float PRCNT_LAST = (float) (_stopwatch->lastTime() - _stopwatch->bestTime()) / (float) TIME_RANGE;
+    const float PRCNT_MEAN = (float) (_stopwatch->meanTime() - _stopwatch->bestTime()) / (float) strict_max(TIME_RANGE, (uint32_t) 1);
+    const float PRCNT_LAST = (float) (_stopwatch->lastTime() - _stopwatch->bestTime()) / (float) strict_max(TIME_RANGE, (uint32_t) 1);
     const PixUInt INFILL_WIDTH = (PRCNT_MEAN * (b_w - 2));
 
     ui_gfx->img()->fillRoundRect((b_x + 1), (i_y + 1), INFILL_WIDTH, (b_h - 2), 5, 0x505050);
-- 
2.43.0


From cc070c080de509f6576535a654fdedab3eac1b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:36 +0000
Subject: [PATCH 187/224] fix: GfxUIMagnifier's pointer begins at the origin

---
 src/Image/GfxUI/GfxUIMagnifier.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Image/GfxUI/GfxUIMagnifier.cpp b/src/Image/GfxUI/GfxUIMagnifier.cpp
index 6d20b5d..0e8cdf0 100644
--- a/src/Image/GfxUI/GfxUIMagnifier.cpp
+++ b/src/Image/GfxUI/GfxUIMagnifier.cpp
@@ -13,7 +13,7 @@ Date:   2022.06.25
 *******************************************************************************/
 
 GfxUIMagnifier::GfxUIMagnifier(Image* src_img, PixUInt x, PixUInt y, PixUInt w, PixUInt h, uint32_t color, uint32_t f) :
-  GfxUIElement(x, y, w, h, (f | GFXUI_FLAG_ALWAYS_REDRAW)), _color(color), _src(src_img), _scale(2.0), _min_mag(1.0f), _max_mag(40.0f) {}
+  GfxUIElement(x, y, w, h, (f | GFXUI_FLAG_ALWAYS_REDRAW)), _color(color), _src(src_img), _pointer_x(0), _pointer_y(0), _scale(2.0), _min_mag(1.0f), _max_mag(40.0f) {}
 
 
 int GfxUIMagnifier::setBoands(float min_mag, float max_mag) {
-- 
2.43.0


From 780a2ab6acd09a6a6d655e327d8d5989a96356b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:38 +0000
Subject: [PATCH 188/224] fix: GfxUIMagnifier's scale stays within its bounds

---
 src/Image/GfxUI/GfxUIKit.h         | 2 +-
 src/Image/GfxUI/GfxUIMagnifier.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Image/GfxUI/GfxUIKit.h b/src/Image/GfxUI/GfxUIKit.h
index a60a903..c1e75fe 100644
--- a/src/Image/GfxUI/GfxUIKit.h
+++ b/src/Image/GfxUI/GfxUIKit.h
@@ -245,7 +245,7 @@ class GfxUIMagnifier : public GfxUIElement {
     ~GfxUIMagnifier() {};
 
     inline float scale() {         return _scale;    };
-    inline void scale(float x) {   _scale = x;       };
+    inline void scale(float x) {   _scale = strict_range_bind(x, _min_mag, _max_mag);   };
     int setBoands(float min_mag, float max_mag);
 
     void pointerLocation(float x, float y) {
diff --git a/src/Image/GfxUI/GfxUIMagnifier.cpp b/src/Image/GfxUI/GfxUIMagnifier.cpp
index 0e8cdf0..23e1014 100644
--- a/src/Image/GfxUI/GfxUIMagnifier.cpp
+++ b/src/Image/GfxUI/GfxUIMagnifier.cpp
@@ -18,7 +18,7 @@ GfxUIMagnifier::GfxUIMagnifier(Image* src_img, PixUInt x, PixUInt y, PixUInt w,
 
 int GfxUIMagnifier::setBoands(float min_mag, float max_mag) {
   int ret = -1;
-  if (max_mag > min_mag) {
+  if ((max_mag > min_mag) && (min_mag > 0.0f)) {
     _min_mag = min_mag;
     _max_mag = max_mag;
     _scale = strict_range_bind(_scale, _min_mag, _max_mag);
-- 
2.43.0


From 431a60869623c4b779518d1ab29a9c8485d2806a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:39 +0000
Subject: [PATCH 189/224] fix: A TracePath may start at microsecond zero

---
 src/TimerTools/C3PTrace.cpp | 9 +++++----
 src/TimerTools/C3PTrace.h   | 2 ++
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/TimerTools/C3PTrace.cpp b/src/TimerTools/C3PTrace.cpp
index b0f029e..dd7b300 100644
--- a/src/TimerTools/C3PTrace.cpp
+++ b/src/TimerTools/C3PTrace.cpp
@@ -178,7 +178,7 @@ int TracePoint::serialize(StringBuilder* out, const TCode FORMAT) {
 
 int TracePath::serialize(StringBuilder* out, const TCode FORMAT) {
   int ret = -1;
-  if (0 < _start_point.ts_micros) {
+  if (_started) {
     const int ENDPOINT_COUNT = _pathways.size();
     switch (FORMAT) {
       case TCode::STR:
@@ -233,7 +233,8 @@ int TracePath::serialize(StringBuilder* out, const TCode FORMAT) {
 
 
 ISR_FUNC bool TracePath::recordStart(const uint32_t TRACE_WORD, const TracePoint* POINT) {
-  if (0 == _start_point.ts_micros) {
+  if (!_started) {
+    _started = true;
     _start_point.ts_micros = POINT->ts_micros;
     _start_point.trace_word = POINT->trace_word;
     return true;
@@ -244,7 +245,7 @@ ISR_FUNC bool TracePath::recordStart(const uint32_t TRACE_WORD, const TracePoint
 
 ISR_FUNC bool TracePath::recordStop(const uint32_t TRACE_WORD, const TracePoint* POINT) {
   bool ret = false;
-  if (_start_point.ts_micros > 0) {
+  if (_started) {
     StopWatch* path_stopwatch = _pathways.getByPriority((int32_t) POINT->trace_word);
     bool path_timing_created  = false;
     if (nullptr == path_stopwatch) {
@@ -261,7 +262,7 @@ ISR_FUNC bool TracePath::recordStop(const uint32_t TRACE_WORD, const TracePoint*
       delete path_stopwatch;            // hanging after an allocation failure.
     }
   }
-  _start_point.ts_micros = 0;
+  _started = false;
   return ret;
 }
 
diff --git a/src/TimerTools/C3PTrace.h b/src/TimerTools/C3PTrace.h
index c588bb5..257653e 100644
--- a/src/TimerTools/C3PTrace.h
+++ b/src/TimerTools/C3PTrace.h
@@ -140,6 +140,7 @@ class TracePath {
     void reset() {
       _start_point.ts_micros  = 0;
       _start_point.trace_word = 0;
+      _started = false;
       while (_pathways.size() > 0) {  delete _pathways.dequeue();  }
     };
 
@@ -151,6 +152,7 @@ class TracePath {
 
   //private:
     TracePoint _start_point;   // The start marker. Set once.
+    bool _started = false;     // Zero is a valid start time, so it can't mean "not started".
     // The central profiling object.
     // The priority in the queue is the STOP location in the source plane.
     // The tag in the StopWatch is set to the START location in the source plane.
-- 
2.43.0


From 9037423762a42dd6b738ae9f21703470ee545e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:40 +0000
Subject: [PATCH 190/224] fix: Trace points and paths report success when
 written as strings

---
 src/TimerTools/C3PTrace.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/TimerTools/C3PTrace.cpp b/src/TimerTools/C3PTrace.cpp
index dd7b300..406ced4 100644
--- a/src/TimerTools/C3PTrace.cpp
+++ b/src/TimerTools/C3PTrace.cpp
@@ -152,7 +152,10 @@ ISR_FUNC bool C3PTrace::recording(bool en) {
 int TracePoint::serialize(StringBuilder* out, const TCode FORMAT) {
   int ret = -1;
   switch (FORMAT) {
-    case TCode::STR:    out->concatf("F%03u-L%05u:\t%u", fileID(), lineID(), ts_micros);  break;
+    case TCode::STR:
+      out->concatf("F%03u-L%05u:\t%u", fileID(), lineID(), ts_micros);
+      ret = 0;
+      break;
     case TCode::CBOR:
       {
         cbor::output_stringbuilder output(out);
@@ -197,6 +200,7 @@ int TracePath::serialize(StringBuilder* out, const TCode FORMAT) {
               path_stopwatch->printDebug((char*) tmp.string(), out);
             }
           }
+          ret = 0;
         }
         break;
       case TCode::CBOR:
-- 
2.43.0


From ceefc90e8a020125594f6237e35d1f2ca149104b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:28 +0000
Subject: [PATCH 191/224] fix: keep the value label of a graph within its
 place, wherever that is

---
 src/Image/ImageUtils/ImageGraph.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Image/ImageUtils/ImageGraph.cpp b/src/Image/ImageUtils/ImageGraph.cpp
index f70d3ab..0bcf12c 100644
--- a/src/Image/ImageUtils/ImageGraph.cpp
+++ b/src/Image/ImageUtils/ImageGraph.cpp
@@ -189,7 +189,8 @@ template <> void ImageGraph<uint32_t>::drawGraph(Image* img, const PixUInt POS_X
         const uint32_t FINAL_DATUM = *(tmp_ptr + (SAFE_WIDTH-1));
         uint32_t tmp = ((FINAL_DATUM - trace0.minValue()) * trace0.v_scale());
         //img->fillCircle(x+w, tmp+y, 1, color);
-        img->setCursor(GRAPH_X, strict_min((PixUInt) ((GRAPH_Y+FRUS_H)-tmp), (PixUInt) (FRUS_H-1)));
+        // The label stays within the element, whatever the datum.
+        img->setCursor(GRAPH_X, strict_min((PixUInt) ((GRAPH_Y+FRUS_H)-tmp), (PixUInt) ((GRAPH_Y+FRUS_H)-TXT_PIXEL_HEIGHT)));
         img->setTextColor(trace0.color, bg_color);
         tmp_val_str.concatf("%u", FINAL_DATUM);
         img->writeString(&tmp_val_str);
@@ -318,7 +319,8 @@ template <> void ImageGraph<float>::drawGraph(Image* img, const PixUInt POS_X, c
         const float FINAL_DATUM = *(tmp_ptr + (tmp_len-1));
         float tmp = ((FINAL_DATUM - trace0.minValue()) * trace0.v_scale());
         //img->fillCircle(x+w, tmp+y, 1, color);
-        img->setCursor(GRAPH_X, strict_min((PixUInt) ((GRAPH_Y+FRUS_H)-tmp), (PixUInt) (FRUS_H-1)));
+        // The label stays within the element, whatever the datum.
+        img->setCursor(GRAPH_X, strict_min((PixUInt) ((GRAPH_Y+FRUS_H)-tmp), (PixUInt) ((GRAPH_Y+FRUS_H)-img->getFontHeight())));
         img->setTextColor(trace0.color, bg_color);
         tmp_val_str.concatf("%.3f", (double) FINAL_DATUM);
         img->writeString(&tmp_val_str);
-- 
2.43.0


From 77dda12eb18409d865c9d1a98d001ead1378d6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:29 +0000
Subject: [PATCH 192/224] fix: an accent's label that would start left of the
 image was lost

---
 src/Image/ImageUtils/ImageGraph.cpp | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/Image/ImageUtils/ImageGraph.cpp b/src/Image/ImageUtils/ImageGraph.cpp
index 0bcf12c..a9408c8 100644
--- a/src/Image/ImageUtils/ImageGraph.cpp
+++ b/src/Image/ImageUtils/ImageGraph.cpp
@@ -136,13 +136,10 @@ template <> void ImageGraph<uint32_t>::drawGraph(Image* img, const PixUInt POS_X
           if ((txt_w + txt_x) > (GRAPH_X + GRAPH_W)) {
             // If the string would overflow the element's right-hand boundary,
             //   render it on the left-hand side of the indicator line.
-            txt_x = point_x - txt_w;
-            if (txt_x < GRAPH_X) {
-              // If we adjusted the text offset, and it now lies outside the
-              //   left-hand boundary of the element, set the text to be at the
-              //   boundary, and what happens happens.
-              txt_x = GRAPH_X;
-            }
+            // If we adjusted the text offset, and it now lies outside the
+            //   left-hand boundary of the element, set the text to be at the
+            //   boundary, and what happens happens.
+            txt_x = strict_max((int32_t) GRAPH_X, (int32_t) (point_x - (int32_t) txt_w));
           }
 
           if (txt_y < GRAPH_Y) {
@@ -277,13 +274,10 @@ template <> void ImageGraph<float>::drawGraph(Image* img, const PixUInt POS_X, c
           if ((txt_w + txt_x) > (GRAPH_X + GRAPH_W)) {
             // If the string would overflow the element's right-hand boundary,
             //   render it on the left-hand side of the indicator line.
-            txt_x = point_x - txt_w;
-            if (txt_x < GRAPH_X) {
-              // If we adjusted the text offset, and it now lies outside the
-              //   left-hand boundary of the element, set the text to be at the
-              //   boundary, and what happens happens.
-              txt_x = GRAPH_X;
-            }
+            // If we adjusted the text offset, and it now lies outside the
+            //   left-hand boundary of the element, set the text to be at the
+            //   boundary, and what happens happens.
+            txt_x = strict_max((int32_t) GRAPH_X, (int32_t) (point_x - (int32_t) txt_w));
           }
 
           if (txt_y < GRAPH_Y) {
-- 
2.43.0


From 45ac6eb8b1498c59f3c809356dc859d8ed137f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:30 +0000
Subject: [PATCH 193/224] fix: measure the label of a float graph's accent as
 that of the integer graph

---
 src/Image/ImageUtils/ImageGraph.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Image/ImageUtils/ImageGraph.cpp b/src/Image/ImageUtils/ImageGraph.cpp
index a9408c8..d7061bd 100644
--- a/src/Image/ImageUtils/ImageGraph.cpp
+++ b/src/Image/ImageUtils/ImageGraph.cpp
@@ -270,7 +270,9 @@ template <> void ImageGraph<float>::drawGraph(Image* img, const PixUInt POS_X, c
           PixUInt txt_w = 0;
           PixUInt txt_h = 0;
           temp_txt.concatf("%u: %.3f", (trace0.offset_x + i), (double) DATA_VALUE);
-          img->getTextBounds(&temp_txt, txt_x, txt_y, &txt_x, &txt_y, &txt_w, &txt_h);
+          // NOTE: Text bounds would consider how the string would wrap, if it did.
+          txt_w = ((img->getFontWidth() + 1) * temp_txt.length());
+          txt_h = TXT_PIXEL_HEIGHT;
           if ((txt_w + txt_x) > (GRAPH_X + GRAPH_W)) {
             // If the string would overflow the element's right-hand boundary,
             //   render it on the left-hand side of the indicator line.
-- 
2.43.0


From 9179e71fc5c6602e7de03f482a5b7f7a2db0411d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:40 +0000
Subject: [PATCH 194/224] fix: StringBuilder::concatLimit() copied nothing if
 the limit was beyond INT32_MAX

---
 src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index bff0f41..6bfdf4f 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -762,7 +762,7 @@ void StringBuilder::concatLimit(StringBuilder* donar, unsigned int len_limit) {
     pthread_mutex_lock(&donar->_mutex);
   #endif
   if ((0 < len_limit) && (nullptr != donar) && (!donar->isEmpty(true))) {
-    const int CONTENT_LEN = strict_min((int32_t) len_limit, (int32_t) donar->length());
+    const int CONTENT_LEN = (int) strict_min((uint32_t) len_limit, (uint32_t) donar->length());
     if (0 < CONTENT_LEN) {
       StrLL* frag = _create_str_ll(CONTENT_LEN, donar->_root, 0);
       if (nullptr != frag) {
-- 
2.43.0


From 973d6f26c71b6e3abd6e1871d91ee0ee5c85df01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:05 +0000
Subject: [PATCH 195/224] fix: GfxUIIdentity showed nothing, since its text
 areas had no room for a row

---
 src/Image/GfxUI/GfxUIIdentity.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Image/GfxUI/GfxUIIdentity.cpp b/src/Image/GfxUI/GfxUIIdentity.cpp
index 6fa696a..784f657 100644
--- a/src/Image/GfxUI/GfxUIIdentity.cpp
+++ b/src/Image/GfxUI/GfxUIIdentity.cpp
@@ -17,7 +17,7 @@ GfxUIIdentity::GfxUIIdentity(const GfxUILayout lay, const GfxUIStyle sty, Identi
   _txt_handle(
     GfxUILayout(
       internalPosX(), internalPosY(),
-      internalWidth(), (sty.text_size * 8),  // TODO: Better, but still arbitrary.
+      internalWidth(), ((sty.text_size * 8) + 2),  // One row of text, and its margins.
       1, 1, 1, 1,
       0, 0, 0, 0               // Border_px(t, b, l, r)
     ),
@@ -34,7 +34,7 @@ GfxUIIdentity::GfxUIIdentity(const GfxUILayout lay, const GfxUIStyle sty, Identi
   _txt_format(
     GfxUILayout(
       internalPosX(), (_txt_handle.elementPosY() + _txt_handle.elementHeight()),
-      internalWidth(), (sty.text_size * 8),  // TODO: Better, but still arbitrary.
+      internalWidth(), ((sty.text_size * 8) + 2),  // One row of text, and its margins.
       1, 1, 1, 1,
       0, 0, 0, 0               // Border_px(t, b, l, r)
     ),
@@ -51,7 +51,7 @@ GfxUIIdentity::GfxUIIdentity(const GfxUILayout lay, const GfxUIStyle sty, Identi
   _txt_meta(
     GfxUILayout(
       _txt_format.elementPosX(), (_txt_format.elementPosY() + _txt_format.elementHeight()),
-      internalWidth(), (sty.text_size * 8),  // TODO: Better, but still arbitrary.
+      internalWidth(), ((sty.text_size * 8) + 2),  // One row of text, and its margins.
       //(_txt_format.elementPosX() + _txt_format.elementWidth()), (_txt_format.elementPosY() + _txt_format.elementHeight()),
       //(internalWidth()-30), (sty.text_size * 8),  // TODO: Better, but still arbitrary.
       1, 1, 1, 1,
-- 
2.43.0


From a0a96f3ef699a7744f28de475b1c2abe99c881c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:07 +0000
Subject: [PATCH 196/224] fix: GfxUIC3PScheduler showed the service loop's
 profiler as that of the deadband

---
 src/Image/GfxUI/GfxUIC3PScheduler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Image/GfxUI/GfxUIC3PScheduler.cpp b/src/Image/GfxUI/GfxUIC3PScheduler.cpp
index 87a5117..0abd94a 100644
--- a/src/Image/GfxUI/GfxUIC3PScheduler.cpp
+++ b/src/Image/GfxUI/GfxUIC3PScheduler.cpp
@@ -40,7 +40,7 @@ GfxUIC3PScheduler::GfxUIC3PScheduler(const GfxUILayout lay, const GfxUIStyle sty
   ),
   _sw_deadband(
     "Deadband",
-    &(C3PScheduler::getInstance()->profiler_service),
+    &(C3PScheduler::getInstance()->profiler_deadband),
     GfxUILayout(
       internalPosX(), (_sw_svc_loop.elementPosY() + _sw_svc_loop.elementHeight()),
       internalWidth(), 32,
-- 
2.43.0


From 268c06e870d8f6965bbf4a0c603f349f42d6d3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:08 +0000
Subject: [PATCH 197/224] fix: GfxUIC3PSchedule's profiler was drawn beyond the
 element

---
 src/Image/GfxUI/GfxUIC3PScheduler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Image/GfxUI/GfxUIC3PScheduler.cpp b/src/Image/GfxUI/GfxUIC3PScheduler.cpp
index 0abd94a..5ddbef9 100644
--- a/src/Image/GfxUI/GfxUIC3PScheduler.cpp
+++ b/src/Image/GfxUI/GfxUIC3PScheduler.cpp
@@ -161,7 +161,7 @@ GfxUIC3PSchedule::GfxUIC3PSchedule(C3PSchedule* schedule, const GfxUILayout lay,
     &schedule->profiler,
     GfxUILayout(
       internalPosX(), (internalPosY()+32),
-      internalWidth(), 32,
+      internalWidth(), (internalHeight()-32),
       1, 0, 0, 0,   // Margins_px(t, b, l, r)
       0, 0, 0, 0    // Border_px(t, b, l, r)
     ),
-- 
2.43.0


From 062df6869a3f623776389b3daf8e4e99029366d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:09 +0000
Subject: [PATCH 198/224] fix: GfxUIC3PScheduler drew the schedules it had no
 space for beyond itself

---
 src/Image/GfxUI/GfxUIC3PScheduler.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Image/GfxUI/GfxUIC3PScheduler.cpp b/src/Image/GfxUI/GfxUIC3PScheduler.cpp
index 5ddbef9..fdfb80f 100644
--- a/src/Image/GfxUI/GfxUIC3PScheduler.cpp
+++ b/src/Image/GfxUI/GfxUIC3PScheduler.cpp
@@ -69,6 +69,7 @@ int GfxUIC3PScheduler::_render(UIGfxWrapper* ui_gfx) {
       const uint32_t SCH_GUI_HEIGHT = 64;
       uint32_t i_x = internalPosX();
       uint32_t sch_list_y = (internalPosY() + _tab_bar.elementHeight());
+      const uint32_t BOTTOM_Y = (internalPosY() + internalHeight());
 
       // Remove GUI elements for schedules that no longer exist.
       for (int i = 0; i < _dyn_elements.size(); i++) {
@@ -82,6 +83,7 @@ int GfxUIC3PScheduler::_render(UIGfxWrapper* ui_gfx) {
         else {
           // Reposition the element.
           gui_element->reposition(i_x, sch_list_y);
+          gui_element->muteRender((sch_list_y + SCH_GUI_HEIGHT) > BOTTOM_Y);
           sch_list_y += SCH_GUI_HEIGHT;
         }
       }
@@ -115,6 +117,7 @@ int GfxUIC3PScheduler::_render(UIGfxWrapper* ui_gfx) {
             _style,
             (GFXUI_FLAG_FREE_THIS_ELEMENT)
           );
+          gui_element->muteRender((sch_list_y + SCH_GUI_HEIGHT) > BOTTOM_Y);  // Don't draw beyond the view.
           _dyn_elements.insert(gui_element);
           _pane_schedules.add_child(gui_element);
           sch_list_y += SCH_GUI_HEIGHT;
-- 
2.43.0


From 5ce6a602ddbe26eb5edc1f1ef071fab246cbd966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:10 +0000
Subject: [PATCH 199/224] fix: GfxUIMLink put its content beyond itself unless
 it was at the origin

---
 src/Image/GfxUI/GfxUIMLink.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/Image/GfxUI/GfxUIMLink.cpp b/src/Image/GfxUI/GfxUIMLink.cpp
index fed4b98..17d5a51 100644
--- a/src/Image/GfxUI/GfxUIMLink.cpp
+++ b/src/Image/GfxUI/GfxUIMLink.cpp
@@ -58,7 +58,7 @@ GfxUIMLink::GfxUIMLink(const GfxUILayout lay, const GfxUIStyle sty, M2MLink* l,
   ),
   _txt(
     GfxUILayout(
-      internalPosX(), internalPosY(),
+      internalPosX(), internalPosY()+_tab_bar.elementHeight(),
       internalWidth(), (internalHeight() - _tab_bar.elementHeight()),
       1, 0, 0, 0,   // Margins_px(t, b, l, r)
       0, 0, 0, 0    // Border_px(t, b, l, r)
@@ -66,7 +66,13 @@ GfxUIMLink::GfxUIMLink(const GfxUILayout lay, const GfxUIStyle sty, M2MLink* l,
     sty
   )
 {
-  // Note our subordinate objects...
+  // Note our subordinate objects. The tabs come first, because adding a tab moves
+  //   whatever its content holds by that time.
+  addTab("Overview",     &_content_info, true);
+  addTab("Conf",         &_content_conf);
+  addTab("Messages",     &_content_msg);
+  addTab("Counterparty", &_content_ses);
+
   if (nullptr != _link->localIdentity()) {
     _content_conf.add_child(
       new GfxUIIdentity(
@@ -94,11 +100,6 @@ GfxUIMLink::GfxUIMLink(const GfxUILayout lay, const GfxUIStyle sty, M2MLink* l,
   _content_ses.add_child(&_btn_conf_syncast);
   _content_ses.add_child(&_btn_msg_send_sync);
   _content_ses.add_child(&_btn_ses_hangup);
-
-  addTab("Overview",     &_content_info, true);
-  addTab("Conf",         &_content_conf);
-  addTab("Messages",     &_content_msg);
-  addTab("Counterparty", &_content_ses);
 }
 
 
-- 
2.43.0


From 1a27fed7bf98fa36d4fd8ac09d4487726e5f6057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:47 +0000
Subject: [PATCH 200/224] fix: opening the last tab of GfxUIMLink undid the
 link's own changes to its casting of syncs

---
 src/Image/GfxUI/GfxUIKit.h     |  1 +
 src/Image/GfxUI/GfxUIMLink.cpp | 11 +++++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/Image/GfxUI/GfxUIKit.h b/src/Image/GfxUI/GfxUIKit.h
index c1e75fe..9a51f3e 100644
--- a/src/Image/GfxUI/GfxUIKit.h
+++ b/src/Image/GfxUI/GfxUIKit.h
@@ -437,6 +437,7 @@ class GfxUIMLink : public GfxUITabbedContentPane {
 
   private:
     M2MLink* _link;
+    bool     _cast_shown;   // The state of the link that the button represents.
     GfxUIGroup    _content_info;
     GfxUIGroup    _content_conf;
     GfxUIGroup    _content_msg;
diff --git a/src/Image/GfxUI/GfxUIMLink.cpp b/src/Image/GfxUI/GfxUIMLink.cpp
index 17d5a51..570367a 100644
--- a/src/Image/GfxUI/GfxUIMLink.cpp
+++ b/src/Image/GfxUI/GfxUIMLink.cpp
@@ -16,6 +16,7 @@ Date:   2022.06.25
 GfxUIMLink::GfxUIMLink(const GfxUILayout lay, const GfxUIStyle sty, M2MLink* l, uint32_t f) :
   GfxUITabbedContentPane(lay, sty, (f | GFXUI_FLAG_ALWAYS_REDRAW)),
   _link(l),
+  _cast_shown(_link->syncCast()),
   _content_info(0, 0, 0, 0),
   _content_conf(0, 0, 0, 0),
   _content_msg(0, 0, 0, 0),
@@ -116,10 +117,16 @@ int GfxUIMLink::_render(UIGfxWrapper* ui_gfx) {
     case 2:
       break;
     case 3:
-      if (_btn_conf_syncast.pressed() ^ _link->syncCast()) {
+      if (_btn_conf_syncast.pressed() != _cast_shown) {
+        // The user pressed the button.
         _link->syncCast(_btn_conf_syncast.pressed());
-        //_btn_conf_syncast.pressed(_link->syncCast());
       }
+      else if (_btn_conf_syncast.pressed() != _link->syncCast()) {
+        // The link changed without us. Follow it.
+        _btn_conf_syncast.pressed(_link->syncCast());
+        _btn_conf_syncast.render(ui_gfx, true);
+      }
+      _cast_shown = _btn_conf_syncast.pressed();
       if (_btn_msg_send_sync.pressed()) {
       }
       if (_btn_ses_hangup.pressed()) {
-- 
2.43.0


From 9bf2c62057a269fa9095223ee0d89b3021a56fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:23 +0000
Subject: [PATCH 201/224] fix: GfxUIKeyValuePair faulted on a key that begins
 or ends with a space

---
 src/Image/GfxUI/GfxUIKeyValuePair.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Image/GfxUI/GfxUIKeyValuePair.cpp b/src/Image/GfxUI/GfxUIKeyValuePair.cpp
index d129641..e06d90c 100644
--- a/src/Image/GfxUI/GfxUIKeyValuePair.cpp
+++ b/src/Image/GfxUI/GfxUIKeyValuePair.cpp
@@ -82,8 +82,11 @@ int GfxUIKeyValuePair::_render(UIGfxWrapper* ui_gfx) {
     GfxUIStyle  val_style(_style);
     // TODO: Don't render yet. Might have multi-line values.
     while ((nullptr != current_kvp) & (key_list.count() > 0)) {
-      char* cur_key = key_list.position_trimmed(0);
+      char* cur_key = key_list.position(0);
       current_kvp   = _kvp->valueWithKey(cur_key);
+      if (nullptr == current_kvp) {
+        break;
+      }
       StringBuilder keystr;
       keystr.concatf("\"%s\":", (const char*) cur_key);
 
-- 
2.43.0


From 9633cabea2985109ba1d61093d3c12043637a71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:24 +0000
Subject: [PATCH 202/224] fix: GfxUIKeyValuePair::showKVP() left the old values
 in the view

---
 src/Image/GfxUI/GfxUIKeyValuePair.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Image/GfxUI/GfxUIKeyValuePair.cpp b/src/Image/GfxUI/GfxUIKeyValuePair.cpp
index e06d90c..723782c 100644
--- a/src/Image/GfxUI/GfxUIKeyValuePair.cpp
+++ b/src/Image/GfxUI/GfxUIKeyValuePair.cpp
@@ -20,7 +20,9 @@ GfxUIKeyValuePair::GfxUIKeyValuePair(KeyValuePair* kvp, const GfxUILayout lay, c
 
 int8_t GfxUIKeyValuePair::showKVP(KeyValuePair* new_kvp) {
   int8_t ret = 0;
-  _kvp = new_kvp;  // TODO: Probably not sufficient...
+  _remove_all_children();   // These refer to the old KVP.
+  _kvp_loaded = false;
+  _kvp = new_kvp;
   _need_redraw(true);
   return ret;
 }
-- 
2.43.0


From 2608ca15295cdcfffc17bf87cba75b0d6ca4133a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:24 +0000
Subject: [PATCH 203/224] fix: GfxUIKeyValuePair drew its keys only once, and
 its bounds left out the values, margins and borders

---
 src/Image/GfxUI/GfxUIKeyValuePair.cpp | 36 ++++++++++++++++-----------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/Image/GfxUI/GfxUIKeyValuePair.cpp b/src/Image/GfxUI/GfxUIKeyValuePair.cpp
index 723782c..7e34137 100644
--- a/src/Image/GfxUI/GfxUIKeyValuePair.cpp
+++ b/src/Image/GfxUI/GfxUIKeyValuePair.cpp
@@ -57,7 +57,7 @@ int8_t GfxUIKeyValuePair::showKVP(KeyValuePair* new_kvp) {
 
 int GfxUIKeyValuePair::_render(UIGfxWrapper* ui_gfx) {
   int8_t ret = 0;
-  if (!_kvp_loaded & (nullptr != _kvp)) {
+  if (nullptr != _kvp) {   // The keys are drawn each time, and the values look after themselves.
     const PixUInt i_x = internalPosX();
     const PixUInt i_y = internalPosY();
     const PixUInt i_w = internalWidth();
@@ -102,14 +102,17 @@ int GfxUIKeyValuePair::_render(UIGfxWrapper* ui_gfx) {
           0, 0, 0, 0,
           0, 0, 0, 0
         );
-        GfxUIC3PValue* gfxui_val = new GfxUIC3PValue(
-          current_kvp, val_layout, val_style,
-          (GFXELEMENT_FLAGSET)
-        );
-        if (nullptr != gfxui_val) {
-          _add_child(gfxui_val);
-          tracked_y += HARDCODED_HEIGHT;
+        if (!_kvp_loaded) {
+          GfxUIC3PValue* gfxui_val = new GfxUIC3PValue(
+            current_kvp, val_layout, val_style,
+            (GFXELEMENT_FLAGSET)
+          );
+          if (nullptr != gfxui_val) {
+            _add_child(gfxui_val);
+          }
         }
+        tracked_y += HARDCODED_HEIGHT;
+        max_value_width = (i_w - tracked_x);
       }
       else {
         KeyValuePair* nested_kvp = nullptr;
@@ -126,12 +129,15 @@ int GfxUIKeyValuePair::_render(UIGfxWrapper* ui_gfx) {
             0, 0, 0, 0,
             0, 0, 0, 0
           );
-          GfxUIKeyValuePair* gfxui_val = new GfxUIKeyValuePair(nested_kvp, val_layout, val_style, GFXELEMENT_FLAGSET);
-          //GfxUIC3PValue* gfxui_val = new GfxUIC3PValue(nested_kvp, val_layout, val_style, GFXELEMENT_FLAGSET);
-          if (nullptr != gfxui_val) {
-            _add_child(gfxui_val);
-            tracked_y += VALUE_SUBHEIGHT;
+          if (!_kvp_loaded) {
+            GfxUIKeyValuePair* gfxui_val = new GfxUIKeyValuePair(nested_kvp, val_layout, val_style, GFXELEMENT_FLAGSET);
+            //GfxUIC3PValue* gfxui_val = new GfxUIC3PValue(nested_kvp, val_layout, val_style, GFXELEMENT_FLAGSET);
+            if (nullptr != gfxui_val) {
+              _add_child(gfxui_val);
+            }
           }
+          tracked_y += VALUE_SUBHEIGHT;
+          max_value_width = (i_w - tracked_x);
           ui_gfx->img()->setCursor((tracked_x + i_x), (tracked_y + i_y));
           ui_gfx->img()->setTextColor(_style.color_inactive, _style.color_bg);
           ui_gfx->img()->writeString("}");
@@ -142,8 +148,8 @@ int GfxUIKeyValuePair::_render(UIGfxWrapper* ui_gfx) {
     }
     const PixUInt KEY_AREA_HEIGHT = tracked_y;  // The size of the key area is now known.
 
-    _bounding_w = (tracked_x + max_value_width);
-    _bounding_h = strict_min(tracked_y, KEY_AREA_HEIGHT);
+    _bounding_w = (tracked_x + max_value_width + (elementWidth() - i_w));
+    _bounding_h = (strict_min(tracked_y, KEY_AREA_HEIGHT) + (elementHeight() - i_h));
     if (resizeOnRender()) {
       resize(_bounding_w, _bounding_h);
     }
-- 
2.43.0


From 15c7b7ec3e739f2ed1115e6ccb69628281de1a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:25 +0000
Subject: [PATCH 204/224] fix: GfxUIKeyValuePair drew what follows a nested KVP
 over it, if that was nested itself

---
 src/Image/GfxUI/GfxUIKeyValuePair.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/Image/GfxUI/GfxUIKeyValuePair.cpp b/src/Image/GfxUI/GfxUIKeyValuePair.cpp
index 7e34137..7d5f980 100644
--- a/src/Image/GfxUI/GfxUIKeyValuePair.cpp
+++ b/src/Image/GfxUI/GfxUIKeyValuePair.cpp
@@ -8,6 +8,24 @@ Date:   2022.06.25
 #include "../GfxUI.h"
 
 
+/* How many rows are needed to show the given KVP? */
+static uint32_t _rows_for_kvp(KeyValuePair* kvp) {
+  uint32_t ret = 0;
+  StringBuilder key_list;
+  kvp->collectKeys(&key_list);
+  while (key_list.count() > 0) {
+    KeyValuePair* nested_kvp  = nullptr;
+    KeyValuePair* current_kvp = kvp->valueWithKey(key_list.position(0));
+    ret++;
+    if ((nullptr != current_kvp) && (TCode::KVP == current_kvp->tcode()) && (0 == current_kvp->get_as(&nested_kvp))) {
+      ret += (1 + _rows_for_kvp(nested_kvp));   // Both braces have a row.
+    }
+    key_list.drop_position(0);
+  }
+  return ret;
+}
+
+
 /*******************************************************************************
 * GfxUIKeyValuePair
 *******************************************************************************/
@@ -117,7 +135,7 @@ int GfxUIKeyValuePair::_render(UIGfxWrapper* ui_gfx) {
       else {
         KeyValuePair* nested_kvp = nullptr;
         if (0 == current_kvp->get_as(&nested_kvp)) {
-          const PixUInt VALUE_SUBHEIGHT = (HARDCODED_HEIGHT * nested_kvp->count());
+          const PixUInt VALUE_SUBHEIGHT = (HARDCODED_HEIGHT * _rows_for_kvp(nested_kvp));
 
           ui_gfx->img()->setCursor((tracked_x + i_x), (tracked_y + i_y));
           ui_gfx->img()->setTextColor(_style.color_inactive, _style.color_bg);
-- 
2.43.0


From 1c17d33ccbc63f2ef6679c2a7490fea6fc2982f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:27 +0000
Subject: [PATCH 205/224] fix: GfxUIKeyValuePair drew beyond itself

---
 src/Image/GfxUI/GfxUIKeyValuePair.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Image/GfxUI/GfxUIKeyValuePair.cpp b/src/Image/GfxUI/GfxUIKeyValuePair.cpp
index 7d5f980..d66331b 100644
--- a/src/Image/GfxUI/GfxUIKeyValuePair.cpp
+++ b/src/Image/GfxUI/GfxUIKeyValuePair.cpp
@@ -107,6 +107,9 @@ int GfxUIKeyValuePair::_render(UIGfxWrapper* ui_gfx) {
       if (nullptr == current_kvp) {
         break;
       }
+      if ((tracked_x >= i_w) || ((tracked_y + HARDCODED_HEIGHT) > i_h)) {
+        break;   // There is no space left for another row.
+      }
       StringBuilder keystr;
       keystr.concatf("\"%s\":", (const char*) cur_key);
 
@@ -141,9 +144,12 @@ int GfxUIKeyValuePair::_render(UIGfxWrapper* ui_gfx) {
           ui_gfx->img()->setTextColor(_style.color_inactive, _style.color_bg);
           ui_gfx->img()->writeString("{");
           tracked_y += HARDCODED_HEIGHT;
+          if ((tracked_x + (FONT_WIDTH * 2) >= i_w) || ((tracked_y + VALUE_SUBHEIGHT + HARDCODED_HEIGHT) > i_h)) {
+            break;   // There is no space left for the nested KVP.
+          }
 
           GfxUILayout val_layout(
-            (tracked_x + i_x + (FONT_WIDTH * 2)), (tracked_y + i_y), (i_w - tracked_x), VALUE_SUBHEIGHT,
+            (tracked_x + i_x + (FONT_WIDTH * 2)), (tracked_y + i_y), (i_w - (tracked_x + (FONT_WIDTH * 2))), VALUE_SUBHEIGHT,
             0, 0, 0, 0,
             0, 0, 0, 0
           );
-- 
2.43.0


From b58b16b8aeb540a09861d9b80432fae0a54bf432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:29 +0000
Subject: [PATCH 206/224] fix: the tab left for another still looked active,
 since a button's new state wasn't drawn

---
 src/Image/GfxUI/GfxUIKit.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Image/GfxUI/GfxUIKit.h b/src/Image/GfxUI/GfxUIKit.h
index 9a51f3e..32e1830 100644
--- a/src/Image/GfxUI/GfxUIKit.h
+++ b/src/Image/GfxUI/GfxUIKit.h
@@ -107,8 +107,11 @@ class GfxUIButton : public GfxUIElement {
     GfxUIButton(const GfxUILayout lay, const GfxUIStyle sty, uint32_t f = 0) : GfxUIElement(lay, sty, f) {};
     ~GfxUIButton() {};
 
-    inline void buttonState(bool x) {  _class_set_flag(GFXUI_BUTTON_FLAG_STATE, x);     };
-    inline void pressed(bool x) {      _class_set_flag(GFXUI_BUTTON_FLAG_STATE, x);     };
+    inline void buttonState(bool x) {  pressed(x);    };
+    inline void pressed(bool x) {
+      if (pressed() != x) {  _need_redraw(true);  }   // The state is drawn.
+      _class_set_flag(GFXUI_BUTTON_FLAG_STATE, x);
+    };
     inline bool pressed() {          return _class_flag(GFXUI_BUTTON_FLAG_STATE);       };
     inline void momentary(bool x) {  _class_set_flag(GFXUI_BUTTON_FLAG_MOMENTARY, x);   };
     inline bool momentary() {        return _class_flag(GFXUI_BUTTON_FLAG_MOMENTARY);   };
-- 
2.43.0


From 4b95c838c1bff8479a78105c7ab6ecbff859fdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:32 +0000
Subject: [PATCH 207/224] fix: a GPIO command for a pin or mode beyond the
 range acted on another one

The console's numbers were narrowed to 8 bits, so "gpio val 258 1" set pin 2
and "gpio mode 3 256" made pin 3 an input.
---
 src/AbstractPlatform.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/AbstractPlatform.cpp b/src/AbstractPlatform.cpp
index 86c060f..ec805d2 100644
--- a/src/AbstractPlatform.cpp
+++ b/src/AbstractPlatform.cpp
@@ -277,11 +277,17 @@ int callback_gpio_value(StringBuilder* text_return, StringBuilder* args) {
   char* cmd = args->position_trimmed(0);
   int arg0  = args->position_as_int(1);
   int arg1  = args->position_as_int(2);
+  const bool PIN_IN_RANGE  = ((0 <= arg0) && (arg0 <= 255));
+  const bool MODE_IN_RANGE = ((0 <= arg1) && (arg1 <= 255));
 
   if (0 == StringBuilder::strcasecmp(cmd, "mode")) {
     switch (args->count()) {
       case 3:
-        switch ((GPIOMode) arg1) {
+        if (!PIN_IN_RANGE) {
+          text_return->concat("Invalid GPIO pin.\n");
+          break;
+        }
+        switch (MODE_IN_RANGE ? (GPIOMode) arg1 : GPIOMode::UNINIT) {
           case GPIOMode::INPUT:
           case GPIOMode::OUTPUT:
           case GPIOMode::INPUT_PULLUP:
@@ -312,6 +318,10 @@ int callback_gpio_value(StringBuilder* text_return, StringBuilder* args) {
     }
   }
   else if (0 == StringBuilder::strcasecmp(cmd, "val")) {
+    if (!PIN_IN_RANGE) {
+      text_return->concat("Invalid GPIO pin.\n");
+      return ret;
+    }
     text_return->concatf("GPIO %d ", arg0);
     switch (args->count()) {
       case 3:
-- 
2.43.0


From aae5ad35bd75024496d010b181d0a7806b67192e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:33 +0000
Subject: [PATCH 208/224] fix: the GPIO command reported a pin that could not
 be read as high

---
 src/AbstractPlatform.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/AbstractPlatform.cpp b/src/AbstractPlatform.cpp
index ec805d2..696239c 100644
--- a/src/AbstractPlatform.cpp
+++ b/src/AbstractPlatform.cpp
@@ -333,7 +333,12 @@ int callback_gpio_value(StringBuilder* text_return, StringBuilder* args) {
       default:
         {
           int8_t ret0 = readPin(arg0);
-          text_return->concatf("reads %s.\n", ret0 ? "high" : "low");
+          if (0 > ret0) {
+            text_return->concatf("can't be read. Returns %d.\n", ret0);
+          }
+          else {
+            text_return->concatf("reads %s.\n", ret0 ? "high" : "low");
+          }
         }
         break;
     }
-- 
2.43.0


From 24a88f28099d99dee9af04c6712981ff186ba1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:34 +0000
Subject: [PATCH 209/224] fix: the reboot command gave the platform another
 reason than it was given

A code beyond 8 bits was narrowed: "reboot 258" was a reboot for a shutdown by
the user.
---
 src/AbstractPlatform.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/AbstractPlatform.cpp b/src/AbstractPlatform.cpp
index 696239c..ab2bc00 100644
--- a/src/AbstractPlatform.cpp
+++ b/src/AbstractPlatform.cpp
@@ -367,7 +367,12 @@ int callback_platform_info(StringBuilder* text_return, StringBuilder* args) {
 
 
 int callback_reboot(StringBuilder* text_return, StringBuilder* args) {
-  platformObj()->firmware_reset(args->position_as_int(0));
+  const int REASON = args->position_as_int(0);
+  if ((0 > REASON) || (255 < REASON)) {
+    text_return->concat("Invalid reason code.\n");
+    return -1;
+  }
+  platformObj()->firmware_reset(REASON);
   return 0;
 }
 
-- 
2.43.0


From 13846a6206938d0bd841ec669900906686333c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:35 +0000
Subject: [PATCH 210/224] fix: the I2C ping command took addresses that do not
 exist

An address beyond 7 bits was narrowed or put on the bus as it was, and the
report named address 0 where none was given, though the census begins at 1.
---
 src/BusQueue/I2CAdapter.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/BusQueue/I2CAdapter.cpp b/src/BusQueue/I2CAdapter.cpp
index 1548d27..aa56b0e 100644
--- a/src/BusQueue/I2CAdapter.cpp
+++ b/src/BusQueue/I2CAdapter.cpp
@@ -382,8 +382,15 @@ int8_t I2CAdapter::console_handler(StringBuilder* text_return, StringBuilder* ar
     text_return->concatf("i2c%d.poll() returns %d.\n", _bus_opts.adapter, poll());
   }
   else if (0 == StringBuilder::strcasecmp(cmd, "ping")) {
-    ping_slave_addr((args->count() > 1) ? arg1 : 1);
-    text_return->concatf("i2c%d.ping_slave_addr(0x%02x) started.\n", _bus_opts.adapter, arg1);
+    const int PING_ADDR = ((args->count() > 1) ? arg1 : 1);
+    if ((0 <= PING_ADDR) && (PING_ADDR < 128)) {
+      ping_slave_addr((uint8_t) PING_ADDR);
+      text_return->concatf("i2c%d.ping_slave_addr(0x%02x) started.\n", _bus_opts.adapter, PING_ADDR);
+    }
+    else {
+      text_return->concat("Invalid I2C address.\n");
+      ret = -1;
+    }
   }
   else {
     printDebug(text_return);
-- 
2.43.0


From 41ba15ecf3e51d1a2cbd9d88e7a3fc46f29f2058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:36 +0000
Subject: [PATCH 211/224] fix: a purged I2C ping marked its address as vacant

The census also went on counting itself as running.
---
 src/BusQueue/I2CAdapter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/BusQueue/I2CAdapter.cpp b/src/BusQueue/I2CAdapter.cpp
index aa56b0e..4c0b598 100644
--- a/src/BusQueue/I2CAdapter.cpp
+++ b/src/BusQueue/I2CAdapter.cpp
@@ -133,6 +133,11 @@ int8_t I2CAdapter::io_op_callback(BusOp* _op) {
   if (op->get_opcode() == BusOpcode::TX_CMD) {
     // The only thing the i2c adapter uses this op-code for is pinging slaves.
     // We only support 7-bit addressing for now.
+    if (XferFault::QUEUE_FLUSH == op->getFault()) {
+      // Purged. We learned nothing about that address, and the census is over.
+      _adapter_clear_flag(I2C_ADAPT_FLAG_PINGING);
+      return ret;
+    }
     set_ping_state_by_addr(op->dev_addr, op->hasFault() ? I2CPingState::NEG : I2CPingState::POS);
 
     if (_adapter_flag(I2C_ADAPT_FLAG_PINGING)) {
-- 
2.43.0


From 2acf865a8c03d791fcfca05af6d3cab8269f36c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:45 +0000
Subject: [PATCH 212/224] fix: a queue of more than 127 bus jobs listed none of
 them

The depth was narrowed to 8 bits with a sign: "top -56 of 200".
---
 src/BusQueue/BusQueue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BusQueue/BusQueue.h b/src/BusQueue/BusQueue.h
index 145a443..0d7eb80 100644
--- a/src/BusQueue/BusQueue.h
+++ b/src/BusQueue/BusQueue.h
@@ -467,7 +467,7 @@ template <class T> class BusAdapter : public BusOpCallback, public C3PPollable {
 
 
     // TODO: I hate that I'm doing this in a template.
-    void printWorkQueue(StringBuilder* output, int8_t max_print) {
+    void printWorkQueue(StringBuilder* output, int max_print) {
       StringBuilder tmp_str;
       tmp_str.concatf("Adapter #%u Queue", ADAPTER_NUM);
       StringBuilder::styleHeader2(output, (char*) tmp_str.string());
@@ -481,7 +481,7 @@ template <class T> class BusAdapter : public BusOpCallback, public C3PPollable {
       }
       int wqs = work_queue.size();
       if (wqs > 0) {
-        int print_depth = strict_min((int8_t) wqs, max_print);
+        int print_depth = strict_min(wqs, max_print);
         output->concatf("-- Queue Listing (top %d of %d total)\n", print_depth, wqs);
         for (int i = 0; i < print_depth; i++) {
           work_queue.get(i)->printDebug(output);
-- 
2.43.0


From c4796c343b4a785cebcf8468c8d31d688e47d01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:30 +0000
Subject: [PATCH 213/224] fix: deleting a blob's view freed one of its members
 and leaked its plotter

---
 src/Image/GfxUI/GfxUIBlobRender.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/Image/GfxUI/GfxUIBlobRender.cpp b/src/Image/GfxUI/GfxUIBlobRender.cpp
index 8b0fe44..c73045a 100644
--- a/src/Image/GfxUI/GfxUIBlobRender.cpp
+++ b/src/Image/GfxUI/GfxUIBlobRender.cpp
@@ -113,10 +113,15 @@ GfxUIBlobRender::GfxUIBlobRender(C3PValue* value, const GfxUILayout lay, const G
 
 
 GfxUIBlobRender::~GfxUIBlobRender() {
+  // The children are members. They are not ours to delete.
   inhibitRefresh(true);
-  GfxUIElement* tmp_gfxui = _children.dequeue();
-  if (nullptr != tmp_gfxui) {
-    delete tmp_gfxui;
+  if (nullptr != _plotter) {
+    delete _plotter;
+    _plotter = nullptr;
+  }
+  if (nullptr != _styler) {
+    delete _styler;
+    _styler = nullptr;
   }
 }
 
-- 
2.43.0


From 0aeb208505e667ff0cb4b8730c5f80fb35196769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:32 +0000
Subject: [PATCH 214/224] fix: a blob's view plotted nothing with a plotter or
 styler it had just made

---
 src/Image/GfxUI/GfxUIBlobRender.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Image/GfxUI/GfxUIBlobRender.cpp b/src/Image/GfxUI/GfxUIBlobRender.cpp
index c73045a..2bad6a3 100644
--- a/src/Image/GfxUI/GfxUIBlobRender.cpp
+++ b/src/Image/GfxUI/GfxUIBlobRender.cpp
@@ -257,7 +257,7 @@ int GfxUIBlobRender::_render(UIGfxWrapper* ui_gfx) {
       img->fillRect(i_x, i_y, i_w, i_h, _style.color_bg);   // Wipe the field.
       StringBuilder line;
       if (_value->is_ptr_len()) {
-        if ((0 == p_check) & (0 == s_check)) {
+        if ((0 <= p_check) & (0 <= s_check)) {
           _plotter->setStyler(_styler);
           int8_t ret_local = _plotter->apply(true);
           if (0 != ret_local) {
-- 
2.43.0


From c9e5663d17a866c7881b6748e301538ff5ad6870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:33 +0000
Subject: [PATCH 215/224] fix: a blob's view painted over its own tabs

---
 src/Image/GfxUI/GfxUIBlobRender.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Image/GfxUI/GfxUIBlobRender.cpp b/src/Image/GfxUI/GfxUIBlobRender.cpp
index 2bad6a3..959aeaa 100644
--- a/src/Image/GfxUI/GfxUIBlobRender.cpp
+++ b/src/Image/GfxUI/GfxUIBlobRender.cpp
@@ -252,7 +252,7 @@ int GfxUIBlobRender::_render(UIGfxWrapper* ui_gfx) {
     if (_value->dirty(&_last_trace) | should_refresh) {
       PixUInt i_x = internalPosX();
       PixUInt i_y = internalPosY();
-      PixUInt i_w = internalWidth();
+      PixUInt i_w = (internalWidth() - 160);   // The rest is for our children.
       PixUInt i_h = internalHeight();
       img->fillRect(i_x, i_y, i_w, i_h, _style.color_bg);   // Wipe the field.
       StringBuilder line;
-- 
2.43.0


From 282088b49b3eaccd43d430629205cf60d228d490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:34 +0000
Subject: [PATCH 216/224] fix: a blob's view that moved plotted at its former
 place

---
 src/Image/GfxUI/GfxUIBlobRender.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Image/GfxUI/GfxUIBlobRender.cpp b/src/Image/GfxUI/GfxUIBlobRender.cpp
index 959aeaa..043f3bc 100644
--- a/src/Image/GfxUI/GfxUIBlobRender.cpp
+++ b/src/Image/GfxUI/GfxUIBlobRender.cpp
@@ -258,6 +258,7 @@ int GfxUIBlobRender::_render(UIGfxWrapper* ui_gfx) {
       StringBuilder line;
       if (_value->is_ptr_len()) {
         if ((0 <= p_check) & (0 <= s_check)) {
+          _plotter->setParameters(i_x, i_y, i_w, i_h);   // We might have moved.
           _plotter->setStyler(_styler);
           int8_t ret_local = _plotter->apply(true);
           if (0 != ret_local) {
-- 
2.43.0


From 997862c96542c0333fe3fd1c1ada974f43a09b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:36 +0000
Subject: [PATCH 217/224] fix: a blob's view did not follow its tabs, nor
 redraw when it should

---
 src/Image/GfxUI/GfxUIBlobRender.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Image/GfxUI/GfxUIBlobRender.cpp b/src/Image/GfxUI/GfxUIBlobRender.cpp
index 043f3bc..e8bd1e7 100644
--- a/src/Image/GfxUI/GfxUIBlobRender.cpp
+++ b/src/Image/GfxUI/GfxUIBlobRender.cpp
@@ -14,7 +14,7 @@ Date:   2023.12.25
 
 
 GfxUIBlobRender::GfxUIBlobRender(C3PValue* value, const GfxUILayout lay, const GfxUIStyle sty, uint32_t f) :
-  GfxUIElement(lay, sty, f),
+  GfxUIElement(lay, sty, (f | GFXUI_FLAG_ALWAYS_REDRAW)),
   _value(value),
   _plotter(nullptr),
   _styler(nullptr),
@@ -249,7 +249,7 @@ int GfxUIBlobRender::_render(UIGfxWrapper* ui_gfx) {
     int8_t p_check = _check_plotter(img);
     int8_t s_check = _check_styler(img);
     bool should_refresh = (p_check > 0) | (s_check > 0);
-    if (_value->dirty(&_last_trace) | should_refresh) {
+    if (_value->dirty(&_last_trace) | should_refresh | _need_redraw()) {
       PixUInt i_x = internalPosX();
       PixUInt i_y = internalPosY();
       PixUInt i_w = (internalWidth() - 160);   // The rest is for our children.
-- 
2.43.0


From 5bc904c6c26cfc2a0ea93bf18ca906263e63385d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:37 +0000
Subject: [PATCH 218/224] fix: a blob's view wrote over its tabs and beyond
 itself

---
 src/Image/GfxUI/GfxUIBlobRender.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Image/GfxUI/GfxUIBlobRender.cpp b/src/Image/GfxUI/GfxUIBlobRender.cpp
index e8bd1e7..1d3fa0f 100644
--- a/src/Image/GfxUI/GfxUIBlobRender.cpp
+++ b/src/Image/GfxUI/GfxUIBlobRender.cpp
@@ -266,6 +266,7 @@ int GfxUIBlobRender::_render(UIGfxWrapper* ui_gfx) {
             img->setCursor(i_x, i_y);
             img->setTextSize(_style.text_size);
             img->setTextColor(_style.color_active, _style.color_bg);
+            line.cull(0, strict_min(line.length(), (int) (i_w / img->getFontWidth())));   // Stay in the field.
             img->writeString(&line);
           }
           ret = 1;
@@ -276,6 +277,7 @@ int GfxUIBlobRender::_render(UIGfxWrapper* ui_gfx) {
         img->setCursor(i_x, i_y);
         img->setTextSize(_style.text_size);
         img->setTextColor(_style.color_active, _style.color_bg);
+        line.cull(0, strict_min(line.length(), (int) (i_w / img->getFontWidth())));   // Stay in the field.
         img->writeString(&line);
         ret = 1;
       }
-- 
2.43.0


From ebe42f6f5fc725613ca003155f52a985c069b774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:39 +0000
Subject: [PATCH 219/224] fix: a forced render did not draw a value that had
 not changed

---
 src/Image/GfxUI/GfxUI.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Image/GfxUI/GfxUI.cpp b/src/Image/GfxUI/GfxUI.cpp
index 83b29d2..cc42361 100644
--- a/src/Image/GfxUI/GfxUI.cpp
+++ b/src/Image/GfxUI/GfxUI.cpp
@@ -217,6 +217,7 @@ int GfxUIElement::render(UIGfxWrapper* ui_gfx, bool force) {
   if (!muteRender()) {
     ret += _render_children(ui_gfx, force);
     if (_need_redraw() | force) {
+      _need_redraw(true);   // _render() ought to know that it is being forced.
       ret += _render(ui_gfx);
       const uint32_t COLOR = _style.color_border;
       if (_class_flags() & GFXUI_FLAG_DRAW_FRAME_U) {
-- 
2.43.0


From 190910787f584a51e3a1a85de4da913f0538bc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:40 +0000
Subject: [PATCH 220/224] fix: a value's view left its plot blank if the value
 had changed 65535 times

---
 src/Image/GfxUI/GfxUIC3PValue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Image/GfxUI/GfxUIC3PValue.cpp b/src/Image/GfxUI/GfxUIC3PValue.cpp
index 544a47c..5b473ce 100644
--- a/src/Image/GfxUI/GfxUIC3PValue.cpp
+++ b/src/Image/GfxUI/GfxUIC3PValue.cpp
@@ -199,7 +199,7 @@ int GfxUIC3PValue::_render(UIGfxWrapper* ui_gfx) {
           &blob_style, _value, ui_gfx->img(),
           i_x, i_y, i_w, i_h
         );
-        int8_t ret_local = curve_render.apply();
+        int8_t ret_local = curve_render.apply(true);
         if (0 != ret_local) {
           line.concatf("%u bytes", _value->length());
           ui_gfx->img()->setCursor(i_x, i_y);
-- 
2.43.0


From eb66d4dde5bf1d99f1d33341a2a809f504915983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:53 +0000
Subject: [PATCH 221/224] fix: GfxUITabbedContentPane changes its content when
 its tab changes without a forced redraw

---
 src/Image/GfxUI/GfxUITabBar.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Image/GfxUI/GfxUITabBar.cpp b/src/Image/GfxUI/GfxUITabBar.cpp
index e8abb8d..feedc18 100644
--- a/src/Image/GfxUI/GfxUITabBar.cpp
+++ b/src/Image/GfxUI/GfxUITabBar.cpp
@@ -208,7 +208,11 @@ int GfxUITabbedContentPane::_render(UIGfxWrapper* ui_gfx) {
 
 bool GfxUITabbedContentPane::_notify(const GfxUIEvent GFX_EVNT, PixUInt x, PixUInt y, PriorityQueue<GfxUIElement*>* change_log) {
   // If the event was directed at the nav pane, it will be handled by the natural
-  //   flow that comes from its addition as a child object.
+  //   flow that comes from its addition as a child object. But it might change
+  //   the active tab, which we will only notice if we are rendered.
+  if (_tab_bar.includesPoint(x, y)) {
+    _need_redraw(true);
+  }
   return false;
 }
 
-- 
2.43.0


From a5f6e3cf90e784da73a171dea3013bce5e198197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:10 +0000
Subject: [PATCH 222/224] fix: A map entry that could not be inflated no longer
 displaces the entries that follow it

---
 src/C3PValue/KeyValuePair.cpp | 22 +++++++++++++++++-----
 src/C3PValue/KeyValuePair.h   |  1 +
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/C3PValue/KeyValuePair.cpp b/src/C3PValue/KeyValuePair.cpp
index 7e4dd4d..4751556 100644
--- a/src/C3PValue/KeyValuePair.cpp
+++ b/src/C3PValue/KeyValuePair.cpp
@@ -416,19 +416,29 @@ CBORArgListener::~CBORArgListener() {
 }
 
 /*
-* Causes the KVP given as the argument to be added to the existing data.
+* An item has been consumed, whether or not we could make a value of it. Neither
+*   its key nor its tag apply to the next one.
 */
-void CBORArgListener::_caaa(KeyValuePair* nu) {
+void CBORArgListener::_item_seen() {
   if (0 < _wait_map) {
     _wait_map--;
     if (nullptr != _wait) {
-      nu->setKey(_wait);   // This takes a copy.
       free(_wait);
       _wait = nullptr;
     }
   }
-
   if (0 < _wait_array) _wait_array--;
+  _pending_c3p_tag = TCode::NONE;
+}
+
+/*
+* Causes the KVP given as the argument to be added to the existing data.
+*/
+void CBORArgListener::_caaa(KeyValuePair* nu) {
+  if ((0 < _wait_map) && (nullptr != _wait)) {
+    nu->setKey(_wait);   // This takes a copy.
+  }
+  _item_seen();
 
   if (nullptr != *built) {
     ((nullptr != _tail) ? _tail : *built)->link(nu);
@@ -477,7 +487,9 @@ void CBORArgListener::on_bytes(uint8_t* data, int size) {
     if (nullptr != temp_kvp) {
       _caaa(temp_kvp);
     }
-    _pending_c3p_tag = TCode::NONE;
+    else {
+      _item_seen();
+    }
   }
   else {
     // The decoder's buffer won't outlive this call.
diff --git a/src/C3PValue/KeyValuePair.h b/src/C3PValue/KeyValuePair.h
index 55efaa1..36596a9 100644
--- a/src/C3PValue/KeyValuePair.h
+++ b/src/C3PValue/KeyValuePair.h
@@ -282,6 +282,7 @@ class KeyValuePair : public C3PValue {
 
       /* Please forgive the stupid name. */
       void _caaa(KeyValuePair*);
+      void _item_seen();
 
       KeyValuePair* _inflate_c3p_type(uint8_t* data, int size, const TCode);
   };
-- 
2.43.0


From 686c058d8cd80b437c0cb8ed0f8076e9d61bc03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:04 +0000
Subject: [PATCH 223/224] fix: TimeSeries::copyValueRange() refuses an offset
 that wraps the sum of offset and count

---
 src/TimeSeries/TimeSeries.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimeSeries/TimeSeries.h b/src/TimeSeries/TimeSeries.h
index afd1832..5d185be 100644
--- a/src/TimeSeries/TimeSeries.h
+++ b/src/TimeSeries/TimeSeries.h
@@ -506,7 +506,7 @@ template <class T> int8_t TimeSeries<T>::copyValueRange(T* buf, const uint32_t C
     ret--;
     if (COUNT > 0) {
       ret--;
-      if (_samples_total >= (COUNT + OFFSET)) {  // Do so many samples exist?
+      if (_samples_total >= ((uint64_t) COUNT + OFFSET)) {  // Do so many samples exist?
         const uint32_t PRE_MOD_IDX = (ABS_IDX ? OFFSET : ((windowSize() + OFFSET + _sample_idx) - COUNT));
         markClean();  // Do this here (specifically) to minimize concurrency grief.
         // TODO: Inefficient for the sake of expediency. Should be a split copy
-- 
2.43.0


From 115e9db0df26bac7577ff83658b6f58af1f489f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:15 +0000
Subject: [PATCH 224/224] fix: A black fence is as much a fence as any other,
 and its offset is taken

---
 src/Image/ImageUtils/BlobPlotter.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Image/ImageUtils/BlobPlotter.cpp b/src/Image/ImageUtils/BlobPlotter.cpp
index d7c22df..0e29161 100644
--- a/src/Image/ImageUtils/BlobPlotter.cpp
+++ b/src/Image/ImageUtils/BlobPlotter.cpp
@@ -124,7 +124,11 @@ uint32_t BlobStylerExplicitFencing::getColor(const uint8_t* PTR, const uint32_t
 */
 int8_t BlobStylerExplicitFencing::addOffset(uint32_t offset, uint32_t color) {
   int8_t ret = -1;
-  if (0 == _fences.getByPriority((int) offset)) {  // TODO: Technically not safe. Might be a valid color.
+  bool offset_taken = false;
+  for (int i = 0; (!offset_taken) && (i < _fences.size()); i++) {
+    offset_taken = ((int) offset == _fences.getPriority(i));
+  }
+  if (!offset_taken) {
     ret = ((0 <= _fences.insert(color, (int) offset)) ? 0 : -2);
   }
   return ret;
-- 
2.43.0

