From 7104481859f2567342f17a7918ebe532514e084d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:14 +0000
Subject: [PATCH 01/88] fix: report allocation failures of the sph helpers as
 failures

sph_helper_status_id_memory was zero, the success id, so callers of
sph_helper_malloc/calloc/realloc continued with uninitialised pointers.
---
 source/c/foreign/sph-sc-lib/sph-sp/helper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/helper.h b/source/c/foreign/sph-sc-lib/sph-sp/helper.h
index c10b6c2..25dcb7f 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/helper.h
+++ b/source/c/foreign/sph-sc-lib/sph-sp/helper.h
@@ -4,7 +4,7 @@
 
 /* depends on status.h */
 #include <inttypes.h>
-enum { sph_helper_status_id_memory };
+enum { sph_helper_status_id_memory = 1 };
 #define sph_helper_status_group ((uint8_t*)("sph"))
 
 /** add explicit type cast to prevent compiler warning */
-- 
2.43.0


From 137a67f06e163f4e5c42d02561464a92a10981d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:49 +0000
Subject: [PATCH 02/88] fix: return the result of sph_helper_status_description
 and sph_helper_status_name

---
 source/c/foreign/sph-sc-lib/sph-sp/helper.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/helper.c b/source/c/foreign/sph-sc-lib/sph-sp/helper.c
index f44fab7..000fed4 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/helper.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/helper.c
@@ -9,6 +9,7 @@ uint8_t* sph_helper_status_description(status_t a) {
   } else {
     b = "";
   };
+  return (b);
 }
 uint8_t* sph_helper_status_name(status_t a) {
   uint8_t* b;
@@ -17,6 +18,7 @@ uint8_t* sph_helper_status_name(status_t a) {
   } else {
     b = "unknown";
   };
+  return (b);
 }
 
 /** allocation helpers use status-t and have the same interface */
-- 
2.43.0


From d094983f6aa8951f6455a1f0d7af83e0d634812f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:57 +0000
Subject: [PATCH 03/88] fix: return the status of sp_file_read

---
 source/c-precompiled/sph-sp/file.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/c-precompiled/sph-sp/file.c b/source/c-precompiled/sph-sp/file.c
index ea0912c..9d715e6 100644
--- a/source/c-precompiled/sph-sp/file.c
+++ b/source/c-precompiled/sph-sp/file.c
@@ -115,5 +115,6 @@ status_t sp_file_read(sp_file_t file, sp_time_t sample_count, sp_sample_t** samp
   };
 exit:
   free(file_data);
+  status_return;
 }
 void sp_file_close_read(sp_file_t file) { fclose((file.file)); }
-- 
2.43.0


From 15a66cfae67bec38651a1e7c6e3dc2fc2227dacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:03 +0000
Subject: [PATCH 04/88] fix: sp_file_open_read with files that can not be
 opened or have an unsupported header

a failed fopen was followed by fread on a null stream, and the opened
stream was leaked when the header was rejected.
---
 source/c-precompiled/sph-sp/file.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/c-precompiled/sph-sp/file.c b/source/c-precompiled/sph-sp/file.c
index 9d715e6..a2240b1 100644
--- a/source/c-precompiled/sph-sp/file.c
+++ b/source/c-precompiled/sph-sp/file.c
@@ -70,6 +70,9 @@ status_t sp_file_open_read(uint8_t* path, sp_file_t* file) {
   uint32_t subchunk_id;
   uint32_t subchunk_size;
   file->file = fopen(path, "r");
+  if (!file->file) {
+    status_set_goto(sp_s_group_libc, errno);
+  };
   if (!(fread(header, 44, 1, (file->file)) && (*((uint32_t*)(header)) == wav_string_riff) && (*((uint32_t*)((8 + header))) == wav_string_wav) && (*((uint32_t*)((12 + header))) == wav_string_fmt))) {
     sp_status_set_goto(sp_s_id_file_read);
   };
@@ -88,6 +91,9 @@ status_t sp_file_open_read(uint8_t* path, sp_file_t* file) {
     };
   };
 exit:
+  if (status_is_failure && file->file) {
+    fclose((file->file));
+  };
   status_return;
 }
 status_t sp_file_read(sp_file_t file, sp_time_t sample_count, sp_sample_t** samples) {
-- 
2.43.0


From 8c4d7460dd5580a22027d04761760d9c94a12fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:10 +0000
Subject: [PATCH 05/88] fix: sp_file_open_read sets the channel count from the
 file header

sp_file_read depends on it and used an uninitialised value.
---
 source/c-precompiled/sph-sp/file.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/c-precompiled/sph-sp/file.c b/source/c-precompiled/sph-sp/file.c
index a2240b1..0585521 100644
--- a/source/c-precompiled/sph-sp/file.c
+++ b/source/c-precompiled/sph-sp/file.c
@@ -79,6 +79,7 @@ status_t sp_file_open_read(uint8_t* path, sp_file_t* file) {
   if (!((3 == *((uint16_t*)((20 + header)))) && (32 == *((uint16_t*)((34 + header)))))) {
     sp_status_set_goto(sp_s_id_file_not_implemented);
   };
+  file->channel_count = *((uint16_t*)((22 + header)));
   subchunk_id = *((uint32_t*)((36 + header)));
   subchunk_size = *((uint32_t*)((40 + header)));
   while (!(wav_string_data == subchunk_id)) {
-- 
2.43.0


From 578003a1bb2c62c76513200eab8f1b210140edcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:28 +0000
Subject: [PATCH 06/88] fix: sp_file_open_read rejects files with zero channels
 or more than sp_channel_count_t can hold

sp_file_read divided by a zero channel count.
---
 source/c-precompiled/sph-sp/file.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/c-precompiled/sph-sp/file.c b/source/c-precompiled/sph-sp/file.c
index 0585521..865e16d 100644
--- a/source/c-precompiled/sph-sp/file.c
+++ b/source/c-precompiled/sph-sp/file.c
@@ -79,7 +79,13 @@ status_t sp_file_open_read(uint8_t* path, sp_file_t* file) {
   if (!((3 == *((uint16_t*)((20 + header)))) && (32 == *((uint16_t*)((34 + header)))))) {
     sp_status_set_goto(sp_s_id_file_not_implemented);
   };
+  if (!*((uint16_t*)((22 + header)))) {
+    sp_status_set_goto(sp_s_id_file_read);
+  };
   file->channel_count = *((uint16_t*)((22 + header)));
+  if (file->channel_count != *((uint16_t*)((22 + header)))) {
+    sp_status_set_goto(sp_s_id_file_not_implemented);
+  };
   subchunk_id = *((uint32_t*)((36 + header)));
   subchunk_size = *((uint32_t*)((40 + header)));
   while (!(wav_string_data == subchunk_id)) {
-- 
2.43.0


From 0bb5644fe66cf493d6922fbc2ff40154ac155188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:35 +0000
Subject: [PATCH 07/88] fix: sp_seq frees what a failing event prepare has
 allocated

prepare was called with a copy of the event that was only written back to the
list on success. memory registered by a prepare that failed afterwards was
leaked, and memory of events whose register array was reallocated was freed
twice.
---
 source/c-precompiled/sph-sp/sequencer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index 9131451..a9c2bc6 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -262,8 +262,8 @@ status_t sp_seq(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_list_t*
     } else if (end <= e.start) {
       break;
     } else if (e.end > start) {
-      sp_event_prepare_optional_srq(e);
-      *ep = e;
+      sp_event_prepare_optional_srq((*ep));
+      e = *ep;
       status_require(((e.generate)(((start > e.start) ? (start - e.start) : 0), (sp_inline_min(end, (e.end)) - e.start), ((e.start > start) ? sp_block_with_offset(out, (e.start - start)) : out), ep)));
     };
     current = current->next;
-- 
2.43.0


From a8af063b4f2d75203ad9dfa2e54595c659a76e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:42 +0000
Subject: [PATCH 08/88] fix: sp_seq_parallel waits for all started futures
 before freeing their data on error

---
 source/c-precompiled/sph-sp/sequencer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index a9c2bc6..4fd9b29 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -365,6 +365,8 @@ status_t sp_seq_parallel(sp_time_t start, sp_time_t end, sp_block_t out, sp_even
 exit:
   if (sf_array) {
     for (sp_size_t i = 0; (i < allocated); i += 1) {
+      /* on failure, futures might still be using out and event */
+      sph_future_touch((&((sf_array[i]).future)));
       sp_block_free((&((sf_array[i]).out)));
     };
     free(sf_array);
-- 
2.43.0


From 51e77c22ceaa4302d80f452574cb28e057fe63b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:48 +0000
Subject: [PATCH 09/88] fix: data race between sph_future_eval and
 sph_future_touch

the finished flag was written and polled without synchronisation, so that the
result of the future was not guaranteed to be visible when the flag was.
---
 source/c/foreign/sph-sc-lib/sph-sp/futures.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/futures.c b/source/c/foreign/sph-sc-lib/sph-sp/futures.c
index 425613d..2139a32 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/futures.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/futures.c
@@ -27,7 +27,7 @@ void sph_future_eval(sph_thread_pool_task_t* task) {
   sph_future_t* a;
   a = ((sph_future_t*)((((uint8_t*)(task)) - offsetof(sph_future_t, task))));
   task->data = (a->f)((task->data));
-  a->finished = 1;
+  __atomic_store_n((&(a->finished)), 1, __ATOMIC_RELEASE);
 }
 
 /** prepare a future in out and possibly start evaluation in parallel.
@@ -52,7 +52,7 @@ void sph_future_deinit() {
 /** blocks until future is finished and returns its result */
 void* sph_future_touch(sph_future_t* a) {
   const struct timespec poll_interval = sph_future_default_poll_interval;
-  while (!a->finished) {
+  while (!__atomic_load_n((&(a->finished)), __ATOMIC_ACQUIRE)) {
     nanosleep((&poll_interval), 0);
   };
   return ((a->task.data));
-- 
2.43.0


From 4af140a19bb5ef250e866b44f14e97fbacc9a5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:30 +0000
Subject: [PATCH 10/88] fix: allow sph_future_init after sph_future_deinit

the pool was still marked as initialised after it had been finished, so that no
threads existed and futures never completed. the pool was also destroyed twice.
---
 source/c/foreign/sph-sc-lib/sph-sp/futures.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/futures.c b/source/c/foreign/sph-sc-lib/sph-sp/futures.c
index 2139a32..496ead4 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/futures.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/futures.c
@@ -44,8 +44,10 @@ void sph_future_new(sph_future_f_t f, void* data, sph_future_t* out) {
    waits till all active futures are finished */
 void sph_future_deinit() {
   if (sph_futures_pool_is_initialized) {
-    sph_thread_pool_finish((&sph_futures_pool), 0, 0);
-    sph_thread_pool_destroy((&sph_futures_pool));
+    /* also destroys the pool */
+    if (0 == sph_thread_pool_finish((&sph_futures_pool), 0, 0)) {
+      sph_futures_pool_is_initialized = 0;
+    };
   };
 }
 
-- 
2.43.0


From 75b57ac6defabdc05e66c91b51177c5d7a89e4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:38 +0000
Subject: [PATCH 11/88] fix: double free when sp_deinitialize is called after a
 failed sp_initialize

sp_initialize itself calls sp_deinitialize on failure.
---
 source/c-precompiled/sph-sp/main.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 2e62223..45f1fe8 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -452,6 +452,8 @@ void sp_deinitialize() {
   };
   free(sp_sine_table);
   free(sp_sine_table_lfo);
+  sp_sine_table = 0;
+  sp_sine_table_lfo = 0;
 }
 #include <sph-sp/path.c>
 
-- 
2.43.0


From 89853499475ec7111d5279f07c54a13ca41541c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:44 +0000
Subject: [PATCH 12/88] fix: sph_thread_pool_new waits for already created
 threads when creating a thread fails

the threads were left running on a pool that the caller considers invalid and
possibly initialises again.
---
 source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c b/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
index 08f19e5..3dbce5b 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
@@ -88,10 +88,12 @@ int sph_thread_pool_new(sph_thread_pool_size_t size, sph_thread_pool_t* a) {
   for (i = 0; (i < size); i = (1 + i)) {
     error = pthread_create((i + a->threads), (&attr), ((void* (*)(void*))(sph_thread_pool_worker)), ((void*)(a)));
     if (error) {
-      if (0 < i) {
-        /* try to finish previously created threads */
-        a->size = i;
-        sph_thread_pool_finish(a, 1, 0);
+      /* finish previously created threads. not waiting for them would keep them using the pool */
+      a->size = i;
+      if (i) {
+        sph_thread_pool_finish(a, 0, 0);
+      } else {
+        sph_thread_pool_destroy(a);
       };
       goto exit;
     };
-- 
2.43.0


From 029d6a7fad0d34aec2ce71935d352dde1b9338fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:51 +0000
Subject: [PATCH 13/88] fix: limit the size of the thread pool to the maximum
 number of threads

more than 128 threads overflowed the array of thread ids, and the cpu count given
to sp_initialize was truncated to 8 bits (256 created a pool without threads).
---
 source/c-precompiled/sph-sp/main.c               | 2 +-
 source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 45f1fe8..f52e38b 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -424,7 +424,7 @@ sp_random_state_t sp_random_state_new(sp_time_t seed) {
 status_t sp_initialize(uint16_t cpu_count, sp_channel_count_t channel_count, sp_time_t rate) {
   status_declare;
   if (cpu_count) {
-    status.id = sph_future_init(cpu_count);
+    status.id = sph_future_init((sp_inline_min(cpu_count, sph_thread_pool_thread_limit)));
     if (status.id) {
       status_return;
     };
diff --git a/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c b/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
index 3dbce5b..814273c 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
@@ -80,6 +80,9 @@ int sph_thread_pool_new(sph_thread_pool_size_t size, sph_thread_pool_t* a) {
   pthread_attr_t attr;
   int error;
   error = 0;
+  if (size > sph_thread_pool_thread_limit) {
+    return (EINVAL);
+  };
   sph_queue_init((&(a->queue)));
   pthread_mutex_init((&(a->queue_mutex)), 0);
   pthread_cond_init((&(a->queue_not_empty)), 0);
-- 
2.43.0


From 4f10791dba69031a556683eebdaae8e621caf6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:15 +0000
Subject: [PATCH 14/88] fix: sp_event_list_reverse with an empty list sets the
 list to an undefined pointer

---
 source/c-precompiled/sph-sp/sequencer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index 4fd9b29..b4952e3 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -13,7 +13,7 @@ void sp_event_list_display(sp_event_list_t* a) {
   };
 }
 void sp_event_list_reverse(sp_event_list_t** a) {
-  sp_event_list_t* current;
+  sp_event_list_t* current = 0;
   sp_event_list_t* next;
   next = *a;
   while (next) {
-- 
2.43.0


From 3a382f0f07ce1bb28f9c89a7f4c844cd00045df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:22 +0000
Subject: [PATCH 15/88] fix: return the status of the sp_path_samples and
 sp_path_times variants with fixed point counts

---
 source/c-precompiled/sph-sp/path.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/source/c-precompiled/sph-sp/path.c b/source/c-precompiled/sph-sp/path.c
index fb60807..6b9761c 100644
--- a/source/c-precompiled/sph-sp/path.c
+++ b/source/c-precompiled/sph-sp/path.c
@@ -44,14 +44,14 @@ exit:
     sp_sample_t y[2]; \
     y[0] = y1; \
     y[1] = y2; \
-    sp_path_##type_name(out, length, 2, 0, y, 0); \
+    return ((sp_path_##type_name(out, length, 2, 0, y, 0))); \
   } \
   status_t sp_path_##type_name##3(type * *out, sp_time_t length, sp_sample_t x1, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3) { \
     sp_sample_t y[3]; \
     y[0] = y1; \
     y[1] = y2; \
     y[2] = y3; \
-    sp_path_##type_name(out, length, 3, (&x1), y, 0); \
+    return ((sp_path_##type_name(out, length, 3, (&x1), y, 0))); \
   } \
   status_t sp_path_##type_name##4(type * *out, sp_time_t length, sp_sample_t x1, sp_sample_t x2, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3, sp_sample_t y4) { \
     sp_sample_t x[2]; \
@@ -62,7 +62,7 @@ exit:
     y[1] = y2; \
     y[2] = y3; \
     y[3] = y4; \
-    sp_path_##type_name(out, length, 4, x, y, 0); \
+    return ((sp_path_##type_name(out, length, 4, x, y, 0))); \
   } \
   status_t sp_path_##type_name##5(type * *out, sp_time_t length, sp_sample_t x1, sp_sample_t x2, sp_sample_t x3, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3, sp_sample_t y4, sp_sample_t y5) { \
     sp_sample_t x[3]; \
@@ -75,13 +75,13 @@ exit:
     y[2] = y3; \
     y[3] = y4; \
     y[4] = y5; \
-    sp_path_##type_name(out, length, 5, x, y, 0); \
+    return ((sp_path_##type_name(out, length, 5, x, y, 0))); \
   } \
   status_t sp_path_##type_name##_c##2(type * *out, sp_time_t length, sp_sample_t y1, sp_sample_t y2, sp_sample_t c1) { \
     sp_sample_t y[2]; \
     y[0] = y1; \
     y[1] = y2; \
-    sp_path_##type_name(out, length, 2, 0, y, (&c1)); \
+    return ((sp_path_##type_name(out, length, 2, 0, y, (&c1)))); \
   } \
   status_t sp_path_##type_name##_c##3(type * *out, sp_time_t length, sp_sample_t x1, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3, sp_sample_t c1, sp_sample_t c2) { \
     sp_sample_t y[3]; \
@@ -91,7 +91,7 @@ exit:
     y[2] = y3; \
     c[0] = c1; \
     c[1] = c2; \
-    sp_path_##type_name(out, length, 3, (&x1), y, c); \
+    return ((sp_path_##type_name(out, length, 3, (&x1), y, c))); \
   } \
   status_t sp_path_##type_name##_c##4(type * *out, sp_time_t length, sp_sample_t x1, sp_sample_t x2, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3, sp_sample_t y4, sp_sample_t c1, sp_sample_t c2, sp_sample_t c3) { \
     sp_sample_t x[2]; \
@@ -106,7 +106,7 @@ exit:
     c[0] = c1; \
     c[1] = c2; \
     c[2] = c3; \
-    sp_path_##type_name(out, length, 4, x, y, c); \
+    return ((sp_path_##type_name(out, length, 4, x, y, c))); \
   } \
   status_t sp_path_##type_name##_c##5(type * *out, sp_time_t length, sp_sample_t x1, sp_sample_t x2, sp_sample_t x3, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3, sp_sample_t y4, sp_sample_t y5, sp_sample_t c1, sp_sample_t c2, sp_sample_t c3, sp_sample_t c4) { \
     sp_sample_t x[3]; \
@@ -124,7 +124,7 @@ exit:
     c[1] = c2; \
     c[2] = c3; \
     c[3] = c4; \
-    sp_path_##type_name(out, length, 5, x, y, c); \
+    return ((sp_path_##type_name(out, length, 5, x, y, c))); \
   }
 sp_define_path_n(samples, sp_sample_t)
   sp_define_path_n(times, sp_time_t)
-- 
2.43.0


From fbf4eb2b9c0bf7469f80221caafd686aadfc6047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:14 +0000
Subject: [PATCH 16/88] fix: write outside of the output when a part of a
 bezier segment is generated

for a start inside the segment the curve was sampled from a wrong offset, with x
values before start, and values in gaps could be written after end.
---
 .../c/foreign/sph-sc-lib/sph-sp/spline-path.c | 45 +++++++------------
 1 file changed, 16 insertions(+), 29 deletions(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
index 2ccec1c..c3c0809 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
@@ -164,51 +164,38 @@ void spline_path_beziern_generate(spline_path_value_t (*interpolator)(spline_pat
   spline_path_point_t p_start;
   spline_path_value_t s_size;
   spline_path_value_t t;
-  size_t b_size;
   size_t x;
   size_t x_previous;
   spline_path_value_t y_previous;
   size_t i;
   size_t j;
   spline_path_value_t y;
+  if (end <= start) {
+    return;
+  };
   p_start = (s->points)[0];
   p_end = (s->points)[(s->points_count - 1)];
-  b_size = (spline_path_bezier_resolution * (end - start));
   s_size = (spline_path_bezier_resolution * (p_end.x - p_start.x));
-  for (i = (start - p_start.x), x_previous = start; ((i < b_size) || (x < end)); i += 1, x_previous = x) {
-    t = (i / s_size);
+  x_previous = p_start.x;
+  y_previous = p_start.y;
+  if (start <= x_previous) {
+    out[(x_previous - start)] = y_previous;
+  };
+  /* curve points and the gaps between them, of which only the parts between start and end are written */
+  for (i = 0; (x_previous < end); i += 1, x_previous = x, y_previous = y) {
+    t = ((i < s_size) ? (i / s_size) : 1);
     mt = (1.0 - t);
     x = round((interpolator(t, mt, (s->points), (offsetof(spline_path_point_t, x)))));
     y = interpolator(t, mt, (s->points), (offsetof(spline_path_point_t, y)));
-    if (x < end) {
+    if ((start <= x) && (x < end)) {
       out[(x - start)] = y;
     };
-    if (2 > (x - x_previous)) {
-      continue;
-    };
-    if (start < x_previous) {
-      y_previous = out[(x_previous - start)];
-    } else {
-      /* gap at the beginning. find value for x before start */
-      for (j = i; j; j -= 1) {
-        t = (j / s_size);
-        mt = (1.0 - t);
-        x_previous = round((interpolator(t, mt, (s->points), (offsetof(spline_path_point_t, x)))));
-        if (x_previous < x) {
-          break;
-        };
-      };
-      if (j) {
-        y_previous = p_start.y;
-      } else {
-        y_previous = p_start.y;
-        x_previous = p_start.x;
+    for (j = (x_previous + 1); ((j < x) && (j < end)); j += 1) {
+      if (start <= j) {
+        t = ((j - x_previous) / ((spline_path_value_t)((x - x_previous))));
+        out[(j - start)] = linearly_interpolate(y_previous, y, t);
       };
     };
-    for (j = 1; (j < (x - x_previous)); j += 1) {
-      t = (j / ((spline_path_value_t)((x - x_previous))));
-      out[((x_previous + j) - start)] = linearly_interpolate(y_previous, y, t);
-    };
   };
 }
 spline_path_value_t spline_path_bezier1_interpolate_points(spline_path_value_t t, spline_path_value_t mt, spline_path_point_t* points, size_t field_offset) { return ((spline_path_bezier1_interpolate(t, mt, (spline_path_points_get_with_offset(points, 0, field_offset)), (spline_path_points_get_with_offset(points, 1, field_offset)), (spline_path_points_get_with_offset(points, 2, field_offset))))); }
-- 
2.43.0


From 2104ad5f84b0b583cbbcdf2ffaf3a35b97696f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:46 +0000
Subject: [PATCH 17/88] fix: spline_path_get for ranges that overlap the range
 of the previous call

segments before the one that was reached by the previous call were skipped as
long as start was not smaller than the previous start.
---
 source/c/foreign/sph-sc-lib/sph-sp/spline-path.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
index c3c0809..049e5ee 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
@@ -21,7 +21,7 @@ void spline_path_get(spline_path_t* path, size_t start, size_t end, spline_path_
   size_t s_start;
   size_t s_end;
   size_t out_start;
-  for (spline_path_segment_count_t i = ((start < path->previous_start) ? 0 : path->current_segment_index); (i < path->segments_count); path->current_segment_index = i, i += 1) {
+  for (spline_path_segment_count_t i = (((start < path->previous_start) || (start < (((path->segments)[path->current_segment_index]).points)[0].x)) ? 0 : path->current_segment_index); (i < path->segments_count); path->current_segment_index = i, i += 1) {
     s = (path->segments + i);
     s_start = ((s->points)[0]).x;
     s_end = ((s->points)[(s->points_count - 1)]).x;
-- 
2.43.0


From a031938a0b620d25c4aeb29303d8b8f32366af93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:52 +0000
Subject: [PATCH 18/88] fix: spline_path_path segments were never drawn

only the start point was counted as a point of the segment, therefore its length
was zero, and the end was not relative to the start of the segment.
---
 source/c/foreign/sph-sc-lib/sph-sp/spline-path.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
index 049e5ee..42fb788 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
@@ -57,6 +57,7 @@ size_t spline_path_size(spline_path_t path) {
 }
 uint8_t spline_path_path_prepare(spline_path_segment_t* s) {
   (s->points)[1] = spline_path_end((*((spline_path_t*)(s->data))));
+  ((s->points)[1]).x += ((s->points)[0]).x;
   return (0);
 }
 uint8_t spline_path_constant_prepare(spline_path_segment_t* s) {
@@ -240,7 +241,7 @@ spline_path_segment_t spline_path_path(spline_path_t path) {
   };
   s.free = free;
   s.generate = spline_path_path_generate;
-  s.points_count = 1;
+  s.points_count = 2;
   s.prepare = spline_path_path_prepare;
   return (s);
 }
-- 
2.43.0


From 90fa61b5c91d5aece99c50af79f66ba710af52ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:58 +0000
Subject: [PATCH 19/88] fix: sp_path_samples ignored negative curvature

values between -1.0 and 1.0 are documented.
---
 source/c-precompiled/sph-sp/path.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/path.c b/source/c-precompiled/sph-sp/path.c
index 6b9761c..7dee2c1 100644
--- a/source/c-precompiled/sph-sp/path.c
+++ b/source/c-precompiled/sph-sp/path.c
@@ -16,12 +16,12 @@ status_t sp_path_samples(sp_sample_t** out, sp_time_t length, sp_path_point_coun
   sp_sample_t yn = y[last_point_index];
   sp_sample_t cn = (c ? c[(last_point_index - 1)] : 0);
   segments[0] = spline_path_move(0, (y[0]));
-  segments[last_point_index] = ((cn < 1.0e-5) ? spline_path_line(xn, yn) : spline_path_bezier_arc(xn, yn, cn));
+  segments[last_point_index] = ((fabs(cn) < 1.0e-5) ? spline_path_line(xn, yn) : spline_path_bezier_arc(xn, yn, cn));
   for (sp_path_point_count_t i = 1; (i < last_point_index); i += 1) {
     xn = x[(i - 1)];
     yn = y[i];
     cn = (c ? c[(i - 1)] : 0);
-    segments[i] = ((cn < 1.0e-5) ? spline_path_line(xn, yn) : spline_path_bezier_arc(xn, yn, cn));
+    segments[i] = ((fabs(cn) < 1.0e-5) ? spline_path_line(xn, yn) : spline_path_bezier_arc(xn, yn, cn));
   };
   spline_path_set((&path), segments, point_count);
   status_require((sp_samples_new(length, out)));
-- 
2.43.0


From 17208a5164c6c5a14fdc800bc6cb321cb7087f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:33 +0000
Subject: [PATCH 20/88] fix: sp_envelope_zero and sp_envelope_scaled ignored
 most given points

array indices were off by one: the first x was not scaled, x out of bounds was
used for three points and the first intermediate y was uninitialised. x is now
also not modified.
---
 source/c-precompiled/sph-sp/path.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/source/c-precompiled/sph-sp/path.c b/source/c-precompiled/sph-sp/path.c
index 7dee2c1..f1709eb 100644
--- a/source/c-precompiled/sph-sp/path.c
+++ b/source/c-precompiled/sph-sp/path.c
@@ -133,15 +133,15 @@ sp_define_path_n(samples, sp_sample_t)
      x values will be multiplied by length.
      x values will be cumulative (0.1, 0.2) -> 0.3 */
   status_t sp_envelope_zero(sp_sample_t** out, sp_time_t length, sp_path_point_count_t point_count, sp_sample_t* x, sp_sample_t* y, sp_sample_t* c) {
+  sp_sample_t path_x[sp_path_point_count_limit];
   sp_sample_t path_y[sp_path_point_count_limit];
-  x[1] *= length;
   path_y[0] = 0;
   path_y[(point_count - 1)] = 0;
-  for (sp_path_point_count_t i = 2; (i < (point_count - 1)); i += 1) {
-    x[i] = (x[(i - 1)] + (x[i] * length));
-    path_y[i] = y[i];
+  for (sp_path_point_count_t i = 0; (i < (point_count - 2)); i += 1) {
+    path_x[i] = ((i ? path_x[(i - 1)] : 0) + (x[i] * length));
+    path_y[(i + 1)] = y[i];
   };
-  return ((sp_path_samples(out, length, point_count, x, path_y, c)));
+  return ((sp_path_samples(out, length, point_count, path_x, path_y, c)));
 }
 #define sp_define_envelope_zero_n(prefix, type_name, type) \
   status_t prefix##3(type * *out, sp_time_t length, sp_sample_t x1, sp_sample_t y1) { return ((sp_path_##type_name##3(out, length, (x1 * length), 0, y1, 0))); } \
@@ -167,15 +167,15 @@ sp_define_envelope_zero_n(sp_envelope_zero, samples, sp_sample_t)
      x values will be cumulative (0.1, 0.2) -> 0.3.
      x values will be multiplied by length */
   status_t sp_envelope_scaled(sp_time_t** out, sp_time_t length, sp_path_point_count_t point_count, sp_sample_t y_scalar, sp_sample_t* x, sp_sample_t* y, sp_sample_t* c) {
+  sp_sample_t path_x[sp_path_point_count_limit];
   sp_sample_t path_y[sp_path_point_count_limit];
-  x[1] *= length;
-  path_y[0] = (y_scalar * y[0]);
-  path_y[(point_count - 1)] = (y_scalar * y[(point_count - 1)]);
-  for (sp_path_point_count_t i = 2; (i < (point_count - 1)); i += 1) {
-    x[i] = (x[(i - 1)] + (x[i] * length));
+  for (sp_path_point_count_t i = 0; (i < (point_count - 2)); i += 1) {
+    path_x[i] = ((i ? path_x[(i - 1)] : 0) + (x[i] * length));
+  };
+  for (sp_path_point_count_t i = 0; (i < point_count); i += 1) {
     path_y[i] = (y_scalar * y[i]);
   };
-  return ((sp_path_times(out, length, point_count, x, path_y, c)));
+  return ((sp_path_times(out, length, point_count, path_x, path_y, c)));
 }
 #define sp_define_envelope_scaled_n(prefix, type_name, type) \
   status_t prefix##3(type * *out, sp_time_t length, sp_sample_t y_scalar, sp_sample_t x1, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3) { return ((sp_path_##type_name##3(out, length, (x1 * length), (y1 * y_scalar), (y2 * y_scalar), (y3 * y_scalar)))); } \
-- 
2.43.0


From c741e7fba6a6277169851decd519057999d4c32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:26 +0000
Subject: [PATCH 21/88] fix: sp_convolution_filter_state_set with a changed ir
 function and with errors

the stored ir function and argument length were not updated on change, so that
going back to a previous function with the same arguments used the wrong impulse
response. when creating the new impulse response failed, the state kept
a pointer to the freed one and the new arguments, and errors while creating a
state leaked memory.
---
 source/c-precompiled/sph-sp/filter.c | 74 +++++++++++-----------------
 1 file changed, 28 insertions(+), 46 deletions(-)

diff --git a/source/c-precompiled/sph-sp/filter.c b/source/c-precompiled/sph-sp/filter.c
index e59b0fc..b064b34 100644
--- a/source/c-precompiled/sph-sp/filter.c
+++ b/source/c-precompiled/sph-sp/filter.c
@@ -16,73 +16,55 @@ void sp_convolution_filter_state_free(sp_convolution_filter_state_t* state) {
    ir-f-arguments can be stack allocated and will be copied to state on change */
 status_t sp_convolution_filter_state_set(sp_convolution_filter_ir_f_t ir_f, void* ir_f_arguments, uint8_t ir_f_arguments_len, sp_convolution_filter_state_t** out_state) {
   status_declare;
-  sp_sample_t* carryover;
   sp_time_t carryover_alloc_len;
   sp_sample_t* ir;
   sp_time_t ir_len;
   sp_convolution_filter_state_t* state;
-  memreg_init(2);
-  /* create state if not exists. re-use if exists and return early if ir needs not be updated */
-  if (*out_state) {
-    /* existing */
-    state = *out_state;
-    if ((state->ir_f == ir_f) && (ir_f_arguments_len == state->ir_f_arguments_len) && (0 == memcmp((state->ir_f_arguments), ir_f_arguments, ir_f_arguments_len))) {
-      /* unchanged */
-      status_return;
-    } else {
-      /* changed */
-      if (ir_f_arguments_len > state->ir_f_arguments_len) {
-        status_require((sph_helper_realloc(ir_f_arguments_len, (&(state->ir_f_arguments)))));
-      };
-      if (state->ir) {
-        free((state->ir));
-      };
-    };
-  } else {
+  /* re-use if exists and return early if ir needs not be updated. state is only modified when nothing can fail anymore */
+  state = *out_state;
+  ir = 0;
+  if (state && (state->ir_f == ir_f) && (ir_f_arguments_len == state->ir_f_arguments_len) && (0 == memcmp((state->ir_f_arguments), ir_f_arguments, ir_f_arguments_len))) {
+    status_return;
+  };
+  /* assumes that ir-len is always greater zero */
+  status_require((ir_f(ir_f_arguments, (&ir), (&ir_len))));
+  if (!state) {
     /* new */
-    status_require((sph_helper_malloc((sizeof(sp_convolution_filter_state_t)), (&state))));
+    status_require((sph_helper_calloc((sizeof(sp_convolution_filter_state_t)), (&state))));
     status_require((sph_helper_malloc(ir_f_arguments_len, (&(state->ir_f_arguments)))));
-    memreg_add(state);
-    memreg_add((state->ir_f_arguments));
-    state->carryover_alloc_len = 0;
-    state->carryover = 0;
-    state->ir_f = ir_f;
     state->ir_f_arguments_len = ir_f_arguments_len;
+    state->ir_len = 1;
+  };
+  if (ir_f_arguments_len > state->ir_f_arguments_len) {
+    status_require((sph_helper_realloc(ir_f_arguments_len, (&(state->ir_f_arguments)))));
   };
-  memcpy((state->ir_f_arguments), ir_f_arguments, ir_f_arguments_len);
-  /* assumes that ir-len is always greater zero */
-  status_require((ir_f(ir_f_arguments, (&ir), (&ir_len))));
   /* eventually extend carryover array. the array is never shrunk.
   carryover-len is at least ir-len - 1.
   carryover-alloc-len is the length of the whole array.
   new and extended areas must be set to zero */
   carryover_alloc_len = (ir_len - 1);
-  if (state->carryover) {
-    carryover = state->carryover;
-    if (ir_len > state->ir_len) {
-      if (carryover_alloc_len > state->carryover_alloc_len) {
-        status_require((sph_helper_realloc((carryover_alloc_len * sizeof(sp_sample_t)), (&carryover))));
-        state->carryover_alloc_len = carryover_alloc_len;
-      };
-      /* in any case reset the extended area */
-      memset(((state->ir_len - 1) + carryover), 0, ((ir_len - state->ir_len) * sizeof(sp_sample_t)));
-    };
-  } else {
-    if (carryover_alloc_len) {
-      status_require((sp_samples_new(carryover_alloc_len, (&carryover))));
-    } else {
-      carryover = 0;
-    };
+  if (carryover_alloc_len > state->carryover_alloc_len) {
+    status_require((sph_helper_realloc((carryover_alloc_len * sizeof(sp_sample_t)), (&(state->carryover)))));
     state->carryover_alloc_len = carryover_alloc_len;
   };
-  state->carryover = carryover;
+  if (ir_len > state->ir_len) {
+    /* in any case reset the extended area */
+    memset(((state->ir_len - 1) + state->carryover), 0, ((ir_len - state->ir_len) * sizeof(sp_sample_t)));
+  };
+  memcpy((state->ir_f_arguments), ir_f_arguments, ir_f_arguments_len);
+  free((state->ir));
+  state->ir_f = ir_f;
+  state->ir_f_arguments_len = ir_f_arguments_len;
   state->carryover_len = (ir_len - 1);
   state->ir = ir;
   state->ir_len = ir_len;
   *out_state = state;
 exit:
   if (status_is_failure) {
-    memreg_free;
+    free(ir);
+    if (!*out_state) {
+      sp_convolution_filter_state_free(state);
+    };
   };
   status_return;
 }
-- 
2.43.0


From 9e2246a23b3126d9c5ae51f4158db0061acc3bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:33 +0000
Subject: [PATCH 22/88] fix: sp_convolution_filter lost the end of the output
 when the impulse response became shorter

carryover that did not fit into one block was discarded, because the carryover
length was immediately set to the length needed for the new impulse response.
---
 source/c-precompiled/sph-sp/filter.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/source/c-precompiled/sph-sp/filter.c b/source/c-precompiled/sph-sp/filter.c
index b064b34..56ec8d8 100644
--- a/source/c-precompiled/sph-sp/filter.c
+++ b/source/c-precompiled/sph-sp/filter.c
@@ -27,13 +27,12 @@ status_t sp_convolution_filter_state_set(sp_convolution_filter_ir_f_t ir_f, void
     status_return;
   };
   /* assumes that ir-len is always greater zero */
-  status_require((ir_f(ir_f_arguments, (&ir), (&ir_len))));
+  status_require_return((ir_f(ir_f_arguments, (&ir), (&ir_len))));
   if (!state) {
     /* new */
     status_require((sph_helper_calloc((sizeof(sp_convolution_filter_state_t)), (&state))));
     status_require((sph_helper_malloc(ir_f_arguments_len, (&(state->ir_f_arguments)))));
     state->ir_f_arguments_len = ir_f_arguments_len;
-    state->ir_len = 1;
   };
   if (ir_f_arguments_len > state->ir_f_arguments_len) {
     status_require((sph_helper_realloc(ir_f_arguments_len, (&(state->ir_f_arguments)))));
@@ -47,15 +46,15 @@ status_t sp_convolution_filter_state_set(sp_convolution_filter_ir_f_t ir_f, void
     status_require((sph_helper_realloc((carryover_alloc_len * sizeof(sp_sample_t)), (&(state->carryover)))));
     state->carryover_alloc_len = carryover_alloc_len;
   };
-  if (ir_len > state->ir_len) {
+  if (carryover_alloc_len > state->carryover_len) {
     /* in any case reset the extended area */
-    memset(((state->ir_len - 1) + state->carryover), 0, ((ir_len - state->ir_len) * sizeof(sp_sample_t)));
+    memset((state->carryover_len + state->carryover), 0, ((carryover_alloc_len - state->carryover_len) * sizeof(sp_sample_t)));
+    state->carryover_len = carryover_alloc_len;
   };
   memcpy((state->ir_f_arguments), ir_f_arguments, ir_f_arguments_len);
   free((state->ir));
   state->ir_f = ir_f;
   state->ir_f_arguments_len = ir_f_arguments_len;
-  state->carryover_len = (ir_len - 1);
   state->ir = ir;
   state->ir_len = ir_len;
   *out_state = state;
@@ -82,6 +81,9 @@ status_t sp_convolution_filter(sp_sample_t* in, sp_time_t in_len, sp_convolution
   status_require((sp_convolution_filter_state_set(ir_f, ir_f_arguments, ir_f_arguments_len, out_state)));
   /* convolve */
   sp_convolve(in, in_len, ((*out_state)->ir), ((*out_state)->ir_len), carryover_len, ((*out_state)->carryover), out_samples);
+  /* if the ir became shorter then the carryover can contain more than the new ir produces */
+  carryover_len = sp_inline_no_underflow_subtract(carryover_len, in_len);
+  (*out_state)->carryover_len = sp_inline_max(((*out_state)->ir_len - 1), carryover_len);
 exit:
   status_return;
 }
-- 
2.43.0


From f54d64d455d3a45ea8dabcac91b17f047a4265ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:06 +0000
Subject: [PATCH 23/88] fix: sp_render_range_file ignored start

always the first end - start samples of the event were rendered.
---
 source/c-precompiled/sph-sp/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index f52e38b..f817779 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -348,12 +348,12 @@ status_t sp_render_range_file(sp_event_t event, sp_time_t start, sp_time_t end,
     if (config.display_progress) {
       printf(("%.1f%\n"), (100 * (i / ((sp_sample_t)(block_end)))));
     };
-    status_require((sp_seq(i, (i + config.block_size), block, (&events))));
+    status_require((sp_seq((start + i), (start + i + config.block_size), block, (&events))));
     status_require((sp_file_write((&file), (block.samples), (config.block_size))));
     sp_block_zero(block);
   };
   if (remainder) {
-    status_require((sp_seq(i, (i + remainder), block, (&events))));
+    status_require((sp_seq((start + i), (start + i + remainder), block, (&events))));
     status_require((sp_file_write((&file), (block.samples), remainder)));
   };
   sp_event_list_free((&events));
-- 
2.43.0


From c5dd40ec3ca9b4777fecaef71041347996423e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:12 +0000
Subject: [PATCH 24/88] fix: sp_render_range_file with errors

a file that could not be opened was closed, and events were not freed when
rendering stopped because of file or memory errors.
---
 source/c-precompiled/sph-sp/main.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index f817779..f281d51 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -337,11 +337,13 @@ status_t sp_render_range_file(sp_event_t event, sp_time_t start, sp_time_t end,
   sp_time_t remainder;
   sp_time_t i;
   sp_file_t file;
+  sp_bool_t file_is_open = 0;
   sp_block_declare(block);
   sp_declare_event_list(events);
   status_require((sp_event_list_add((&events), event)));
   status_require((sp_block_new((config.channel_count), (config.block_size), (&block))));
   status_require((sp_file_open_write(path, (config.channel_count), (config.rate), (&file))));
+  file_is_open = 1;
   remainder = ((end - start) % config.block_size);
   block_end = (config.block_size * ((end - start) / config.block_size));
   for (i = 0; (i < block_end); i += config.block_size) {
@@ -356,10 +358,12 @@ status_t sp_render_range_file(sp_event_t event, sp_time_t start, sp_time_t end,
     status_require((sp_seq((start + i), (start + i + remainder), block, (&events))));
     status_require((sp_file_write((&file), (block.samples), remainder)));
   };
-  sp_event_list_free((&events));
 exit:
+  sp_event_list_free((&events));
   sp_block_free((&block));
-  sp_file_close_write((&file));
+  if (file_is_open) {
+    sp_file_close_write((&file));
+  };
   status_return;
 }
 
-- 
2.43.0


From 4fb471e3f6974a72f0e16764819b5a2da8803636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 25/88] fix: sp_render_range_block leaked the block and the
 event on errors

---
 source/c-precompiled/sph-sp/main.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index f281d51..47c8bc2 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -372,14 +372,17 @@ exit:
    block will be allocated */
 status_t sp_render_range_block(sp_event_t event, sp_time_t start, sp_time_t end, sp_render_config_t config, sp_block_t* out) {
   status_declare;
-  sp_block_t block;
+  sp_block_declare(block);
   sp_declare_event_list(events);
   status_require((sp_event_list_add((&events), event)));
   status_require((sp_block_new((config.channel_count), (end - start), (&block))));
   status_require((sp_seq(start, end, block, (&events))));
-  sp_event_list_free((&events));
   *out = block;
 exit:
+  sp_event_list_free((&events));
+  if (status_is_failure) {
+    sp_block_free((&block));
+  };
   status_return;
 }
 
-- 
2.43.0


From 00047b9942fd95b9cb77df5095f0f1351c60305a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:10 +0000
Subject: [PATCH 26/88] fix: sp_block_new with size zero allocated memory that
 sp_block_free does not free

---
 source/c-precompiled/sph-sp/main.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 47c8bc2..2ee5bc0 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -132,8 +132,11 @@ status_t sp_block_new(sp_channel_count_t channel_count, sp_time_t size, sp_block
   memreg_init(channel_count);
   sp_sample_t* channel;
   for (sp_size_t i = 0; (i < channel_count); i += 1) {
-    status_require((sph_helper_calloc((size * sizeof(sp_sample_t)), (&channel))));
-    memreg_add(channel);
+    channel = 0;
+    if (size) {
+      status_require((sph_helper_calloc((size * sizeof(sp_sample_t)), (&channel))));
+      memreg_add(channel);
+    };
     (out->samples)[i] = channel;
   };
   out->size = size;
-- 
2.43.0


From e0df1966869eb4577a351894b1e32e25fef645c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:17 +0000
Subject: [PATCH 27/88] fix: sp_file_write with no samples returned a write
 error

---
 source/c-precompiled/sph-sp/file.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/file.c b/source/c-precompiled/sph-sp/file.c
index 865e16d..b139efc 100644
--- a/source/c-precompiled/sph-sp/file.c
+++ b/source/c-precompiled/sph-sp/file.c
@@ -56,7 +56,7 @@ status_t sp_file_write(sp_file_t* file, sp_sample_t** samples, sp_time_t sample_
       file_data[((i * channel_count) + j)] = (samples[j])[i];
     };
   };
-  if (!fwrite(file_data, interleaved_size, 1, (file->file))) {
+  if (interleaved_size && !fwrite(file_data, interleaved_size, 1, (file->file))) {
     sp_status_set_goto(sp_s_id_file_write);
   };
   file->data_size += interleaved_size;
-- 
2.43.0


From e780d218d9d46ea6838caabc810175fcd6e3f16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:23 +0000
Subject: [PATCH 28/88] fix: division by zero in sp_event_block_generate for
 events without duration

---
 source/c-precompiled/sph-sp/sequencer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index b4952e3..acd9961 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -210,6 +210,9 @@ status_t sp_event_block_generate(sp_time_t resolution, sp_event_block_generate_t
   sp_time_t duration;
   sp_time_t i;
   duration = (end - start);
+  if (!duration) {
+    status_return;
+  };
   if (duration < resolution) {
     resolution = duration;
   };
-- 
2.43.0


From fb7fc25a44390a4cd1394f50e4bb02366e5a2992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 29/88] fix: noise event buffer overflow for blocks and impulse
 responses longer than sp_render_block_seconds

only the size of the temporary buffers was limited, not the size of what is
written to them.
---
 source/c-precompiled/sph-sp/sequencer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index acd9961..64e50cd 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -675,9 +675,9 @@ status_t sp_noise_event_prepare(sp_event_t* event) {
   if (!filter_mod) {
     c->resolution = duration;
   };
-  /* this limits the largest block that can be safely requested */
+  /* this limits memory usage. larger blocks are generated in parts of this size */
+  c->resolution = sp_inline_min((c->resolution), (sp_render_block_seconds * sp_rate));
   temp_length = sp_inline_max(temp_length, (c->resolution));
-  temp_length = sp_inline_min(temp_length, (sp_render_block_seconds * sp_rate));
   /* three buffers: one for the white noise, one for the first channel filter result that may be shared with other channels,
        and one for other channel filter results */
   status_require((sp_malloc_type(temp_length, sp_sample_t, (c->temp))));
-- 
2.43.0


From 294805371d67db59f5d9c93b835a3112705b0594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 30/88] fix: noise events never freed their buffers and filter
 states

sp_noise_event_free was not set as the free function of the event.
---
 source/c-precompiled/sph-sp/sequencer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index 64e50cd..ed09ab4 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -699,6 +699,7 @@ status_t sp_noise_event_prepare(sp_event_t* event) {
       };
     };
   };
+  event->free = sp_noise_event_free;
 exit:
   if (status_is_failure) {
     error_memory_free;
-- 
2.43.0


From c506221957c63c9d2dd7c230cc248946fcfdb693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:42 +0000
Subject: [PATCH 31/88] fix: sp_windowed_sinc_bp_br_ir leaked the low-pass and
 high-pass kernels of band-pass filters and on errors

---
 source/c-precompiled/sph-sp/filter.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/c-precompiled/sph-sp/filter.c b/source/c-precompiled/sph-sp/filter.c
index 56ec8d8..81a9b6b 100644
--- a/source/c-precompiled/sph-sp/filter.c
+++ b/source/c-precompiled/sph-sp/filter.c
@@ -158,6 +158,8 @@ status_t sp_windowed_sinc_bp_br_ir(sp_sample_t cutoff_l, sp_sample_t cutoff_h, s
   sp_time_t end;
   sp_sample_t* out;
   sp_sample_t* over;
+  lp_ir = 0;
+  hp_ir = 0;
   if (is_reject) {
     if (0.0 >= cutoff_l) {
       if (0.5 <= cutoff_h) {
@@ -211,8 +213,14 @@ status_t sp_windowed_sinc_bp_br_ir(sp_sample_t cutoff_l, sp_sample_t cutoff_h, s
     *out_len = ((lp_len + hp_len) - 1);
     status_require((sp_samples_new((*out_len), out_ir)));
     sp_convolve_one(lp_ir, lp_len, hp_ir, hp_len, (*out_ir));
+    free(lp_ir);
+    free(hp_ir);
   };
 exit:
+  if (status_is_failure) {
+    free(lp_ir);
+    free(hp_ir);
+  };
   status_return;
 }
 
-- 
2.43.0


From a43551148856be05fdebb162d2e63ea92ca479dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:17 +0000
Subject: [PATCH 32/88] fix: groups and map events that were freed before being
 prepared leaked their events

free was only set by prepare, which is not called for example for events that
start after the rendered range or when a preceding event fails.
---
 source/c-precompiled/sph-sp/sequencer.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/c-precompiled/sph-sp/sequencer.h b/source/c-precompiled/sph-sp/sequencer.h
index d498bd5..249c567 100644
--- a/source/c-precompiled/sph-sp/sequencer.h
+++ b/source/c-precompiled/sph-sp/sequencer.h
@@ -39,14 +39,17 @@
   event_pointer->config = _config
 #define sp_map_event(event_pointer, _config) \
   event_pointer->prepare = sp_map_event_prepare; \
+  event_pointer->free = sp_map_event_free; \
   event_pointer->generate = (_config->isolate ? sp_map_event_isolated_generate : sp_map_event_generate); \
   event_pointer->config = _config
 #define sp_group_event(event_pointer) \
   event_pointer->prepare = sp_group_prepare; \
+  event_pointer->free = sp_group_free; \
   event_pointer->generate = sp_group_generate; \
   event_pointer->config = 0
 #define sp_group_parallel_event(event_pointer) \
   event_pointer->prepare = sp_group_prepare; \
+  event_pointer->free = sp_group_free; \
   event_pointer->generate = sp_group_generate_parallel; \
   event_pointer->config = 0
 #define sp_event_path_samples_srq(event_pointer, out, ...) \
-- 
2.43.0


From d704740883d6afd9a70743bf5e735ededcbe0368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:24 +0000
Subject: [PATCH 33/88] fix: sp_times_reverse and sp_samples_reverse wrote
 outside of out

---
 source/c-precompiled/sph-sp/arrays-template.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/arrays-template.c b/source/c-precompiled/sph-sp/arrays-template.c
index edd31bb..5a464ae 100644
--- a/source/c-precompiled/sph-sp/arrays-template.c
+++ b/source/c-precompiled/sph-sp/arrays-template.c
@@ -49,7 +49,7 @@
   } \
   void sp_##type_name##_reverse(value_t* in, sp_size_t count, value_t* out) { \
     for (sp_size_t i = 0; (i < count); i += 1) { \
-      out[(count - i)] = in[i]; \
+      out[(count - (1 + i))] = in[i]; \
     }; \
   } \
   sp_bool_t sp_##type_name##_equal(value_t* in, sp_size_t count, value_t value) { \
-- 
2.43.0


From 3b8eebd03ae3eade7d1e5b779f5a1b44a5a14970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 34/88] fix: sp_samples_swap and sp_samples_shuffle exchanged
 parts of samples

elements were accessed with the size of sp_time_t.
---
 source/c-precompiled/sph-sp/arrays-template.c | 4 ++--
 source/c-precompiled/sph-sp/arrays-template.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays-template.c b/source/c-precompiled/sph-sp/arrays-template.c
index 5a464ae..72b7635 100644
--- a/source/c-precompiled/sph-sp/arrays-template.c
+++ b/source/c-precompiled/sph-sp/arrays-template.c
@@ -107,8 +107,8 @@
       out[i] = sum; \
     }; \
   } \
-  void sp_##type_name##_swap(sp_time_t* in_out, sp_ssize_t index_1, sp_ssize_t index_2) { \
-    sp_time_t temp = in_out[index_1]; \
+  void sp_##type_name##_swap(value_t* in_out, sp_ssize_t index_1, sp_ssize_t index_2) { \
+    value_t temp = in_out[index_1]; \
     in_out[index_1] = in_out[index_2]; \
     in_out[index_2] = temp; \
   } \
diff --git a/source/c-precompiled/sph-sp/arrays-template.h b/source/c-precompiled/sph-sp/arrays-template.h
index 6c30c35..a48cf30 100644
--- a/source/c-precompiled/sph-sp/arrays-template.h
+++ b/source/c-precompiled/sph-sp/arrays-template.h
@@ -17,7 +17,7 @@
   status_t sp_##type_name##_new(sp_size_t count, value_t** out); \
   void sp_##type_name##_copy(value_t* in, sp_size_t count, value_t* out); \
   void sp_##type_name##_cusum(value_t* in, value_t count, value_t* out); \
-  void sp_##type_name##_swap(sp_time_t* in_out, sp_ssize_t index_1, sp_ssize_t index_2); \
+  void sp_##type_name##_swap(value_t* in_out, sp_ssize_t index_1, sp_ssize_t index_2); \
   void sp_##type_name##_shuffle(value_t* in, sp_size_t count); \
   void sp_##type_name##_array_free(value_t** in, sp_size_t count); \
   void sp_##type_name##_additions(value_t start, value_t summand, value_t count, value_t* out); \
-- 
2.43.0


From 0cc31e7aaa89e67b4e1f78cb9041fd3c3d225af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:37 +0000
Subject: [PATCH 35/88] fix: sp_times_and_times and sp_samples_and_samples
 ignored b for the limit

---
 source/c-precompiled/sph-sp/arrays-template.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/arrays-template.c b/source/c-precompiled/sph-sp/arrays-template.c
index 72b7635..dfbb243 100644
--- a/source/c-precompiled/sph-sp/arrays-template.c
+++ b/source/c-precompiled/sph-sp/arrays-template.c
@@ -150,7 +150,7 @@
   /** if a[i] and b[i] greater than limit, take b[i] else 0 */ \
   void sp_##type_name##_and_##type_name(value_t* a, value_t* b, sp_size_t count, value_t limit, value_t* out) { \
     for (sp_size_t i = 0; (i < count); i += 1) { \
-      if ((a[i] >= limit) && (a[i] >= limit)) { \
+      if ((a[i] >= limit) && (b[i] >= limit)) { \
         out[i] = b[i]; \
       } else { \
         out[i] = 0; \
-- 
2.43.0


From 7c4497cfa8fdb62002aa09b794b46897b1e1d97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 36/88] fix: sp_samples_absolute_max truncated values to
 integers

this includes sp_samples_set_gain, which made no change for samples below one.
---
 source/c-precompiled/sph-sp/arrays-template.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays-template.c b/source/c-precompiled/sph-sp/arrays-template.c
index dfbb243..2089376 100644
--- a/source/c-precompiled/sph-sp/arrays-template.c
+++ b/source/c-precompiled/sph-sp/arrays-template.c
@@ -36,8 +36,8 @@
 \
   /** get the maximum value in samples array, disregarding sign */ \
   value_t sp_##type_name##_absolute_max(value_t* in, sp_size_t count) { \
-    sp_time_t temp; \
-    sp_time_t max; \
+    value_t temp; \
+    value_t max; \
     max = 0; \
     for (sp_size_t i = 0; (i < count); i += 1) { \
       temp = sp_inline_abs((in[i])); \
-- 
2.43.0


From af9e92db2450c0b6888966b92711ffb04e038d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:18 +0000
Subject: [PATCH 37/88] fix: sp_time_round_to_multiple and
 sp_sample_round_to_multiple did not round to a multiple

---
 source/c-precompiled/sph-sp/arrays-template.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/arrays-template.c b/source/c-precompiled/sph-sp/arrays-template.c
index 2089376..b7c4e2c 100644
--- a/source/c-precompiled/sph-sp/arrays-template.c
+++ b/source/c-precompiled/sph-sp/arrays-template.c
@@ -10,7 +10,7 @@
   uint8_t sp_##value_type_name##_sort_less(void* a, ssize_t b, ssize_t c) { return ((((value_t*)(a))[b] < ((value_t*)(a))[c])); } \
 \
   /** round to the next integer multiple of base  */ \
-  value_t sp_##value_type_name##_round_to_multiple(value_t a, value_t base) { return (((0 == a) ? base : sp_cheap_round_positive(((a / ((sp_sample_t)(base))) * base)))); } \
+  value_t sp_##value_type_name##_round_to_multiple(value_t a, value_t base) { return (((0 == a) ? base : (sp_cheap_round_positive((a / ((sp_sample_t)(base)))) * base))); } \
 \
   /** count must be greater than zero */ \
   value_t sp_##type_name##_min(value_t* in, sp_size_t count) { \
-- 
2.43.0


From d71fdfed362d9f5bf6e709e58d7869f40d07ecaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:24 +0000
Subject: [PATCH 38/88] fix: sp_times_permutations returned only zeros and
 overwrote the set

source and target of copies were exchanged. also, the number of arrays to free
on errors was undefined before the first array was stored.
---
 source/c-precompiled/sph-sp/arrays.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index 84d7d77..5ecbb6c 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -77,6 +77,7 @@ status_t sp_times_permutations(sp_time_t size, sp_time_t* set, sp_time_t set_siz
   b = 0;
   s = 0;
   temp_out = 0;
+  temp_out_used_size = 0;
   i = 0;
   temp_out_size = sp_time_factorial(size);
   srq((sp_times_new(size, (&a))));
@@ -85,8 +86,8 @@ status_t sp_times_permutations(sp_time_t size, sp_time_t* set, sp_time_t set_siz
   srq((sp_times_new(size, (&b))));
   temp_out[0] = b;
   temp_out_used_size = 1;
-  sp_times_copy(a, size, set);
-  sp_times_copy(b, size, a);
+  sp_times_copy(set, size, a);
+  sp_times_copy(a, size, b);
   while ((i < size)) {
     if (s[i] < i) {
       if (i & 1) {
-- 
2.43.0


From a5b98e27ad154cc4fe910e20acd20af3a6bd4200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 39/88] fix: sp_times_compositions freed an undefined pointer
 on memory allocation errors

---
 source/c-precompiled/sph-sp/arrays.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index 5ecbb6c..1632478 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -155,6 +155,7 @@ status_t sp_times_compositions(sp_time_t sum, sp_time_t*** out, sp_time_t* out_s
   sp_time_t y;
   sigma = 1;
   o = 0;
+  o_sizes = 0;
   o_used = 0;
   a = 0;
   k = 1;
-- 
2.43.0


From 8da36850120b0961720d3f5b1b70289c765e9b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:37 +0000
Subject: [PATCH 40/88] fix: sp_permutations_max divided by the size difference
 instead of its factorial

---
 source/c-precompiled/sph-sp/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 2ee5bc0..dcdb30f 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -564,5 +564,5 @@ sp_time_t sp_time_factorial(sp_time_t n) {
 
 /** return the maximum number of possible distinct selections from a set of length "set-size" */
 sp_size_t sp_set_sequence_max(sp_size_t set_size, sp_size_t selection_size) { return (((0 == set_size) ? 0 : sp_time_expt(set_size, selection_size))); }
-sp_size_t sp_permutations_max(sp_size_t set_size, sp_size_t selection_size) { return ((sp_time_factorial(set_size) / (set_size - selection_size))); }
+sp_size_t sp_permutations_max(sp_size_t set_size, sp_size_t selection_size) { return ((sp_time_factorial(set_size) / sp_time_factorial((set_size - selection_size)))); }
 sp_size_t sp_compositions_max(sp_size_t sum) { return ((sp_time_expt(2, (sum - 1)))); }
-- 
2.43.0


From 9c668e7cfa902725ab68b4d99fa632568f2680a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 41/88] fix: sp_times_extract_in_range extracted all values

---
 source/c-precompiled/sph-sp/arrays.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index 1632478..1eb7c26 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -376,8 +376,8 @@ void sp_times_mask(sp_time_t* a, sp_time_t* b, sp_sample_t* coefficients, sp_tim
 void sp_times_extract_in_range(sp_time_t* a, sp_time_t size, sp_time_t min, sp_time_t max, sp_time_t* out, sp_time_t* out_size) {
   *out_size = 0;
   for (sp_size_t i = 0; (i < size); i += 1) {
-    if ((a[i] <= max) || (a[i] >= min)) {
-      out[i] = a[i];
+    if ((a[i] <= max) && (a[i] >= min)) {
+      out[*out_size] = a[i];
       *out_size += 1;
     };
   };
-- 
2.43.0


From 06a0c5d26e980a8d676d4b888bad365124df3833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:50 +0000
Subject: [PATCH 42/88] fix: sp_times_bits_to_times with a and out being the
 same pointer

the first output overwrote the bits that were still to be read.
---
 source/c-precompiled/sph-sp/arrays.c | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index 1eb7c26..01fb7e4 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -213,21 +213,11 @@ void sp_times_select(sp_time_t* in, sp_time_t* indices, sp_time_t count, sp_time
    a/out can be the same pointer */
 void sp_times_bits_to_times(sp_time_t* a, sp_time_t size, sp_time_t* out) {
   sp_time_t i;
-  sp_time_t a_i;
-  sp_time_t bits_i;
-  sp_time_t mask;
-  i = 0;
-  a_i = 0;
-  while ((i < size)) {
-    mask = 1;
-    bits_i = 0;
-    while (((bits_i < (sizeof(sp_time_t) * 8)) && (i < size))) {
-      out[i] = ((a[a_i] & mask) ? 1 : 0);
-      mask = (mask << 1);
-      i += 1;
-      bits_i += 1;
-    };
-    a_i += 1;
+  sp_time_t bits;
+  bits = (sizeof(sp_time_t) * 8);
+  /* from the end because a and out can be the same pointer */
+  for (i = size; (i > 0); i -= 1) {
+    out[(i - 1)] = (1 & (a[((i - 1) / bits)] >> ((i - 1) % bits)));
   };
 }
 
-- 
2.43.0


From bf65dfcf8d819f0df8d82dc354b2e5397044ebea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:45 +0000
Subject: [PATCH 43/88] fix: sp_times_scale_y used an integer factor and did
 not write to out

---
 source/c-precompiled/sph-sp/arrays.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index 01fb7e4..e8a0bde 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -414,7 +414,10 @@ void sp_times_limit(sp_time_t* a, sp_time_t count, sp_time_t n, sp_time_t* out)
    a/out can be the same pointer */
 void sp_times_scale_y(sp_time_t* in, sp_size_t count, sp_time_t target_y, sp_time_t* out) {
   sp_time_t max = sp_times_absolute_max(in, count);
-  sp_times_multiply(in, count, (target_y / max));
+  sp_sample_t factor = (max ? (((sp_sample_t)(target_y)) / max) : 0);
+  for (sp_size_t i = 0; (i < count); i += 1) {
+    out[i] = sp_cheap_round_positive((in[i] * factor));
+  };
 }
 
 /** remove count subsequent elements at index from in and write the result to out */
-- 
2.43.0


From f5ba408b3b3144af0778464bcd81c0d45afdb50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:52 +0000
Subject: [PATCH 44/88] fix: sp_samples_scale_y ignored target_y

---
 source/c-precompiled/sph-sp/arrays.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index e8a0bde..16c42a5 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -545,7 +545,9 @@ void sp_samples_divisions(sp_sample_t start, sp_sample_t divisor, sp_time_t coun
    a/out can be the same pointer */
 void sp_samples_scale_y(sp_sample_t* in, sp_time_t count, sp_sample_t target_y) {
   sp_sample_t max = sp_samples_absolute_max(in, count);
-  sp_samples_multiply(in, count, (count / max));
+  if (max) {
+    sp_samples_multiply(in, count, (target_y / max));
+  };
 }
 
 /** adjust all values, keeping relative sizes, so that the sum is n.
-- 
2.43.0


From 329664c4dedc00d61a2ddf478155849ac2410f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:58 +0000
Subject: [PATCH 45/88] fix: sp_times_scale_sum and sp_samples_scale_sum with
 different arrays for input and output

sp_times_scale_sum read from out, and sp_samples_scale_sum modified the input
and did not set out.
---
 source/c-precompiled/sph-sp/arrays.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index 16c42a5..16afb16 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -300,7 +300,7 @@ void sp_times_shuffle_swap(void* a, sp_size_t i1, sp_size_t i2) {
 void sp_times_scale_sum(sp_time_t* in, sp_size_t count, sp_time_t sum, sp_time_t* out) {
   sp_sample_t factor = (((sp_sample_t)(sum)) / sp_times_sum(in, count));
   for (sp_size_t i = 0; (i < count); i += 1) {
-    out[i] = sp_cheap_round_positive((out[i] * factor));
+    out[i] = sp_cheap_round_positive((in[i] * factor));
   };
 }
 
@@ -554,7 +554,9 @@ void sp_samples_scale_y(sp_sample_t* in, sp_time_t count, sp_sample_t target_y)
    a/out can be the same pointer */
 void sp_samples_scale_sum(sp_sample_t* in, sp_size_t count, sp_sample_t target_y, sp_sample_t* out) {
   sp_sample_t sum = sp_samples_sum(in, count);
-  sp_samples_multiply(in, count, (target_y / sum));
+  for (sp_size_t i = 0; (i < count); i += 1) {
+    out[i] = (in[i] * (target_y / sum));
+  };
 }
 
 /** interpolate values pointwise between $a and $b with fraction as a fixed interpolation distance 0..1 */
-- 
2.43.0


From 57fcc35d5c9028fe832f7c5a6f219263baf3b1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:05 +0000
Subject: [PATCH 46/88] fix: median of arrays with an odd number of elements

the element before the middle was used, which for one element is out of bounds.
---
 source/c-precompiled/sph-sp/statistics.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/statistics.c b/source/c-precompiled/sph-sp/statistics.c
index 190ce7d..03a0a3a 100644
--- a/source/c-precompiled/sph-sp/statistics.c
+++ b/source/c-precompiled/sph-sp/statistics.c
@@ -86,7 +86,7 @@
     }; \
     memcpy(temp, a, (size * sizeof(value_t))); \
     quicksort(sort_less, sort_swap, temp, 0, (size - 1)); \
-    *out = ((size & 1) ? temp[((size / 2) - 1)] : ((temp[(size / 2)] + temp[((size / 2) - 1)]) / 2.0)); \
+    *out = ((size & 1) ? temp[(size / 2)] : ((temp[(size / 2)] + temp[((size / 2) - 1)]) / 2.0)); \
     return (0); \
   }
 #define define_sp_stat_inharmonicity(name, value_t) \
-- 
2.43.0


From 6e760f5c835b828e1d7123facb6a4909b56c626c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:11 +0000
Subject: [PATCH 47/88] fix: memory leak in sp_stat_times_median and
 sp_stat_samples_median

---
 source/c-precompiled/sph-sp/statistics.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/c-precompiled/sph-sp/statistics.c b/source/c-precompiled/sph-sp/statistics.c
index 03a0a3a..92b7a3e 100644
--- a/source/c-precompiled/sph-sp/statistics.c
+++ b/source/c-precompiled/sph-sp/statistics.c
@@ -87,6 +87,7 @@
     memcpy(temp, a, (size * sizeof(value_t))); \
     quicksort(sort_less, sort_swap, temp, 0, (size - 1)); \
     *out = ((size & 1) ? temp[(size / 2)] : ((temp[(size / 2)] + temp[((size / 2) - 1)]) / 2.0)); \
+    free(temp); \
     return (0); \
   }
 #define define_sp_stat_inharmonicity(name, value_t) \
-- 
2.43.0


From f6f10a732c0659962c52c72d3d1bb9cf4969e7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:17 +0000
Subject: [PATCH 48/88] fix: sp_samples_scale_to_times exceeded max for input
 without negative values

---
 source/c-precompiled/sph-sp/statistics.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/statistics.c b/source/c-precompiled/sph-sp/statistics.c
index 92b7a3e..389b5ad 100644
--- a/source/c-precompiled/sph-sp/statistics.c
+++ b/source/c-precompiled/sph-sp/statistics.c
@@ -197,7 +197,7 @@ define_sp_stat_range(sp_stat_samples_range, sp_sample_t)
   sp_stat_samples_range(a, size, range);
   addition = ((0 > range[0]) ? fabs((range[0])) : 0);
   for (sp_size_t i = 0; (i < size); i += 1) {
-    out[i] = sp_cheap_round_positive(((a[i] + addition) * (max / range[2])));
+    out[i] = sp_cheap_round_positive(((a[i] + addition) * (max / (range[1] + addition))));
   };
 }
 uint8_t sp_stat_samples_mean(sp_sample_t* a, sp_time_t size, sp_sample_t* out) {
-- 
2.43.0


From fcc78e2d44794457256d466d8e31ff00f1e93586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:25 +0000
Subject: [PATCH 49/88] fix: sp_sine_period with odd sizes

the period was calculated for the next smaller even size, and nan was written for size one.
---
 source/c-precompiled/sph-sp/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index dcdb30f..e2a6351 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -193,7 +193,7 @@ sp_time_t sp_phase_float(sp_time_t current, sp_sample_t change, sp_time_t cycle)
    can be used to create lookup tables */
 void sp_sine_period(sp_time_t size, sp_sample_t* out) {
   for (sp_size_t i = 0; (i < size); i += 1) {
-    out[i] = sin((i * (M_PI / (size / 2))));
+    out[i] = sin((i * ((2 * M_PI) / size)));
   };
 }
 
-- 
2.43.0


From 7b0ecd585886bfc78d48e0fcaf0d959dc7de33de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:32 +0000
Subject: [PATCH 50/88] fix: sp_pan_to_amp for channels other than the first
 two

---
 source/c-precompiled/sph-sp/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index e2a6351..6836e18 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -485,7 +485,7 @@ sp_sample_t sp_square(sp_time_t t, sp_time_t size) { return (((((2 * t) % (2 * s
    1: first channel muted
    0.75: first channel 50%
    0.25: second channel 50% */
-sp_sample_t sp_pan_to_amp(sp_sample_t value, sp_channel_count_t channel) { return (((1 & channel) ? (sp_inline_limit(value, (channel - 1), (channel - 0.5)) / 0.5) : (1 - ((sp_inline_limit(value, (channel + 0.5), (channel + 1)) - 0.5) / 0.5)))); }
+sp_sample_t sp_pan_to_amp(sp_sample_t value, sp_channel_count_t channel) { return (((1 & channel) ? ((sp_inline_limit(value, (channel - 1), (channel - 0.5)) - (channel - 1)) / 0.5) : (1 - ((sp_inline_limit(value, (channel + 0.5), (channel + 1)) - (channel + 0.5)) / 0.5)))); }
 
 /** untested. return normally distributed numbers in range */
 sp_time_t sp_normal_random(sp_time_t min, sp_time_t max) {
-- 
2.43.0


From be7dad8eba170175bf5d22d9b074b0934dfac7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 51/88] fix: sp_time_harmonize used the next larger instead of
 the nearest multiple

---
 source/c-precompiled/sph-sp/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 6836e18..1efb675 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -501,7 +501,7 @@ sp_time_t sp_normal_random(sp_time_t min, sp_time_t max) {
    for example, amount 1.0 rounds fully, amount 0.0 does not round at all, amount 0.5 rounds half-way */
 sp_time_t sp_time_harmonize(sp_time_t a, sp_time_t base, sp_sample_t amount) {
   sp_time_t nearest;
-  nearest = ((((a + base) - 1) / base) * base);
+  nearest = (((a + (base / 2)) / base) * base);
   return (((a > nearest) ? (a - (amount * (a - nearest))) : (a + (amount * (nearest - a)))));
 }
 
-- 
2.43.0


From ef7cf5d4576f92b43236c7a28b8c9f86aa88cd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:46 +0000
Subject: [PATCH 52/88] fix: sp_moving_average used values from the start of
 the array as values after the end

the documented reflection of the last values was used only if the array was symmetric.
---
 source/c-precompiled/sph-sp/filter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/filter.c b/source/c-precompiled/sph-sp/filter.c
index 81a9b6b..914f4be 100644
--- a/source/c-precompiled/sph-sp/filter.c
+++ b/source/c-precompiled/sph-sp/filter.c
@@ -331,7 +331,7 @@ void sp_moving_average(sp_sample_t* in, sp_time_t in_size, sp_sample_t* prev, sp
     out[i] = (sum / width);
   };
   for (i = (in_size - radius); (i < in_size); i += 1) {
-    sum = ((sum + (next ? next[(i - (in_size - radius))] : (in[((i + radius + 1) - in_size)] * -1))) - in[(i - radius - 1)]);
+    sum = ((sum + (next ? next[(i - (in_size - radius))] : (in[((2 * in_size) - 2 - i - radius)] * -1))) - in[(i - radius - 1)]);
     out[i] = (sum / width);
   };
 }
-- 
2.43.0


From 517eb7d1b16bff5783cd693dc76dcf6fbf5f20c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:10 +0000
Subject: [PATCH 53/88] fix: ensure_trailing_slash terminates the new string at
 its end instead of emptying it

---
 source/c/foreign/sph-sc-lib/sph-sp/string.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/string.h b/source/c/foreign/sph-sc-lib/sph-sp/string.h
index 08f818f..5e14402 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/string.h
+++ b/source/c/foreign/sph-sc-lib/sph-sp/string.h
@@ -16,7 +16,7 @@ uint8_t ensure_trailing_slash(uint8_t* a, uint8_t** result) {
     };
     memcpy(new_a, a, a_len);
     memcpy((new_a + a_len), "/", 1);
-    *new_a = 0;
+    new_a[(1 + a_len)] = 0;
     *result = new_a;
     return (2);
   };
-- 
2.43.0


From 748c48b044df1ffee15acebd2a06bb3554a0c854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:33 +0000
Subject: [PATCH 54/88] fix: dirname_2 returns a string that can be freed,
 ensure_directory_structure checks the error of its own mkdir

---
 source/c/foreign/sph-sc-lib/sph-sp/filesystem.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/filesystem.h b/source/c/foreign/sph-sc-lib/sph-sp/filesystem.h
index bd9db80..aa574de 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/filesystem.h
+++ b/source/c/foreign/sph-sc-lib/sph-sp/filesystem.h
@@ -10,7 +10,14 @@
 /** like posix dirname, but never modifies its argument and always returns a new string */
 uint8_t* dirname_2(uint8_t* a) {
   uint8_t* path_copy = string_clone(a);
-  return ((dirname(path_copy)));
+  uint8_t* result;
+  if (!path_copy) {
+    return (0);
+  };
+  /* the result of dirname can be static memory or part of its argument */
+  result = string_clone((dirname(path_copy)));
+  free(path_copy);
+  return (result);
 }
 
 /** return 1 if the path exists or has been successfully created */
@@ -19,8 +26,8 @@ uint8_t ensure_directory_structure(uint8_t* path, mode_t mkdir_mode) {
     return (1);
   } else {
     uint8_t* path_dirname = dirname_2(path);
-    uint8_t status = ensure_directory_structure(path_dirname, mkdir_mode);
+    uint8_t status = (path_dirname && ensure_directory_structure(path_dirname, mkdir_mode));
     free(path_dirname);
-    return ((status && ((EEXIST == errno) || (0 == mkdir(path, mkdir_mode)))));
+    return ((status && ((0 == mkdir(path, mkdir_mode)) || (EEXIST == errno))));
   };
 }
-- 
2.43.0


From b45de8c73b21ca2ac389da654249cb5ec9f439e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:31 +0000
Subject: [PATCH 55/88] fix: compensated float sums compare magnitudes so that
 negative terms are compensated too

---
 source/c/foreign/sph-sc-lib/sph-sp/float.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/float.h b/source/c/foreign/sph-sc-lib/sph-sp/float.h
index aeeff8c..cc3c06f 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/float.h
+++ b/source/c/foreign/sph-sc-lib/sph-sp/float.h
@@ -14,7 +14,7 @@
       len = (len - 1); \
       element = numbers[len]; \
       temp = (result + element); \
-      correction = (correction + ((result >= element) ? ((result - temp) + element) : ((element - temp) + result))); \
+      correction = (correction + ((fabs(result) >= fabs(element)) ? ((result - temp) + element) : ((element - temp) + result))); \
       result = temp; \
     }; \
     return ((correction + result)); \
-- 
2.43.0


From 9cf344f317069d5c337f48a222c08d5c520cad75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:39 +0000
Subject: [PATCH 56/88] fix: mean and median of times do not overflow for large
 values

---
 source/c-precompiled/sph-sp/statistics.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/statistics.c b/source/c-precompiled/sph-sp/statistics.c
index 389b5ad..1f4d6a6 100644
--- a/source/c-precompiled/sph-sp/statistics.c
+++ b/source/c-precompiled/sph-sp/statistics.c
@@ -86,7 +86,7 @@
     }; \
     memcpy(temp, a, (size * sizeof(value_t))); \
     quicksort(sort_less, sort_swap, temp, 0, (size - 1)); \
-    *out = ((size & 1) ? temp[(size / 2)] : ((temp[(size / 2)] + temp[((size / 2) - 1)]) / 2.0)); \
+    *out = ((size & 1) ? temp[(size / 2)] : ((((sp_sample_t)(temp[(size / 2)])) + temp[((size / 2) - 1)]) / 2.0)); \
     free(temp); \
     return (0); \
   }
@@ -158,7 +158,7 @@ uint8_t sp_stat_times_center(sp_time_t* a, sp_time_t size, sp_sample_t* out) {
 }
 define_sp_stat_range(sp_stat_times_range, sp_time_t)
   uint8_t sp_stat_times_mean(sp_time_t* a, sp_time_t size, sp_sample_t* out) {
-  sp_time_t sum;
+  sp_sample_t sum;
   sum = 0;
   for (sp_size_t i = 0; (i < size); i += 1) {
     sum += a[i];
-- 
2.43.0


From 687fa0a7cfab94cf6cd2781e039603c57562e4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:45 +0000
Subject: [PATCH 57/88] fix: sp_status_name knows the end of file status and
 the status group of the allocation helpers

---
 source/c-precompiled/sph-sp/main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 1efb675..f1f7b9e 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -115,11 +115,15 @@ uint8_t* sp_status_name(status_t a) {
       b = "not-implemented";
     } else if (sp_s_id_file_eof == a.id) {
       b = "end-of-file";
+    } else if (sp_s_id_eof == a.id) {
+      b = "end-of-file";
     } else if (sp_s_id_invalid_argument == a.id) {
       b = "invalid-argument";
     } else {
       b = "unknown";
     };
+  } else if (!strcmp(sp_s_group_sph, (a.group))) {
+    b = sph_helper_status_name(a);
   } else {
     b = "unknown";
   };
-- 
2.43.0


From 64b71afa757feb604429ade1fac29a9a534b628c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:11 +0000
Subject: [PATCH 58/88] fix: keep quicksort from reading outside of the sorted
 range

---
 source/c/foreign/sph-sc-lib/sph-sp/quicksort.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/quicksort.h b/source/c/foreign/sph-sc-lib/sph-sp/quicksort.h
index f6438c8..d81c385 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/quicksort.h
+++ b/source/c/foreign/sph-sc-lib/sph-sp/quicksort.h
@@ -12,7 +12,7 @@ void quicksort(uint8_t (*less_p)(void*, ssize_t, ssize_t), void (*swap)(void*, s
   ssize_t pivot = (left + ((right - left) / 2));
   ssize_t l = left;
   ssize_t r = right;
-  while (1) {
+  while (l <= r) {
     while (less_p(array, l, pivot)) {
       l = (1 + l);
     };
-- 
2.43.0


From e05584d7ac28ba76bf19bf8d581ac21e35ad1a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:17 +0000
Subject: [PATCH 59/88] fix: start unique discrete random output at the first
 element

---
 source/c-precompiled/sph-sp/arrays.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index 16afb16..cbd2dbe 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -326,7 +326,8 @@ uint8_t sp_times_contains(sp_time_t* in, sp_size_t count, sp_time_t value) {
 void sp_times_random_discrete_unique(sp_time_t* cudist, sp_time_t cudist_size, sp_time_t size, sp_time_t* out) {
   sp_time_t a;
   sp_time_t remaining;
-  remaining = sp_inline_min(size, cudist_size);
+  size = sp_inline_min(size, cudist_size);
+  remaining = size;
   while (remaining) {
     a = sp_time_random_discrete(cudist, cudist_size);
     if (sp_times_contains(out, (size - remaining), a)) {
-- 
2.43.0


From a03d262e9c4fa8a303d021dedcb18fc879242a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:12 +0000
Subject: [PATCH 60/88] fix: failing seeks while opening wav files are reported

---
 source/c-precompiled/sph-sp/file.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/file.c b/source/c-precompiled/sph-sp/file.c
index b139efc..8ef4fdb 100644
--- a/source/c-precompiled/sph-sp/file.c
+++ b/source/c-precompiled/sph-sp/file.c
@@ -29,7 +29,10 @@ status_t sp_file_open_write(uint8_t* path, sp_channel_count_t channel_count, sp_
     fclose((file->file));
     sp_status_set_goto(sp_s_id_file_write);
   };
-  fseek((file->file), 4, SEEK_CUR);
+  if (fseek((file->file), 4, SEEK_CUR)) {
+    fclose((file->file));
+    sp_status_set_goto(sp_s_id_file_write);
+  };
 exit:
   status_return;
 }
@@ -89,7 +92,9 @@ status_t sp_file_open_read(uint8_t* path, sp_file_t* file) {
   subchunk_id = *((uint32_t*)((36 + header)));
   subchunk_size = *((uint32_t*)((40 + header)));
   while (!(wav_string_data == subchunk_id)) {
-    fseek((file->file), subchunk_size, SEEK_CUR);
+    if (fseek((file->file), subchunk_size, SEEK_CUR)) {
+      sp_status_set_goto(sp_s_id_file_read);
+    };
     if (!fread((&subchunk_id), 4, 1, (file->file))) {
       sp_status_set_goto(sp_s_id_file_read);
     };
-- 
2.43.0


From 73db5d0714ea3af3d8110691d380a45fae074ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:18 +0000
Subject: [PATCH 61/88] fix: plot file functions release memory and do not
 write to files that could not be opened

---
 source/c-precompiled/sph-sp/plot.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/source/c-precompiled/sph-sp/plot.c b/source/c-precompiled/sph-sp/plot.c
index ca4bfce..be0a90d 100644
--- a/source/c-precompiled/sph-sp/plot.c
+++ b/source/c-precompiled/sph-sp/plot.c
@@ -9,6 +9,9 @@ void sp_plot_samples_to_file(sp_sample_t* a, sp_time_t a_size, uint8_t* path) {
   FILE* file;
   sp_time_t i;
   file = fopen(path, "w");
+  if (!file) {
+    return;
+  };
   for (i = 0; (i < a_size); i = (1 + i)) {
     fprintf(file, ("%.3f\n"), (a[i]));
   };
@@ -18,8 +21,11 @@ void sp_plot_times_to_file(sp_time_t* a, sp_time_t a_size, uint8_t* path) {
   FILE* file;
   sp_time_t i;
   file = fopen(path, "w");
+  if (!file) {
+    return;
+  };
   for (i = 0; (i < a_size); i += 1) {
-    fprintf(file, "%lu\n", (a[i]));
+    fprintf(file, "%lu\n", ((unsigned long)(a[i])));
   };
   fclose(file);
 }
@@ -83,22 +89,23 @@ void sp_plot_spectrum_to_file(sp_sample_t* a, sp_time_t a_size, uint8_t* path) {
   double* imag;
   double* real;
   imag = calloc(a_size, (sizeof(sp_sample_t)));
-  if (!imag) {
-    return;
-  };
   real = malloc((sizeof(sp_sample_t) * a_size));
-  if (!real) {
-    return;
+  if (!(imag && real)) {
+    goto exit;
   };
   memcpy(real, a, (sizeof(sp_sample_t) * a_size));
   if (sp_fft(a_size, real, imag)) {
-    return;
+    goto exit;
   };
   file = fopen(path, "w");
+  if (!file) {
+    goto exit;
+  };
   for (i = 0; (i < a_size); i = (1 + i)) {
     fprintf(file, ("%.3f\n"), (2 * (sqrt(((real[i] * real[i]) + (imag[i] * imag[i]))) / a_size)));
   };
   fclose(file);
+exit:
   free(imag);
   free(real);
 }
-- 
2.43.0


From 7a5f3dd11d6365ef849a7761b9c292aa5997d3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:36 +0000
Subject: [PATCH 62/88] fix: sp_render_plot releases the rendered block

---
 source/c-precompiled/sph-sp/main.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index f1f7b9e..ef2bb9c 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -421,6 +421,7 @@ status_t sp_render_plot(sp_event_t event) {
   };
   status_require((sp_render_range_block(event, 0, (event.end), (sp_render_config(sp_channel_count, sp_rate, (sp_render_block_seconds * sp_rate), 1)), (&block))));
   sp_plot_samples(((block.samples)[0]), (event.end));
+  sp_block_free((&block));
 exit:
   status_return;
 }
-- 
2.43.0


From 8c50d0fabe5e188ab1f3a503541bf1cc23a6a1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:41 +0000
Subject: [PATCH 63/88] fix: spline_path_set_copy releases the copy if
 preparing a segment fails

---
 source/c/foreign/sph-sc-lib/sph-sp/spline-path.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
index 42fb788..d735d06 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
@@ -102,7 +102,11 @@ uint8_t spline_path_set_copy(spline_path_t* path, spline_path_segment_t* segment
     return (1);
   };
   memcpy(s, segments, (segments_count * sizeof(spline_path_segment_t)));
-  return ((spline_path_set(path, s, segments_count)));
+  if (spline_path_set(path, s, segments_count)) {
+    free(s);
+    return (1);
+  };
+  return (0);
 }
 
 /** create a sampled array directly from segments */
-- 
2.43.0


From 9b0192ae825c359a0886b00033229c2ac1e0f960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:48 +0000
Subject: [PATCH 64/88] fix: render functions free the event on every error

---
 source/c-precompiled/sph-sp/main.c | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index ef2bb9c..b6c1642 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -347,7 +347,11 @@ status_t sp_render_range_file(sp_event_t event, sp_time_t start, sp_time_t end,
   sp_bool_t file_is_open = 0;
   sp_block_declare(block);
   sp_declare_event_list(events);
-  status_require((sp_event_list_add((&events), event)));
+  status = sp_event_list_add((&events), event);
+  if (status_is_failure) {
+    sp_event_free(event);
+    status_goto;
+  };
   status_require((sp_block_new((config.channel_count), (config.block_size), (&block))));
   status_require((sp_file_open_write(path, (config.channel_count), (config.rate), (&file))));
   file_is_open = 1;
@@ -381,7 +385,11 @@ status_t sp_render_range_block(sp_event_t event, sp_time_t start, sp_time_t end,
   status_declare;
   sp_block_declare(block);
   sp_declare_event_list(events);
-  status_require((sp_event_list_add((&events), event)));
+  status = sp_event_list_add((&events), event);
+  if (status_is_failure) {
+    sp_event_free(event);
+    status_goto;
+  };
   status_require((sp_block_new((config.channel_count), (end - start), (&block))));
   status_require((sp_seq(start, end, block, (&events))));
   *out = block;
@@ -397,8 +405,13 @@ exit:
    uses channel count from global variable sp_channel_count and block size sp_rate */
 status_t sp_render_file(sp_event_t event, uint8_t* path) {
   status_declare;
-  if (!event.end) {
-    sp_event_prepare_optional_srq(event);
+  if (!event.end && event.prepare) {
+    status = (event.prepare)((&event));
+    if (status_is_failure) {
+      sp_event_free(event);
+      status_goto;
+    };
+    event.prepare = 0;
   };
   printf("rendering %lu seconds to file %s\n", (event.end / sp_rate), path);
   status_require((sp_render_range_file(event, 0, (event.end), (sp_render_config(sp_channel_count, sp_rate, (sp_render_block_seconds * sp_rate), 1)), path)));
@@ -411,8 +424,13 @@ exit:
 status_t sp_render_plot(sp_event_t event) {
   status_declare;
   sp_block_t block;
-  if (!event.end) {
-    sp_event_prepare_optional_srq(event);
+  if (!event.end && event.prepare) {
+    status = (event.prepare)((&event));
+    if (status_is_failure) {
+      sp_event_free(event);
+      status_goto;
+    };
+    event.prepare = 0;
   };
   if (event.end && (event.end < sp_rate)) {
     printf("rendering %lu milliseconds to plot\n", (event.end / sp_rate / 1000));
-- 
2.43.0


From 57fea9526a3eba0cb36ac5fa1eb1c687f4cb53f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:54 +0000
Subject: [PATCH 65/88] fix: sp_group_append does not change the end of the
 group if adding fails

---
 source/c-precompiled/sph-sp/sequencer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index ed09ab4..2578d38 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -415,8 +415,8 @@ status_t sp_group_append(sp_event_t* group, sp_event_t event) {
   };
   event.start += group->end;
   event.end += group->end;
-  group->end = event.end;
   status_require((sp_event_list_add(((sp_event_list_t**)(&(group->config))), event)));
+  group->end = event.end;
 exit:
   status_return;
 }
-- 
2.43.0


From c713265e8f4a619074723521ceba2b727922c984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:52 +0000
Subject: [PATCH 66/88] fix: ensure_directory_structure does not report success
 for dangling links

---
 source/c/foreign/sph-sc-lib/sph-sp/filesystem.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/filesystem.h b/source/c/foreign/sph-sc-lib/sph-sp/filesystem.h
index aa574de..54647ac 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/filesystem.h
+++ b/source/c/foreign/sph-sc-lib/sph-sp/filesystem.h
@@ -28,6 +28,6 @@ uint8_t ensure_directory_structure(uint8_t* path, mode_t mkdir_mode) {
     uint8_t* path_dirname = dirname_2(path);
     uint8_t status = (path_dirname && ensure_directory_structure(path_dirname, mkdir_mode));
     free(path_dirname);
-    return ((status && ((0 == mkdir(path, mkdir_mode)) || (EEXIST == errno))));
+    return ((status && ((0 == mkdir(path, mkdir_mode)) || ((EEXIST == errno) && file_exists(path)))));
   };
 }
-- 
2.43.0


From a3f32853f08d54f0863a8d202967b2dd9304e9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:52 +0000
Subject: [PATCH 67/88] fix: spline_path_perpendicular_point left the rectangle
 of the end points for descending lines

---
 source/c/foreign/sph-sc-lib/sph-sp/spline-path.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
index d735d06..8483ac2 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
@@ -314,7 +314,7 @@ spline_path_point_t spline_path_perpendicular_point(spline_path_point_t p1, spli
       b1.x = p1.x;
       b2.x = p2.x;
     };
-    if (d.y > 0) {
+    if ((d.y > 0) == (p2.y > p1.y)) {
       b1.y = p2.y;
       b2.y = p1.y;
     } else {
-- 
2.43.0


From 77f1f763fec822b483cd52bce03798ef3faf2edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:42 +0000
Subject: [PATCH 68/88] fix: sp_path_times leaked the samples if allocating the
 times failed

---
 source/c-precompiled/sph-sp/path.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/path.c b/source/c-precompiled/sph-sp/path.c
index f1709eb..832dc61 100644
--- a/source/c-precompiled/sph-sp/path.c
+++ b/source/c-precompiled/sph-sp/path.c
@@ -35,7 +35,10 @@ status_t sp_path_times(sp_time_t** out, sp_time_t length, sp_path_point_count_t
   status_declare;
   sp_sample_t* temp;
   status_require((sp_path_samples((&temp), length, point_count, x, y, c)));
-  status_require((sp_samples_to_times_replace(temp, length, out)));
+  status = sp_samples_to_times_replace(temp, length, out);
+  if (status_is_failure) {
+    free(temp);
+  };
 exit:
   status_return;
 }
-- 
2.43.0


From a7a11b9e360ff1b4c88bf1b2566126b2265bf297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:34 +0000
Subject: [PATCH 69/88] fix: sph_thread_pool_finish: do not leak finish tasks
 when called repeatedly

---
 source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c b/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
index 814273c..1a394a5 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
@@ -48,6 +48,13 @@ int sph_thread_pool_finish(sph_thread_pool_t* a, uint8_t no_wait, uint8_t discar
       if (0 == pthread_join(((a->threads)[i]), (&exit_value))) {
         a->size = (a->size - 1);
         if (0 == a->size) {
+          /* no thread is left for the additional finish tasks of previous calls with no_wait */
+          while (a->queue.size) {
+            task = sph_queue_get((sph_queue_deq((&(a->queue)))), sph_thread_pool_task_t, q);
+            if (sph_thread_finish == task->f) {
+              free(task);
+            };
+          };
           sph_thread_pool_destroy(a);
         };
       };
-- 
2.43.0


From 55419f649b24233800482737939290b4aac0e26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:07 +0000
Subject: [PATCH 70/88] fix: sph_future_touch: do not deadlock when all threads
 wait for futures created inside futures

---
 source/c/foreign/sph-sc-lib/sph-sp/futures.c | 25 ++++++++++++++++++--
 source/c/foreign/sph-sc-lib/sph-sp/futures.h |  1 +
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/futures.c b/source/c/foreign/sph-sc-lib/sph-sp/futures.c
index 496ead4..3958597 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/futures.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/futures.c
@@ -51,11 +51,32 @@ void sph_future_deinit() {
   };
 }
 
-/** blocks until future is finished and returns its result */
+/** remove and return the next future waiting for evaluation or return zero.
+   tasks that finish threads are left in the queue */
+sph_thread_pool_task_t* sph_future_dequeue() {
+  sph_thread_pool_task_t* task;
+  task = 0;
+  pthread_mutex_lock((&(sph_futures_pool.queue_mutex)));
+  if (sph_futures_pool.queue.size && (sph_future_eval == (sph_queue_get((sph_futures_pool.queue.first), sph_thread_pool_task_t, q))->f)) {
+    task = sph_queue_get((sph_queue_deq((&(sph_futures_pool.queue)))), sph_thread_pool_task_t, q);
+  };
+  pthread_mutex_unlock((&(sph_futures_pool.queue_mutex)));
+  return (task);
+}
+
+/** blocks until future is finished and returns its result.
+   evaluates waiting futures in the meantime. when futures touch futures, all
+   threads of the pool can be waiting and none would be left to evaluate what they wait for */
 void* sph_future_touch(sph_future_t* a) {
   const struct timespec poll_interval = sph_future_default_poll_interval;
+  sph_thread_pool_task_t* task;
   while (!__atomic_load_n((&(a->finished)), __ATOMIC_ACQUIRE)) {
-    nanosleep((&poll_interval), 0);
+    task = sph_future_dequeue();
+    if (task) {
+      (task->f)(task);
+    } else {
+      nanosleep((&poll_interval), 0);
+    };
   };
   return ((a->task.data));
 }
diff --git a/source/c/foreign/sph-sc-lib/sph-sp/futures.h b/source/c/foreign/sph-sc-lib/sph-sp/futures.h
index 5f3ebe2..c01da54 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/futures.h
+++ b/source/c/foreign/sph-sc-lib/sph-sp/futures.h
@@ -22,6 +22,7 @@ typedef struct {
 int sph_future_init(sph_thread_pool_size_t thread_count);
 void sph_future_eval(sph_thread_pool_task_t* task);
 void sph_future_new(sph_future_f_t f, void* data, sph_future_t* out);
+sph_thread_pool_task_t* sph_future_dequeue();
 void sph_future_deinit();
 void* sph_future_touch(sph_future_t* a);
 #endif
-- 
2.43.0


From 46c7ff3143494c5cc4f8bade8ae6f68f4a8a2bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:15 +0000
Subject: [PATCH 71/88] fix: event macros leak the new memory if registering it
 with the event fails

---
 source/c-precompiled/sph-sp/sequencer.h | 67 ++++++++++++++-----------
 1 file changed, 37 insertions(+), 30 deletions(-)

diff --git a/source/c-precompiled/sph-sp/sequencer.h b/source/c-precompiled/sph-sp/sequencer.h
index 249c567..8c0eb9f 100644
--- a/source/c-precompiled/sph-sp/sequencer.h
+++ b/source/c-precompiled/sph-sp/sequencer.h
@@ -52,96 +52,103 @@
   event_pointer->free = sp_group_free; \
   event_pointer->generate = sp_group_generate_parallel; \
   event_pointer->config = 0
+/** frees address if it can not be added */
+#define sp_event_memory_add_srq(event_pointer, address) \
+  status = sp_event_memory_add(event_pointer, address); \
+  if (status_is_failure) { \
+    free(address); \
+    status_goto; \
+  }
 #define sp_event_path_samples_srq(event_pointer, out, ...) \
   status_require((sp_path_samples(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_path_samples3_srq(event_pointer, out, ...) \
   status_require((sp_path_samples3(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_path_samples4_srq(event_pointer, out, ...) \
   status_require((sp_path_samples4(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_path_samples5_srq(event_pointer, out, ...) \
   status_require((sp_path_samples5(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_path_samples_c3_srq(event_pointer, out, ...) \
   status_require((sp_path_samples_c3(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_path_samples_c4_srq(event_pointer, out, ...) \
   status_require((sp_path_samples_c4(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_path_samples_c5_srq(event_pointer, out, ...) \
   status_require((sp_path_samples_c5(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_path_times_srq(event_pointer, out, ...) \
   status_require((sp_path_times(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_path_times3_srq(event_pointer, out, ...) \
   status_require((sp_path_times3(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_path_times4_srq(event_pointer, out, ...) \
   status_require((sp_path_times4(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_path_times5_srq(event_pointer, out, ...) \
   status_require((sp_path_times5(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_path_times_c3_srq(event_pointer, out, ...) \
   status_require((sp_path_times_c3(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_path_times_c4_srq(event_pointer, out, ...) \
   status_require((sp_path_times_c4(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_path_times_c5_srq(event_pointer, out, ...) \
   status_require((sp_path_times_c5(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_envelope_zero_srq(event_pointer, out, ...) \
   status_require((sp_envelope_zero(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_envelope_zero3_srq(event_pointer, out, ...) \
   status_require((sp_envelope_zero3(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_envelope_zero4_srq(event_pointer, out, ...) \
   status_require((sp_envelope_zero4(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_envelope_zero5_srq(event_pointer, out, ...) \
   status_require((sp_envelope_zero5(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_envelope_zero_c3_srq(event_pointer, out, ...) \
   status_require((sp_envelope_zero_c3(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_envelope_zero_c4_srq(event_pointer, out, ...) \
   status_require((sp_envelope_zero_c4(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_envelope_zero_c5_srq(event_pointer, out, ...) \
   status_require((sp_envelope_zero_c5(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_envelope_scaled_srq(event_pointer, out, ...) \
   status_require((sp_envelope_scaled(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_envelope_scaled3_srq(event_pointer, out, ...) \
   status_require((sp_envelope_scaled3(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_envelope_scaled4_srq(event_pointer, out, ...) \
   status_require((sp_envelope_scaled4(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_envelope_scaled5_srq(event_pointer, out, ...) \
   status_require((sp_envelope_scaled5(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_envelope_scaled_c3_srq(event_pointer, out, ...) \
   status_require((sp_envelope_scaled_c3(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_envelope_scaled_c4_srq(event_pointer, out, ...) \
   status_require((sp_envelope_scaled_c4(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_envelope_scaled_c5_srq(event_pointer, out, ...) \
   status_require((sp_envelope_scaled_c5(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_srq(event_pointer, (*out))
 #define sp_event_alloc_srq(event_pointer, allocator, size, pointer_address) \
   status_require((allocator(size, pointer_address))); \
-  status_require((sp_event_memory_add(event_pointer, (*pointer_address))))
+  sp_event_memory_add_srq(event_pointer, (*pointer_address))
 #define sp_event_malloc_srq(event_pointer, size, pointer_address) \
   status_require((sph_helper_malloc(size, pointer_address))); \
-  status_require((sp_event_memory_add(event_pointer, (*pointer_address))))
+  sp_event_memory_add_srq(event_pointer, (*pointer_address))
 #define sp_event_malloc_type_n_srq(event_pointer, count, type, pointer_address) sp_event_malloc_srq(event_pointer, (count * sizeof(type)), pointer_address)
 #define sp_event_malloc_type_srq(event_pointer, type, pointer_address) sp_event_malloc_type_n_srq(event_pointer, 1, type, pointer_address)
 #define sp_event_samples_srq(event_pointer, size, pointer_address) sp_event_alloc_srq(event_pointer, sp_samples_new, size, pointer_address)
-- 
2.43.0


From 0ddd607df0830ca9552fdb2f63f3e119ac21067c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:18 +0000
Subject: [PATCH 72/88] fix: sp_event_units_srq and sp_local_units_srq use an
 allocator that did not exist

---
 source/c-precompiled/sph-sp/main.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/c-precompiled/sph-sp/main.h b/source/c-precompiled/sph-sp/main.h
index 5b54b2c..7993700 100644
--- a/source/c-precompiled/sph-sp/main.h
+++ b/source/c-precompiled/sph-sp/main.h
@@ -58,6 +58,7 @@
   status_goto
 #define sp_malloc_type(count, type, pointer_address) sph_helper_malloc((count * sizeof(type)), pointer_address)
 #define sp_calloc_type(count, type, pointer_address) sph_helper_calloc((count * sizeof(type)), pointer_address)
+#define sp_units_new(count, pointer_address) sp_calloc_type(count, sp_unit_t, pointer_address)
 #define sp_realloc_type(count, type, pointer_address) sph_helper_realloc((count * sizeof(type)), pointer_address)
 #define sp_malloc_type_srq(count, type, pointer_address) status_require((sp_malloc_type(count, type, pointer_address)))
 #define sp_hz_to_samples(x) (sp_rate / x)
-- 
2.43.0


From a36b48e8076f20ce02c2538e70f00fa2ebce1fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:30 +0000
Subject: [PATCH 73/88] fix: scaled envelopes with curves are declared and
 documented but were not defined

---
 source/c-precompiled/sph-sp/path.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/c-precompiled/sph-sp/path.c b/source/c-precompiled/sph-sp/path.c
index 832dc61..88fcd39 100644
--- a/source/c-precompiled/sph-sp/path.c
+++ b/source/c-precompiled/sph-sp/path.c
@@ -188,5 +188,13 @@ sp_define_envelope_zero_n(sp_envelope_zero, samples, sp_sample_t)
     x2 = (x1 + (x2 * length)); \
     x3 = (x2 + (x3 * length)); \
     return ((sp_path_##type_name##5(out, length, x1, x2, x3, (y_scalar * y1), (y_scalar * y2), (y_scalar * y3), (y_scalar * y4), (y_scalar * y5)))); \
+  } \
+  status_t prefix##_c##3(type * *out, sp_time_t length, sp_sample_t y_scalar, sp_sample_t x1, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3, sp_sample_t c1, sp_sample_t c2) { return ((sp_path_##type_name##_c##3(out, length, (x1 * length), (y_scalar * y1), (y_scalar * y2), (y_scalar * y3), c1, c2))); } \
+  status_t prefix##_c##4(type * *out, sp_time_t length, sp_sample_t y_scalar, sp_sample_t x1, sp_sample_t x2, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3, sp_sample_t y4, sp_sample_t c1, sp_sample_t c2, sp_sample_t c3) { return ((sp_path_##type_name##_c##4(out, length, (x1 * length), ((x1 * length) + (x2 * length)), (y_scalar * y1), (y_scalar * y2), (y_scalar * y3), (y_scalar * y4), c1, c2, c3))); } \
+  status_t prefix##_c##5(type * *out, sp_time_t length, sp_sample_t y_scalar, sp_sample_t x1, sp_sample_t x2, sp_sample_t x3, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3, sp_sample_t y4, sp_sample_t y5, sp_sample_t c1, sp_sample_t c2, sp_sample_t c3, sp_sample_t c4) { \
+    x1 *= length; \
+    x2 = (x1 + (x2 * length)); \
+    x3 = (x2 + (x3 * length)); \
+    return ((sp_path_##type_name##_c##5(out, length, x1, x2, x3, (y_scalar * y1), (y_scalar * y2), (y_scalar * y3), (y_scalar * y4), (y_scalar * y5), c1, c2, c3, c4))); \
   }
 sp_define_envelope_scaled_n(sp_envelope_scaled, times, sp_time_t)
-- 
2.43.0


From 733c6b2dd7e059d8c3bf7f62029d7dd38d8ebd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:03 +0000
Subject: [PATCH 74/88] fix: sp_rad_to_hz is not the inverse of sp_hz_to_rad

---
 source/c-precompiled/sph-sp/main.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/main.h b/source/c-precompiled/sph-sp/main.h
index 7993700..163f7f2 100644
--- a/source/c-precompiled/sph-sp/main.h
+++ b/source/c-precompiled/sph-sp/main.h
@@ -65,7 +65,7 @@
 #define sp_samples_to_hz(x) ((sp_time_t)((sp_rate / x)))
 #define sp_hz_to_factor(x) (((sp_sample_t)(x)) / ((sp_sample_t)(sp_rate)))
 #define sp_hz_to_rad(a) (2 * M_PI * a)
-#define sp_rad_to_hz(a) ((M_PI / 2) * a)
+#define sp_rad_to_hz(a) (a / (2 * M_PI))
 #define sp_factor_to_hz(x) ((sp_time_t)((x * sp_rate)))
 #define sp_optional_array_get(array, fixed, index) (array ? array[index] : fixed)
 #define sp_sample_to_unit(a) ((1 + a) / 2.0)
-- 
2.43.0


From 5f9d0d8c3d8fe3b87c608e3206c637d8d0073a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:07 +0000
Subject: [PATCH 75/88] fix: array3_take and array3_declare_stack

---
 source/c/foreign/sph-sc-lib/sph-sp/array3.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/array3.h b/source/c/foreign/sph-sc-lib/sph-sp/array3.h
index 0c3305f..4df1b54 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/array3.h
+++ b/source/c/foreign/sph-sc-lib/sph-sp/array3.h
@@ -64,13 +64,14 @@
 #define array3_free(a) free((a.data))
 #define array3_full(a) (a.used == a.size)
 #define array3_not_full(a) (a.used < a.size)
-#define array3_take(a, data, size, used) \
-  a->data = data; \
-  a->size = size; \
-  a->used = used
+#define array3_take(a, _data, _size, _used) \
+  a->data = _data; \
+  a->size = _size; \
+  a->used = _used
 #define array3_data_last(a) (a.data)[(a.size - 1)]
 #define array3_declare_stack(name, array_size, type_t, value_t) \
   value_t name##_data[array_size]; \
   type_t name; \
   name.data = name##_data; \
-  name.size = array_size
+  name.size = array_size; \
+  name.used = 0
-- 
2.43.0


From 19e221e75cdddb926f4f24c023a6ae3435274660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:17 +0000
Subject: [PATCH 76/88] fix: sp_square is wrong for times greater than half of
 the time range

---
 source/c-precompiled/sph-sp/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index b6c1642..8138418 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -499,7 +499,7 @@ sp_sample_t sp_triangle(sp_time_t t, sp_time_t a, sp_time_t b) {
   remainder = (t % (a + b));
   return (((remainder < a) ? (remainder * (1 / ((sp_sample_t)(a)))) : ((((sp_sample_t)(b)) - (remainder - ((sp_sample_t)(a)))) * (1 / ((sp_sample_t)(b))))));
 }
-sp_sample_t sp_square(sp_time_t t, sp_time_t size) { return (((((2 * t) % (2 * size)) < size) ? -1 : 1)); }
+sp_sample_t sp_square(sp_time_t t, sp_time_t size) { return ((((t % size) < ((size / 2) + (size & 1))) ? -1 : 1)); }
 
 /** convert a pan value between 0..channel_count to a volume factor.
    values are interpreted as split between even and odd numbers, from channel..(channel + 1),
-- 
2.43.0


From 022952a249d0ea84495dd539a0f4bb34e46af201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:40 +0000
Subject: [PATCH 77/88] fix: sp_sample_random_bounded and
 sp_units_random_bounded use names that were not defined

---
 source/c-precompiled/sph-sp/sph-sp.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/c-precompiled/sph-sp/sph-sp.h b/source/c-precompiled/sph-sp/sph-sp.h
index 16e4000..6290bf4 100644
--- a/source/c-precompiled/sph-sp/sph-sp.h
+++ b/source/c-precompiled/sph-sp/sph-sp.h
@@ -37,6 +37,9 @@
 #ifndef sp_samples_nearly_equal
 #define sp_samples_nearly_equal sph_f64_array_nearly_equal
 #endif
+#ifndef sp_sample_random_bounded_primitive
+#define sp_sample_random_bounded_primitive sph_random_f64_bounded
+#endif
 #ifndef sp_samples_random_bounded_primitive
 #define sp_samples_random_bounded_primitive sph_random_f64_bounded_array
 #endif
@@ -79,6 +82,9 @@
 #ifndef sp_unit_random_primitive
 #define sp_unit_random_primitive sph_random_f64_0to1
 #endif
+#ifndef sp_units_random_bounded_primitive
+#define sp_units_random_bounded_primitive sph_random_f64_bounded_array
+#endif
 #ifndef sp_units_random_primitive
 #define sp_units_random_primitive sph_random_f64_array_0to1
 #endif
-- 
2.43.0


From 99510acf5e763cda02d28b9064e93c62496e24e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 78/88] fix: center of times does not overflow for long arrays
 or large values

---
 source/c-precompiled/sph-sp/statistics.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/c-precompiled/sph-sp/statistics.c b/source/c-precompiled/sph-sp/statistics.c
index 1f4d6a6..5d99a7b 100644
--- a/source/c-precompiled/sph-sp/statistics.c
+++ b/source/c-precompiled/sph-sp/statistics.c
@@ -145,15 +145,15 @@ sp_time_t sp_stat_repetition_max(sp_time_t size, sp_time_t width) { return ((sp_
    the weighted position coordinates of the distributed mass defines its coordinates.
    sum(n * x(n)) / sum(x(n)) */
 uint8_t sp_stat_times_center(sp_time_t* a, sp_time_t size, sp_sample_t* out) {
-  sp_time_t sum;
-  sp_time_t index_sum;
+  sp_sample_t sum;
+  sp_sample_t index_sum;
   index_sum = 0;
   sum = a[0];
   for (sp_size_t i = 0; (i < size); i += 1) {
     sum += a[i];
-    index_sum += (i * a[i]);
+    index_sum += (((sp_sample_t)(i)) * a[i]);
   };
-  *out = (index_sum / ((sp_sample_t)(sum)));
+  *out = (index_sum / sum);
   return (0);
 }
 define_sp_stat_range(sp_stat_times_range, sp_time_t)
-- 
2.43.0


From 03f144486243766a08c00302cc3eca6f63dcd399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:47 +0000
Subject: [PATCH 79/88] fix: skip the padding byte of wav chunks of odd size

---
 source/c-precompiled/sph-sp/file.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/file.c b/source/c-precompiled/sph-sp/file.c
index 8ef4fdb..0dcb808 100644
--- a/source/c-precompiled/sph-sp/file.c
+++ b/source/c-precompiled/sph-sp/file.c
@@ -92,7 +92,8 @@ status_t sp_file_open_read(uint8_t* path, sp_file_t* file) {
   subchunk_id = *((uint32_t*)((36 + header)));
   subchunk_size = *((uint32_t*)((40 + header)));
   while (!(wav_string_data == subchunk_id)) {
-    if (fseek((file->file), subchunk_size, SEEK_CUR)) {
+    /* chunks of odd size are followed by a padding byte */
+    if (fseek((file->file), (((long)(subchunk_size)) + (1 & subchunk_size)), SEEK_CUR)) {
       sp_status_set_goto(sp_s_id_file_read);
     };
     if (!fread((&subchunk_id), 4, 1, (file->file))) {
-- 
2.43.0


From d97baaa80a2492ee7bc1610660bf0732e59ad285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:02 +0000
Subject: [PATCH 80/88] fix: samples limit abs with a negative limit

---
 source/c-precompiled/sph-sp/arrays.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index cbd2dbe..ed8785c 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -571,6 +571,7 @@ void sp_samples_blend(sp_sample_t* a, sp_sample_t* b, sp_sample_t fraction, sp_t
    in and out can be the same address */
 void sp_samples_limit_abs(sp_sample_t* in, sp_time_t count, sp_sample_t limit, sp_sample_t* out) {
   sp_sample_t value;
+  limit = fabs(limit);
   for (sp_size_t i = 0; (i < count); i += 1) {
     value = in[i];
     if (0 > value) {
-- 
2.43.0


From 24a846f17632b4160ece50aead7b65321f2a0607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:13 +0000
Subject: [PATCH 81/88] fix: sp_wave without amod squares the amplitude

---
 source/c-precompiled/sph-sp/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 8138418..e1a5e7d 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -205,7 +205,7 @@ void sp_sine_period(sp_time_t size, sp_sample_t* out) {
 void sp_wave(sp_time_t size, sp_sample_t* wvf, sp_time_t wvf_size, sp_sample_t amp, sp_sample_t* amod, sp_time_t frq, sp_time_t* fmod, sp_time_t* phs_state, sp_sample_t* out) {
   sp_time_t phs = (phs_state ? *phs_state : 0);
   for (sp_size_t i = 0; (i < size); i += 1) {
-    out[i] += (amp * sp_optional_array_get(amod, amp, i) * wvf[phs]);
+    out[i] += (amp * sp_optional_array_get(amod, 1, i) * wvf[phs]);
     phs += sp_optional_array_get(fmod, frq, i);
     if (phs >= wvf_size) {
       phs = (phs % wvf_size);
-- 
2.43.0


From debf6c7c41dd9f69dfa46c02c2653d45e480fc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:30 +0000
Subject: [PATCH 82/88] fix: sp_samples_scale_to_times divides by zero if no
 value is greater than the least negative

---
 source/c-precompiled/sph-sp/statistics.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/statistics.c b/source/c-precompiled/sph-sp/statistics.c
index 5d99a7b..6b1d8fa 100644
--- a/source/c-precompiled/sph-sp/statistics.c
+++ b/source/c-precompiled/sph-sp/statistics.c
@@ -197,7 +197,7 @@ define_sp_stat_range(sp_stat_samples_range, sp_sample_t)
   sp_stat_samples_range(a, size, range);
   addition = ((0 > range[0]) ? fabs((range[0])) : 0);
   for (sp_size_t i = 0; (i < size); i += 1) {
-    out[i] = sp_cheap_round_positive(((a[i] + addition) * (max / (range[1] + addition))));
+    out[i] = sp_cheap_round_positive(((a[i] + addition) * ((range[1] + addition) ? (max / (range[1] + addition)) : 0)));
   };
 }
 uint8_t sp_stat_samples_mean(sp_sample_t* a, sp_time_t size, sp_sample_t* out) {
-- 
2.43.0


From b09358a4a4e48cc2dad3894cba16208ed9a2b6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:42 +0000
Subject: [PATCH 83/88] fix: rendering respects an end that is changed by the
 prepare function of an event

---
 source/c-precompiled/sph-sp/sequencer.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index 2578d38..ebaf65d 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -267,6 +267,10 @@ status_t sp_seq(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_list_t*
     } else if (e.end > start) {
       sp_event_prepare_optional_srq((*ep));
       e = *ep;
+      if (e.end <= ((start > e.start) ? start : e.start)) {
+        current = current->next;
+        continue;
+      };
       status_require(((e.generate)(((start > e.start) ? (start - e.start) : 0), (sp_inline_min(end, (e.end)) - e.start), ((e.start > start) ? sp_block_with_offset(out, (e.start - start)) : out), ep)));
     };
     current = current->next;
@@ -293,7 +297,11 @@ void* sp_seq_parallel_future_f(void* data) {
   a = data;
   ep = a->event;
   sp_event_prepare_optional_srq((*ep));
-  status_require(((ep->generate)((a->start), (a->end), (a->out), ep)));
+  /* prepare can change the end */
+  a->end = sp_inline_min((a->end), (ep->end - ep->start));
+  if (a->end > a->start) {
+    status_require(((ep->generate)((a->start), (a->end), (a->out), ep)));
+  };
 exit:
   a->status = status;
   return (0);
@@ -342,7 +350,7 @@ status_t sp_seq_parallel(sp_time_t start, sp_time_t end, sp_block_t out, sp_even
     } else if (e.end > start) {
       sf = (sf_array + allocated);
       e_start = ((start > e.start) ? (start - e.start) : 0);
-      e_end = (sp_inline_min(end, (e.end)) - e.start);
+      e_end = ((e.prepare ? end : sp_inline_min(end, (e.end))) - e.start);
       sf->start = e_start;
       sf->end = e_end;
       sf->out_start = ((e.start > start) ? (e.start - start) : 0);
-- 
2.43.0


From b301ee3c9cb8c28f8369709e923110c2948c5694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:11 +0000
Subject: [PATCH 84/88] fix: displaying an empty array reads its first element,
 and times are printed with the size the format expects

---
 source/c-precompiled/sph-sp/arrays.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index ed8785c..9a36ed9 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -20,9 +20,11 @@ sp_time_t sp_times_sum(sp_time_t* a, sp_time_t size) {
 
 /** display a time array in one line */
 void sp_times_display(sp_time_t* in, sp_size_t count) {
-  printf("%lu", (in[0]));
+  if (count) {
+    printf("%lu", ((unsigned long)(in[0])));
+  };
   for (sp_size_t i = 1; (i < count); i += 1) {
-    printf(" %lu", (in[i]));
+    printf(" %lu", ((unsigned long)(in[i])));
   };
   printf("\n");
 }
@@ -480,7 +482,9 @@ exit:
 arrays_template(sp_sample_t, sample, samples, sp_subtract, fabs);
 /** display a sample array in one line */
 void sp_samples_display(sp_sample_t* in, sp_size_t count) {
-  printf(("%.5f"), (in[0]));
+  if (count) {
+    printf(("%.5f"), (in[0]));
+  };
   for (sp_size_t i = 1; (i < count); i += 1) {
     printf((" %.5f"), (in[i]));
   };
-- 
2.43.0


From b9e3eaadbf4686e35ff3e6f879e84bf14343c39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:15 +0000
Subject: [PATCH 85/88] fix: sp_render_plot states zero milliseconds for events
 shorter than a second, and the progress format is invalid

---
 source/c-precompiled/sph-sp/main.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index e1a5e7d..506dd26 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -359,7 +359,7 @@ status_t sp_render_range_file(sp_event_t event, sp_time_t start, sp_time_t end,
   block_end = (config.block_size * ((end - start) / config.block_size));
   for (i = 0; (i < block_end); i += config.block_size) {
     if (config.display_progress) {
-      printf(("%.1f%\n"), (100 * (i / ((sp_sample_t)(block_end)))));
+      printf(("%.1f%%\n"), (100 * (i / ((sp_sample_t)(block_end)))));
     };
     status_require((sp_seq((start + i), (start + i + config.block_size), block, (&events))));
     status_require((sp_file_write((&file), (block.samples), (config.block_size))));
@@ -413,7 +413,7 @@ status_t sp_render_file(sp_event_t event, uint8_t* path) {
     };
     event.prepare = 0;
   };
-  printf("rendering %lu seconds to file %s\n", (event.end / sp_rate), path);
+  printf("rendering %lu seconds to file %s\n", ((unsigned long)(event.end / sp_rate)), path);
   status_require((sp_render_range_file(event, 0, (event.end), (sp_render_config(sp_channel_count, sp_rate, (sp_render_block_seconds * sp_rate), 1)), path)));
 exit:
   status_return;
@@ -433,9 +433,9 @@ status_t sp_render_plot(sp_event_t event) {
     event.prepare = 0;
   };
   if (event.end && (event.end < sp_rate)) {
-    printf("rendering %lu milliseconds to plot\n", (event.end / sp_rate / 1000));
+    printf("rendering %lu milliseconds to plot\n", ((unsigned long)((1000 * ((uint64_t)(event.end))) / sp_rate)));
   } else {
-    printf("rendering %lu seconds to plot\n", (event.end / sp_rate));
+    printf("rendering %lu seconds to plot\n", ((unsigned long)(event.end / sp_rate)));
   };
   status_require((sp_render_range_block(event, 0, (event.end), (sp_render_config(sp_channel_count, sp_rate, (sp_render_block_seconds * sp_rate), 1)), (&block))));
   sp_plot_samples(((block.samples)[0]), (event.end));
-- 
2.43.0


From 61fe89435e1f8b81337ff395ad7134ec7e9c15ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:18 +0000
Subject: [PATCH 86/88] fix: sp_event_list_validate does not end for lists that
 continue at an element before their last

---
 source/c-precompiled/sph-sp/sequencer.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index ebaf65d..5051817 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -5,7 +5,7 @@
 
 #define sp_event_memory_growth_factor 2
 #define sp_event_memory_initial_size 4
-void sp_event_list_display_element(sp_event_list_t* a) { printf("%lu %lu %lu event %lu %lu\n", (a->previous), a, (a->next), (a->event.start), (a->event.end)); }
+void sp_event_list_display_element(sp_event_list_t* a) { printf("%lu %lu %lu event %lu %lu\n", ((unsigned long)(a->previous)), ((unsigned long)(a)), ((unsigned long)(a->next)), ((unsigned long)(a->event.start)), ((unsigned long)(a->event.end))); }
 void sp_event_list_display(sp_event_list_t* a) {
   while (a) {
     sp_event_list_display_element(a);
@@ -30,7 +30,7 @@ uint8_t sp_event_list_find_duplicate(sp_event_list_t* a, sp_event_list_t* b) {
   while (a) {
     if (a == b) {
       if (1 == count) {
-        printf("duplicate list entry %lu at index %lu\n", a, i);
+        printf("duplicate list entry %lu at index %lu\n", ((unsigned long)(a)), ((unsigned long)(i)));
         exit(1);
       } else {
         count += 1;
@@ -46,18 +46,21 @@ void sp_event_list_validate(sp_event_list_t* a) {
   sp_event_list_t* c = 0;
   while (b) {
     if (!(c == b->previous)) {
-      printf("link to previous is invalid at index %lu, element %lu\n", i, b);
+      printf("link to previous is invalid at index %lu, element %lu\n", ((unsigned long)(i)), ((unsigned long)(b)));
       exit(1);
     };
     if ((b->next == b->previous) && !(0 == b->next)) {
-      printf("circular list entry at index %lu, element %lu\n", i, b);
+      printf("circular list entry at index %lu, element %lu\n", ((unsigned long)(i)), ((unsigned long)(b)));
       exit(1);
     };
-    sp_event_list_find_duplicate(a, b);
     i += 1;
     c = b;
     b = b->next;
   };
+  /* the list is now known to end */
+  for (b = a; b; b = b->next) {
+    sp_event_list_find_duplicate(a, b);
+  };
 }
 
 /** removes the list element and frees the event, without having to search in the list.
-- 
2.43.0


From 2b1b3cab35d966248b2bb517a06d8da3d684875e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:53 +0000
Subject: [PATCH 87/88] fix: make_seamless divides integers so that only one
 element is blended, and the left one reads past the array

---
 source/c-precompiled/sph-sp/arrays.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index 9a36ed9..53f84f6 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -387,21 +387,19 @@ void sp_times_make_seamless_right(sp_time_t* a, sp_time_t a_count, sp_time_t* b,
     out[i] = a[i];
   };
   for (sp_size_t i = 0; (i < count); i += 1) {
-    out[(i + start)] = sp_time_interpolate_linear((a[(i + start)]), (b[(count - (1 + i))]), ((1 + i) / count));
+    out[(i + start)] = sp_time_interpolate_linear((a[(i + start)]), (b[(count - (1 + i))]), ((1 + i) / ((sp_sample_t)(count))));
   };
 }
 
 /** untested. like sp_times_make_seamless_right but changing the first elements of $b to match the end of $a */
 void sp_times_make_seamless_left(sp_time_t* a, sp_time_t a_count, sp_time_t* b, sp_time_t b_count, sp_time_t* out) {
-  sp_time_t start;
   sp_time_t count;
   sp_time_t i;
   count = sp_inline_min(b_count, (a_count / 2));
-  start = (a_count - count);
   for (sp_size_t i = 0; (i < count); i += 1) {
-    out[i] = sp_time_interpolate_linear((b[i]), (a[(a_count - i)]), ((1 + i) / count));
+    out[i] = sp_time_interpolate_linear((b[i]), (a[(a_count - (1 + i))]), ((count - i) / ((sp_sample_t)(count))));
   };
-  for (i = (count - 1); (i < b_count); i += 1) {
+  for (i = count; (i < b_count); i += 1) {
     out[i] = b[i];
   };
 }
-- 
2.43.0


From 8b7b53b51c61599a48f7b9e58af52f5baa30d1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:38 +0000
Subject: [PATCH 88/88] fix: sp_time_deharmonize used the next larger instead
 of the nearest multiple

---
 source/c-precompiled/sph-sp/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 506dd26..b1c3434 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -532,7 +532,7 @@ sp_time_t sp_time_harmonize(sp_time_t a, sp_time_t base, sp_sample_t amount) {
 sp_time_t sp_time_deharmonize(sp_time_t a, sp_time_t base, sp_sample_t amount) {
   sp_time_t nearest;
   sp_sample_t distance_ratio;
-  nearest = ((((a + base) - 1) / base) * base);
+  nearest = (((a + (base / 2)) / base) * base);
   distance_ratio = ((base - sp_inline_absolute_difference(a, nearest)) / ((sp_sample_t)(base)));
   amount = (amount * distance_ratio * (1 + sp_time_random_bounded((base / 2))));
   if ((a > nearest) || (a < amount)) {
-- 
2.43.0

