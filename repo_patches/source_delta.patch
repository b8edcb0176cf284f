From f8a33020281dbbea2c3dcd193178153303c59739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 01/23] fix: flat combining passes the announcer's thread id to
 the sequential function

The combiner used to pass its own id with every request it served.
---
 libconcurrent/concurrent/fc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libconcurrent/concurrent/fc.c b/libconcurrent/concurrent/fc.c
index 316331f..cd0f2db 100644
--- a/libconcurrent/concurrent/fc.c
+++ b/libconcurrent/concurrent/fc.c
@@ -82,7 +82,8 @@ RetVal FCApplyOp(FCStruct *lock, FCThreadState *st_thread, RetVal (*sfunc)(void
     for (i = 0; i < FC_COMBINING_ROUNDS; i++) {
         for (cur = lock->head; cur != NULL; cur = cur->next) {
             if (cur->pending) {
-                cur->val = sfunc(state, cur->val, pid);
+                // Each thread announces its request in its own record, i.e. the index of the record is the thread's id
+                cur->val = sfunc(state, cur->val, (int)((FCRequest *)cur - lock->nodes));
                 synchNonTSOFence();
                 cur->pending = false;
                 cur->age = count;
-- 
2.43.0


From c39624edc891f1bc052479b72a80e247b7eec3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 02/23] fix: FCQueue enqueues the given value and dequeues the
 value of the right node

The enqueue stored the thread id instead of its argument, the dequeue returned
the value of the node dequeued before, and an empty queue answered -1 instead
of EMPTY_QUEUE.
---
 libconcurrent/concurrent/fcqueue.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libconcurrent/concurrent/fcqueue.c b/libconcurrent/concurrent/fcqueue.c
index b5d0faf..3ae8249 100644
--- a/libconcurrent/concurrent/fcqueue.c
+++ b/libconcurrent/concurrent/fcqueue.c
@@ -7,13 +7,12 @@
 inline static RetVal serialEnqueue(void *state, ArgVal arg, int pid);
 inline static RetVal serialDequeue(void *state, ArgVal arg, int pid);
 
-static const int GUARD = INT_MIN;
 static __thread SynchPoolStruct pool_node CACHE_ALIGN;
 
 void FCQueueStructInit(FCQueueStruct *queue_object_struct, uint32_t nthreads) {
     FCStructInit(&queue_object_struct->enqueue_struct, nthreads);
     FCStructInit(&queue_object_struct->dequeue_struct, nthreads);
-    queue_object_struct->guard.val = GUARD;
+    queue_object_struct->guard.val = GUARD_VALUE;
     queue_object_struct->guard.next = NULL;
     queue_object_struct->first = &queue_object_struct->guard;
     queue_object_struct->last = &queue_object_struct->guard;
@@ -34,7 +33,7 @@ inline static RetVal serialEnqueue(void *state, ArgVal arg, int pid) {
     node->val = arg;
     st->last->next = node;
     st->last = node;
-    return -1;
+    return ENQUEUE_SUCCESS;
 }
 
 inline static RetVal serialDequeue(void *state, ArgVal arg, int pid) {
@@ -43,14 +42,15 @@ inline static RetVal serialDequeue(void *state, ArgVal arg, int pid) {
     
     if (st->first->next != NULL){
         st->first = st->first->next;
+        node = (Node *)st->first;
         return node->val;
     } else {
-        return -1;
+        return EMPTY_QUEUE;
     }
 }
 
 void FCQueueApplyEnqueue(FCQueueStruct *object_struct, FCQueueThreadState *lobject_struct, ArgVal arg, int pid) {
-    FCApplyOp(&object_struct->enqueue_struct, &lobject_struct->enqueue_thread_state, serialEnqueue, object_struct, (ArgVal) pid, pid);
+    FCApplyOp(&object_struct->enqueue_struct, &lobject_struct->enqueue_thread_state, serialEnqueue, object_struct, (ArgVal) arg, pid);
 }
 
 RetVal FCQueueApplyDequeue(FCQueueStruct *object_struct, FCQueueThreadState *lobject_struct, int pid) {
-- 
2.43.0


From 079be33b220f306dc6c510ad1951e81b3a79684e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 03/23] fix: FCStack answers EMPTY_STACK when the stack is
 empty

---
 libconcurrent/concurrent/fcstack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libconcurrent/concurrent/fcstack.c b/libconcurrent/concurrent/fcstack.c
index 9d58279..f0c88f1 100644
--- a/libconcurrent/concurrent/fcstack.c
+++ b/libconcurrent/concurrent/fcstack.c
@@ -26,7 +26,7 @@ inline static RetVal serialPushPop(void *state, ArgVal arg, int pid) {
         if (st->top != NULL) {
             st->top = st->top->next;
             return node->val;
-        } else return -1;
+        } else return EMPTY_STACK;
     } else {
         FCStackStruct *st = (FCStackStruct *)state;
         Node *node;
-- 
2.43.0


From 53013302733ab87c207093da5ba582a9390f831b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 04/23] fix: the combining stacks can hold INT_MIN

Pop was encoded as a push of INT_MIN, an ordinary 64-bit value, so pushing it
removed an element. The reserved GUARD_VALUE marks a pop now.
---
 libconcurrent/concurrent/ccstack.c   | 2 +-
 libconcurrent/concurrent/dsmstack.c  | 2 +-
 libconcurrent/concurrent/fcstack.c   | 2 +-
 libconcurrent/concurrent/hstack.c    | 2 +-
 libconcurrent/concurrent/oscistack.c | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/libconcurrent/concurrent/ccstack.c b/libconcurrent/concurrent/ccstack.c
index 03f49f1..abf9a8f 100644
--- a/libconcurrent/concurrent/ccstack.c
+++ b/libconcurrent/concurrent/ccstack.c
@@ -3,7 +3,7 @@
 
 inline static RetVal serialPushPop(void *state, ArgVal arg, int pid);
 
-static const int POP_OP = INT_MIN;
+static const ArgVal POP_OP = GUARD_VALUE;
 static __thread SynchPoolStruct pool_node CACHE_ALIGN;
 
 void CCStackInit(CCStackStruct *stack_object_struct, uint32_t nthreads) {
diff --git a/libconcurrent/concurrent/dsmstack.c b/libconcurrent/concurrent/dsmstack.c
index e5fad18..231294e 100644
--- a/libconcurrent/concurrent/dsmstack.c
+++ b/libconcurrent/concurrent/dsmstack.c
@@ -3,7 +3,7 @@
 
 inline static RetVal serialPushPop(void *state, ArgVal arg, int pid);
 
-static const int POP_OP = INT_MIN;
+static const ArgVal POP_OP = GUARD_VALUE;
 static __thread SynchPoolStruct pool_node CACHE_ALIGN;
 
 void DSMSStackInit(DSMStackStruct *stack_object_struct, uint32_t nthreads) {
diff --git a/libconcurrent/concurrent/fcstack.c b/libconcurrent/concurrent/fcstack.c
index f0c88f1..382e181 100644
--- a/libconcurrent/concurrent/fcstack.c
+++ b/libconcurrent/concurrent/fcstack.c
@@ -4,7 +4,7 @@
 #include <pool.h>
 #include <queue-stack.h>
 
-static const int POP_OP = INT_MIN;
+static const ArgVal POP_OP = GUARD_VALUE;
 static __thread SynchPoolStruct pool_node CACHE_ALIGN;
 
 void FCStackInit(FCStackStruct *stack_object_struct, uint32_t nthreads) {
diff --git a/libconcurrent/concurrent/hstack.c b/libconcurrent/concurrent/hstack.c
index 9a382da..ba9371b 100644
--- a/libconcurrent/concurrent/hstack.c
+++ b/libconcurrent/concurrent/hstack.c
@@ -3,7 +3,7 @@
 
 inline static RetVal serialPushPop(void *state, ArgVal arg, int pid);
 
-static const int POP_OP = INT_MIN;
+static const ArgVal POP_OP = GUARD_VALUE;
 static __thread SynchPoolStruct pool_node CACHE_ALIGN;
 
 void HStackInit(HStackStruct *stack_object_struct, uint32_t nthreads, uint32_t numa_nodes) {
diff --git a/libconcurrent/concurrent/oscistack.c b/libconcurrent/concurrent/oscistack.c
index e4193b4..08e06d6 100644
--- a/libconcurrent/concurrent/oscistack.c
+++ b/libconcurrent/concurrent/oscistack.c
@@ -3,7 +3,7 @@
 
 inline static RetVal serialPushPop(void *state, ArgVal arg, int pid);
 
-static const int POP_OP = INT_MIN;
+static const ArgVal POP_OP = GUARD_VALUE;
 
 void OsciStackInit(OsciStackStruct *stack_object_struct, uint32_t nthreads, uint32_t fibers_per_thread) {
     OsciInit(&(stack_object_struct->object_struct), nthreads, fibers_per_thread);
-- 
2.43.0


From 3095ac3b3e6e25407a273603bc0258c5223bc601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 05/23] fix: deleting the second key of a hash bucket no longer
 deletes the first

The node before the second node is the first one, so comparing it to the top of
the chain does not tell whether the first node has to be removed.
---
 libconcurrent/concurrent/clhhash.c | 2 +-
 libconcurrent/concurrent/dsmhash.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libconcurrent/concurrent/clhhash.c b/libconcurrent/concurrent/clhhash.c
index b053460..cda4510 100644
--- a/libconcurrent/concurrent/clhhash.c
+++ b/libconcurrent/concurrent/clhhash.c
@@ -74,7 +74,7 @@ static inline RetVal serialOperations(void *h, ArgVal dummy_arg, int pid) {
             cur = cur->next;
         }
         if (found) {
-            if (top != prev)
+            if (top != cur)
                 prev->next = cur->next;
             else
                 cells[arg.cell].ptr = cur->next;
diff --git a/libconcurrent/concurrent/dsmhash.c b/libconcurrent/concurrent/dsmhash.c
index b3ac042..d8dc2f2 100644
--- a/libconcurrent/concurrent/dsmhash.c
+++ b/libconcurrent/concurrent/dsmhash.c
@@ -77,7 +77,7 @@ static inline RetVal serialOperations(void *h, ArgVal dummy_arg, int pid) {
             cur = cur->next;
         }
         if (found) {
-            if (top != prev)
+            if (top != cur)
                 prev->next = cur->next;
             else
                 cells[arg.cell].ptr = cur->next;
-- 
2.43.0


From cd5428c787fe6ef9e6491f754d07baa68d2daf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 06/23] fix: negative keys no longer index cells before the
 start of the hash table

---
 libconcurrent/concurrent/clhhash.c | 4 +++-
 libconcurrent/concurrent/dsmhash.c | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/libconcurrent/concurrent/clhhash.c b/libconcurrent/concurrent/clhhash.c
index cda4510..2a024c6 100644
--- a/libconcurrent/concurrent/clhhash.c
+++ b/libconcurrent/concurrent/clhhash.c
@@ -25,7 +25,9 @@ inline void CLHHashThreadStateInit(CLHHash *hash, CLHHashThreadState *th_state,
 }
 
 static inline int64_t hash_func(CLHHash *hash, int64_t key) {
-    return key % hash->size;
+    int64_t cell = key % hash->size;
+
+    return cell < 0 ? cell + hash->size : cell;
 }
 
 static inline RetVal serialOperations(void *h, ArgVal dummy_arg, int pid) {
diff --git a/libconcurrent/concurrent/dsmhash.c b/libconcurrent/concurrent/dsmhash.c
index d8dc2f2..12ae037 100644
--- a/libconcurrent/concurrent/dsmhash.c
+++ b/libconcurrent/concurrent/dsmhash.c
@@ -29,7 +29,9 @@ inline void DSMHashThreadStateInit(DSMHash *hash, DSMHashThreadState *th_state,
 }
 
 static inline int64_t hash_func(DSMHash *hash, int64_t key) {
-    return key % hash->size;
+    int64_t cell = key % hash->size;
+
+    return cell < 0 ? cell + hash->size : cell;
 }
 
 static inline RetVal serialOperations(void *h, ArgVal dummy_arg, int pid) {
-- 
2.43.0


From ae6acb7a07ffa9a39573efe6b7e52582bc6854da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 07/23] fix: SimQueue dequeue records no longer share one array
 of return values

The copy of a record also copied the pointer to the array of return values, so
several records ended up writing answers to the same array.
---
 libconcurrent/includes/simqueue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libconcurrent/includes/simqueue.h b/libconcurrent/includes/simqueue.h
index b0deecc..5dc7cf3 100644
--- a/libconcurrent/includes/simqueue.h
+++ b/libconcurrent/includes/simqueue.h
@@ -41,12 +41,12 @@ typedef struct EnqState {
 typedef struct DeqState {
     /// @brief The applied vector of toggles.
     ToggleVector applied;
+    /// @brief A pointer to the array of return values.
+    RetVal *ret;
     /// @brief In case you want to copy this struct, start from here.
     uint64_t copy_point;
     /// @brief A pointer to the head of the queue.
     Node *head;
-    /// @brief A pointer to the array of return values.
-    RetVal *ret;
 #ifdef DEBUG
     int32_t counter;
 #endif
-- 
2.43.0


From 14f22e40b75454555ce978cf3ae1378b826ead40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:02 +0000
Subject: [PATCH 08/23] fix: LCRQ no longer loses the value -1

---
 libconcurrent/concurrent/lcrq.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libconcurrent/concurrent/lcrq.c b/libconcurrent/concurrent/lcrq.c
index 710b728..f51b57f 100644
--- a/libconcurrent/concurrent/lcrq.c
+++ b/libconcurrent/concurrent/lcrq.c
@@ -70,7 +70,7 @@ inline static void init_ring(RingQueue *r) {
     int i;
 
     for (i = 0; i < RING_SIZE; i++) {
-        r->array[i].val = -1;
+        r->array[i].val = GUARD_VALUE;
         r->array[i].idx = i;
     }
 
@@ -79,7 +79,7 @@ inline static void init_ring(RingQueue *r) {
 }
 
 inline static int is_empty(uint64_t v)  {
-    return (v == (uint64_t)-1);
+    return (v == (uint64_t)GUARD_VALUE);
 }
 
 inline static uint64_t node_index(uint64_t i) {
@@ -183,7 +183,7 @@ alloc:
 
         if (synchLikely(is_empty(val))) {
             if (synchLikely(node_index(idx) <= t)) {
-                if ((synchLikely(!node_unsafe(idx)) || rq->head < t) && synchCAS128((uint64_t *)cell, -1, idx, arg, t)) {
+                if ((synchLikely(!node_unsafe(idx)) || rq->head < t) && synchCAS128((uint64_t *)cell, GUARD_VALUE, idx, arg, t)) {
                     return;
                 }
             }
@@ -226,7 +226,7 @@ RetVal LCRQDequeue(LCRQStruct *queue, LCRQThreadState *thread_state, int pid UNU
 
             if (synchLikely(!is_empty(val))) {
                 if (synchLikely(idx == h)) {
-                    if (synchCAS128((uint64_t *)cell, val, cell_idx, -1, (unsafe | h) + RING_SIZE)) return val;
+                    if (synchCAS128((uint64_t *)cell, val, cell_idx, GUARD_VALUE, (unsafe | h) + RING_SIZE)) return val;
                 } else {
                     if (synchCAS128((uint64_t *)cell, val, cell_idx, val, set_unsafe(idx))) {
                         count_unsafe_node(thread_state);
-- 
2.43.0


From 4a39f3d4ecad2d898da8057495ab0665a49fdcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:02 +0000
Subject: [PATCH 09/23] fix: synchBarrierLastLeave waits for both counters, so
 a late leave cannot disturb the next round

---
 libconcurrent/primitives/barrier.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libconcurrent/primitives/barrier.c b/libconcurrent/primitives/barrier.c
index 4cee31a..b5c1213 100644
--- a/libconcurrent/primitives/barrier.c
+++ b/libconcurrent/primitives/barrier.c
@@ -45,7 +45,7 @@ inline void synchBarrierLeave(SynchBarrier *bar) {
 
 inline void synchBarrierLastLeave(SynchBarrier *bar) {
     synchBarrierLeave(bar);
-    while (bar->arrive != 0 && bar->leave != 0) {
+    while (bar->arrive != 0 || bar->leave != 0) {
         synchResched();
     }
 }
-- 
2.43.0


From b918dd9f3bd1cbca24bd3939aaf6fd8f98dbfb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:02 +0000
Subject: [PATCH 10/23] fix: every round of synchStartThreadsN starts with
 fresh scheduling flags

---
 libconcurrent/primitives/threadtools.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libconcurrent/primitives/threadtools.c b/libconcurrent/primitives/threadtools.c
index 63823d1..7ec505a 100644
--- a/libconcurrent/primitives/threadtools.c
+++ b/libconcurrent/primitives/threadtools.c
@@ -206,6 +206,8 @@ int synchStartThreadsN(uint32_t nthreads, void *(*func)(void *), uint32_t uthrea
     __nthreads = nthreads;
     __threads = synchGetMemory(nthreads * sizeof(pthread_t));
     __func = func;
+    __noop_resched = false;
+    __system_oversubscription = false;
     synchStoreFence();
     if (uthreads != SYNCH_DONT_USE_UTHREADS && uthreads > 1) {
         __uthreads = uthreads;
-- 
2.43.0


From e7638c76b7a9622b4b9833b651e9c6e136bd693f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:02 +0000
Subject: [PATCH 11/23] fix: synchDestroyPool releases every block of the pool

---
 libconcurrent/primitives/pool.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libconcurrent/primitives/pool.c b/libconcurrent/primitives/pool.c
index a4b4a1b..e54b041 100644
--- a/libconcurrent/primitives/pool.c
+++ b/libconcurrent/primitives/pool.c
@@ -58,6 +58,7 @@ void *synchAllocObj(SynchPoolStruct *pool) {
             } else {
                 SynchPoolBlock *new_block = get_new_block(pool->obj_size);
                 new_block->metadata.back = pool->cur_block;
+                pool->cur_block->metadata.next = new_block;
                 pool->cur_block = new_block;
             }
             ret = synchAllocObj(pool);
-- 
2.43.0


From 0c4b781dbb91c9ce8174d9b4ec66df2123fb06a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:02 +0000
Subject: [PATCH 12/23] fix: the documented option --backoff is accepted

---
 libconcurrent/primitives/bench_args.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libconcurrent/primitives/bench_args.c b/libconcurrent/primitives/bench_args.c
index ed9e5ce..311b92a 100644
--- a/libconcurrent/primitives/bench_args.c
+++ b/libconcurrent/primitives/bench_args.c
@@ -33,6 +33,7 @@ void synchParseArguments(SynchBenchArgs *bench_args, int argc, char *argv[]) {
              {"fibers", required_argument, 0, 'f'},
              {"runs", required_argument, 0, 'r'},
              {"max_work", required_argument, 0, 'w'},
+             {"backoff", required_argument, 0, 'b'},
              {"backoff_low", required_argument, 0, 'l'},
              {"backoff_high", required_argument, 0, 'b'},
              {"numa_nodes", required_argument, 0, 'n'},
-- 
2.43.0


From c8fe6f89e2ed3f2b875e7cdc066a90ab9fd00ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:09 +0000
Subject: [PATCH 13/23] fix: thread placement works on machines with a single
 core and reports the actual NUMA node of a core

---
 libconcurrent/primitives/threadtools.c | 27 ++++++++++++--------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/libconcurrent/primitives/threadtools.c b/libconcurrent/primitives/threadtools.c
index 7ec505a..70a3061 100644
--- a/libconcurrent/primitives/threadtools.c
+++ b/libconcurrent/primitives/threadtools.c
@@ -77,6 +77,13 @@ inline static void *kthreadWrapper(void *arg) {
     return NULL;
 }
 
+#ifdef SYNCH_NUMA_SUPPORT
+// Returns true whenever SMT or HyperThreading is detected, i.e. core i and core i + ncpus/2 are siblings.
+inline static bool isSMTDetected(uint32_t ncpus, uint32_t node_size) {
+    return node_size % 2 == 0 && numa_node_of_cpu(0) == numa_node_of_cpu(ncpus / 2);
+}
+#endif
+
 inline uint32_t synchPreferredCoreOfThread(uint32_t pid) {
     uint32_t preferred_core = 0;
 
@@ -89,7 +96,7 @@ inline uint32_t synchPreferredCoreOfThread(uint32_t pid) {
         uint32_t node_size = ncpus / nodes;
 
         if (__schedule_policy == SYNCH_THREAD_PLACEMENT_NUMA_SPARSE) {
-            if (numa_node_of_cpu(0) == numa_node_of_cpu(ncpus / 2)) { // SMT or HyperThreading detected
+            if (isSMTDetected(ncpus, node_size)) { // SMT or HyperThreading detected
                 uint32_t half_node_size = node_size / 2;
                 uint32_t offset = 0;
                 uint32_t half_cpu_id = pid;
@@ -102,7 +109,7 @@ inline uint32_t synchPreferredCoreOfThread(uint32_t pid) {
                 preferred_core += offset;
             } else preferred_core = (pid / nodes) + (pid % nodes) * (node_size);
         } else if (__schedule_policy == SYNCH_THREAD_PLACEMENT_NUMA_SPARSE_SMT_PREFER) {
-            if (numa_node_of_cpu(0) == numa_node_of_cpu(ncpus / 2)) { // SMT or HyperThreading detected
+            if (isSMTDetected(ncpus, node_size)) { // SMT or HyperThreading detected
                 uint32_t double_nodes = 2 * nodes;
                 uint32_t half_node_size = node_size / 2;
 
@@ -130,20 +137,10 @@ inline uint32_t synchPreferredNumaNodeOfThread(uint32_t pid) {
 
 #ifdef SYNCH_NUMA_SUPPORT
     uint32_t preferred_core = synchPreferredCoreOfThread(pid);
-    uint32_t ncpus = synchGetNCores();
-    uint32_t nodes = numa_num_task_nodes();
-    uint32_t node_size = ncpus / nodes;
+    int node = numa_node_of_cpu(preferred_core);
 
-    if (numa_node_of_cpu(0) == numa_node_of_cpu(ncpus / 2)) { // SMT or HyperThreading detected
-        uint32_t half_node_size = node_size / 2;
-
-        if (preferred_core < ncpus / 2)
-            preferred_node = preferred_core/half_node_size;
-        else 
-            preferred_node = (preferred_core - (ncpus/2))/half_node_size;
-    } else {
-        preferred_node = preferred_core/node_size;
-    }
+    if (node > 0)
+        preferred_node = node;
 #else
     preferred_node = 0;
 #endif
-- 
2.43.0


From be311e5fcc93789161ed0959e1c17f4a767fa0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:09 +0000
Subject: [PATCH 14/23] fix: SYNCH_THREAD_PLACEMENT_NUMA_SPARSE_SMT_PREFER no
 longer gives the same core to different threads

---
 libconcurrent/primitives/threadtools.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libconcurrent/primitives/threadtools.c b/libconcurrent/primitives/threadtools.c
index 70a3061..08bc2cc 100644
--- a/libconcurrent/primitives/threadtools.c
+++ b/libconcurrent/primitives/threadtools.c
@@ -113,7 +113,7 @@ inline uint32_t synchPreferredCoreOfThread(uint32_t pid) {
                 uint32_t double_nodes = 2 * nodes;
                 uint32_t half_node_size = node_size / 2;
 
-                preferred_core = (pid % node_size) * half_node_size + (pid / double_nodes);
+                preferred_core = (pid % double_nodes) * half_node_size + (pid / double_nodes);
             } else preferred_core = (pid / nodes) + (pid % nodes) * (node_size);
         } else if (__schedule_policy == SYNCH_THREAD_PLACEMENT_NUMA_DENSE) {
             preferred_core = pid;
-- 
2.43.0


From 0799f3f4211b4e2d35d6240e13503d41e2ced1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:09 +0000
Subject: [PATCH 15/23] fix: SYNCH_THREAD_PLACEMENT_NUMA_DENSE_SMT_PREFER fills
 a node before the next on any number of nodes

---
 libconcurrent/primitives/threadtools.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libconcurrent/primitives/threadtools.c b/libconcurrent/primitives/threadtools.c
index 08bc2cc..09a76f2 100644
--- a/libconcurrent/primitives/threadtools.c
+++ b/libconcurrent/primitives/threadtools.c
@@ -118,7 +118,9 @@ inline uint32_t synchPreferredCoreOfThread(uint32_t pid) {
         } else if (__schedule_policy == SYNCH_THREAD_PLACEMENT_NUMA_DENSE) {
             preferred_core = pid;
         } else if (__schedule_policy == SYNCH_THREAD_PLACEMENT_NUMA_DENSE_SMT_PREFER){
-            preferred_core = (pid / nodes) + (pid % nodes) * (node_size);
+            if (isSMTDetected(ncpus, node_size))
+                preferred_core = (pid / 2) + (pid % 2) * (ncpus / 2);
+            else preferred_core = pid;
         } else {
             fprintf(stderr, "ERROR: Unsupported scheduling policy: 0x%X\n", __schedule_policy);
             preferred_core = (pid / nodes) + (pid % nodes) * (node_size);
-- 
2.43.0


From 862147beeb28a42107793ec1567996d0f172c2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:09 +0000
Subject: [PATCH 16/23] fix: memory returned by synchGetAlignedMemory can be
 released with synchFreeMemory

---
 libconcurrent/primitives/primitives.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/libconcurrent/primitives/primitives.c b/libconcurrent/primitives/primitives.c
index 377f726..2713b3a 100644
--- a/libconcurrent/primitives/primitives.c
+++ b/libconcurrent/primitives/primitives.c
@@ -1,5 +1,6 @@
 #include <primitives.h>
 #include <time.h>
+#include <unistd.h>
 #include <malloc.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -159,11 +160,16 @@ inline void *synchGetAlignedMemory(size_t align, size_t size) {
     void *p;
 
 #ifdef SYNCH_NUMA_SUPPORT
-    p = numa_alloc_local(size + align);
-    long plong = (long)p;
-    plong += align;
-    plong &= ~(align - 1);
-    p = (void *)plong;
+    // numa_alloc_local() returns page aligned memory, synchFreeMemory() expects the address returned by it
+    if (align <= (size_t)sysconf(_SC_PAGESIZE)) {
+        p = numa_alloc_local(size);
+    } else {
+        p = numa_alloc_local(size + align);
+        long plong = (long)p;
+        plong += align;
+        plong &= ~(align - 1);
+        p = (void *)plong;
+    }
 #else
     p = (void *)memalign(align, size);
 #endif
-- 
2.43.0


From c2fbd6fe4e818c1f6465a8a60303a3a269d5c3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:09 +0000
Subject: [PATCH 17/23] fix: a thread can use several HSynch instances with
 different NUMA settings

---
 libconcurrent/concurrent/hsynch.c | 5 +++--
 libconcurrent/includes/hsynch.h   | 2 ++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/libconcurrent/concurrent/hsynch.c b/libconcurrent/concurrent/hsynch.c
index bb58103..b0bf4ce 100644
--- a/libconcurrent/concurrent/hsynch.c
+++ b/libconcurrent/concurrent/hsynch.c
@@ -10,13 +10,12 @@
 #define HSYNCH_HELP_FACTOR            10
 #define HSYNCH_DEFAULT_NUMA_NODE_SIZE 8
 
-static __thread int node_of_thread = 0;
-
 RetVal HSynchApplyOp(HSynchStruct *l, HSynchThreadState *st_thread, RetVal (*sfunc)(void *, ArgVal, int), void *state, ArgVal arg, int pid) {
     volatile HSynchNode *p;
     volatile HSynchNode *cur;
     register HSynchNode *next_node, *tmp_next;
     register int counter = 0;
+    int node_of_thread = st_thread->numa_node;
     int help_bound = HSYNCH_HELP_FACTOR * l->nthreads;
 
     next_node = st_thread->next_node;
@@ -71,6 +70,7 @@ RetVal HSynchApplyOp(HSynchStruct *l, HSynchThreadState *st_thread, RetVal (*sfu
 void HSynchThreadStateInit(HSynchStruct *l, HSynchThreadState *st_thread, int pid) {
     HSynchNode *last_node = NULL;
     uint32_t node_index = 0;
+    int node_of_thread = 0;
 
 #ifdef SYNCH_NUMA_SUPPORT
     if (l->numa_policy) {
@@ -113,6 +113,7 @@ void HSynchThreadStateInit(HSynchStruct *l, HSynchThreadState *st_thread, int pi
     synchCASPTR(&l->Tail[node_of_thread].ptr, NULL, last_node);
     node_index = synchFAA32(&l->node_indexes[node_of_thread], 1);
     st_thread->next_node = l->nodes[node_of_thread] + node_index;
+    st_thread->numa_node = node_of_thread;
 #ifdef DEBUG
     fprintf(stderr, "DEBUG: thread_id: %d -- running_core: %d -- running_node: %d -- hsynch_node: %d\n",
             pid, synchGetPreferredCore(), synchGetPreferredNumaNode(), node_of_thread);
diff --git a/libconcurrent/includes/hsynch.h b/libconcurrent/includes/hsynch.h
index 69df39f..0d63722 100644
--- a/libconcurrent/includes/hsynch.h
+++ b/libconcurrent/includes/hsynch.h
@@ -62,6 +62,8 @@ typedef union HSynchNodePtr {
 typedef struct HSynchThreadState {
     /// @brief pointer to an empty request that would be used for announcing future requests.
     HSynchNode *next_node;
+    /// @brief The (possibly fictitious) NUMA node of this instance of HSynch that the thread belongs to.
+    int32_t numa_node;
 } HSynchThreadState;
 
 ///  @brief HSynchStruct stores the state of an instance of the a HSynch combining object.
-- 
2.43.0


From 2df39c6c6d517a2975f7aa4ed962b6ee0307d104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:09 +0000
Subject: [PATCH 18/23] fix: HSynch never exceeds its announcement arrays,
 however threads are spread across NUMA nodes

---
 libconcurrent/concurrent/hsynch.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/libconcurrent/concurrent/hsynch.c b/libconcurrent/concurrent/hsynch.c
index b0bf4ce..cb10a31 100644
--- a/libconcurrent/concurrent/hsynch.c
+++ b/libconcurrent/concurrent/hsynch.c
@@ -98,18 +98,21 @@ void HSynchThreadStateInit(HSynchStruct *l, HSynchThreadState *st_thread, int pi
     node_of_thread = pid / l->numa_node_size;
 #endif
 
+    // A fictitious topology may have less nodes than the actual one
+    node_of_thread %= l->numa_nodes;
+
     if (l->nodes[node_of_thread] == NULL) {
-        HSynchNode *ptr = synchGetAlignedMemory(CACHE_LINE_SIZE, (l->numa_node_size + 2) * sizeof(HSynchNode));
+        HSynchNode *ptr = synchGetAlignedMemory(CACHE_LINE_SIZE, (l->nthreads + 2) * sizeof(HSynchNode));
 
-        last_node = &ptr[l->numa_node_size + 1];
+        last_node = &ptr[l->nthreads + 1];
         last_node->next = NULL;
         last_node->locked = false;
         last_node->completed = false;
 
         if (synchCASPTR(&l->nodes[node_of_thread], NULL, ptr) == false) 
-            synchFreeMemory(ptr, (l->numa_node_size + 2) * sizeof(HSynchNode));
+            synchFreeMemory(ptr, (l->nthreads + 2) * sizeof(HSynchNode));
     }
-    last_node = l->nodes[node_of_thread] + l->numa_node_size + 1;
+    last_node = l->nodes[node_of_thread] + l->nthreads + 1;
     synchCASPTR(&l->Tail[node_of_thread].ptr, NULL, last_node);
     node_index = synchFAA32(&l->node_indexes[node_of_thread], 1);
     st_thread->next_node = l->nodes[node_of_thread] + node_index;
-- 
2.43.0


From 5e7de425199a45e8a77430458de837b2321b4fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:09 +0000
Subject: [PATCH 19/23] fix: OsciQueue and OsciStack have a pool of nodes for
 every fiber

---
 libconcurrent/concurrent/osciqueue.c | 2 +-
 libconcurrent/concurrent/oscistack.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libconcurrent/concurrent/osciqueue.c b/libconcurrent/concurrent/osciqueue.c
index 0e43ece..8ba0ee1 100644
--- a/libconcurrent/concurrent/osciqueue.c
+++ b/libconcurrent/concurrent/osciqueue.c
@@ -7,7 +7,7 @@ inline static RetVal serialDequeue(void *state, ArgVal arg, int pid);
 void OsciQueueInit(OsciQueueStruct *queue_object_struct, uint32_t nthreads, uint32_t fibers_per_thread) {
     OsciInit(&(queue_object_struct->enqueue_struct), nthreads, fibers_per_thread);
     OsciInit(&queue_object_struct->dequeue_struct, nthreads, fibers_per_thread);
-    queue_object_struct->pool_node = synchGetAlignedMemory(CACHE_LINE_SIZE, queue_object_struct->enqueue_struct.groups_of_fibers * sizeof(SynchPoolStruct));
+    queue_object_struct->pool_node = synchGetAlignedMemory(CACHE_LINE_SIZE, nthreads * sizeof(SynchPoolStruct));
     queue_object_struct->guard.val = GUARD_VALUE;
     queue_object_struct->guard.next = NULL;
     queue_object_struct->first = &queue_object_struct->guard;
diff --git a/libconcurrent/concurrent/oscistack.c b/libconcurrent/concurrent/oscistack.c
index 08e06d6..e27afed 100644
--- a/libconcurrent/concurrent/oscistack.c
+++ b/libconcurrent/concurrent/oscistack.c
@@ -7,7 +7,7 @@ static const ArgVal POP_OP = GUARD_VALUE;
 
 void OsciStackInit(OsciStackStruct *stack_object_struct, uint32_t nthreads, uint32_t fibers_per_thread) {
     OsciInit(&(stack_object_struct->object_struct), nthreads, fibers_per_thread);
-    stack_object_struct->pool_node = synchGetAlignedMemory(CACHE_LINE_SIZE, stack_object_struct->object_struct.groups_of_fibers * sizeof(SynchPoolStruct));
+    stack_object_struct->pool_node = synchGetAlignedMemory(CACHE_LINE_SIZE, nthreads * sizeof(SynchPoolStruct));
     stack_object_struct->top = NULL;
 }
 
-- 
2.43.0


From c4f639e441a4e0cd9d861e0e3ef142c4d7f98ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:22 +0000
Subject: [PATCH 20/23] fix: spawning a fiber never overwrites a fiber that is
 still alive

---
 libconcurrent/primitives/uthreads.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/libconcurrent/primitives/uthreads.c b/libconcurrent/primitives/uthreads.c
index c60c44c..e0e2732 100644
--- a/libconcurrent/primitives/uthreads.c
+++ b/libconcurrent/primitives/uthreads.c
@@ -86,23 +86,29 @@ static void fiber_start_func(FiberData *context) {
 int synchSpawnFiber(void *(*func)(void *), long arg) {
     ucontext_t tmp;
     FiberData context;
+    int slot;
 
     if (N_FIBERS == MAX_FIBERS)
         return -1;
 
-    getcontext(&(FIBER_LIST[N_FIBERS].context));
-    FIBER_LIST[N_FIBERS].active = true;
-    FIBER_LIST[N_FIBERS].context.uc_link = NULL;
-    FIBER_LIST[N_FIBERS].context.uc_stack.ss_sp = synchGetMemory(FIBER_STACK);
-    FIBER_LIST[N_FIBERS].context.uc_stack.ss_size = FIBER_STACK;
-    FIBER_LIST[N_FIBERS].context.uc_stack.ss_flags = 0;
+    // Fibers may finish in any order, find a free position
+    slot = 1;
+    while (FIBER_LIST[slot].active)
+        slot++;
+
+    getcontext(&(FIBER_LIST[slot].context));
+    FIBER_LIST[slot].active = true;
+    FIBER_LIST[slot].context.uc_link = NULL;
+    FIBER_LIST[slot].context.uc_stack.ss_sp = synchGetMemory(FIBER_STACK);
+    FIBER_LIST[slot].context.uc_stack.ss_size = FIBER_STACK;
+    FIBER_LIST[slot].context.uc_stack.ss_flags = 0;
 
     context.func = func;
     context.arg = arg;
-    context.cur = &FIBER_LIST[N_FIBERS].jmp;
+    context.cur = &FIBER_LIST[slot].jmp;
     context.prev = &tmp;
-    makecontext(&FIBER_LIST[N_FIBERS].context, (void (*)())fiber_start_func, 1, &context);
-    swapcontext(&tmp, &FIBER_LIST[N_FIBERS].context);
+    makecontext(&FIBER_LIST[slot].context, (void (*)())fiber_start_func, 1, &context);
+    swapcontext(&tmp, &FIBER_LIST[slot].context);
     N_FIBERS++;
     return 1;
 }
-- 
2.43.0


From d00a86c94bc3c39d7163f589c8f2ae0ea4d13592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:22 +0000
Subject: [PATCH 21/23] fix: the whole stack of a finished fiber is released

---
 libconcurrent/primitives/uthreads.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libconcurrent/primitives/uthreads.c b/libconcurrent/primitives/uthreads.c
index e0e2732..f001214 100644
--- a/libconcurrent/primitives/uthreads.c
+++ b/libconcurrent/primitives/uthreads.c
@@ -54,7 +54,7 @@ void synchFiberYield(void) {
     } while (FIBER_LIST[currentFiber].active == false);
     switch_to_fiber(&FIBER_LIST[prev_fiber], &FIBER_LIST[currentFiber]);
     if (FIBER_RECYCLE != NULL) {
-        synchFreeMemory(FIBER_RECYCLE, sizeof(Fiber));
+        synchFreeMemory(FIBER_RECYCLE, FIBER_STACK);
         FIBER_RECYCLE = NULL;
     }
 }
-- 
2.43.0


From ca78c793932a46f91d40b0a5e04a8ab6c0a8c879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:10 +0000
Subject: [PATCH 22/23] fix: reject pools of less than 3 structs per thread in
 Sim

With two structs a thread that has announced an operation may see its toggle
bit in a struct that is being prepared for reuse and return before the
operation is applied.
---
 libconcurrent/includes/sim.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libconcurrent/includes/sim.h b/libconcurrent/includes/sim.h
index 3ddc0ed..b78a047 100644
--- a/libconcurrent/includes/sim.h
+++ b/libconcurrent/includes/sim.h
@@ -17,10 +17,11 @@
 #include <fam.h>
 
 /// @brief This constant controls the size of pool of SimObjectState structs that each thread maintains.
-/// This should be a small integer (i.e, 2 or 4) in order to avoid excess memory consumption.
+/// This should be a small integer (i.e, 3 or 4) in order to avoid excess memory consumption. With less than
+/// 3 structs, a thread may reuse a struct while another one, which has not been served yet, still examines it.
 #define _SIM_LOCAL_POOL_SIZE_ 4
 
-#if _SIM_LOCAL_POOL_SIZE_ < 2
+#if _SIM_LOCAL_POOL_SIZE_ < 3
 #    error SIM universal construction is improperly configured
 #endif
 
-- 
2.43.0


From 9f3ba240e83483cb3ee3964be620be59b4fb972f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:48 +0000
Subject: [PATCH 23/23] fix: read the current value anew in every round of the
 emulated fetch-and-add

The cast made the pointer volatile instead of what it points to, so an optimising
compiler reads the value once: an operation that loses a race spins for ever.
---
 libconcurrent/primitives/primitives.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libconcurrent/primitives/primitives.c b/libconcurrent/primitives/primitives.c
index 2713b3a..490fe54 100644
--- a/libconcurrent/primitives/primitives.c
+++ b/libconcurrent/primitives/primitives.c
@@ -308,7 +308,7 @@ inline int32_t _FAA32(volatile int32_t *A, int32_t B) {
     int32_t new_val;
 
     while (true) {
-        old_val = *((int32_t *volatile)A);
+        old_val = *((volatile int32_t *)A);
         new_val = old_val + B;
         if (*A == old_val && synchCAS32(A, old_val, new_val) == true) break;
     }
@@ -334,7 +334,7 @@ inline int64_t _FAA64(volatile int64_t *A, int64_t B) {
     int64_t new_val;
 
     while (true) {
-        old_val = *((int64_t *volatile)A);
+        old_val = *((volatile int64_t *)A);
         new_val = old_val + B;
         if (*A == old_val && synchCAS64(A, old_val, new_val) == true) break;
     }
-- 
2.43.0

