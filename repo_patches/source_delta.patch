From 4aca2a5ccd90ce884197e470725604fd98d0a275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:00 +0000
Subject: [PATCH 01/39] fix: arena reads past its end, loses memory for good
 and corrupts blocks on oversized frees

Freeing the last block read the header after the end of the arena, freed
blocks were only merged in forward direction so the arena fragmented
permanently, giving a consolidated block back by its requested size left a
part of it allocated, and sizes of 16 MB and above were silently truncated.
---
 runtime/arena.c | 86 ++++++++++++++++++++++++++++++-------------------
 1 file changed, 53 insertions(+), 33 deletions(-)

diff --git a/runtime/arena.c b/runtime/arena.c
index 50b05fa..c68fa83 100644
--- a/runtime/arena.c
+++ b/runtime/arena.c
@@ -32,9 +32,9 @@
 #include <string.h>
 
 struct gracht_header {
-    uint32_t length    : 24;
+    uint32_t length;
     uint32_t allocated : 1;
-    uint32_t flags     : 7;
+    uint32_t slack     : 31; // bytes of length that were not asked for
     uint32_t payload[1];
 };
 
@@ -50,6 +50,7 @@ struct gracht_arena {
 #define HEADER_SIZE          (sizeof(struct gracht_header) - sizeof(uint32_t))
 #define GET_HEADER(ptr)      ((struct gracht_header*)((char*)(ptr) - HEADER_SIZE))
 #define GET_NEXT_HEADER(hdr) ((struct gracht_header*)((char*)(hdr) + (HEADER_SIZE + (hdr)->length)))
+#define MAX_LENGTH           0x7FFFFFFF
 
 void gracht_arena_free(struct gracht_arena* arena, void* memory, size_t size);
 
@@ -58,7 +59,7 @@ int gracht_arena_create(size_t size, struct gracht_arena** arenaOut)
     struct gracht_arena* arena;
     void*                base;
 
-    if (!size || !arenaOut) {
+    if (size <= sizeof(struct gracht_header) || size > MAX_LENGTH || !arenaOut) {
         errno = EINVAL;
         return -1;
     }
@@ -81,8 +82,8 @@ int gracht_arena_create(size_t size, struct gracht_arena** arenaOut)
     arena->length = size;
 
     // initialize the first header
-    arena->base->length = (uint32_t)(size & 0x00FFFFFF) - HEADER_SIZE;
-    arena->base->flags  = 0;
+    arena->base->length = (uint32_t)size - HEADER_SIZE;
+    arena->base->slack  = 0;
     arena->base->allocated = 0;
 
     *arenaOut = arena;
@@ -106,7 +107,19 @@ static inline void create_header(void* memory, uint32_t size)
     struct gracht_header* header = memory;
     header->length = size - HEADER_SIZE;
     header->allocated = 0;
-    header->flags = 0;
+    header->slack = 0;
+}
+
+// returns the header that follows, or NULL if the header is the last in the arena
+static inline struct gracht_header* next_header(struct gracht_arena* arena, struct gracht_header* header)
+{
+    char* next = (char*)GET_NEXT_HEADER(header);
+    return next < (char*)arena->base + arena->length ? (struct gracht_header*)next : NULL;
+}
+
+static inline int is_free(struct gracht_header* header)
+{
+    return header && !header->allocated;
 }
 
 static inline void move_header(struct gracht_header* header, long byteCount)
@@ -119,22 +132,21 @@ static inline void move_header(struct gracht_header* header, long byteCount)
 
 static inline struct gracht_header* find_free_header(struct gracht_arena* arena, uint32_t size)
 {
-    struct gracht_header* itr    = arena->base;
-    uint32_t              length = 0;
+    struct gracht_header* itr = arena->base;
 
     GRTRACE(GRSTR("find_free_header(arena=0x%p, size=%u)"), arena, size);
-    while (length < arena->length) {
+    while (itr) {
         GRTRACE(GRSTR("header: at=0x%p length=%u, allocated=%i"), itr, itr->length, itr->allocated);
-        if (!itr->allocated && itr->length >= size) {
-            return itr;
-        }
 
-        if (!itr->length) {
-            break;
+        // merge with the free headers that follow, free only does so in forward direction
+        while (!itr->allocated && is_free(next_header(arena, itr))) {
+            itr->length += next_header(arena, itr)->length + HEADER_SIZE;
         }
 
-        length += itr->length;
-        itr = GET_NEXT_HEADER(itr);
+        if (!itr->allocated && itr->length >= size) {
+            return itr;
+        }
+        itr = next_header(arena, itr);
     }
     return NULL;
 }
@@ -142,27 +154,29 @@ static inline struct gracht_header* find_free_header(struct gracht_arena* arena,
 void* gracht_arena_allocate(struct gracht_arena* arena, void* allocation, size_t size)
 {
     struct gracht_header* allocHeader;
-    uint32_t              correctedSize = (uint32_t)(size & 0x00FFFFFF);
+    uint32_t              correctedSize = (uint32_t)size;
+    uint32_t              requestedSize;
     GRTRACE(GRSTR("gracht_arena_allocate(arena=0x%p, allocation=0x%p, size=%u)"), arena, allocation, correctedSize);
 
-    if (!arena || !size) {
+    if (!arena || !size || size > MAX_LENGTH) {
         return NULL;
     }
 
     mtx_lock(&arena->mutex);
     if (allocation) {
         struct gracht_header* header     = GET_HEADER(allocation);
-        struct gracht_header* nextHeader = GET_NEXT_HEADER(header);
+        struct gracht_header* nextHeader = next_header(arena, header);
 
-        if (!nextHeader || nextHeader->allocated) {
+        if (!is_free(nextHeader) || nextHeader->length <= correctedSize) {
             // we must reallocate the memory space to somewhere else
-            correctedSize += header->length;
-
-            allocHeader = find_free_header(arena, correctedSize);
-            memcpy(&allocHeader->payload[0], &header->payload[0], header->length);
-
-            // what consequences could this call have
-            gracht_arena_free(arena, allocation, header->length);
+            uint32_t length = header->length - header->slack;
+            void*    moved  = gracht_arena_allocate(arena, NULL, (size_t)length + size);
+            if (moved) {
+                memcpy(moved, allocation, length);
+                gracht_arena_free(arena, allocation, 0);
+            }
+            mtx_unlock(&arena->mutex);
+            return moved;
         }
         else {
             // we are able to safely extend the current allocation
@@ -184,6 +198,7 @@ void* gracht_arena_allocate(struct gracht_arena* arena, void* allocation, size_t
 
     // if the bytes left in the header is less than a threshold, then we consolidate
     // with the current allocation.
+    requestedSize = correctedSize;
     if ((allocHeader->length - correctedSize) < ALLOCATION_SPILLOVER_THRESHOLD) {
         correctedSize = allocHeader->length;
     }
@@ -195,7 +210,8 @@ void* gracht_arena_allocate(struct gracht_arena* arena, void* allocation, size_t
 
     // update current header
     allocHeader->allocated = 1;
-    allocHeader->length = (uint32_t)(correctedSize & 0x00FFFFFF);
+    allocHeader->length = correctedSize;
+    allocHeader->slack  = correctedSize - requestedSize;
     GRTRACE(GRSTR("gracht_arena_allocate returns=%p"), &allocHeader->payload[0]);
     mtx_unlock(&arena->mutex);
     return &allocHeader->payload[0];
@@ -205,7 +221,7 @@ void gracht_arena_free(struct gracht_arena* arena, void* memory, size_t size)
 {
     struct gracht_header* header;
     struct gracht_header* nextHeader;
-    uint32_t              allocLength = (uint32_t)(size & 0x00FFFFFF);
+    uint32_t              allocLength = (uint32_t)size;
     GRTRACE(GRSTR("gracht_arena_free(arena=0x%p, memory=0x%p, size=%u)"), arena, memory, allocLength);
 
     if (!arena || !memory) {
@@ -214,11 +230,14 @@ void gracht_arena_free(struct gracht_arena* arena, void* memory, size_t size)
 
     mtx_lock(&arena->mutex);
     header     = GET_HEADER(memory);
-    nextHeader = GET_NEXT_HEADER(header);
+    nextHeader = next_header(arena, header);
 
     // currently we only merge in forward direction, to merge in backwards
     // direction without iterating we need to add an allocation footer
-    if (allocLength != 0 && header->length != allocLength) {
+    if (allocLength != 0 && size < header->length - header->slack) {
+        // give the bytes that were not asked for back as well
+        allocLength += header->slack;
+
         // must free atleast enough, otherwise skip partial-free operation
         if (allocLength < sizeof(struct gracht_header)) {
             mtx_unlock(&arena->mutex);
@@ -228,10 +247,11 @@ void gracht_arena_free(struct gracht_arena* arena, void* memory, size_t size)
         // reduce the size of this allocation by the number of bytes we free
         GRTRACE(GRSTR("%p=reducing allocation from %u by %u"), header, header->length, allocLength);
         header->length -= allocLength;
+        header->slack   = 0;
 
         // either we must adjust the header link or create a new
         // based on whether its free or not
-        if (!nextHeader->allocated) {
+        if (is_free(nextHeader)) {
             long negated = 0 - (long)allocLength;
             GRTRACE(GRSTR("%p=moving by %li bytes"), nextHeader, negated);
 
@@ -246,7 +266,7 @@ void gracht_arena_free(struct gracht_arena* arena, void* memory, size_t size)
     }
     else {
         header->allocated = 0;
-        if (!nextHeader->allocated) {
+        if (is_free(nextHeader)) {
             header->length += nextHeader->length + HEADER_SIZE;
         }
     }
-- 
2.43.0


From 7b117adb0690a265d9c085ea1dfbe061ce700614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:46 +0000
Subject: [PATCH 02/39] fix: outgoing buffer pool loses buffers and hands one
 out twice

Growing left a hole at the old top that was popped as an uninitialised
pointer, and a push published its slot before storing to it, so that a
concurrent pop could return a buffer that was still in use.
---
 include/stack.h | 10 ++++---
 runtime/stack.c | 70 ++++++++++++++-----------------------------------
 2 files changed, 26 insertions(+), 54 deletions(-)

diff --git a/include/stack.h b/include/stack.h
index 3ae0581..6628b1a 100644
--- a/include/stack.h
+++ b/include/stack.h
@@ -20,13 +20,15 @@
 #ifndef __GRACHT_STACK_H__
 #define __GRACHT_STACK_H__
 
-#include "gatomic.h"
+#include "thread_api.h"
 #include <stddef.h>
+#include <stdint.h>
 
 struct stack {
-    atomic_uintptr_t elements;
-    atomic_uint      index;
-    size_t           count;
+    mtx_t        lock;
+    uintptr_t*   elements;
+    unsigned int index;
+    size_t       count;
 };
 
 int   stack_construct(struct stack* stack, size_t initialCount);
diff --git a/runtime/stack.c b/runtime/stack.c
index 7014364..85898a1 100644
--- a/runtime/stack.c
+++ b/runtime/stack.c
@@ -14,7 +14,7 @@
  * You should have received a copy of the GNU General Public License
  * along with this program. If not, see <http://www.gnu.org/licenses/>.
  *
- * Lockless stack implementation
+ * Thread-safe stack implementation
  */
 
 #include <errno.h>
@@ -23,27 +23,20 @@
 #include <stdlib.h>
 #include <string.h>
 
-#ifdef _WIN32
-typedef uintptr_t uint_loaded_t;
-#else
-typedef unsigned int uint_loaded_t;
-#endif
-
 int stack_construct(struct stack* stack, size_t initialCount)
 {
-    uintptr_t space;
     if (!stack || !initialCount) {
         errno = EINVAL;
         return -1;
     }
 
-    space = (uintptr_t)malloc(sizeof(uintptr_t) * initialCount);
-    if (!space) {
+    stack->elements = malloc(sizeof(uintptr_t) * initialCount);
+    if (!stack->elements) {
         errno = ENOMEM;
         return -1;
     }
 
-    stack->elements = space;
+    mtx_init(&stack->lock, mtx_plain);
     stack->index    = 0;
     stack->count    = initialCount;
     return 0;
@@ -55,71 +48,48 @@ void stack_destroy(struct stack* stack)
         return;
     }
 
-    free((void*)atomic_load(&stack->elements));
+    mtx_destroy(&stack->lock);
+    free(stack->elements);
 }
 
-int stack_resize(struct stack* stack, size_t newSize)
+static int stack_resize(struct stack* stack, size_t newSize)
 {
-    uintptr_t original = atomic_load(&stack->elements);
-    uintptr_t resized  = (uintptr_t)malloc(sizeof(uintptr_t) * newSize);
-    int       result;
-
+    uintptr_t* resized = realloc(stack->elements, sizeof(uintptr_t) * newSize);
     if (!resized) {
         errno = ENOMEM;
         return -1;
     }
 
-    memcpy((void*)resized, (const void*)original, sizeof(uintptr_t) * stack->count);
-    
-    result = atomic_compare_exchange_strong(&stack->elements, &original, resized);
-    if (!result) {
-        // try again, someone else beat us to it
-        free((void*)resized);
-        return 0;
-    }
-
-    stack->count = newSize;
+    stack->elements = resized;
+    stack->count    = newSize;
     return 0;
 }
 
 void stack_push(struct stack* stack, void* pointer)
 {
-    uint_loaded_t index;
-
     if (!stack || !pointer) {
         return;
     }
 
-perform_push:
-    index = atomic_fetch_add(&stack->index, 1);
-    if (index >= stack->count) {
-        if (stack_resize(stack, stack->count * 2)) {
-            return;
-        }
-        goto perform_push;
+    mtx_lock(&stack->lock);
+    if (stack->index < stack->count || !stack_resize(stack, stack->count * 2)) {
+        stack->elements[stack->index++] = (uintptr_t)pointer;
     }
-
-    ((uintptr_t*)atomic_load(&stack->elements))[index] = (uintptr_t)pointer;
+    mtx_unlock(&stack->lock);
 }
 
 void* stack_pop(struct stack* stack)
 {
-    uint_loaded_t index;
-    int           result;
+    void* pointer = NULL;
 
     if (!stack) {
         return NULL;
     }
 
-perform_pop:
-    index = atomic_load(&stack->index);
-    if (!index) {
-        return NULL;
-    }
-
-    result = atomic_compare_exchange_strong(&stack->index, &index, index - 1);
-    if (!result) {
-        goto perform_pop;
+    mtx_lock(&stack->lock);
+    if (stack->index) {
+        pointer = (void*)stack->elements[--stack->index];
     }
-    return (void*)((uintptr_t*)atomic_load(&stack->elements))[index - 1];
+    mtx_unlock(&stack->lock);
+    return pointer;
 }
-- 
2.43.0


From 2d3dbd8a0c90cf7f17e8d565017d93f08be6c155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:59 +0000
Subject: [PATCH 03/39] fix: job queue loses its order when its counters wrap
 around

The capacity of a queue need not divide 2^32, so the free-running counters
pointed at the wrong element after they wrapped.
---
 include/queue.h |  1 +
 runtime/queue.c | 25 +++++++++++--------------
 2 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/include/queue.h b/include/queue.h
index 62d5248..53f70a9 100644
--- a/include/queue.h
+++ b/include/queue.h
@@ -28,6 +28,7 @@
 struct gr_queue {
     unsigned int dequeue_index;
     unsigned int queue_index;
+    unsigned int count;
     unsigned int capacity;
     uintptr_t*   elements;
 };
diff --git a/runtime/queue.c b/runtime/queue.c
index be6ca96..4c6cb96 100644
--- a/runtime/queue.c
+++ b/runtime/queue.c
@@ -39,6 +39,7 @@ int gr_queue_construct(struct gr_queue* queue, unsigned int capacity)
     queue->capacity      = capacity;
     queue->dequeue_index = 0;
     queue->queue_index   = 0;
+    queue->count         = 0;
     return 0;
 }
 
@@ -51,29 +52,23 @@ void gr_queue_destroy(struct gr_queue* queue)
     free(queue->elements);
 }
 
-static inline int capacity_remaining(struct gr_queue* queue)
-{
-    // return the remaining capacity, which is the current number of queued elements
-    // subtracted from the capacity of the queue
-    return queue->capacity - (queue->queue_index - queue->dequeue_index);
-}
-
 int gr_queue_enqueue(struct gr_queue* queue, void* pointer)
 {
-    unsigned int index;
-
     if (!queue || !pointer) {
         errno = EINVAL;
         return -1;
     }
 
-    if (!capacity_remaining(queue)) {
+    if (queue->count == queue->capacity) {
         errno = ENOENT;
         return -1;
     }
 
-    index = (queue->queue_index++) % queue->capacity;
-    queue->elements[index] = (uintptr_t)pointer;
+    // keep the index inside the queue, free-running counters would only survive their
+    // wrap-around if the capacity divides it
+    queue->elements[queue->queue_index] = (uintptr_t)pointer;
+    queue->queue_index = (queue->queue_index + 1) % queue->capacity;
+    queue->count++;
     return 0;
 }
 
@@ -86,11 +81,13 @@ void* gr_queue_dequeue(struct gr_queue* queue)
         return NULL;
     }
 
-    if (queue->dequeue_index == queue->queue_index) {
+    if (!queue->count) {
         errno = ENOENT;
         return NULL;
     }
 
-    index = (queue->dequeue_index++) % queue->capacity;    
+    index = queue->dequeue_index;
+    queue->dequeue_index = (queue->dequeue_index + 1) % queue->capacity;
+    queue->count--;
     return (void*)queue->elements[index];
 }
-- 
2.43.0


From bc207b69033b3744215e139118cfe31595a8334c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:48 +0000
Subject: [PATCH 04/39] fix: worker pool loses wake-ups and requests

Workers treated any wake-up as a job and crashed on a spurious one, a shutdown
request could be missed or overwritten by a starting worker and left the pool
waiting forever, and requests beyond a full queue were dropped and leaked.
---
 runtime/dispatch_generic.c | 58 ++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 24 deletions(-)

diff --git a/runtime/dispatch_generic.c b/runtime/dispatch_generic.c
index 3f76a4d..750699b 100644
--- a/runtime/dispatch_generic.c
+++ b/runtime/dispatch_generic.c
@@ -103,8 +103,10 @@ void gracht_worker_pool_destroy(struct gracht_worker_pool* pool)
 
     // destroy pool of workers
     for (i = 0; i < pool->worker_count; i++) {
+        mtx_lock(&pool->workers[i].sync_object);
         pool->workers[i].state = WORKER_SHUTDOWN_REQUEST;
         cnd_signal(&pool->workers[i].signal);
+        mtx_unlock(&pool->workers[i].sync_object);
 
         // wait for cleanup
         thrd_join(pool->workers[i].id, &exitCode);
@@ -119,21 +121,33 @@ void gracht_worker_pool_destroy(struct gracht_worker_pool* pool)
 void gracht_worker_pool_dispatch(struct gracht_worker_pool* pool, struct gracht_message* recvMessage)
 {
     struct gracht_worker* worker;
+    int                   status = -1;
+    int                   i;
 
     if (!pool || !recvMessage) {
         return;
     }
 
-    worker = &pool->workers[pool->rr_index];
-    mtx_lock(&worker->sync_object);
-    gr_queue_enqueue(&worker->job_queue, recvMessage);
-    mtx_unlock(&worker->sync_object);
-    cnd_signal(&worker->signal);
+    // if the queue of the next worker is full, then try the others
+    for (i = 0; i < pool->worker_count && status; i++) {
+        worker = &pool->workers[pool->rr_index];
+        mtx_lock(&worker->sync_object);
+        status = gr_queue_enqueue(&worker->job_queue, recvMessage);
+        mtx_unlock(&worker->sync_object);
+        cnd_signal(&worker->signal);
+
+        // increase round robin index and handle limit
+        pool->rr_index++;
+        if (pool->rr_index == pool->worker_count) {
+            pool->rr_index = 0;
+        }
+    }
 
-    // increase round robin index and handle limit
-    pool->rr_index++;
-    if (pool->rr_index == pool->worker_count) {
-        pool->rr_index = 0;
+    // no worker can take more messages, handle it here so we do not lose it
+    if (status) {
+        struct gracht_server* server = recvMessage->server;
+        server_invoke_action(server, recvMessage);
+        server_cleanup_message(server, recvMessage);
     }
 }
 
@@ -175,20 +189,17 @@ static int worker_dowork(void* context)
     GRTRACE(GRSTR("worker_dowork: running"));
 
     worker = workerContext->worker;
-    worker->state = WORKER_ALIVE;
-    while (1) {
-        mtx_lock(&worker->sync_object);
+
+    // the state and the queue are only accessed while holding the lock
+    mtx_lock(&worker->sync_object);
+    if (worker->state == WORKER_STARTUP) {
+        worker->state = WORKER_ALIVE;
+    }
+    while (worker->state != WORKER_SHUTDOWN_REQUEST) {
         job = gr_queue_dequeue(&worker->job_queue);
         if (!job) {
             cnd_wait(&worker->signal, &worker->sync_object);
-            if (worker->state == WORKER_SHUTDOWN_REQUEST) {
-                worker->state = WORKER_SHUTDOWN;
-                mtx_unlock(&worker->sync_object);
-                break;
-            }
-
-            job = gr_queue_dequeue(&worker->job_queue);
-            // assert(job_header != NULL);
+            continue;
         }
         mtx_unlock(&worker->sync_object);
 
@@ -198,11 +209,10 @@ static int worker_dowork(void* context)
         server_cleanup_message(workerContext->server, job);
 
         // check again at exit of iteration
-        if (worker->state == WORKER_SHUTDOWN_REQUEST) {
-            worker->state = WORKER_SHUTDOWN;
-            break;
-        }
+        mtx_lock(&worker->sync_object);
     }
+    worker->state = WORKER_SHUTDOWN;
+    mtx_unlock(&worker->sync_object);
     GRTRACE(GRSTR("worker_dowork: shutting down"));
 
     job = gr_queue_dequeue(&worker->job_queue);
-- 
2.43.0


From b19a9e889be5ebe4efbe0a1e79bfb20528055ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:45 +0000
Subject: [PATCH 05/39] fix: requests that arrive in pieces, right before a
 disconnect or with a bad length are lost or overrun memory

---
 runtime/link/socket/server.c | 114 ++++++++++++++++++++++++++++++-----
 runtime/server.c             |  49 ++++++++++-----
 2 files changed, 131 insertions(+), 32 deletions(-)

diff --git a/runtime/link/socket/server.c b/runtime/link/socket/server.c
index 01ccb1f..72ef1d7 100644
--- a/runtime/link/socket/server.c
+++ b/runtime/link/socket/server.c
@@ -37,6 +37,8 @@ struct socket_link_client {
     gracht_conn_t               socket;
     gracht_conn_t               link;
     int                         streaming;
+    uint8_t*                    pending;        // incomplete message received so far
+    uint32_t                    pending_length;
 #ifdef _WIN32
     WSABUF                      waitbuf;
     uint8_t                     headerbuf[GRACHT_MESSAGE_HEADER_SIZE];
@@ -117,15 +119,90 @@ static int socket_link_send_client(struct socket_link_client* client,
     return 0;
 }
 
+#ifndef _WIN32
+// keeps what has been received of a message untill the rest of it arrives
+static int store_pending(struct socket_link_client* client, struct gracht_message* context, uint32_t received)
+{
+    uint8_t* pending;
+
+    if (received == client->pending_length) {
+        return 0;
+    }
+
+    pending = realloc(client->pending, received);
+    if (!pending) {
+        return -1;
+    }
+    memcpy(pending, &context->payload[0], received);
+    client->pending        = pending;
+    client->pending_length = received;
+    return 0;
+}
+
+// Receives the next message of a client, a message can arrive in any number of pieces. Fatal conditions
+// are reported as EFAULT, which includes lengths that can not be right as there is then no way of finding
+// the next message.
+static int recv_message(struct socket_link_client* client, struct gracht_message* context,
+    uint32_t capacity, unsigned int socketFlags)
+{
+    uint32_t expected = GRACHT_MESSAGE_HEADER_SIZE;
+    uint32_t received = client->pending_length;
+
+    if (received) {
+        memcpy(&context->payload[0], client->pending, received);
+    }
+
+    while (1) {
+        intmax_t bytesRead;
+
+        if (received >= GRACHT_MESSAGE_HEADER_SIZE) {
+            expected = *((uint32_t*)&context->payload[4]);
+            if (expected < GRACHT_MESSAGE_HEADER_SIZE || expected > capacity) {
+                GRERROR(GRSTR("socket_link_recv_client invalid message length %u"), expected);
+                errno = EFAULT;
+                return -1;
+            }
+
+            if (received == expected) {
+                break;
+            }
+        }
+
+        bytesRead = recv(client->base.handle, &context->payload[received],
+            (size_t)(expected - received), (int)socketFlags);
+        if (bytesRead > 0) {
+            received += (uint32_t)bytesRead;
+        } else if (bytesRead == 0) {
+            errno = EFAULT;
+            return -1;
+        } else if (errno == EAGAIN || errno == EWOULDBLOCK) {
+            if (store_pending(client, context, received)) {
+                errno = EFAULT;
+                return -1;
+            }
+            errno = EAGAIN;
+            return -1;
+        } else if (errno != EINTR) {
+            errno = EFAULT;
+            return -1;
+        }
+    }
+
+    client->pending_length = 0;
+    return 0;
+}
+#endif
+
 static int socket_link_recv_client(struct socket_link_client* client,
     struct gracht_message* context, unsigned int flags)
 {
-    unsigned int socketFlags = get_socket_flags(flags);
-    intmax_t     bytesRead;
-    uint32_t     missingData;
-    
+    uint32_t capacity = context->index;
+    uint32_t length;
+
     GRTRACE(GRSTR("socket_link_recv_client reading message header"));
 #ifdef _WIN32
+    intmax_t bytesRead;
+    uint32_t missingData;
     DWORD overlappedFlags;
     DWORD overlappedLength;
     BOOL  status;
@@ -153,19 +230,14 @@ static int socket_link_recv_client(struct socket_link_client* client,
             return -1;
         }
     }
-#else
-    bytesRead = recv(client->base.handle, &context->payload[0], GRACHT_MESSAGE_HEADER_SIZE, socketFlags);
-    if (bytesRead != GRACHT_MESSAGE_HEADER_SIZE) {
-        if (bytesRead == 0) {
-            errno = ENODATA;
-        }
+
+    length = *((uint32_t*)&context->payload[4]);
+    if (length < GRACHT_MESSAGE_HEADER_SIZE || length > capacity) {
+        errno = EFAULT;
         return -1;
     }
-#endif
-    
-    GRTRACE(GRSTR("socket_link_recv_client message id %u, length of message %u"), 
-        *((uint32_t*)&context->payload[0]), *((uint32_t*)&context->payload[4]));
-    missingData = *((uint32_t*)&context->payload[4]) - GRACHT_MESSAGE_HEADER_SIZE;
+
+    missingData = length - GRACHT_MESSAGE_HEADER_SIZE;
     if (missingData) {
         GRTRACE(GRSTR("socket_link_recv_client reading message payload"));
         bytesRead = recv(client->base.handle, &context->payload[GRACHT_MESSAGE_HEADER_SIZE], 
@@ -178,12 +250,20 @@ static int socket_link_recv_client(struct socket_link_client* client,
             return -1;
         }
     }
+#else
+    if (recv_message(client, context, capacity, get_socket_flags(flags))) {
+        return -1;
+    }
+    length = *((uint32_t*)&context->payload[4]);
+#endif
+    GRTRACE(GRSTR("socket_link_recv_client message id %u, length of message %u"), 
+        *((uint32_t*)&context->payload[0]), length);
 
     // ->server is set by server
     context->link   = client->link;
     context->client = client->socket;
     context->index  = 0;
-    context->size   = *((uint32_t*)&context->payload[4]);
+    context->size   = length;
 
 #ifdef _WIN32
     // queue up another read
@@ -244,6 +324,7 @@ static int socket_link_destroy_client(struct socket_link_client* client, gracht_
         }
     }
     status = close(client->base.handle);
+    free(client->pending);
     free(client);
     return status;
 }
@@ -414,6 +495,7 @@ static int socket_link_accept(
         return -1;
     }
     client->base.handle = client->socket;
+    client->link        = link->base.connection;
     client->streaming   = 1;
     
     status = socket_aio_add(set_handle, client->socket);
diff --git a/runtime/server.c b/runtime/server.c
index dd6a2bb..5cef9dd 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -293,7 +293,7 @@ static struct gracht_message* get_in_buffer_st(struct gracht_server* server)
 {
     struct gracht_message* message = (struct gracht_message*)server->recvBuffer;
     message->server = server;
-    message->index  = server->allocationSize;
+    message->index  = server->allocationSize - sizeof(struct gracht_message);
     return message;
 }
 
@@ -320,10 +320,11 @@ static void dispatch_mt(struct gracht_server* server, struct gracht_message* mes
         server_cleanup_message(server, message);
     }
     else {
-        uint32_t messageLength  = *((uint32_t*)&message->payload[message->index + MSG_INDEX_LEN]);
-        uint32_t metaDatalength = sizeof(struct gracht_message) + message->index;
-
-        gracht_arena_free(server->arena, message, server->allocationSize - messageLength - metaDatalength);
+        // give back what the message does not use
+        size_t unused = server->allocationSize - sizeof(struct gracht_message) - message->size;
+        if (unused) {
+            gracht_arena_free(server->arena, message, unused);
+        }
         gracht_worker_pool_dispatch(server->worker_pool, message);
     }
 }
@@ -332,14 +333,17 @@ static struct gracht_message* get_in_buffer_mt(struct gracht_server* server)
 {
     struct gracht_message* message;
     message = gracht_arena_allocate(server->arena, NULL, server->allocationSize);
+    if (!message) {
+        return NULL;
+    }
     message->server = server;
-    message->index  = server->allocationSize;
+    message->index  = server->allocationSize - sizeof(struct gracht_message);
     return message;
 }
 
 static void put_message_mt(struct gracht_server* server, struct gracht_message* message)
 {
-    gracht_arena_free(server->arena, message, server->allocationSize);
+    gracht_arena_free(server->arena, message, 0);
 }
 
 static int handle_packet(struct gracht_server* server, struct gracht_link* link)
@@ -349,6 +353,12 @@ static int handle_packet(struct gracht_server* server, struct gracht_link* link)
     
     while (1) {
         struct gracht_message* message = server->ops->get_incoming_buffer(server);
+        if (!message) {
+            // leave the packets in the link, we are notified about them again
+            GRERROR(GRSTR("handle_packet ran out of receiving buffers"));
+            errno = ENOMEM;
+            return -1;
+        }
 
         status = link->ops.server.recv(link, message, 0);
         if (status) {
@@ -380,12 +390,9 @@ static int handle_client_event(struct gracht_server* server, gracht_conn_t handl
     int status;
     GRTRACE(GRSTR("handle_client_event %" F_CONN_T ", 0x%x"), handle, events);
     
-    // Check for control event. On non-passive sockets, control event is the
-    // disconnect event.
-    if (events & GRACHT_AIO_EVENT_DISCONNECT) {
-        client_destroy(server, handle);
-    }
-    else if ((events & GRACHT_AIO_EVENT_IN) || !events) {
+    // Handle everything that was received before looking at the disconnect event, the client
+    // may have sent requests right before it disconnected.
+    if ((events & GRACHT_AIO_EVENT_IN) || !events) {
         struct client_wrapper* entry;
         
         rwlock_r_lock(&server->clients_lock);
@@ -393,6 +400,8 @@ static int handle_client_event(struct gracht_server* server, gracht_conn_t handl
         while (entry) {
             struct gracht_message* message = server->ops->get_incoming_buffer(server);
             if (!message) {
+                // leave the data in the link, we are notified about it again
+                rwlock_r_unlock(&server->clients_lock);
                 GRERROR(GRSTR("handle_client_event ran out of receiving buffers"));
                 errno = ENOMEM;
                 return -1;
@@ -400,17 +409,19 @@ static int handle_client_event(struct gracht_server* server, gracht_conn_t handl
             
             status = entry->link->ops.server.recv_client(entry->client, message, 0);
             if (status) {
+                int reason = errno;
+
                 server->ops->put_message(server, message);
                 rwlock_r_unlock(&server->clients_lock);
 
                 // silence the three below error codes, those are expected
-                if (errno != ENODATA && errno != EAGAIN && errno != EFAULT) {
-                    GRERROR(GRSTR("handle_client_event server_object.link->recv_client returned %i"), errno);
+                if (reason != ENODATA && reason != EAGAIN && reason != EFAULT) {
+                    GRERROR(GRSTR("handle_client_event server_object.link->recv_client returned %i"), reason);
                 }
 
                 // detect cases of disconnection or transmission failures that are fatal.
                 // in these cases we expect the underlying link to specify EFAULT
-                if (errno == EFAULT) {
+                if (reason == EFAULT || (events & GRACHT_AIO_EVENT_DISCONNECT)) {
                     GRTRACE(GRSTR("handle_client_event client disconnected, cleaning up"));
                     client_destroy(server, handle);
                 }
@@ -421,6 +432,12 @@ static int handle_client_event(struct gracht_server* server, gracht_conn_t handl
         }
         rwlock_r_unlock(&server->clients_lock);
     }
+
+    // Check for control event. On non-passive sockets, control event is the
+    // disconnect event.
+    if (events & GRACHT_AIO_EVENT_DISCONNECT) {
+        client_destroy(server, handle);
+    }
     return 0;
 }
 
-- 
2.43.0


From 4c8136ed5cf13a79a35f26c9b59244034d27e548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:18 +0000
Subject: [PATCH 06/39] fix: messages to a client are mixed, cut short or kill
 the process

---
 runtime/link/socket/server.c    | 38 +++++++++++++++++++++++++++------
 runtime/link/socket/socket_os.h |  4 ++++
 2 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/runtime/link/socket/server.c b/runtime/link/socket/server.c
index 72ef1d7..86852dc 100644
--- a/runtime/link/socket/server.c
+++ b/runtime/link/socket/server.c
@@ -26,6 +26,7 @@
 #include "logging.h"
 #include "crc.h"
 #include "server_private.h"
+#include "thread_api.h"
 #include <stdlib.h>
 #include <string.h>
 
@@ -37,6 +38,7 @@ struct socket_link_client {
     gracht_conn_t               socket;
     gracht_conn_t               link;
     int                         streaming;
+    mtx_t                       send_lock;      // keeps messages from being mixed with each other
     uint8_t*                    pending;        // incomplete message received so far
     uint32_t                    pending_length;
 #ifdef _WIN32
@@ -60,9 +62,11 @@ static int queue_accept(struct gracht_link_socket* link, gracht_handle_t iocp_ha
         return -1;
     }
     memset(client, 0, sizeof(struct socket_link_client));
+    mtx_init(&client->send_lock, mtx_plain);
 
     client->socket = WSASocket(link->domain, SOCK_STREAM, IPPROTO_TCP, NULL, 0, WSA_FLAG_OVERLAPPED);
     if (client->socket == INVALID_SOCKET) {
+        mtx_destroy(&client->send_lock);
         free(client);
         errno = ENODEV;
         return -1;
@@ -80,6 +84,7 @@ static int queue_accept(struct gracht_link_socket* link, gracht_handle_t iocp_ha
         DWORD reason = WSAGetLastError();
         if (reason != WSA_IO_PENDING) {
             closesocket(client->socket);
+            mtx_destroy(&client->send_lock);
             free(client);
             return -1;
         }
@@ -104,19 +109,34 @@ static unsigned int get_socket_flags(unsigned int flags)
 static int socket_link_send_client(struct socket_link_client* client,
     struct gracht_buffer* message, unsigned int flags)
 {
-    unsigned int socketFlags = get_socket_flags(flags);
-    intmax_t     bytesWritten;
+    unsigned int socketFlags = get_socket_flags(flags) | MSG_NOSIGNAL;
+    uint32_t     sent = 0;
 
+    GRTRACE(GRSTR("[socket_link_send] sending message"));
+    mtx_lock(&client->send_lock);
 #ifdef _WIN32
     __set_nonblocking_if_needed(client->base.handle, flags);
 #endif
 
-    GRTRACE(GRSTR("[socket_link_send] sending message"));
-    bytesWritten = send(client->base.handle, &message->data[0], message->index, socketFlags);
-    if (bytesWritten != message->index) {
-        return -1;
+    while (sent < message->index) {
+        intmax_t bytesWritten = send(client->base.handle, &message->data[sent], message->index - sent, (int)socketFlags);
+        if (bytesWritten < 0) {
+            if (errno == EINTR) {
+                continue;
+            }
+            break;
+        }
+        sent += (uint32_t)bytesWritten;
+
+        // once a part of the message has been sent the rest must follow, otherwise the
+        // receiver has no way of finding the next message.
+        socketFlags &= ~((unsigned int)MSG_DONTWAIT);
+#ifdef _WIN32
+        __set_nonblocking_if_needed(client->base.handle, GRACHT_MESSAGE_BLOCK);
+#endif
     }
-    return 0;
+    mtx_unlock(&client->send_lock);
+    return sent == message->index ? 0 : -1;
 }
 
 #ifndef _WIN32
@@ -296,6 +316,7 @@ static int socket_link_create_client(struct gracht_link_socket* link, struct gra
     }
 
     memset(client, 0, sizeof(struct socket_link_client));
+    mtx_init(&client->send_lock, mtx_plain);
     client->base.handle = message->client;
     client->socket      = link->base.connection;
     client->streaming   = 0;
@@ -325,6 +346,7 @@ static int socket_link_destroy_client(struct socket_link_client* client, gracht_
     }
     status = close(client->base.handle);
     free(client->pending);
+    mtx_destroy(&client->send_lock);
     free(client);
     return status;
 }
@@ -487,10 +509,12 @@ static int socket_link_accept(
     }
 
     memset(client, 0, sizeof(struct socket_link_client));
+    mtx_init(&client->send_lock, mtx_plain);
 
     client->socket = accept(link->base.connection, (struct sockaddr*)&client->address, &address_length);
     if (client->socket < 0) {
         GRERROR(GRSTR("socket_link_accept failed to accept client: %i - %i"), client->socket, errno);
+        mtx_destroy(&client->send_lock);
         free(client);
         return -1;
     }
diff --git a/runtime/link/socket/socket_os.h b/runtime/link/socket/socket_os.h
index 48cc463..be44a39 100644
--- a/runtime/link/socket/socket_os.h
+++ b/runtime/link/socket/socket_os.h
@@ -144,6 +144,10 @@ static inline void __set_nonblocking_if_needed(gracht_conn_t socket, unsigned in
 
 #endif
 
+#ifndef MSG_NOSIGNAL
+#define MSG_NOSIGNAL 0
+#endif
+
 struct gracht_link_socket {
     struct gracht_link      base;
     int                     listen;
-- 
2.43.0


From 4117ee3094d98ddf1da887655bb45454174bad20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:12 +0000
Subject: [PATCH 07/39] fix: answers to a client that left reach whoever got
 its handle, and lose their buffer

---
 include/gracht/types.h |  1 +
 runtime/server.c       | 86 ++++++++++++++++++++++++++++++------------
 2 files changed, 62 insertions(+), 25 deletions(-)

diff --git a/include/gracht/types.h b/include/gracht/types.h
index 9b38682..6ea4b29 100644
--- a/include/gracht/types.h
+++ b/include/gracht/types.h
@@ -112,6 +112,7 @@ struct gracht_message {
     gracht_server_t* server;  // server instance message is received on
     gracht_conn_t    link;    // link message is received on
     gracht_conn_t    client;  // client context on the link
+    uint32_t         session; // used internally to tell apart clients that were given the same context
     uint32_t         size;    // size of the payload
     uint32_t         index;   // used internally for payload storage
     uint8_t          payload[]; // payload follows this message header
diff --git a/runtime/server.c b/runtime/server.c
index 5cef9dd..3b75948 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -42,6 +42,7 @@
 
 struct client_wrapper {
     gracht_conn_t                handle;
+    uint32_t                     session; // handles are reused, sessions are not
     struct gracht_link*          link;
     struct gracht_server_client* client;
 };
@@ -83,6 +84,7 @@ typedef struct gracht_server {
     struct rwlock                  protocols_lock;
     gr_hashtable_t                 clients;
     struct rwlock                  clients_lock;
+    uint32_t                       session;
     struct link_table              link_table;
 } gracht_server_t;
 
@@ -124,6 +126,7 @@ static void     client_enum_broadcast(int index, const void* element, void* user
 
 
 static int configure_server(struct gracht_server*, gracht_server_configuration_t*);
+static int send_reply(struct gracht_message*, gracht_buffer_t*);
 
 int gracht_server_create(gracht_server_configuration_t* config, gracht_server_t** serverOut)
 {
@@ -277,6 +280,7 @@ static int handle_connection(struct gracht_server* server, struct gracht_link* l
     rwlock_w_lock(&server->clients_lock);
     gr_hashtable_set(&server->clients, &(struct client_wrapper) { 
         .handle = client->handle,
+        .session = ++(server->session),
         .link = link,
         .client = client
     });
@@ -428,6 +432,7 @@ static int handle_client_event(struct gracht_server* server, gracht_conn_t handl
                 return 0;
             }
 
+            message->session = entry->session;
             server->ops->dispatch(server, message);
         }
         rwlock_r_unlock(&server->clients_lock);
@@ -516,6 +521,30 @@ void gracht_server_request_shutdown(gracht_server_t* server)
     server->state = SHUTDOWN_REQUESTED;
 }
 
+// Tells the sender of a message that the message could not be handled
+static void report_unknown_action(struct gracht_message* recvMessage, uint32_t messageId)
+{
+    gracht_buffer_t buffer;
+    int             errorCode = ENOENT;
+
+    if (gracht_server_get_buffer(recvMessage->server, &buffer)) {
+        return;
+    }
+
+    GB_MSG_ID_0(&buffer)  = 0;
+    GB_MSG_SID_0(&buffer) = SERVICE_GRACHT_CONTROL_ID;
+    GB_MSG_AID_0(&buffer) = SERVICE_GRACHT_CONTROL_EVENT_ERROR_ID;
+    GB_MSG_FLG_0(&buffer) = MESSAGE_FLAG_EVENT;
+    buffer.index = GRACHT_MESSAGE_HEADER_SIZE;
+
+    memcpy(&buffer.data[buffer.index], &messageId, sizeof(messageId));
+    buffer.index += sizeof(messageId);
+    memcpy(&buffer.data[buffer.index], &errorCode, sizeof(errorCode));
+    buffer.index += sizeof(errorCode);
+    GB_MSG_LEN_0(&buffer) = buffer.index;
+    send_reply(recvMessage, &buffer);
+}
+
 void server_invoke_action(struct gracht_server* server, struct gracht_message* recvMessage)
 {
     gracht_protocol_function_t* function;
@@ -534,7 +563,7 @@ void server_invoke_action(struct gracht_server* server, struct gracht_message* r
     rwlock_r_unlock(&server->protocols_lock);
     if (!function) {
         GRWARNING(GRSTR("server_invoke_action failed to invoke server action"));
-        gracht_control_event_error_single(server, recvMessage->client, messageId, ENOENT);
+        report_unknown_action(recvMessage, messageId);
         return;
     }
 
@@ -640,36 +669,27 @@ int gracht_server_get_buffer(gracht_server_t* server, gracht_buffer_t* buffer)
     return 0;
 }
 
-int gracht_server_respond(struct gracht_message* messageContext, gracht_buffer_t* message)
+// Sends a message to the sender of a request, and returns the buffer of the message to the server
+static int send_reply(struct gracht_message* messageContext, gracht_buffer_t* message)
 {
     struct client_wrapper* entry;
+    struct gracht_link*    link;
     int                    status;
 
-    if (!messageContext || !message) {
-        GRERROR(GRSTR("gracht_server: null message or context"));
-        errno = EINVAL;
-        return -1;
-    }
-
-    // update message header
-    GB_MSG_ID_0(message)  = *((uint32_t*)&messageContext->payload[messageContext->index]);
-    GB_MSG_LEN_0(message) = message->index;
-
-    rwlock_r_lock(&messageContext->server->clients_lock);
-    entry = gr_hashtable_get(&messageContext->server->clients, &(struct client_wrapper){ .handle = messageContext->client });
-    if (!entry) {
-        struct gracht_link* link;
-        
-        rwlock_r_unlock(&messageContext->server->clients_lock);
-        link = get_link_by_conn(messageContext->server, messageContext->link);
-        if (!link) {
-            errno = ENODEV;
-            return -1;
-        }
+    // requests received on connection-less links carry the address of the sender
+    link = get_link_by_conn(messageContext->server, messageContext->link);
+    if (link && link->type == gracht_link_packet_based) {
         status = link->ops.server.send(link, messageContext, message);
     }
     else {
-        status = entry->link->ops.server.send_client(entry->client, message, GRACHT_MESSAGE_BLOCK);
+        rwlock_r_lock(&messageContext->server->clients_lock);
+        entry = gr_hashtable_get(&messageContext->server->clients, &(struct client_wrapper){ .handle = messageContext->client });
+        if (entry && entry->session == messageContext->session) {
+            status = entry->link->ops.server.send_client(entry->client, message, GRACHT_MESSAGE_BLOCK);
+        } else {
+            errno  = ENODEV;
+            status = -1;
+        }
         rwlock_r_unlock(&messageContext->server->clients_lock);
     }
 
@@ -678,6 +698,20 @@ int gracht_server_respond(struct gracht_message* messageContext, gracht_buffer_t
     return status;
 }
 
+int gracht_server_respond(struct gracht_message* messageContext, gracht_buffer_t* message)
+{
+    if (!messageContext || !message) {
+        GRERROR(GRSTR("gracht_server: null message or context"));
+        errno = EINVAL;
+        return -1;
+    }
+
+    // update message header
+    GB_MSG_ID_0(message)  = *((uint32_t*)&messageContext->payload[messageContext->index]);
+    GB_MSG_LEN_0(message) = message->index;
+    return send_reply(messageContext, message);
+}
+
 int gracht_server_send_event(gracht_server_t* server, gracht_conn_t client, gracht_buffer_t* message, unsigned int flags)
 {
     struct client_wrapper* clientEntry;
@@ -695,6 +729,7 @@ int gracht_server_send_event(gracht_server_t* server, gracht_conn_t client, grac
     clientEntry = gr_hashtable_get(&server->clients, &(struct client_wrapper){ .handle = client });
     if (!clientEntry) {
         rwlock_r_unlock(&server->clients_lock);
+        stack_push(&server->bufferStack, message->data);
         errno = ENOENT;
         return -1;
     }
@@ -875,7 +910,8 @@ void gracht_control_subscribe_invocation(const struct gracht_message* message, c
             return;
         }
 
-        newEntry.handle = message->client;
+        newEntry.handle  = message->client;
+        newEntry.session = 0;
 
         // this does not have to be serialized with the above read lock due to the fact that all
         // write-locks are only acquired by this thread. So any changes made are only the ones we make
-- 
2.43.0


From 28f44c7e7311f9be028d35f45531ba9aeb701d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:12 +0000
Subject: [PATCH 08/39] fix: clientDisconnected is called for clients that are
 not connected

---
 runtime/server.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/runtime/server.c b/runtime/server.c
index 3b75948..0383f8a 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -836,6 +836,14 @@ static void client_destroy(struct gracht_server* server, gracht_conn_t client)
 {
     struct client_wrapper* entry;
 
+    // only this thread removes clients, so the client will not go away in the meantime
+    rwlock_r_lock(&server->clients_lock);
+    entry = gr_hashtable_get(&server->clients, &(struct client_wrapper){ .handle = client });
+    rwlock_r_unlock(&server->clients_lock);
+    if (!entry) {
+        return;
+    }
+
     if (server->callbacks.clientDisconnected) {
         server->callbacks.clientDisconnected(client);
     }
@@ -905,6 +913,10 @@ void gracht_control_subscribe_invocation(const struct gracht_message* message, c
 
         // lookup the connection as the client wasn't recorded on a specific link
         newEntry.link = get_link_by_conn(message->server, message->link);
+        if (!newEntry.link) {
+            return;
+        }
+
         if (newEntry.link->ops.server.create_client(newEntry.link, (struct gracht_message*)message, &newEntry.client)) {
             GRERROR(GRSTR("gracht_control_subscribe_invocation server_object.link->create_client returned error"));
             return;
-- 
2.43.0


From d3c0171379b64a9e31728e485cce029a1ca84538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:29 +0000
Subject: [PATCH 09/39] fix: packet links answer nobody, trust packet lengths
 and close the link with a client

---
 runtime/link/socket/server.c | 53 +++++++++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 16 deletions(-)

diff --git a/runtime/link/socket/server.c b/runtime/link/socket/server.c
index 86852dc..743beaa 100644
--- a/runtime/link/socket/server.c
+++ b/runtime/link/socket/server.c
@@ -35,6 +35,7 @@
 struct socket_link_client {
     struct gracht_server_client base;
     struct sockaddr_storage     address;
+    socklen_t                   address_length;
     gracht_conn_t               socket;
     gracht_conn_t               link;
     int                         streaming;
@@ -113,6 +114,13 @@ static int socket_link_send_client(struct socket_link_client* client,
     uint32_t     sent = 0;
 
     GRTRACE(GRSTR("[socket_link_send] sending message"));
+    if (!client->streaming) {
+        // connection-less clients share the socket of the link, packets are sent as one
+        intmax_t bytesWritten = sendto(client->socket, &message->data[0], message->index, (int)socketFlags,
+            (const struct sockaddr*)&client->address, client->address_length);
+        return bytesWritten == (intmax_t)message->index ? 0 : -1;
+    }
+
     mtx_lock(&client->send_lock);
 #ifdef _WIN32
     __set_nonblocking_if_needed(client->base.handle, flags);
@@ -302,7 +310,6 @@ static int socket_link_create_client(struct gracht_link_socket* link, struct gra
     struct socket_link_client** clientOut)
 {
     struct socket_link_client* client;
-    struct sockaddr_storage*   address;
     
     if (!link || !message || !clientOut) {
         errno = (EINVAL);
@@ -321,8 +328,9 @@ static int socket_link_create_client(struct gracht_link_socket* link, struct gra
     client->socket      = link->base.connection;
     client->streaming   = 0;
 
-    address = (struct sockaddr_storage*)&message->payload[0];
-    memcpy(&client->address, address, (size_t)link->address_length);
+    // the address of the sender is stored in front of the message
+    client->address_length = (socklen_t)message->index;
+    memcpy(&client->address, &message->payload[0], (size_t)message->index);
     
     *clientOut = client;
     return 0;
@@ -343,8 +351,10 @@ static int socket_link_destroy_client(struct socket_link_client* client, gracht_
         if (status) {
             GRWARNING(GRSTR("socket_link_destroy_client failed to remove client socket from set_handle"));
         }
+        status = close(client->base.handle);
+    } else {
+        status = 0; // the socket belongs to the link
     }
-    status = close(client->base.handle);
     free(client->pending);
     mtx_destroy(&client->send_lock);
     free(client);
@@ -535,7 +545,8 @@ static int socket_link_accept(
 static int socket_link_recv_packet(struct gracht_link_socket* link, 
     struct gracht_message* context, unsigned int flags)
 {
-    socklen_t    addrlen     = link->address_length;
+    // make room for any kind of address, the sender may use a longer one than the link
+    socklen_t    addrlen     = sizeof(struct sockaddr_storage);
     char*        base        = (char*)&context->payload[addrlen];
     size_t       len         = context->index - addrlen;
     unsigned int socketFlags = get_socket_flags(flags);
@@ -562,7 +573,7 @@ static int socket_link_recv_packet(struct gracht_link_socket* link,
     // store initial bytes received (header) and store the address
     memcpy(base, &link->buffer[0], overlappedLength);
     memcpy(&context->payload[0], &link->buffer[GRACHT_MESSAGE_HEADER_SIZE], link->recvLength);
-    // link->recvLength should == link->address_length
+    addrlen = link->recvLength;
 
     // read the rest of the message
     GRTRACE(GRSTR("socket_link_recv_packet reading rest of message"));
@@ -573,17 +584,26 @@ static int socket_link_recv_packet(struct gracht_link_socket* link,
         }
         return -1;
     }
+    memmove(&context->payload[addrlen], base, overlappedLength + bytesRead);
 #else
     // Packets are atomic, either the full packet is there, or none is. So avoid
-    // the use of MSG_WAITALL here.
-    intmax_t bytesRead = (intmax_t)recvfrom(link->base.connection, base, len, 
-        socketFlags, (struct sockaddr*)&context->payload[0], &addrlen);
-    if (bytesRead <= 0) {
-        if (bytesRead == 0) {
-            errno = (ENODATA);
+    // the use of MSG_WAITALL here. Packets that do not hold exactly one message are dropped
+    intmax_t bytesRead;
+    do {
+        addrlen   = sizeof(struct sockaddr_storage);
+        bytesRead = (intmax_t)recvfrom(link->base.connection, base, len, 
+            (int)socketFlags, (struct sockaddr*)&context->payload[0], &addrlen);
+        if (bytesRead < 0) {
+            return -1;
         }
-        return -1;
+    } while (bytesRead < GRACHT_MESSAGE_HEADER_SIZE || *((uint32_t*)&base[4]) != (uint32_t)bytesRead);
+
+    if (addrlen > (socklen_t)sizeof(struct sockaddr_storage)) {
+        addrlen = sizeof(struct sockaddr_storage);
     }
+
+    // the message must follow right after the address
+    memmove(&context->payload[addrlen], base, (size_t)bytesRead);
 #endif
 
     addressCrc = crc32_generate((const unsigned char*)&context->payload[0], (size_t)addrlen);
@@ -615,15 +635,16 @@ static int socket_link_send_packet(struct gracht_link_socket* link,
     struct gracht_message* messageContext, struct gracht_buffer* message)
 {
     long bytesWritten;
-    (void)messageContext;
 
     if (link->base.type != gracht_link_packet_based) {
         errno = ENOSYS;
         return -1;
     }
     
-    bytesWritten = (long)send(link->base.connection, &message->data[0], message->index, MSG_WAITALL);
-    if (bytesWritten != message->index) {
+    // the address of the sender is stored in front of the message
+    bytesWritten = (long)sendto(link->base.connection, &message->data[0], message->index, MSG_NOSIGNAL,
+        (const struct sockaddr*)&messageContext->payload[0], (socklen_t)messageContext->index);
+    if (bytesWritten != (long)message->index) {
         GRERROR(GRSTR("link_server: failed to respond [%li/%i]"), bytesWritten, message->index);
         if (bytesWritten == -1) {
             GRERROR(GRSTR("link_server: errno %i"), errno);
-- 
2.43.0


From c74fb4985d21034f2eff0ad1a2a2166b301eec47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:51 +0000
Subject: [PATCH 10/39] fix: control messages without their parameter act on
 leftover bytes

---
 runtime/control.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/runtime/control.c b/runtime/control.c
index 0b1d22a..e1f381e 100644
--- a/runtime/control.c
+++ b/runtime/control.c
@@ -75,6 +75,9 @@ void __gracht_error_internal(gracht_client_t* __client, gracht_buffer_t* __buffe
 void __gracht_subscribe_internal(struct gracht_message* __message, gracht_buffer_t* __buffer)
 {
     uint8_t __protocol;
+    if (__buffer->index + sizeof(uint8_t) > __message->size) {
+        return; // the message does not hold its parameter
+    }
     __protocol = deserialize_uint8_t(__buffer);
     gracht_control_subscribe_invocation(__message, __protocol);
 }
@@ -82,6 +85,9 @@ void __gracht_subscribe_internal(struct gracht_message* __message, gracht_buffer
 void __gracht_unsubscribe_internal(struct gracht_message* __message, gracht_buffer_t* __buffer)
 {
     uint8_t __protocol;
+    if (__buffer->index + sizeof(uint8_t) > __message->size) {
+        return; // the message does not hold its parameter
+    }
     __protocol = deserialize_uint8_t(__buffer);
     gracht_control_unsubscribe_invocation(__message, __protocol);
 }
-- 
2.43.0


From a39e462c2b68485d86b25df4650366ae5de170ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:41 +0000
Subject: [PATCH 11/39] fix: client loses its place in the stream, overruns its
 buffer and misreads packets

A message of which only a part had arrived was dropped by a non-blocking wait, so that
the next one was read from the middle of it. The announced length was trusted, writing
beyond the receive buffer. Writes could be partial or kill the process with SIGPIPE.
Packets were placed after an address that a connected socket does not need, so that
their header was not found.
---
 runtime/link/socket/client.c    | 143 ++++++++++++++++++++++----------
 runtime/link/socket/socket_os.h |   2 +
 2 files changed, 100 insertions(+), 45 deletions(-)

diff --git a/runtime/link/socket/client.c b/runtime/link/socket/client.c
index 79c1dbd..b69f844 100644
--- a/runtime/link/socket/client.c
+++ b/runtime/link/socket/client.c
@@ -29,52 +29,99 @@
 
 #include "socket_os.h"
 
+#ifdef _WIN32
+#define SOCKET_WOULD_BLOCK()  (WSAGetLastError() == WSAEWOULDBLOCK)
+#define SOCKET_INTERRUPTED()  (WSAGetLastError() == WSAEINTR)
+#else
+#define SOCKET_WOULD_BLOCK()  (errno == EAGAIN || errno == EWOULDBLOCK)
+#define SOCKET_INTERRUPTED()  (errno == EINTR)
+#endif
+
 static int socket_link_send_stream(struct gracht_link_socket* link,
     struct gracht_buffer* message)
 {
-    long byteCount;
-    
-    byteCount = (long)send(link->base.connection, &message->data[0], message->index, 0);
-    if ((uint32_t)byteCount != message->index) {
-        GRERROR(GRSTR("link_client: failed to send message, bytes sent: %li, expected: %u (%i)"),
-              byteCount, message->index, errno);
-        errno = (EPIPE);
+    uint32_t sent = 0;
+
+    while (sent < message->index) {
+        long byteCount = (long)send(link->base.connection, &message->data[sent], message->index - sent, MSG_NOSIGNAL);
+        if (byteCount < 0) {
+            if (SOCKET_INTERRUPTED()) {
+                continue;
+            }
+            GRERROR(GRSTR("link_client: failed to send message, bytes sent: %u, expected: %u (%i)"),
+                  sent, message->index, errno);
+            errno = (EPIPE);
+            return -1;
+        }
+        sent += (uint32_t)byteCount;
+    }
+    return 0;
+}
+
+// Keep what has been received of a message, so that the next call can continue from there.
+static int socket_link_store_partial(struct gracht_link_socket* link,
+    struct gracht_buffer* message, uint32_t received)
+{
+    uint8_t* partial;
+
+    if (received == link->partial_length) {
+        return 0;
+    }
+
+    partial = realloc(link->partial, received);
+    if (!partial) {
         return -1;
     }
+    memcpy(partial, &message->data[0], received);
+    link->partial        = partial;
+    link->partial_length = received;
     return 0;
 }
 
 static int socket_link_recv_stream(struct gracht_link_socket* link,
     struct gracht_buffer* message, unsigned int flags)
 {
-    size_t   bytesRead;
-    uint32_t missingData;
-    
-    GRTRACE(GRSTR("[gracht_connection_recv_stream] reading message header"));
-    bytesRead = recv(link->base.connection, &message->data[0], GRACHT_MESSAGE_HEADER_SIZE, flags);
-    if (bytesRead != GRACHT_MESSAGE_HEADER_SIZE) {
-        if (bytesRead == 0) {
-            errno = (ENODATA);
-        }
-        else {
-            errno = (EPIPE);
-        }
-        return -1;
+    uint32_t capacity = message->index;
+    uint32_t expected = GRACHT_MESSAGE_HEADER_SIZE;
+    uint32_t received = link->partial_length;
+    long     bytesRead;
+
+    if (received) {
+        memcpy(&message->data[0], link->partial, received);
     }
-    
-    missingData = *((uint32_t*)&message->data[4]) - GRACHT_MESSAGE_HEADER_SIZE;
-    if (missingData) {
-        GRTRACE(GRSTR("[gracht_connection_recv_stream] reading message payload"));
-        bytesRead = recv(link->base.connection, &message->data[GRACHT_MESSAGE_HEADER_SIZE], missingData, MSG_WAITALL);
-        if (bytesRead != missingData) {
-            // do not process incomplete requests
-            GRERROR(GRSTR("[gracht_connection_recv_message] did not read full amount of bytes (%u, expected %u)"),
-                  (uint32_t)bytesRead, missingData);
+
+    while (1) {
+        if (received >= GRACHT_MESSAGE_HEADER_SIZE) {
+            expected = *((uint32_t*)&message->data[4]);
+            if (expected < GRACHT_MESSAGE_HEADER_SIZE || expected > capacity) {
+                // there is no way of finding the next message, stay at this one
+                GRERROR(GRSTR("[gracht_connection_recv_stream] invalid message length %u"), expected);
+                socket_link_store_partial(link, message, received);
+                errno = (EPIPE);
+                return -1;
+            }
+
+            if (received == expected) {
+                break;
+            }
+        }
+
+        bytesRead = (long)recv(link->base.connection, &message->data[received], expected - received, (int)flags);
+        if (bytesRead > 0) {
+            received += (uint32_t)bytesRead;
+        } else if (bytesRead == 0) {
+            errno = (ENODATA);
+            return -1;
+        } else if (SOCKET_WOULD_BLOCK()) {
+            errno = socket_link_store_partial(link, message, received) ? EPIPE : EAGAIN;
+            return -1;
+        } else if (!SOCKET_INTERRUPTED()) {
             errno = (EPIPE);
-            return -1; 
+            return -1;
         }
     }
 
+    link->partial_length = 0;
     message->index = 0;
     return 0;
 }
@@ -85,7 +132,7 @@ static int socket_link_send_packet(struct gracht_link_socket* link, struct grach
 
     GRTRACE(GRSTR("link_client: send message (%u)"), message->index);
 
-    byteCount = send(link->base.connection, &message->data[0], message->index, 0);
+    byteCount = send(link->base.connection, &message->data[0], message->index, MSG_NOSIGNAL);
     if (byteCount != message->index) {
         GRERROR(GRSTR("link_client: failed to send message, bytes sent: %u, expected: %u"),
               (uint32_t)byteCount, message->index);
@@ -97,27 +144,32 @@ static int socket_link_send_packet(struct gracht_link_socket* link, struct grach
 
 static int socket_link_recv_packet(struct gracht_link_socket* link, struct gracht_buffer* message, unsigned int flags)
 {
-    socklen_t addrlen = link->address_length;
-    char*     base    = &message->data[addrlen];
-    size_t    len     = message->index - addrlen;
-    long      bytes_read;
-    
-    message->index = addrlen;
-    
+    long bytes_read;
+
     // Packets are atomic, either the full packet is there, or none is. So avoid
     // the use of MSG_WAITALL here.
     GRTRACE(GRSTR("[gracht_connection_recv_stream] reading full message"));
-    bytes_read = (long)recvfrom(link->base.connection, base, len, flags, 
-        (struct sockaddr*)&message->data[0], &addrlen);
-    if (bytes_read < GRACHT_MESSAGE_HEADER_SIZE) {
-        if (bytes_read == 0) {
+    while (1) {
+        bytes_read = (long)recv(link->base.connection, &message->data[0], message->index, (int)flags);
+        if (bytes_read < 0) {
+            if (SOCKET_INTERRUPTED()) {
+                continue;
+            }
+            errno = SOCKET_WOULD_BLOCK() ? EAGAIN : EPIPE;
+            return -1;
+        } else if (bytes_read == 0) {
             errno = (ENODATA);
+            return -1;
         }
-        else {
-            errno = (EPIPE);
+
+        // ignore anything that is not exactly one message
+        if (bytes_read >= GRACHT_MESSAGE_HEADER_SIZE &&
+            *((uint32_t*)&message->data[4]) == (uint32_t)bytes_read) {
+            break;
         }
-        return -1;
     }
+
+    message->index = 0;
     return 0;
 }
 
@@ -201,6 +253,7 @@ static void socket_link_destroy(struct gracht_link_socket* link)
     if (link->base.connection != GRACHT_CONN_INVALID) {
         close(link->base.connection);
     }
+    free(link->partial);
     free(link);
 }
 
diff --git a/runtime/link/socket/socket_os.h b/runtime/link/socket/socket_os.h
index be44a39..62bc908 100644
--- a/runtime/link/socket/socket_os.h
+++ b/runtime/link/socket/socket_os.h
@@ -154,6 +154,8 @@ struct gracht_link_socket {
     int                     domain;
     struct sockaddr_storage address;
     socklen_t               address_length;
+    uint8_t*                partial;        // incomplete message received so far (client)
+    uint32_t                partial_length;
 #ifdef _WIN32
     WSABUF                  waitbuf;
     DWORD                   recvFlags;
-- 
2.43.0


From 61f017d9d861331ede1acfafd5497f1fd7e864c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:08 +0000
Subject: [PATCH 12/39] fix: client calls are lost, mixed up or awaited forever

Responses could arrive between the check and the wait of another thread, asynchronous
awaits missed their signal or used a freed awaiter, awaiting any call waited for all,
and a lost connection was retried forever. An event completed the wait for a call, a
late or repeated response replaced one that was being used, and receive memory of
ignored responses was lost. The state of all calls is now guarded by one lock, and
waiting threads look at it again each time it changes.
---
 include/thread_api.h |   7 +
 runtime/client.c     | 438 +++++++++++++------------------------------
 2 files changed, 141 insertions(+), 304 deletions(-)

diff --git a/include/thread_api.h b/include/thread_api.h
index e50074a..fca301e 100644
--- a/include/thread_api.h
+++ b/include/thread_api.h
@@ -56,6 +56,7 @@ typedef pthread_t thrd_t;
 #define cnd_destroy   pthread_cond_destroy
 #define cnd_wait      pthread_cond_wait
 #define cnd_signal    pthread_cond_signal
+#define cnd_broadcast pthread_cond_broadcast
 
 #define thrd_join(thr, ret)          pthread_join(thr, (void**)ret)
 #define thrd_create(thrp, func, arg) pthread_create(thrp, NULL, func, arg)
@@ -109,6 +110,12 @@ static inline int cnd_signal(cnd_t* cnd)
     return thrd_success;
 }
 
+static inline int cnd_broadcast(cnd_t* cnd)
+{
+    WakeAllConditionVariable(cnd);
+    return thrd_success;
+}
+
 static inline int cnd_wait(cnd_t* cnd, mtx_t* mtx)
 {
     BOOL status = SleepConditionVariableCS(cnd, mtx, INFINITE);
diff --git a/runtime/client.c b/runtime/client.c
index 841eaa6..726306f 100644
--- a/runtime/client.c
+++ b/runtime/client.c
@@ -39,32 +39,16 @@
 // On recieving:
 // N+M buffers. One for each event received and for each call in air
 
-struct gracht_message_awaiter {
-    uint32_t      id;
-    unsigned int  flags;
-    cnd_t         event;
-    mtx_t         mutex;
-    int           current_count;
-    int           count;
-};
-
-struct gracht_message_awaiter_entry {
-    uint32_t                       id;
-    struct gracht_message_awaiter* awaiter;
-};
-
 // descriptor | message | params
 struct gracht_message_descriptor {
     uint32_t        id;
     int             status;
-    uint32_t        awaiter_id;
     gracht_buffer_t buffer;
 };
 
 typedef struct gracht_client {
     gracht_conn_t        iod;
     uint32_t             current_message_id;
-    uint32_t             current_awaiter_id;
     struct gracht_link*  link;
     struct gracht_arena* arena;
     int                  max_message_size;
@@ -74,9 +58,9 @@ typedef struct gracht_client {
     gr_hashtable_t       protocols;
     gr_hashtable_t       messages;
     mtx_t                messages_lock;
-    gr_hashtable_t       awaiters;
-    mtx_t                awaiters_lock;
-    mtx_t                wait_lock;
+    cnd_t                messages_event; // signalled each time any of the below changes
+    int                  receiving;      // a thread is currently receiving
+    int                  lost;           // the last attempt to receive failed
 } gracht_client_t;
 
 #define MESSAGE_STATUS_EXECUTED(status) (status == GRACHT_MESSAGE_ERROR || status == GRACHT_MESSAGE_COMPLETED)
@@ -89,12 +73,8 @@ GRACHTAPI int gracht_client_invoke(gracht_client_t*, struct gracht_message_conte
 
 // static methods
 static uint32_t get_message_id(gracht_client_t*);
-static uint32_t get_awaiter_id(gracht_client_t*);
-static void     mark_awaiters(gracht_client_t*, uint32_t);
 static uint64_t message_hash(const void* element);
 static int      message_cmp(const void* element1, const void* element2);
-static uint64_t awaiter_hash(const void* element);
-static int      awaiter_cmp(const void* element1, const void* element2);
 
 static int __add_message(
         gracht_client_t*                   client,
@@ -191,23 +171,29 @@ static int __invoke_action(gracht_client_t* client, struct gracht_buffer* messag
     return 0;
 }
 
+// The messages lock must be held
+static struct gracht_message_descriptor* __get_message(
+        gracht_client_t* client,
+        uint32_t         messageId)
+{
+    return gr_hashtable_get(
+            &client->messages,
+            &(struct gracht_message_descriptor) {
+                .id = messageId
+            }
+    );
+}
+
+// The messages lock must be held
 static int __handle_response(
         gracht_client_t*      client,
         struct gracht_buffer* buffer)
 {
     struct gracht_message_descriptor* descriptor;
-    uint32_t                          awaiterID;
     GRTRACE(GRSTR("__handle_response()"));
 
-    mtx_lock(&client->messages_lock);
-    descriptor = gr_hashtable_get(
-            &client->messages,
-            &(struct gracht_message_descriptor) {
-                .id = GB_MSG_ID(buffer)
-            }
-    );
-    if (!descriptor) {
-        mtx_unlock(&client->messages_lock);
+    descriptor = __get_message(client, GB_MSG_ID(buffer));
+    if (!descriptor || descriptor->status != GRACHT_MESSAGE_INPROGRESS) {
         // what the heck?
         GRERROR(GRSTR("[gracht_client_wait_message] no-one was listening for message %u"), GB_MSG_ID(buffer));
         return -1;
@@ -217,194 +203,146 @@ static int __handle_response(
     descriptor->buffer.data  = buffer->data;
     descriptor->buffer.index = buffer->index + GRACHT_MESSAGE_HEADER_SIZE;
     descriptor->status = GRACHT_MESSAGE_COMPLETED;
-    awaiterID = descriptor->awaiter_id;
-    mtx_unlock(&client->messages_lock);
-
-    // iterate awaiters and mark those that contain this message
-    mark_awaiters(client, awaiterID);
     return 0;
 }
 
-int gracht_client_wait_message(
-        gracht_client_t*               client,
-        struct gracht_message_context* context,
-        unsigned int                   flags)
+// Receives and handles a single message. The messages lock must be held, it is released while receiving
+// and while invoking event callbacks. Only one thread receives at a time, the others wait here until something
+// has changed.
+// Returns 1 if a message was handled, 0 if the caller should look again and -1 if no message can be received.
+static int __pump_message(gracht_client_t* client, unsigned int flags)
 {
     struct gracht_buffer buffer = { 0 };
-    uint32_t             messageId = 0;
     uint8_t              messageFlags;
     int                  status;
-    GRTRACE(GRSTR("gracht_client_wait_message()"));
-
-    if (!client) {
-        errno = (EINVAL);
-        return -1;
-    }
-
-    // We must acquire hold of the client mutex as the mutex must be thread-safe in case
-    // of multiple calling threads. Only one thread can listen for client events at a time, and that
-    // means all other threads must queue up and wait for the thread that listens currently.
-listenForMessage:
-    // check message status
-    if (context) {
-        struct gracht_message_descriptor* descriptor;
 
-        mtx_lock(&client->messages_lock);
-        descriptor = gr_hashtable_get(
-                &client->messages,
-                &(struct gracht_message_descriptor) {
-                        .id = context->message_id
-                }
-        );
-        if (!descriptor) {
-            mtx_unlock(&client->messages_lock);
-            errno = ENOENT;
-            return -1;
-        }
-        if (descriptor->status != GRACHT_MESSAGE_INPROGRESS) {
-            mtx_unlock(&client->messages_lock);
-            return 0;
-        }
-        mtx_unlock(&client->messages_lock);
-    }
-
-    if (mtx_trylock(&client->wait_lock) != thrd_success) {
+    if (client->receiving) {
         if (!(flags & GRACHT_MESSAGE_BLOCK)) {
             errno = EBUSY;
             return -1;
         }
 
-        if (mtx_lock(&client->wait_lock) != thrd_success) {
-            return -1;
-        }
+        cnd_wait(&client->messages_event, &client->messages_lock);
+        return 0;
     }
 
-    // initialize buffer, after this point NO returning, only jump to listenOrExit
+    // initialize buffer
     buffer.data = gracht_arena_allocate(client->arena, NULL, client->max_message_size);
     buffer.index = client->max_message_size;
 
     if (!buffer.data) {
-        mtx_unlock(&client->wait_lock);
         // out of memory. client should handle messages
         errno = ENOMEM;
-        status = -1;
-        goto listenOrExit;
+        return -1;
     }
 
+    client->receiving = 1;
+    mtx_unlock(&client->messages_lock);
     status = client->link->ops.client.recv(client->link, &buffer, flags);
-    mtx_unlock(&client->wait_lock);
+    mtx_lock(&client->messages_lock);
     if (status) {
+        int errorCode = errno;
+
         // In case of any recieving errors we must exit immediately
-        goto listenOrExit;
+        client->receiving = 0;
+        client->lost = errorCode != EAGAIN;
+        cnd_broadcast(&client->messages_event);
+        gracht_arena_free(client->arena, buffer.data, 0);
+        errno = errorCode;
+        return -1;
     }
 
+    // If the message is not an event, then do not invoke any actions.
+    client->lost = 0;
     messageFlags = GB_MSG_FLG(&buffer);
-
-    // If the message is not an event, then do not invoke any actions. In any case if a context is provided
-    // we expect the caller wanting to listen for that specific message. That means any incoming event and/or
-    // response we recieve should be for that, or we should keep waiting.
     GRTRACE(GRSTR("[gracht] [client] message received %u - %u:%u"),
             messageFlags, GB_MSG_SID(&buffer), GB_MSG_AID(&buffer));
+    status = -1;
     if (MESSAGE_FLAG_TYPE(messageFlags) == MESSAGE_FLAG_EVENT) {
-        status = __invoke_action(client, &buffer);
-    } else if (MESSAGE_FLAG_TYPE(messageFlags) == MESSAGE_FLAG_RESPONSE) {
-        status = __handle_response(client, &buffer);
-        if (status) {
-            goto listenForMessage;
+        // Control events decide the status of messages, so no other thread can start receiving
+        // before they have been handled. All others may be handled while another thread receives.
+        int isControl = GB_MSG_SID(&buffer) == gracht_control_client_protocol.id;
+        if (!isControl) {
+            client->receiving = 0;
+            cnd_broadcast(&client->messages_event);
         }
 
-        // set message id handled
-        messageId = GB_MSG_ID(&buffer);
-
-        // zero the buffer pointer, so it does not get freed, freeing is now handled by
-        // the awaiter
-        buffer.data = NULL;
+        mtx_unlock(&client->messages_lock);
+        status = __invoke_action(client, &buffer);
+        mtx_lock(&client->messages_lock);
+        if (isControl) {
+            client->receiving = 0;
+        }
+    } else {
+        if (MESSAGE_FLAG_TYPE(messageFlags) == MESSAGE_FLAG_RESPONSE) {
+            status = __handle_response(client, &buffer);
+            if (!status) {
+                // zero the buffer pointer, so it does not get freed, freeing is now handled by
+                // whomever fetches the status
+                buffer.data = NULL;
+            }
+        }
+        client->receiving = 0;
     }
+    cnd_broadcast(&client->messages_event);
 
-listenOrExit:
     if (buffer.data) {
         gracht_arena_free(client->arena, buffer.data, 0);
     }
-
-    if (context) {
-        // In case a context was provided the meaning is that we should wait
-        // for a specific message. Make sure that the message we've handled were
-        // the one that was requested.
-        if (messageId != 0 && context->message_id != messageId) {
-            goto listenForMessage;
-        }
-    }
-    return status;
+    return status ? 0 : 1;
 }
 
-static struct gracht_message_awaiter* __awaiter_new(
-        gracht_client_t* client,
-        unsigned int     flags,
-        int              contextCount)
+int gracht_client_wait_message(
+        gracht_client_t*               client,
+        struct gracht_message_context* context,
+        unsigned int                   flags)
 {
-    struct gracht_message_awaiter* awaiter;
+    int status = 0;
+    GRTRACE(GRSTR("gracht_client_wait_message()"));
 
-    awaiter = malloc(sizeof(struct gracht_message_awaiter));
-    if (!awaiter) {
-        return NULL;
+    if (!client) {
+        errno = (EINVAL);
+        return -1;
     }
 
-    awaiter->id            = get_awaiter_id(client);
-    awaiter->flags         = flags;
-    awaiter->count         = contextCount;
-    awaiter->current_count = 0;
-    cnd_init(&awaiter->event);
-    mtx_init(&awaiter->mutex, mtx_plain);
-    return awaiter;
-}
-
-static inline void __await_add(
-        gracht_client_t*               client,
-        struct gracht_message_awaiter* awaiter)
-{
-    mtx_lock(&client->awaiters_lock);
-    gr_hashtable_set(&client->awaiters, &(struct gracht_message_awaiter_entry) {
-        .id = awaiter->id,
-        .awaiter = awaiter
-    });
-    mtx_unlock(&client->awaiters_lock);
-}
-
-static inline void __await_remove(
-        gracht_client_t*               client,
-        struct gracht_message_awaiter* awaiter)
-{
-    mtx_lock(&client->awaiters_lock);
-    gr_hashtable_remove(&client->awaiters, &(struct gracht_message_awaiter_entry) {
-            .id = awaiter->id
-    });
-    mtx_unlock(&client->awaiters_lock);
+    mtx_lock(&client->messages_lock);
+    while (status == 0 || (status > 0 && context)) {
+        // In case a context was provided the meaning is that we should wait
+        // for a specific message, so keep on until it has been handled.
+        if (context) {
+            struct gracht_message_descriptor* descriptor = __get_message(client, context->message_id);
+            if (!descriptor) {
+                errno = ENOENT;
+                status = -1;
+                break;
+            }
+            if (descriptor->status != GRACHT_MESSAGE_INPROGRESS) {
+                break;
+            }
+        }
+        status = __pump_message(client, flags);
+    }
+    mtx_unlock(&client->messages_lock);
+    return status < 0 ? -1 : 0;
 }
 
-static inline void __await_loop(
+// The messages lock must be held
+static bool __await_done(
         gracht_client_t*                client,
         struct gracht_message_context** contexts,
-        struct gracht_message_awaiter*  awaiter)
+        int                             contextCount,
+        unsigned int                    flags)
 {
-    while (awaiter->current_count < awaiter->count) {
-        gracht_client_wait_message(client, NULL, GRACHT_MESSAGE_BLOCK);
+    int count = 0;
 
-        // update status
-        mtx_lock(&client->messages_lock);
-        awaiter->current_count = 0;
-        for (int i = 0; i < awaiter->count; i++) {
-            struct gracht_message_descriptor* descriptor = gr_hashtable_get(
-                    &client->messages,
-                    &(struct gracht_message_descriptor) {
-                            .id = contexts[i]->message_id
-                    }
-            );
-            if (descriptor == NULL || MESSAGE_STATUS_EXECUTED(descriptor->status)) {
-                awaiter->current_count++;
-            }
+    for (int i = 0; i < contextCount; i++) {
+        // if we are waiting for a non-existant message, then it was handled already
+        struct gracht_message_descriptor* descriptor = __get_message(client, contexts[i]->message_id);
+        if (!descriptor || MESSAGE_STATUS_EXECUTED(descriptor->status)) {
+            count++;
         }
-        mtx_unlock(&client->messages_lock);
     }
+    return count == contextCount || (!(flags & GRACHT_AWAIT_ALL) && count > 0);
 }
 
 int gracht_client_await_multiple(
@@ -413,9 +351,7 @@ int gracht_client_await_multiple(
         int                             contextCount,
         unsigned int                    flags)
 {
-    struct gracht_message_awaiter* awaiter;
-    int                            i;
-    bool                           bail;
+    int status = 0;
     GRTRACE(GRSTR("gracht_client_await_multiple()"));
     
     if (!client || !contexts || !contextCount) {
@@ -423,67 +359,22 @@ int gracht_client_await_multiple(
         return -1;
     }
 
-    // create the awaiter
-    awaiter = __awaiter_new(client, flags, contextCount);
-    if (awaiter == NULL) {
-        return -1;
-    }
-
-    // first step is to get a status of all messages we are awaiting
     mtx_lock(&client->messages_lock);
-    for (i = 0; i < contextCount; i++) {
-        struct gracht_message_descriptor* descriptor = gr_hashtable_get(
-                &client->messages,
-                &(struct gracht_message_descriptor) {
-                    .id = contexts[i]->message_id
-                }
-        );
-        if (!descriptor) {
-            // we were waiting for a non-existant message, in theory it could
-            // have dissappeared?
-            awaiter->current_count++;
-            continue;
-        }
-
-        descriptor->awaiter_id = awaiter->id;
-        if (MESSAGE_STATUS_EXECUTED(descriptor->status)) {
-            awaiter->current_count++;
+    while (status >= 0 && !__await_done(client, contexts, contextCount, flags)) {
+        if (!(flags & GRACHT_AWAIT_ASYNC)) {
+            // we are a single threaded application (maybe) and we should also
+            // handle the pumping of messages.
+            status = __pump_message(client, GRACHT_MESSAGE_BLOCK);
+        } else if (client->lost) {
+            errno = EPIPE;
+            status = -1;
+        } else {
+            // in async mode we expect another thread to do the event pumping
+            cnd_wait(&client->messages_event, &client->messages_lock);
         }
     }
-
-    // calculate here whether we can bail early, so we can skip time
-    // not adding the awaiter
-    bail = (!(flags & GRACHT_AWAIT_ALL) && awaiter->current_count > 0) || awaiter->current_count == awaiter->count;
-
-    // add the awaiter while we hold the message lock to avoid a data-race
-    // between those
-    if (!bail) {
-        __await_add(client, awaiter);
-    }
     mtx_unlock(&client->messages_lock);
-
-    // early bail?
-    if (bail) {
-        goto cleanup;
-    }
-    
-    // in async bail mode we expect another thread to do the event pumping,
-    // and thus we should just use the awaiter
-    if (flags & GRACHT_AWAIT_ASYNC) {
-        mtx_lock(&awaiter->mutex);
-        cnd_wait(&awaiter->event, &awaiter->mutex);
-        mtx_unlock(&awaiter->mutex);
-    } else {
-        // otherwise we are a single threaded application (maybe) and we should also
-        // handle the pumping of messages.
-        __await_loop(client, contexts, awaiter);
-    }
-    __await_remove(client, awaiter);
-
-cleanup:
-    // cleanup the awaiter
-    free(awaiter);
-    return 0;
+    return status < 0 ? -1 : 0;
 }
 
 int gracht_client_await(gracht_client_t* client, struct gracht_message_context* context, unsigned int flags)
@@ -521,12 +412,7 @@ int gracht_client_get_status_buffer(
     
     // guard against already checked
     mtx_lock(&client->messages_lock);
-    descriptor = gr_hashtable_remove(
-            &client->messages,
-            &(struct gracht_message_descriptor) {
-                    .id = context->message_id
-            }
-    );
+    descriptor = __get_message(client, context->message_id);
     if (!descriptor) {
         mtx_unlock(&client->messages_lock);
         errno = (ENOENT);
@@ -536,14 +422,17 @@ int gracht_client_get_status_buffer(
     status = descriptor->status;
     buffer->data = descriptor->buffer.data;
     buffer->index = descriptor->buffer.index;
-    mtx_unlock(&client->messages_lock);
 
-    // immediately cleanup the buffer if an error has ocurred
-    if (descriptor->status == GRACHT_MESSAGE_ERROR) {
-        if (descriptor->buffer.data) {
-            gracht_arena_free(client->arena, descriptor->buffer.data, 0);
-        }
+    // the response has yet to arrive if the message is still in progress
+    if (status != GRACHT_MESSAGE_INPROGRESS) {
+        gr_hashtable_remove(
+                &client->messages,
+                &(struct gracht_message_descriptor) {
+                        .id = context->message_id
+                }
+        );
     }
+    mtx_unlock(&client->messages_lock);
     return status;
 }
 
@@ -583,16 +472,13 @@ int gracht_client_create(gracht_client_configuration_t* config, gracht_client_t*
     
     memset(client, 0, sizeof(gracht_client_t));
     mtx_init(&client->send_buffer_lock, mtx_plain);
-    mtx_init(&client->wait_lock, mtx_plain);
     mtx_init(&client->messages_lock, mtx_plain);
-    mtx_init(&client->awaiters_lock, mtx_plain);
+    cnd_init(&client->messages_event);
     gr_hashtable_construct(&client->protocols, 0, sizeof(struct gracht_protocol), protocol_hash, protocol_cmp);
     gr_hashtable_construct(&client->messages, 0, sizeof(struct gracht_message_descriptor), message_hash, message_cmp);
-    gr_hashtable_construct(&client->awaiters, 0, sizeof(struct gracht_message_awaiter_entry), awaiter_hash, awaiter_cmp);
 
     client->link = config->link;
     client->iod = GRACHT_CONN_INVALID;
-    client->current_awaiter_id = 1;
     client->current_message_id = 1;
 
     // handle memory sizes
@@ -677,13 +563,11 @@ void gracht_client_shutdown(gracht_client_t* client)
         gracht_arena_destroy(client->arena);
     }
     
-    gr_hashtable_destroy(&client->awaiters);
     gr_hashtable_destroy(&client->messages);
     gr_hashtable_destroy(&client->protocols);
-    mtx_destroy(&client->wait_lock);
     mtx_destroy(&client->send_buffer_lock);
     mtx_destroy(&client->messages_lock);
-    mtx_destroy(&client->awaiters_lock);
+    cnd_destroy(&client->messages_event);
     free(client);
 }
 
@@ -717,57 +601,19 @@ void gracht_client_unregister_protocol(gracht_client_t* client, gracht_protocol_
     gr_hashtable_remove(&client->protocols, protocol);
 }
 
-static void mark_awaiters(gracht_client_t* client, uint32_t awaiterID)
-{
-    struct gracht_message_awaiter_entry* entry;
-    struct gracht_message_awaiter*       awaiter;
-
-    mtx_lock(&client->awaiters_lock);
-    entry = gr_hashtable_get(
-            &client->awaiters,
-            &(struct gracht_message_awaiter_entry) { .id = awaiterID }
-    );
-    if (!entry) {
-        mtx_unlock(&client->awaiters_lock);
-        return;
-    }
-    awaiter = entry->awaiter;
-    mtx_unlock(&client->awaiters_lock);
-
-    awaiter->current_count++;
-    if (awaiter->flags & GRACHT_AWAIT_ALL) {
-        if (awaiter->current_count == awaiter->count) {
-            cnd_signal(&awaiter->event);
-        }
-    } else {
-        cnd_signal(&awaiter->event);
-    }
-}
-
 static uint32_t get_message_id(gracht_client_t* client)
 {
     return client->current_message_id++;
 }
 
-static uint32_t get_awaiter_id(gracht_client_t* client)
-{
-    return client->current_awaiter_id++;
-}
-
 void gracht_control_error_invocation(gracht_client_t* client, const uint32_t messageId, const int errorCode)
 {
     struct gracht_message_descriptor* descriptor;
-    uint32_t                          awaiterID;
     (void)errorCode;
 
     mtx_lock(&client->messages_lock);
-    descriptor = gr_hashtable_get(
-            &client->messages,
-            &(struct gracht_message_descriptor) {
-                .id = messageId
-            }
-    );
-    if (!descriptor) {
+    descriptor = __get_message(client, messageId);
+    if (!descriptor || descriptor->status != GRACHT_MESSAGE_INPROGRESS) {
         mtx_unlock(&client->messages_lock);
         // what the heck?
         GRERROR(GRSTR("gracht_control_error_invocation no-one was listening for message %u"), messageId);
@@ -776,11 +622,8 @@ void gracht_control_error_invocation(gracht_client_t* client, const uint32_t mes
     
     // set status
     descriptor->status = GRACHT_MESSAGE_ERROR;
-    awaiterID = descriptor->awaiter_id;
+    cnd_broadcast(&client->messages_event);
     mtx_unlock(&client->messages_lock);
-    
-    // iterate awaiters and mark those that contain this message
-    mark_awaiters(client, awaiterID);
 }
 
 static uint64_t message_hash(const void* element)
@@ -795,16 +638,3 @@ static int message_cmp(const void* element1, const void* element2)
     const struct gracht_message_descriptor* message2 = element2;
     return message1->id == message2->id ? 0 : 1;
 }
-
-static uint64_t awaiter_hash(const void* element)
-{
-    const struct gracht_message_awaiter_entry* awaiter = element;
-    return awaiter->id;
-}
-
-static int awaiter_cmp(const void* element1, const void* element2)
-{
-    const struct gracht_message_awaiter_entry* awaiter1 = element1;
-    const struct gracht_message_awaiter_entry* awaiter2 = element2;
-    return awaiter1->id == awaiter2->id ? 0 : 1;
-}
-- 
2.43.0


From c0c5e895989c0ffa7523ebc20aae80fa98e33897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:22 +0000
Subject: [PATCH 13/39] fix: error notifications without their parameters act
 on leftover bytes

---
 runtime/control.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/runtime/control.c b/runtime/control.c
index e1f381e..08d7493 100644
--- a/runtime/control.c
+++ b/runtime/control.c
@@ -21,6 +21,7 @@
  */
 
 #include "control.h"
+#include "utils.h"
 
 #define SERIALIZE_VALUE(name, type) static inline void serialize_##name(gracht_buffer_t* buffer, type value) { \
                                   *((type*)&buffer->data[buffer->index]) = value; buffer->index += sizeof(type); \
@@ -67,6 +68,10 @@ void __gracht_error_internal(gracht_client_t* __client, gracht_buffer_t* __buffe
 {
     uint32_t __messageId;
     int __errorCode;
+    if (*((uint32_t*)&__buffer->data[__buffer->index - GRACHT_MESSAGE_HEADER_SIZE + MSG_INDEX_LEN]) <
+            GRACHT_MESSAGE_HEADER_SIZE + sizeof(uint32_t) + sizeof(int)) {
+        return; // the message does not hold its parameters
+    }
     __messageId = deserialize_uint32_t(__buffer);
     __errorCode = deserialize_int(__buffer);
     gracht_control_error_invocation(__client, __messageId, __errorCode);
-- 
2.43.0


From df9d22adeffa7a7069def464c695654d88680785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:26 +0000
Subject: [PATCH 14/39] fix: client that never connected leaks its link at
 shutdown

---
 runtime/client.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runtime/client.c b/runtime/client.c
index 726306f..168f041 100644
--- a/runtime/client.c
+++ b/runtime/client.c
@@ -517,6 +517,8 @@ int gracht_client_create(gracht_client_configuration_t* config, gracht_client_t*
     goto exit;
     
 error:
+    // the link still belongs to the caller
+    client->link = NULL;
     gracht_client_shutdown(client);
     status = -1;
 
@@ -551,7 +553,7 @@ void gracht_client_shutdown(gracht_client_t* client)
         return;
     }
     
-    if (client->iod != GRACHT_CONN_INVALID) {
+    if (client->link) {
         client->link->ops.client.destroy(client->link);
     }
 
-- 
2.43.0


From 4a220ca77f9c286b1a211bcdb94bc1ca93f11f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:01 +0000
Subject: [PATCH 15/39] fix: local packet clients can not be answered

A local (AF_UNIX) datagram socket that was never bound has no address, so
the server had nowhere to send the response and the call never finished.
---
 runtime/link/socket/client.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/runtime/link/socket/client.c b/runtime/link/socket/client.c
index b69f844..4ef8ed1 100644
--- a/runtime/link/socket/client.c
+++ b/runtime/link/socket/client.c
@@ -183,6 +183,23 @@ static gracht_conn_t socket_link_connect(struct gracht_link_socket* link)
         return -1;
     }
     
+#ifdef __linux__
+    // a local packet socket without an address of its own can not be answered, let the
+    // system pick one
+    if (type == SOCK_DGRAM && link->domain == AF_UNIX) {
+        struct sockaddr any;
+
+        memset(&any, 0, sizeof(any));
+        any.sa_family = AF_UNIX;
+        if (bind(link->base.connection, &any, sizeof(any.sa_family))) {
+            GRERROR(GRSTR("client_link: failed to bind socket"));
+            close(link->base.connection);
+            link->base.connection = GRACHT_CONN_INVALID;
+            return -1;
+        }
+    }
+#endif
+
     int status = connect(link->base.connection, 
         (const struct sockaddr*)&link->address,
         link->address_length);
-- 
2.43.0


From b917561941f1246489ba0380464db5d53a24137e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:45 +0000
Subject: [PATCH 16/39] fix: hexadecimal numbers with lower-case digits are
 refused

---
 generator/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/parser.py b/generator/parser.py
index 05843c4..9ddea24 100644
--- a/generator/parser.py
+++ b/generator/parser.py
@@ -791,7 +791,7 @@ def parse_digit(scanner, data):
     if data[startIdx] == '0' and data[startIdx + 1] == 'x':
         scanner.consume(2)
         while scanner.has_next():
-            if scanner.current() not in "0123456789ABCDEF":
+            if scanner.current() not in "0123456789abcdefABCDEF":
                 break
             scanner.consume()
         return str2int(data[startIdx: scanner.index()])
-- 
2.43.0


From 9914dffbc68bf7358bdec8a854e0db5d764069fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:46 +0000
Subject: [PATCH 17/39] fix: events without parameters are refused

---
 generator/parser.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/generator/parser.py b/generator/parser.py
index 9ddea24..77eaed0 100644
--- a/generator/parser.py
+++ b/generator/parser.py
@@ -567,14 +567,17 @@ def handle_event(context, tokens):
         context.create_member(tokens[0].value(), tokens[0].value(), False)
         tokens.pop(0)  # consume IDENTIFIER
     else:
-        # create sublist
         tokens.pop(0)  # consume LPARENTHESIS
-        rparen = next((x for x in tokens if x.token_type() == TOKENS.RPARENTHESIS), None)
-        if rparen is None:
-            error("expected ')' at end of parameter list")
-        endOfParams = tokens.index(rparen) + 1
-        parse_scope(context, tokens[:endOfParams], get_param_scope_syntax())
-        del tokens[:endOfParams]
+        if tokens[0].token_type() != TOKENS.RPARENTHESIS:
+            # create sublist
+            rparen = next((x for x in tokens if x.token_type() == TOKENS.RPARENTHESIS), None)
+            if rparen is None:
+                error("expected ')' at end of parameter list")
+            endOfParams = tokens.index(rparen) + 1
+            parse_scope(context, tokens[:endOfParams], get_param_scope_syntax())
+            del tokens[:endOfParams]
+        else:
+            tokens.pop(0)  # consume RPARENTHESIS
 
     tokens.pop(0)  # consume EQUAL
     actionId = tokens[0].value()
-- 
2.43.0


From e181126e7aa45614a168dd7aa980635bf8bd8e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:46 +0000
Subject: [PATCH 18/39] fix: events declared with just a builtin type do not
 compile

---
 generator/parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/generator/parser.py b/generator/parser.py
index 77eaed0..1b099b9 100644
--- a/generator/parser.py
+++ b/generator/parser.py
@@ -564,7 +564,11 @@ def handle_event(context, tokens):
     tokens.pop(0)  # consume COLON
 
     if tokens[0].token_type() == TOKENS.IDENTIFIER:
-        context.create_member(tokens[0].value(), tokens[0].value(), False)
+        # the parameter is named after its type, which the builtin types do not allow
+        param_name = tokens[0].value()
+        if param_name in BUILTIN_TYPES:
+            param_name = "value"
+        context.create_member(tokens[0].value(), param_name, False)
         tokens.pop(0)  # consume IDENTIFIER
     else:
         tokens.pop(0)  # consume LPARENTHESIS
-- 
2.43.0


From 845938d603dbe536fab6bd91905a58141b06d3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:17 +0000
Subject: [PATCH 19/39] fix: structures that extend or use a later structure
 can not be generated

---
 generator/common/shared.py      |  3 ++
 generator/passes/consolidate.py | 67 ++++++++++++++++++++-------------
 2 files changed, 44 insertions(+), 26 deletions(-)

diff --git a/generator/common/shared.py b/generator/common/shared.py
index 0fa8610..c483603 100644
--- a/generator/common/shared.py
+++ b/generator/common/shared.py
@@ -211,6 +211,9 @@ class ServiceObject:
                 return True
         return False
 
+    def set_structs(self, structs):
+        self.structs = structs
+
     def set_imports(self, imports):
         self.imports = imports
 
diff --git a/generator/passes/consolidate.py b/generator/passes/consolidate.py
index aa43b5a..e6c6df2 100644
--- a/generator/passes/consolidate.py
+++ b/generator/passes/consolidate.py
@@ -1,37 +1,52 @@
-
 from common.shared import *
 
-def consolidate_struct_member(service: ServiceObject, done: list, struct: StructureObject, member):
-    if isinstance(member, VariableVariantObject):
+def get_struct_dependencies(service: ServiceObject, struct: StructureObject):
+    # all the structures that must be defined before this one. An array of the structure
+    # itself is only a pointer, and needs nothing else to be defined
+    dependencies = []
+    for member in struct.get_members():
+        variables = [member]
+        if isinstance(member, VariableVariantObject):
+            variables = member.get_entries()
+        for variable in variables:
+            target = service.lookup_struct(variable.get_typename())
+            if target is None or (target is struct and variable.get_is_variable()):
+                continue
+            dependencies.append(target)
+    return dependencies
+
+def get_consolidated_members(service: ServiceObject, struct: StructureObject):
+    members = []
+    for member in struct.get_members():
         # we do not support consolidation inside a variant
-        return
-    
-    if member.get_name() == "":
-        typename = member.get_typename()
-        struct_target = service.lookup_struct(typename)
+        if isinstance(member, VariableVariantObject) or member.get_name() != "":
+            members.append(member)
+            continue
+
+        struct_target = service.lookup_struct(member.get_typename())
         if struct_target is None:
-            raise ValueError(f"Type {typename} cannot be resolved")
-        if not struct_target in done:
-            consolidate_struct(struct_target)
-        
-        mems = struct.get_members()
-        index = mems.index(member)
-        for member_target in struct_target.get_members():
-            mems.insert(index, member_target)
-            index += 1
-        mems.remove(member)
-        struct.set_members(mems)
-
-def consolidate_struct(service: ServiceObject, done: list, struct: StructureObject):
+            raise ValueError(f"Type {member.get_typename()} cannot be resolved")
+        members.extend(struct_target.get_members())
+    return members
+
+def consolidate_struct(service: ServiceObject, done: list, pending: list, struct: StructureObject):
     if struct in done:
         return
-    
-    for member in struct.get_members():
-        consolidate_struct_member(service, done, struct, member)
+    if struct in pending:
+        raise ValueError(f"Type {struct.get_name()} cannot be resolved, it contains itself")
+
+    pending.append(struct)
+    for dependency in get_struct_dependencies(service, struct):
+        consolidate_struct(service, done, pending, dependency)
+    pending.remove(struct)
+
+    struct.set_members(get_consolidated_members(service, struct))
     done.append(struct)
-    return done
 
 def pass_consolidate(service: ServiceObject):
     done = []
     for struct in service.get_structs():
-        done = consolidate_struct(service, done, struct)
+        consolidate_struct(service, done, [], struct)
+
+    # structures are now in the order in which they can be defined
+    service.set_structs(done)
-- 
2.43.0


From cbdaf34fe491fbefbc64be48a2f34c74ca1857d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:17 +0000
Subject: [PATCH 20/39] fix: structure copies only copy a part of their arrays

---
 generator/languages/langc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/languages/langc.py b/generator/languages/langc.py
index 85d2960..8689ece 100644
--- a/generator/languages/langc.py
+++ b/generator/languages/langc.py
@@ -1046,7 +1046,7 @@ def write_structure_copy_function_members(service: ServiceObject, prefix, struct
             outfile.indent_dec()
             outfile.writeln("}")
         else:
-            outfile.writeln(f"memcpy(out->{prefix}{member.get_name()}, in->{prefix}{member.get_name()}, in->{prefix}{member.get_name()}_count);")
+            outfile.writeln(f"memcpy(out->{prefix}{member.get_name()}, in->{prefix}{member.get_name()}, sizeof({get_c_typename(service, member.get_typename())}) * in->{prefix}{member.get_name()}_count);")
         outfile.indent_dec()
         outfile.writeln("} else {")
         outfile.indent_inc()
-- 
2.43.0


From 54a9c4e59bf9a62c5fd90174a2b9e0022bc02c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:17 +0000
Subject: [PATCH 21/39] fix: variant setters for values and strings do not
 compile and do not select

---
 generator/languages/langc.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/generator/languages/langc.py b/generator/languages/langc.py
index 8689ece..804f7b6 100644
--- a/generator/languages/langc.py
+++ b/generator/languages/langc.py
@@ -899,13 +899,11 @@ def write_structure_variant_member_functions(service: ServiceObject, struct: Str
             outfile.writeln(f"{member_name}_copy({entry.get_name()}, &in->{variant.get_name()}.{entry.get_name()});")
             outfile.writeln(f"in->{variant.get_name()}_type = {get_variant_enum_name(struct, variant, entry)};")
         elif entry.get_typename() == "string":
-            outfile.writeln(f"if ({entry.get_typename()} != NULL) {{")
-            outfile.indent_inc()
-            outfile.writeln(f"in->{variant.get_name()}.{entry.get_name()} = strdup({entry.get_typename()});")
-            outfile.indent_dec()
-            outfile.writeln("}")
+            outfile.writeln(f"in->{variant.get_name()}.{entry.get_name()} = {entry.get_name()} != NULL ? strdup({entry.get_name()}) : NULL;")
+            outfile.writeln(f"in->{variant.get_name()}_type = {get_variant_enum_name(struct, variant, entry)};")
         else:
-            outfile.writeln(f"in->{variant.get_name()}.{entry.get_name()} = {entry.get_typename()};")
+            outfile.writeln(f"in->{variant.get_name()}.{entry.get_name()} = {entry.get_name()};")
+            outfile.writeln(f"in->{variant.get_name()}_type = {get_variant_enum_name(struct, variant, entry)};")
         outfile.indent_dec()
         outfile.writeln("}")
         outfile.writeln("")
-- 
2.43.0


From e9a75cb67e7122de0c21a9bf06f71492ec44d3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:17 +0000
Subject: [PATCH 22/39] fix: variants with entries of the same type do not
 compile

---
 generator/languages/langc.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/generator/languages/langc.py b/generator/languages/langc.py
index 804f7b6..cc9d3fc 100644
--- a/generator/languages/langc.py
+++ b/generator/languages/langc.py
@@ -877,12 +877,20 @@ def write_structure(service: ServiceObject, struct, case, outfile: CodeWriter):
     outfile.writeln("};")
 
 
+def get_variant_function_suffix(variant: VariableVariantObject, entry):
+    # the functions are named after the type of the entry, unless that does not tell which one it is
+    same_type = [x for x in variant.get_entries() if x.get_typename() == entry.get_typename()]
+    if len(same_type) > 1:
+        return entry.get_name()
+    return entry.get_typename()
+
+
 def write_structure_variant_member_functions(service: ServiceObject, struct: StructureObject, variant: VariableVariantObject, outfile: CodeWriter):
     struct_name = get_scoped_name(struct)
     struct_typename = get_scoped_typename(struct)
 
     for i, entry in enumerate(variant.get_entries()):
-        outfile.writeln(f"static int {struct_name}_{variant.get_name()}_is_{entry.get_typename()}({struct_typename}* in) {{")
+        outfile.writeln(f"static int {struct_name}_{variant.get_name()}_is_{get_variant_function_suffix(variant, entry)}({struct_typename}* in) {{")
         outfile.indent_inc()
         outfile.writeln(f"return in->{variant.get_name()}_type == {get_variant_enum_name(struct, variant, entry)};")
         outfile.indent_dec()
@@ -891,7 +899,7 @@ def write_structure_variant_member_functions(service: ServiceObject, struct: Str
     
     for i, entry in enumerate(variant.get_entries()):
         param_string = get_param_typename(service, entry, CONST.TYPENAME_CASE_FUNCTION_CALL, False)
-        outfile.writeln(f"static void {struct_name}_{variant.get_name()}_set_{entry.get_typename()}({struct_typename}* in, {param_string}) {{")
+        outfile.writeln(f"static void {struct_name}_{variant.get_name()}_set_{get_variant_function_suffix(variant, entry)}({struct_typename}* in, {param_string}) {{")
         outfile.indent_inc()
         if service.typename_is_struct(entry.get_typename()):
             struct_type = service.lookup_struct(entry.get_typename())
-- 
2.43.0


From 52e04fcda7477982dc16a3e7107bd8def656a643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:17 +0000
Subject: [PATCH 23/39] fix: variants with string entries do not compile

---
 generator/languages/langc.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/generator/languages/langc.py b/generator/languages/langc.py
index cc9d3fc..5a58b90 100644
--- a/generator/languages/langc.py
+++ b/generator/languages/langc.py
@@ -530,9 +530,8 @@ def write_struct_member_deserializer(service: ServiceObject, prefix, struct, mem
     if member.get_is_variable():
         write_variable_struct_member_deserializer(service, member, outfile)
     elif typename.lower() == "string":
-        outfile.writeln(f"uint32_t _{name}_length = *((uint32_t*)&buffer->data[buffer->index]);")
-        outfile.writeln(f"out->{name} = malloc(_{name}_length + 1);")
-        outfile.writeln(f"assert(out->{name} != NULL);")
+        outfile.writeln(f"out->{prefix}{name} = malloc(*((uint32_t*)&buffer->data[buffer->index]) + 1);")
+        outfile.writeln(f"assert(out->{prefix}{name} != NULL);")
         outfile.writeln(f"deserialize_string_copy(buffer, &out->{prefix}{name}[0], 0);")
     elif service.typename_is_struct(typename):
         struct_type = service.lookup_struct(typename)
-- 
2.43.0


From b77b00a62a4f1a42402698c73c1c87a7306b7bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:17 +0000
Subject: [PATCH 24/39] fix: values after a structure array that was cut short
 are misread

---
 generator/languages/langc.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/generator/languages/langc.py b/generator/languages/langc.py
index 5a58b90..fff11a6 100644
--- a/generator/languages/langc.py
+++ b/generator/languages/langc.py
@@ -484,12 +484,23 @@ def write_variable_member_deserializer(service: ServiceObject, member, outfile:
     name = member.get_name()
     outfile.writeln("__count = deserialize_uint32(&__buffer);")
     if service.typename_is_struct(typename):
-        outfile.writeln(f"for (uint32_t __i = 0; __i < GRMIN(__count, {name}_count); __i++) {{")
-        outfile.indent_inc()
         struct_type = service.lookup_struct(typename)
         struct_name = get_scoped_name(struct_type)
+        outfile.writeln("for (uint32_t __i = 0; __i < __count; __i++) {")
+        outfile.indent_inc()
+        outfile.writeln(f"if (__i < {name}_count) {{")
+        outfile.indent_inc()
         outfile.writeln(f"deserialize_{struct_name}(&__buffer, &{name}_out[__i]);")
         outfile.indent_dec()
+        outfile.writeln("} else {")
+        # skip the elements there was no space for, there may be more values after them
+        outfile.indent_inc()
+        outfile.writeln(f"{get_scoped_typename(struct_type)} __skipped;")
+        outfile.writeln(f"deserialize_{struct_name}(&__buffer, &__skipped);")
+        outfile.writeln(f"{struct_name}_destroy(&__skipped);")
+        outfile.indent_dec()
+        outfile.writeln("}")
+        outfile.indent_dec()
         outfile.writeln("}")
     elif typename.lower() == "string":
         outfile.writeln(f"for (uint32_t __i = 0; __i < GRMIN(__count, {name}_max_length); __i++) {{")
-- 
2.43.0


From 4a54ad6522364957326722309ecae41c97e13572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:17 +0000
Subject: [PATCH 25/39] fix: functions that return an array of strings do not
 compile

---
 generator/languages/langc.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/generator/languages/langc.py b/generator/languages/langc.py
index fff11a6..273a513 100644
--- a/generator/languages/langc.py
+++ b/generator/languages/langc.py
@@ -503,9 +503,15 @@ def write_variable_member_deserializer(service: ServiceObject, member, outfile:
         outfile.indent_dec()
         outfile.writeln("}")
     elif typename.lower() == "string":
-        outfile.writeln(f"for (uint32_t __i = 0; __i < GRMIN(__count, {name}_max_length); __i++) {{")
+        # the buffer is given back shortly, so the strings are copied and must be freed by the caller
+        outfile.writeln("for (uint32_t __i = 0; __i < __count; __i++) {")
+        outfile.indent_inc()
+        outfile.writeln("char* __string = deserialize_string_nocopy(&__buffer);")
+        outfile.writeln(f"if (__i < {name}_count) {{")
         outfile.indent_inc()
-        outfile.writeln(f"{name}_out[__i] = deserialize_string_nocopy(&__buffer);")
+        outfile.writeln(f"{name}_out[__i] = strdup(__string);")
+        outfile.indent_dec()
+        outfile.writeln("}")
         outfile.indent_dec()
         outfile.writeln("}")
     else:
-- 
2.43.0


From 7e2a44a02e7fd0bde3f382fa5eebda4050eef706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:43 +0000
Subject: [PATCH 26/39] fix: a function and an event of the same name do not
 link together

---
 generator/languages/langc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/languages/langc.py b/generator/languages/langc.py
index 273a513..5539075 100644
--- a/generator/languages/langc.py
+++ b/generator/languages/langc.py
@@ -1266,7 +1266,7 @@ def write_client_deserializer(service: ServiceObject, evt: EventObject, outfile)
 
 def write_client_deserializer_prototype(service: ServiceObject, evt: EventObject, outfile):
     outfile.write(
-        f"void {get_service_internal_callback_name(service, evt)}(gracht_client_t* __client, gracht_buffer_t* __buffer)")
+        f"static void {get_service_internal_callback_name(service, evt)}(gracht_client_t* __client, gracht_buffer_t* __buffer)")
 
 
 def write_client_deserializer_body(service: ServiceObject, evt: EventObject, outfile: CodeWriter):
@@ -1341,7 +1341,7 @@ def write_server_deserializer(service: ServiceObject, func: FunctionObject, outf
 
 def write_server_deserializer_prototype(service: ServiceObject, func: FunctionObject, outfile):
     outfile.write(
-        f"void {get_service_internal_callback_name(service, func)}(struct gracht_message* __message, gracht_buffer_t* __buffer)")
+        f"static void {get_service_internal_callback_name(service, func)}(struct gracht_message* __message, gracht_buffer_t* __buffer)")
 
 
 def write_server_deserializer_body(service: ServiceObject, func: FunctionObject, outfile):
-- 
2.43.0


From 9ce0eb42e30af6875a6b02936aa90ce30049e684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:43 +0000
Subject: [PATCH 27/39] fix: a type that two namespaces define does not compile

---
 generator/languages/langc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/languages/langc.py b/generator/languages/langc.py
index 5539075..1da0a3e 100644
--- a/generator/languages/langc.py
+++ b/generator/languages/langc.py
@@ -787,7 +787,7 @@ static inline char* deserialize_string_nocopy(gracht_buffer_t* buffer) {
 
 def define_type_serializers(service: ServiceObject, outfile: CodeWriter):
     for defined_type in service.get_types():
-        guard_name = defined_type.get_namespace().upper() + "_" + defined_type.get_type_name().upper()
+        guard_name = defined_type.get_type_name().upper()
         outfile.write(f"#ifndef __GRACHT_{guard_name}_DEFINED__\n")
         outfile.write(f"#define __GRACHT_{guard_name}_DEFINED__\n")
         outfile.write(f"SERIALIZE_VALUE({defined_type.get_type_name()}, {defined_type.get_type_name()})\n")
-- 
2.43.0


From 714c078b76bddabf0288fe52d1ea5f88cf73abae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:26 +0000
Subject: [PATCH 28/39] fix: shutdown requested before the main loop runs is
 carried out instead of leaving everything behind

---
 runtime/server.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/server.c b/runtime/server.c
index 0383f8a..ae9cf04 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -622,7 +622,8 @@ int gracht_server_main_loop(gracht_server_t* server)
         return -1;
     }
 
-    if (server->state != RUNNING) {
+    // shutdown may have been requested already, in that case we only clean up
+    if (server->state != RUNNING && server->state != SHUTDOWN_REQUESTED) {
         errno = EPERM;
         return -1;
     }
-- 
2.43.0


From d45852aea9906f632755ee06f479e8e6845629dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:16 +0000
Subject: [PATCH 29/39] fix: a link that can not be set up is reported and
 gives its socket back

---
 runtime/link/socket/server.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/runtime/link/socket/server.c b/runtime/link/socket/server.c
index 743beaa..e2924c7 100644
--- a/runtime/link/socket/server.c
+++ b/runtime/link/socket/server.c
@@ -361,6 +361,14 @@ static int socket_link_destroy_client(struct socket_link_client* client, gracht_
     return status;
 }
 
+static gracht_conn_t setup_failed(struct gracht_link_socket* link)
+{
+    // the link can be set up again later
+    close(link->base.connection);
+    link->base.connection = GRACHT_CONN_INVALID;
+    return GRACHT_CONN_INVALID;
+}
+
 static gracht_conn_t socket_link_setup(struct gracht_link_socket* link, gracht_handle_t set_handle)
 {
     int status;
@@ -380,12 +388,13 @@ static gracht_conn_t socket_link_setup(struct gracht_link_socket* link, gracht_h
         status = bind(link->base.connection,
             (const struct sockaddr*)&link->address, link->address_length);
         if (status) {
-            return GRACHT_CONN_INVALID;
+            return setup_failed(link);
         }
         
         status = socket_aio_add(set_handle, link->base.connection);
         if (status) {
-            GRWARNING(GRSTR("socket_link_setup failed to add socket to set_handle"));
+            GRERROR(GRSTR("socket_link_setup failed to add socket to set_handle"));
+            return setup_failed(link);
         }
 
 #ifdef _WIN32
@@ -419,18 +428,19 @@ static gracht_conn_t socket_link_setup(struct gracht_link_socket* link, gracht_h
         status = bind(link->base.connection,
             (const struct sockaddr*)&link->address, link->address_length);
         if (status) {
-            return GRACHT_CONN_INVALID;
+            return setup_failed(link);
         }
         
         // Enable listening for connections, with a maximum of 2 on backlog
         status = listen(link->base.connection, 2);
         if (status) {
-            return GRACHT_CONN_INVALID;
+            return setup_failed(link);
         }
         
         status = socket_aio_add(set_handle, link->base.connection);
         if (status) {
-            GRWARNING(GRSTR("socket_link_setup failed to add socket to set_handle"));
+            GRERROR(GRSTR("socket_link_setup failed to add socket to set_handle"));
+            return setup_failed(link);
         }
 
 #ifdef _WIN32
-- 
2.43.0


From 7d2e2024f7a7a8ead67b8ad7a728cb2fd7b7c1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:02 +0000
Subject: [PATCH 30/39] fix: a worker pool that can not be created is reported
 and leaves nothing behind

---
 runtime/dispatch_generic.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/runtime/dispatch_generic.c b/runtime/dispatch_generic.c
index 750699b..8d59e70 100644
--- a/runtime/dispatch_generic.c
+++ b/runtime/dispatch_generic.c
@@ -52,7 +52,7 @@ struct gracht_worker_pool {
 };
 
 static int  worker_dowork(void*);
-static void initialize_worker(struct gracht_server*, struct gracht_worker*);
+static int  initialize_worker(struct gracht_server*, struct gracht_worker*);
 static void cleanup_worker(struct gracht_worker*);
 
 int gracht_worker_pool_create(struct gracht_server* server, int numberOfWorkers, struct gracht_worker_pool** poolOut)
@@ -85,7 +85,13 @@ int gracht_worker_pool_create(struct gracht_server* server, int numberOfWorkers,
     pool->worker_count = numberOfWorkers;
     pool->rr_index = 0;
     for (i = 0; i < numberOfWorkers; i++) {
-        initialize_worker(server, &pool->workers[i]);
+        if (initialize_worker(server, &pool->workers[i])) {
+            // stop those that are running already
+            pool->worker_count = i;
+            gracht_worker_pool_destroy(pool);
+            errno = ENOMEM;
+            return -1;
+        }
     }
 
     *poolOut = pool;
@@ -151,27 +157,35 @@ void gracht_worker_pool_dispatch(struct gracht_worker_pool* pool, struct gracht_
     }
 }
 
-static void initialize_worker(struct gracht_server* server, struct gracht_worker* worker)
+static int initialize_worker(struct gracht_server* server, struct gracht_worker* worker)
 {
     struct gracht_worker_context* context;
 
     context = malloc(sizeof(struct gracht_worker_context));
     if (!context) {
         GRERROR(GRSTR("initialize_worker: failed to allocate memory for worker context"));
-        return;
+        return -1;
     }
 
     context->worker = worker;
     context->server = server;
 
-    gr_queue_construct(&worker->job_queue, SERVER_WORKER_DEFAULT_QUEUE_SIZE);
+    if (gr_queue_construct(&worker->job_queue, SERVER_WORKER_DEFAULT_QUEUE_SIZE)) {
+        GRERROR(GRSTR("initialize_worker: failed to allocate memory for the job queue"));
+        free(context);
+        return -1;
+    }
     mtx_init(&worker->sync_object, mtx_plain);
     cnd_init(&worker->signal);
     worker->state = WORKER_STARTUP;
 
     if (thrd_create(&worker->id, worker_dowork, context) != thrd_success) {
         GRERROR(GRSTR("initialize_worker: failed to create worker-thread"));
+        cleanup_worker(worker);
+        free(context);
+        return -1;
     }
+    return 0;
 }
 
 static void cleanup_worker(struct gracht_worker* worker)
-- 
2.43.0


From f946d478d06232efa5eebaf58ff3190cc71adc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:02 +0000
Subject: [PATCH 31/39] fix: a server that can not be created is reported and
 leaves nothing behind

---
 runtime/server.c | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/runtime/server.c b/runtime/server.c
index ae9cf04..429f483 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -126,6 +126,7 @@ static void     client_enum_broadcast(int index, const void* element, void* user
 
 
 static int configure_server(struct gracht_server*, gracht_server_configuration_t*);
+static void abandon_server(struct gracht_server*);
 static int send_reply(struct gracht_message*, gracht_buffer_t*);
 
 int gracht_server_create(gracht_server_configuration_t* config, gracht_server_t** serverOut)
@@ -149,16 +150,21 @@ int gracht_server_create(gracht_server_configuration_t* config, gracht_server_t*
     status = configure_server(server, config);
     if (status) {
         GRERROR(GRSTR("gracht_server_start: invalid configuration provided"));
-        free(server);
+        abandon_server(server);
         return -1;
     }
 
     // initialize static members of the instance
+    if (gr_hashtable_construct(&server->protocols, 0, sizeof(struct gracht_protocol), protocol_hash, protocol_cmp) ||
+        gr_hashtable_construct(&server->clients, 0, sizeof(struct client_wrapper), client_hash, client_cmp) ||
+        stack_construct(&server->bufferStack, 8)) {
+        GRERROR(GRSTR("gracht_server_start: failed to allocate memory for the server"));
+        abandon_server(server);
+        errno = ENOMEM;
+        return -1;
+    }
     rwlock_init(&server->protocols_lock);
     rwlock_init(&server->clients_lock);
-    gr_hashtable_construct(&server->protocols, 0, sizeof(struct gracht_protocol), protocol_hash, protocol_cmp);
-    gr_hashtable_construct(&server->clients, 0, sizeof(struct client_wrapper), client_hash, client_cmp);
-    stack_construct(&server->bufferStack, 8);
 
     // everything is set up - update state before registering control protocol
     server->state = RUNNING;
@@ -169,6 +175,22 @@ int gracht_server_create(gracht_server_configuration_t* config, gracht_server_t*
     return 0;
 }
 
+// Releases a server that could not be created
+static void abandon_server(struct gracht_server* server)
+{
+    if (server->worker_pool) {
+        gracht_worker_pool_destroy(server->worker_pool);
+    }
+    if (server->set_handle != GRACHT_HANDLE_INVALID && !server->set_handle_provided) {
+        gracht_aio_destroy(server->set_handle);
+    }
+    gracht_arena_destroy(server->arena);
+    gr_hashtable_destroy(&server->protocols);
+    gr_hashtable_destroy(&server->clients);
+    free(server->recvBuffer);
+    free(server);
+}
+
 static int configure_server(struct gracht_server* server, gracht_server_configuration_t* configuration)
 {
     size_t arenaSize;
-- 
2.43.0


From 2e6bebee314814ccc8c75feade285d8dde0905e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:49 +0000
Subject: [PATCH 32/39] fix: the hashtable keeps working when it can not be
 resized

---
 runtime/hashtable.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/runtime/hashtable.c b/runtime/hashtable.c
index 095323c..f8f4e1c 100644
--- a/runtime/hashtable.c
+++ b/runtime/hashtable.c
@@ -35,7 +35,7 @@ struct hashtable_element {
     uint8_t  payload[];
 };
 
-#define SHOULD_GROW(hashtable)        (hashtable->element_count == hashtable->grow_count)
+#define SHOULD_GROW(hashtable)        (hashtable->element_count >= hashtable->grow_count)
 #define SHOULD_SHRINK(hashtable)      (hashtable->element_count == hashtable->shrink_count)
 
 #define GET_ELEMENT_ARRAY(hashtable, elements, index) (struct hashtable_element*)&((uint8_t*)elements)[index * hashtable->element_size]
@@ -116,8 +116,10 @@ void* gr_hashtable_set(gr_hashtable_t* hashtable, const void* element)
     struct hashtable_element* iterElement = (struct hashtable_element*)&elementBuffer[0];
     size_t                    index;
 
-    // Only resize on entry - that way we avoid any unneccessary resizing
-    if (SHOULD_GROW(hashtable) && hashtable_resize(hashtable, hashtable->capacity << 1)) {
+    // Only resize on entry - that way we avoid any unneccessary resizing. Growing can wait as long as
+    // there is room, one slot must stay free to end the probing
+    if (SHOULD_GROW(hashtable) && hashtable_resize(hashtable, hashtable->capacity << 1) &&
+        hashtable->element_count + 1 >= hashtable->capacity) {
         errno = ENOMEM;
         return NULL;
     }
@@ -204,10 +206,9 @@ void* gr_hashtable_remove(gr_hashtable_t* hashtable, const void* key)
         return NULL;
     }
 
-    // Only resize on entry to avoid any unncessary resizes
-    if (SHOULD_SHRINK(hashtable) && hashtable_resize(hashtable, hashtable->capacity >> 1)) {
-        errno = ENOMEM;
-        return NULL;
+    // Only resize on entry to avoid any unncessary resizes, it does no harm if the table can not shrink
+    if (SHOULD_SHRINK(hashtable)) {
+        (void)hashtable_resize(hashtable, hashtable->capacity >> 1);
     }
 
     hash  = hashtable->hash(key);
-- 
2.43.0


From bbb461ac48bfc916a2ca30913071bb3512024e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:16 +0000
Subject: [PATCH 33/39] fix: an outgoing buffer is not lost when the pool of
 buffers can not grow

---
 include/stack.h  |  2 +-
 runtime/server.c | 16 ++++++++++++----
 runtime/stack.c  | 10 ++++++++--
 3 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/include/stack.h b/include/stack.h
index 6628b1a..886ee43 100644
--- a/include/stack.h
+++ b/include/stack.h
@@ -33,7 +33,7 @@ struct stack {
 
 int   stack_construct(struct stack* stack, size_t initialCount);
 void  stack_destroy(struct stack* stack);
-void  stack_push(struct stack* stack, void* pointer);
+int   stack_push(struct stack* stack, void* pointer);
 void* stack_pop(struct stack* stack);
 
 #endif //! __GRACHT_STACK_H__
diff --git a/runtime/server.c b/runtime/server.c
index 429f483..f81e10e 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -692,6 +692,14 @@ int gracht_server_get_buffer(gracht_server_t* server, gracht_buffer_t* buffer)
     return 0;
 }
 
+// Keeps a buffer for the next message, or frees it if there is no room to remember it
+static void put_out_buffer(struct gracht_server* server, void* data)
+{
+    if (stack_push(&server->bufferStack, data)) {
+        free(data);
+    }
+}
+
 // Sends a message to the sender of a request, and returns the buffer of the message to the server
 static int send_reply(struct gracht_message* messageContext, gracht_buffer_t* message)
 {
@@ -717,7 +725,7 @@ static int send_reply(struct gracht_message* messageContext, gracht_buffer_t* me
     }
 
     // return the borrowed buffer to the stack
-    stack_push(&messageContext->server->bufferStack, message->data);
+    put_out_buffer(messageContext->server, message->data);
     return status;
 }
 
@@ -752,7 +760,7 @@ int gracht_server_send_event(gracht_server_t* server, gracht_conn_t client, grac
     clientEntry = gr_hashtable_get(&server->clients, &(struct client_wrapper){ .handle = client });
     if (!clientEntry) {
         rwlock_r_unlock(&server->clients_lock);
-        stack_push(&server->bufferStack, message->data);
+        put_out_buffer(server, message->data);
         errno = ENOENT;
         return -1;
     }
@@ -762,7 +770,7 @@ int gracht_server_send_event(gracht_server_t* server, gracht_conn_t client, grac
     rwlock_r_unlock(&server->clients_lock);
 
     // return the borrowed buffer to the stack
-    stack_push(&server->bufferStack, message->data);
+    put_out_buffer(server, message->data);
     return status;
 }
 
@@ -786,7 +794,7 @@ int gracht_server_broadcast_event(gracht_server_t* server, gracht_buffer_t* mess
     rwlock_r_unlock(&server->clients_lock);
 
     // return the borrowed buffer to the stack
-    stack_push(&server->bufferStack, message->data);
+    put_out_buffer(server, message->data);
     return 0;
 }
 
diff --git a/runtime/stack.c b/runtime/stack.c
index 85898a1..26637fe 100644
--- a/runtime/stack.c
+++ b/runtime/stack.c
@@ -65,17 +65,23 @@ static int stack_resize(struct stack* stack, size_t newSize)
     return 0;
 }
 
-void stack_push(struct stack* stack, void* pointer)
+int stack_push(struct stack* stack, void* pointer)
 {
+    int status = 0;
+
     if (!stack || !pointer) {
-        return;
+        errno = EINVAL;
+        return -1;
     }
 
     mtx_lock(&stack->lock);
     if (stack->index < stack->count || !stack_resize(stack, stack->count * 2)) {
         stack->elements[stack->index++] = (uintptr_t)pointer;
+    } else {
+        status = -1;
     }
     mtx_unlock(&stack->lock);
+    return status;
 }
 
 void* stack_pop(struct stack* stack)
-- 
2.43.0


From d2d4cce09b5a6be0874c152cbf103cf49484877f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:26 +0000
Subject: [PATCH 34/39] fix: a client whose socket can not be watched is
 refused instead of never being served

---
 runtime/link/socket/server.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/runtime/link/socket/server.c b/runtime/link/socket/server.c
index e2924c7..313e0cb 100644
--- a/runtime/link/socket/server.c
+++ b/runtime/link/socket/server.c
@@ -544,7 +544,11 @@ static int socket_link_accept(
     
     status = socket_aio_add(set_handle, client->socket);
     if (status) {
-        GRWARNING(GRSTR("socket_link_accept failed to add socket to set_handle"));
+        GRERROR(GRSTR("socket_link_accept failed to add socket to set_handle"));
+        close(client->socket);
+        mtx_destroy(&client->send_lock);
+        free(client);
+        return -1;
     }
     
     *clientOut = &client->base;
-- 
2.43.0


From 1ffb808ceb2180f2b745a1a741e6226ccbd66627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:48 +0000
Subject: [PATCH 35/39] fix: what can not be stored in a table is refused
 instead of forgotten

---
 runtime/client.c    | 11 ++++++++++-
 runtime/hashtable.c |  2 +-
 runtime/server.c    | 17 +++++++++++++++++
 3 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/runtime/client.c b/runtime/client.c
index 168f041..48b2d0c 100644
--- a/runtime/client.c
+++ b/runtime/client.c
@@ -81,6 +81,7 @@ static int __add_message(
         struct gracht_message_context*     context)
 {
     struct gracht_message_descriptor entry = { 0 };
+    int                              status = 0;
     if (context == NULL) {
         errno = EINVAL;
         return -1;
@@ -91,8 +92,12 @@ static int __add_message(
 
     mtx_lock(&client->messages_lock);
     gr_hashtable_set(&client->messages, &entry);
+    if (!gr_hashtable_get(&client->messages, &entry)) {
+        errno = ENOMEM;
+        status = -1;
+    }
     mtx_unlock(&client->messages_lock);
-    return 0;
+    return status;
 }
 
 static void __remove_message(
@@ -590,6 +595,10 @@ int gracht_client_register_protocol(gracht_client_t* client, gracht_protocol_t*
     }
     
     gr_hashtable_set(&client->protocols, protocol);
+    if (!gr_hashtable_get(&client->protocols, protocol)) {
+        errno = ENOMEM;
+        return -1;
+    }
     return 0;
 }
 
diff --git a/runtime/hashtable.c b/runtime/hashtable.c
index f8f4e1c..8d849b3 100644
--- a/runtime/hashtable.c
+++ b/runtime/hashtable.c
@@ -119,7 +119,7 @@ void* gr_hashtable_set(gr_hashtable_t* hashtable, const void* element)
     // Only resize on entry - that way we avoid any unneccessary resizing. Growing can wait as long as
     // there is room, one slot must stay free to end the probing
     if (SHOULD_GROW(hashtable) && hashtable_resize(hashtable, hashtable->capacity << 1) &&
-        hashtable->element_count + 1 >= hashtable->capacity) {
+        hashtable->element_count + 1 >= hashtable->capacity && !gr_hashtable_get(hashtable, element)) {
         errno = ENOMEM;
         return NULL;
     }
diff --git a/runtime/server.c b/runtime/server.c
index f81e10e..5bdd753 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -306,6 +306,12 @@ static int handle_connection(struct gracht_server* server, struct gracht_link* l
         .link = link,
         .client = client
     });
+    if (!gr_hashtable_get(&server->clients, &(struct client_wrapper){ .handle = client->handle })) {
+        GRERROR(GRSTR("gracht_server: failed to store client"));
+        link->ops.server.destroy_client(client, server->set_handle);
+        rwlock_w_unlock(&server->clients_lock);
+        return -1;
+    }
     rwlock_w_unlock(&server->clients_lock);
 
     // invoke the new client callback at last
@@ -817,6 +823,11 @@ int gracht_server_register_protocol(gracht_server_t* server, gracht_protocol_t*
         return -1;
     }
     gr_hashtable_set(&server->protocols, protocol);
+    if (!gr_hashtable_get(&server->protocols, protocol)) {
+        rwlock_w_unlock(&server->protocols_lock);
+        errno = ENOMEM;
+        return -1;
+    }
     rwlock_w_unlock(&server->protocols_lock);
     return 0;
 }
@@ -961,6 +972,12 @@ void gracht_control_subscribe_invocation(const struct gracht_message* message, c
         // right now
         rwlock_w_lock(&message->server->clients_lock);
         gr_hashtable_set(&message->server->clients, &newEntry);
+        if (!gr_hashtable_get(&message->server->clients, &newEntry)) {
+            GRERROR(GRSTR("gracht_control_subscribe_invocation failed to store client"));
+            newEntry.link->ops.server.destroy_client(newEntry.client, message->server->set_handle);
+            rwlock_w_unlock(&message->server->clients_lock);
+            return;
+        }
         rwlock_w_unlock(&message->server->clients_lock);
 
         if (message->server->callbacks.clientConnected) {
-- 
2.43.0


From d5b7aeb6ffe59a9cfca9a1134b99bdec4ae80648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:07 +0000
Subject: [PATCH 36/39] fix: a client whose tables can not be created is
 reported

---
 runtime/client.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/runtime/client.c b/runtime/client.c
index 48b2d0c..cb4d204 100644
--- a/runtime/client.c
+++ b/runtime/client.c
@@ -479,13 +479,17 @@ int gracht_client_create(gracht_client_configuration_t* config, gracht_client_t*
     mtx_init(&client->send_buffer_lock, mtx_plain);
     mtx_init(&client->messages_lock, mtx_plain);
     cnd_init(&client->messages_event);
-    gr_hashtable_construct(&client->protocols, 0, sizeof(struct gracht_protocol), protocol_hash, protocol_cmp);
-    gr_hashtable_construct(&client->messages, 0, sizeof(struct gracht_message_descriptor), message_hash, message_cmp);
-
     client->link = config->link;
     client->iod = GRACHT_CONN_INVALID;
     client->current_message_id = 1;
 
+    if (gr_hashtable_construct(&client->protocols, 0, sizeof(struct gracht_protocol), protocol_hash, protocol_cmp) ||
+        gr_hashtable_construct(&client->messages, 0, sizeof(struct gracht_message_descriptor), message_hash, message_cmp)) {
+        GRERROR(GRSTR("gracht_client: failed to create the protocol and message tables"));
+        errno = ENOMEM;
+        goto error;
+    }
+
     // handle memory sizes
     client->max_message_size = config->max_message_size;
     if (client->max_message_size <= 0) {
-- 
2.43.0


From 7e30c3dc099038bf9dd89af9e8f5ebab6225f7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:07 +0000
Subject: [PATCH 37/39] fix: a client that can not keep part of a message does
 not lose it

---
 runtime/link/socket/client.c | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/runtime/link/socket/client.c b/runtime/link/socket/client.c
index 4ef8ed1..734382c 100644
--- a/runtime/link/socket/client.c
+++ b/runtime/link/socket/client.c
@@ -59,23 +59,11 @@ static int socket_link_send_stream(struct gracht_link_socket* link,
 }
 
 // Keep what has been received of a message, so that the next call can continue from there.
-static int socket_link_store_partial(struct gracht_link_socket* link,
+static void socket_link_store_partial(struct gracht_link_socket* link,
     struct gracht_buffer* message, uint32_t received)
 {
-    uint8_t* partial;
-
-    if (received == link->partial_length) {
-        return 0;
-    }
-
-    partial = realloc(link->partial, received);
-    if (!partial) {
-        return -1;
-    }
-    memcpy(partial, &message->data[0], received);
-    link->partial        = partial;
+    memcpy(link->partial, &message->data[0], received);
     link->partial_length = received;
-    return 0;
 }
 
 static int socket_link_recv_stream(struct gracht_link_socket* link,
@@ -86,6 +74,15 @@ static int socket_link_recv_stream(struct gracht_link_socket* link,
     uint32_t received = link->partial_length;
     long     bytesRead;
 
+    // make sure there is room to keep a partial message before receiving any of it
+    if (!link->partial) {
+        link->partial = malloc(capacity);
+        if (!link->partial) {
+            errno = (ENOMEM);
+            return -1;
+        }
+    }
+
     if (received) {
         memcpy(&message->data[0], link->partial, received);
     }
@@ -113,7 +110,8 @@ static int socket_link_recv_stream(struct gracht_link_socket* link,
             errno = (ENODATA);
             return -1;
         } else if (SOCKET_WOULD_BLOCK()) {
-            errno = socket_link_store_partial(link, message, received) ? EPIPE : EAGAIN;
+            socket_link_store_partial(link, message, received);
+            errno = (EAGAIN);
             return -1;
         } else if (!SOCKET_INTERRUPTED()) {
             errno = (EPIPE);
-- 
2.43.0


From 3da582d3d8c5e6ea5b957114a75c6e5d72799c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:30 +0000
Subject: [PATCH 38/39] fix: the generated result functions report a finished
 call as completed

They returned 0, which is GRACHT_MESSAGE_INPROGRESS, for calls in progress and for
finished calls alike.
---
 generator/languages/langc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generator/languages/langc.py b/generator/languages/langc.py
index 1da0a3e..0c59ba9 100644
--- a/generator/languages/langc.py
+++ b/generator/languages/langc.py
@@ -670,6 +670,9 @@ def write_status_body_epilogue(service: ServiceObject, func: FunctionObject, out
 def define_status_body(service: ServiceObject, func: FunctionObject, outfile: CodeWriter):
     write_status_body_prologue(service, func, outfile)
     outfile.write("__status = gracht_client_status_finalize(client, &__buffer);\n")
+    outfile.writeln("if (!__status) {")
+    outfile.writeln("    __status = GRACHT_MESSAGE_COMPLETED;")
+    outfile.writeln("}")
     write_status_body_epilogue(service, func, outfile)
 
 
-- 
2.43.0


From a74d2889f919474fbbdc1c38853eb222b7cc036f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:57 +0000
Subject: [PATCH 39/39] fix: events of descriptors that are not the server's
 are not reported as handled

---
 runtime/server.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/runtime/server.c b/runtime/server.c
index 5bdd753..8023b12 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -421,7 +421,15 @@ static int handle_client_event(struct gracht_server* server, gracht_conn_t handl
 {
     int status;
     GRTRACE(GRSTR("handle_client_event %" F_CONN_T ", 0x%x"), handle, events);
-    
+    // the event may be for a descriptor that is not ours
+    rwlock_r_lock(&server->clients_lock);
+    if (!gr_hashtable_get(&server->clients, &(struct client_wrapper){ .handle = handle })) {
+        rwlock_r_unlock(&server->clients_lock);
+        errno = ENOENT;
+        return -1;
+    }
+    rwlock_r_unlock(&server->clients_lock);
+
     // Handle everything that was received before looking at the disconnect event, the client
     // may have sent requests right before it disconnected.
     if ((events & GRACHT_AIO_EVENT_IN) || !events) {
-- 
2.43.0

