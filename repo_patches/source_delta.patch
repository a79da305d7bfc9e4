From 6814b422f50f6116934ada3c93242cd61f61170a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:51 +0000
Subject: [PATCH 01/56] fix: compare event and partition ids without truncating
 the difference

---
 monotone/engine/io/comparator.h | 13 +++++++------
 monotone/runtime/runtime/misc.h |  6 ++++--
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/monotone/engine/io/comparator.h b/monotone/engine/io/comparator.h
index 53a83b0..f6d2a10 100644
--- a/monotone/engine/io/comparator.h
+++ b/monotone/engine/io/comparator.h
@@ -26,14 +26,13 @@ comparator_init(Comparator* self)
 	self->unused = 0;
 }
 
-hot static inline int64_t
+hot static inline int
 compare(Comparator* self, Event* a, Event* b)
 {
 	unused(self);
 	// compare by [id, key]
-	int64_t diff = a->id - b->id;
-	if (likely(diff != 0))
-		return diff;
+	if (likely(a->id != b->id))
+		return (a->id > b->id) ? 1 : -1;
 	if (a->key_size == 0 && b->key_size == 0)
 		return 0;
 	int size;
@@ -43,6 +42,8 @@ compare(Comparator* self, Event* a, Event* b)
 		size = b->key_size;
 	int rc = memcmp(a->data, b->data, size);
 	if (rc == 0)
-		return (int64_t)a->key_size - (int64_t)b->key_size;
-	return rc;
+		rc = (int)a->key_size - (int)b->key_size;
+	if (rc == 0)
+		return 0;
+	return (rc > 0) ? 1 : -1;
 }
diff --git a/monotone/runtime/runtime/misc.h b/monotone/runtime/runtime/misc.h
index 3b747eb..1a0594e 100644
--- a/monotone/runtime/runtime/misc.h
+++ b/monotone/runtime/runtime/misc.h
@@ -13,8 +13,10 @@
 // Monotone Commercial License.
 //
 
-always_inline static inline int64_t
+always_inline static inline int
 compare_u64(uint64_t a, uint64_t b)
 {
-	return (int64_t)a - (int64_t)b;
+	if (a == b)
+		return 0;
+	return (a > b) ? 1 : -1;
 }
-- 
2.43.0


From d01dc454284a364089a7b3ce96e3a4833056b89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:57 +0000
Subject: [PATCH 02/56] fix: handle partitions that end at the maximum id

The end of a partition was computed or stepped over with an unchecked
addition: writing an id close to UINT64_MAX failed with 'invalid partition
interval', and cursors, range commands and gap filling restarted from 0
after a partition ending at UINT64_MAX.
---
 monotone/engine/engine/engine.c        |  2 ++
 monotone/engine/engine/engine_cursor.h |  8 ++++++--
 monotone/engine/engine/op.c            | 21 +++++++++++++++++++++
 3 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/monotone/engine/engine/engine.c b/monotone/engine/engine/engine.c
index e459767..dc4c28f 100644
--- a/monotone/engine/engine/engine.c
+++ b/monotone/engine/engine/engine.c
@@ -142,6 +142,8 @@ engine_lock(Engine* self, uint64_t id, LockType lock,
 			// interval is inclusive
 			auto min = config_interval_of(id);
 			auto max = (min + config_interval()) - 1;
+			if (unlikely(max < min))
+				max = UINT64_MAX;
 			engine_fill_nolock(self, min, max);
 
 			// retry search
diff --git a/monotone/engine/engine/engine_cursor.h b/monotone/engine/engine/engine_cursor.h
index 8907440..3338ecc 100644
--- a/monotone/engine/engine/engine_cursor.h
+++ b/monotone/engine/engine/engine_cursor.h
@@ -98,15 +98,19 @@ engine_cursor_next(EngineCursor* self)
 	if (likely(part_cursor_has(&self->cursor)))
 		return;
 
-	uint64_t next_interval = self->ref->slice.max + 1;
+	uint64_t max = self->ref->slice.max;
 
 	// close previous partition
 	part_cursor_close(&self->cursor);
 	engine_unlock(self->engine, self->ref, LOCK_ACCESS);
 	self->ref = NULL;
 
+	// last possible partition
+	if (unlikely(max == UINT64_MAX))
+		return;
+
 	// open next partition
-	engine_cursor_open_part(self, next_interval, NULL);
+	engine_cursor_open_part(self, max + 1, NULL);
 }
 
 hot static inline void
diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index 2d3e9ab..606acb6 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -102,10 +102,15 @@ engine_fill_nolock(Engine* self, uint64_t min, uint64_t max)
 					gap.max = slice->min - 1;
 				buf_write(&gaps, &gap, sizeof(gap));
 
+				// no more ids left
+				if (unlikely(slice->max == UINT64_MAX))
+					break;
 				min = slice->max + 1;
 			} else
 			if (slice_in(slice, min))
 			{
+				if (unlikely(slice->max == UINT64_MAX))
+					break;
 				min = slice->max + 1;
 			}
 
@@ -319,7 +324,11 @@ engine_drop_range(Engine* self, uint64_t min, uint64_t max, int mask)
 {
 	uint64_t next;
 	for (; engine_foreach(self, &min, &next, max); min = next)
+	{
 		engine_drop(self, min, true, mask);
+		if (unlikely(next == 0))
+			break;
+	}
 }
 
 void
@@ -388,7 +397,11 @@ engine_download_range(Engine* self, uint64_t min, uint64_t max, bool if_cloud)
 {
 	uint64_t next;
 	for (; engine_foreach(self, &min, &next, max); min = next)
+	{
 		engine_download(self, min, true, if_cloud);
+		if (unlikely(next == 0))
+			break;
+	}
 }
 
 void
@@ -458,7 +471,11 @@ engine_upload_range(Engine* self, uint64_t min, uint64_t max, bool if_cloud)
 {
 	uint64_t next;
 	for (; engine_foreach(self, &min, &next, max); min = next)
+	{
 		engine_upload(self, min, true, if_cloud);
+		if (unlikely(next == 0))
+			break;
+	}
 }
 
 void
@@ -488,7 +505,11 @@ engine_refresh_range(Engine* self, Refresh* refresh, uint64_t min, uint64_t max,
 {
 	uint64_t next;
 	for (; engine_foreach(self, &min, &next, max); min = next)
+	{
 		engine_refresh(self, refresh, min, storage, true);
+		if (unlikely(next == 0))
+			break;
+	}
 }
 
 static inline Part*
-- 
2.43.0


From 04493cf4681dec9ecaf6edfb0ed05b08806b619e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:27 +0000
Subject: [PATCH 03/56] fix: keep the right subtree of a memtable page when it
 is split

The page created by a split was attached as the right child of the split
page, which drops the existing right subtree and all of its events.
---
 monotone/engine/io/memtable.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/monotone/engine/io/memtable.c b/monotone/engine/io/memtable.c
index f904dbe..c5e1ef4 100644
--- a/monotone/engine/io/memtable.c
+++ b/monotone/engine/io/memtable.c
@@ -273,8 +273,10 @@ memtable_set(Memtable* self, Event* event)
 	auto prev = memtable_insert(self, page, &page_split, event);
 	if (page_split)
 	{
-		// update split page
-		rbtree_set(&self->tree, &page->node, -1, &page_split->node);
+		// add split page
+		RbtreeNode* node = NULL;
+		int rc = memtable_find(&self->tree, self, page_split->events[0], &node);
+		rbtree_set(&self->tree, node, rc, &page_split->node);
 		self->count_pages++;
 	}
 	return prev;
-- 
2.43.0


From 03ac9ad027a32fde6e3c3b7ca26c75a76abf4861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:10 +0000
Subject: [PATCH 04/56] fix: allocate the whole size of an event

event_size() counts the key twice and is used to write events to the wal
and to partition files and to copy them, but only one key was allocated:
up to 255 bytes past the event were read, possibly past its memory page,
and an event accepted by a write could be too big to be replayed.
---
 monotone/engine/io/event.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/monotone/engine/io/event.h b/monotone/engine/io/event.h
index 9f3435a..59a4484 100644
--- a/monotone/engine/io/event.h
+++ b/monotone/engine/io/event.h
@@ -64,6 +64,14 @@ event_value(Event* self)
 	return self->data + self->key_size;
 }
 
+always_inline hot static inline size_t
+event_arg_size(EventArg* arg)
+{
+	// must match event_size(), which counts the key twice (both wal and
+	// partition files rely on it)
+	return sizeof(Event) + arg->key_size + arg->key_size + arg->value_size;
+}
+
 hot static inline void
 event_init(Event* self, EventArg* arg)
 {
@@ -75,13 +83,14 @@ event_init(Event* self, EventArg* arg)
 		memcpy(self->data, arg->key, arg->key_size);
 	if (arg->value_size > 0)
 		memcpy(self->data + arg->key_size, arg->value, arg->value_size);
+	if (arg->key_size > 0)
+		memset(self->data + self->data_size, 0, arg->key_size);
 }
 
 static inline Event*
 event_allocate(Heap* heap, EventArg* arg)
 {
-	auto arg_size = arg->key_size + arg->value_size;
-	auto event = (Event*)heap_allocate(heap, sizeof(Event) + arg_size);
+	auto event = (Event*)heap_allocate(heap, event_arg_size(arg));
 	event_init(event, arg);
 	return event;
 }
@@ -97,8 +106,7 @@ event_copy(Heap* heap, Event* src)
 static inline Event*
 event_malloc(EventArg* arg)
 {
-	auto arg_size = arg->key_size + arg->value_size;
-	auto event = (Event*)mn_malloc(sizeof(Event) + arg_size);
+	auto event = (Event*)mn_malloc(event_arg_size(arg));
 	event_init(event, arg);
 	return event;
 }
-- 
2.43.0


From feb20e3ab4743ed081828cd8541f7a68adb59f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:32 +0000
Subject: [PATCH 05/56] fix: roll back a write which failed before its event
 was stored

A rejected key of the first event rolled back from the operation -1, an
event that does not fit into a memory page was copied to NULL, and a
memory limit error removed an event which was never added.
---
 monotone/engine/engine/write.c | 8 ++++----
 monotone/engine/io/memtable.c  | 3 ++-
 monotone/runtime/lib/heap.h    | 8 ++++----
 3 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/monotone/engine/engine/write.c b/monotone/engine/engine/write.c
index dad5893..793f4fc 100644
--- a/monotone/engine/engine/write.c
+++ b/monotone/engine/engine/write.c
@@ -24,20 +24,20 @@
 static void
 engine_rollback(Engine* self, Log* log)
 {
-	auto pos   = log_last(log);
-	auto first = log_first(log);
-	while (pos >= first)
+	// undo in the reverse order
+	for (int i = (int)log->write.count - 1; i >= 0; i--)
 	{
+		auto pos = log_of(log, i);
 		if (pos->ref)
 		{
 			Ref* ref = pos->ref;
 			if (pos->prev)
 				memtable_set(ref->part->memtable, pos->prev);
 			else
+			if (pos->event)
 				memtable_unset(ref->part->memtable, pos->event);
 			engine_unlock(self, ref, LOCK_ACCESS);
 		}
-		pos--;
 	}
 	log_reset(log);
 }
diff --git a/monotone/engine/io/memtable.c b/monotone/engine/io/memtable.c
index c5e1ef4..157fcda 100644
--- a/monotone/engine/io/memtable.c
+++ b/monotone/engine/io/memtable.c
@@ -285,7 +285,8 @@ memtable_set(Memtable* self, Event* event)
 void
 memtable_unset(Memtable* self, Event* event)
 {
-	assert(self->count_pages > 0);
+	if (self->count_pages == 0)
+		return;
 
 	// search page
 	auto page = memtable_search_page(self, event);
diff --git a/monotone/runtime/lib/heap.h b/monotone/runtime/lib/heap.h
index 7f0434c..54e397a 100644
--- a/monotone/runtime/lib/heap.h
+++ b/monotone/runtime/lib/heap.h
@@ -54,13 +54,13 @@ heap_used(Heap* self)
 }
 
 hot static inline void*
-heap_allocate(Heap* self, int size)
+heap_allocate(Heap* self, size_t size)
 {
-	if (unlikely(size > self->memory_mgr->page_size))
-		return NULL;
+	if (unlikely(size > (size_t)self->memory_mgr->page_size))
+		error("mm: allocation size exceeds the memory page size");
 	Page* page;
 	if (unlikely(self->list == NULL ||
-	             (self->memory_mgr->page_size - self->list_tail->used) < size))
+	             (size_t)(self->memory_mgr->page_size - self->list_tail->used) < size))
 	{
 		page = memory_mgr_pop(self->memory_mgr);
 		if (self->list == NULL)
-- 
2.43.0


From 25aa086d3af19e99669b6b5d67d2cec7e1a7f439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:14 +0000
Subject: [PATCH 06/56] fix: open a cursor between two memtable pages

A cursor key greater than every event of a memtable page, but less than the
first event of the next page, hid all following events of the memtable.
---
 monotone/engine/io/memtable_iterator.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/monotone/engine/io/memtable_iterator.h b/monotone/engine/io/memtable_iterator.h
index 64a9581..ead5b46 100644
--- a/monotone/engine/io/memtable_iterator.h
+++ b/monotone/engine/io/memtable_iterator.h
@@ -40,9 +40,13 @@ memtable_iterator_open(MemtableIterator* self,
 	bool match = memtable_seek(memtable, key, &self->page, &self->page_pos);
 	if (self->page_pos >= self->page->events_count)
 	{
+		// key is greater than any event of the page, continue with the next one
+		auto next = rbtree_next(&memtable->tree, &self->page->node);
 		self->page     = NULL;
 		self->page_pos = 0;
-		return false;
+		if (next == NULL)
+			return false;
+		self->page = container_of(next, MemtablePage, node);
 	}
 	self->current = self->page->events[self->page_pos];
 
-- 
2.43.0


From 14727cfa7b16933e945f908893a650675b3d0a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:19 +0000
Subject: [PATCH 07/56] fix: open a cursor after the last key of a region

A cursor key with the id of the last event of a region and a greater key
hid all following regions of the partition file.
---
 monotone/engine/io/part_iterator.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/monotone/engine/io/part_iterator.h b/monotone/engine/io/part_iterator.h
index 3bc134e..afe6553 100644
--- a/monotone/engine/io/part_iterator.h
+++ b/monotone/engine/io/part_iterator.h
@@ -53,7 +53,17 @@ part_iterator_open(PartIterator* self, Part* part, Event* event)
 		return false;
 
 	reader_open(&self->reader, part);
-	return part_iterator_open_region(self, event);
+	bool match = part_iterator_open_region(self, event);
+
+	// key is greater than any event of the region, continue with the next one
+	if (unlikely(! region_iterator_has(&self->region_iterator)))
+	{
+		index_iterator_next(&self->index_iterator);
+		self->current = index_iterator_at(&self->index_iterator);
+		if (self->current)
+			part_iterator_open_region(self, NULL);
+	}
+	return match;
 }
 
 hot static inline bool
-- 
2.43.0


From db4bc2341f9368c78fedba25b6d4c6f89bc65fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:30 +0000
Subject: [PATCH 08/56] fix: keep open cursors in place when their memtable
 changes

An insert right at the position of a cursor left the cursor on the new
event, a page split used a position already moved to the split page, and a
rolled back insert was not applied to cursors at all: a cursor of the
writing thread could skip or repeat events or read past its page.
---
 monotone/engine/io/memtable.c          | 42 +++++++++++++++----
 monotone/engine/io/memtable_iterator.h | 56 +++++++++++++++-----------
 2 files changed, 67 insertions(+), 31 deletions(-)

diff --git a/monotone/engine/io/memtable.c b/monotone/engine/io/memtable.c
index 157fcda..1853503 100644
--- a/monotone/engine/io/memtable.c
+++ b/monotone/engine/io/memtable.c
@@ -183,14 +183,31 @@ range_search(Ref self, RangeTree* tree, Ref key, bool* match)
 #endif
 
 hot static inline void
-memtable_sync(Memtable* self, MemtablePage* page, MemtablePage* split, int pos)
+memtable_sync_replace(Memtable* self, MemtablePage* page, int pos)
 {
-	// sync iterators
 	list_foreach(&self->iterators)
-	{
-		auto it = list_at(MemtableIterator, link);
-		memtable_iterator_sync(it, page, split, pos);
-	}
+		memtable_iterator_sync_replace(list_at(MemtableIterator, link), page, pos);
+}
+
+hot static inline void
+memtable_sync_split(Memtable* self, MemtablePage* page, MemtablePage* split)
+{
+	list_foreach(&self->iterators)
+		memtable_iterator_sync_split(list_at(MemtableIterator, link), page, split);
+}
+
+hot static inline void
+memtable_sync_insert(Memtable* self, MemtablePage* page, int pos)
+{
+	list_foreach(&self->iterators)
+		memtable_iterator_sync_insert(list_at(MemtableIterator, link), page, pos);
+}
+
+hot static inline void
+memtable_sync_remove(Memtable* self, MemtablePage* page, int pos)
+{
+	list_foreach(&self->iterators)
+		memtable_iterator_sync_remove(list_at(MemtableIterator, link), page, pos);
 }
 
 hot static inline Event*
@@ -209,7 +226,7 @@ memtable_insert(Memtable*      self,
 
 		// update iterators
 		if (self->iterators_count > 0)
-			memtable_sync(self, page, NULL, pos);
+			memtable_sync_replace(self, page, pos);
 
 		return prev;
 	}
@@ -227,6 +244,11 @@ memtable_insert(Memtable*      self,
 		r->events_count = self->size_page - self->size_split;
 		memmove(&r->events[0], &l->events[self->size_split],
 		        sizeof(Event*) * r->events_count);
+
+		// update iterators
+		if (self->iterators_count > 0)
+			memtable_sync_split(self, l, r);
+
 		if (pos >= l->events_count)
 		{
 			ref = r;
@@ -244,7 +266,7 @@ memtable_insert(Memtable*      self,
 
 	// update iterators
 	if (self->iterators_count > 0)
-		memtable_sync(self, l, r, pos);
+		memtable_sync_insert(self, ref, pos);
 
 	*page_split = r;
 	return NULL;
@@ -302,6 +324,10 @@ memtable_unset(Memtable* self, Event* event)
 	page->events_count--;
 	atomic_u64_dec(&self->count);
 
+	// update iterators
+	if (self->iterators_count > 0)
+		memtable_sync_remove(self, page, pos);
+
 	// remove page, if it becomes empty
 	if (page->events_count == 0)
 	{
diff --git a/monotone/engine/io/memtable_iterator.h b/monotone/engine/io/memtable_iterator.h
index ead5b46..669451b 100644
--- a/monotone/engine/io/memtable_iterator.h
+++ b/monotone/engine/io/memtable_iterator.h
@@ -135,35 +135,45 @@ memtable_iterator_init(MemtableIterator* self)
 }
 
 static inline void
-memtable_iterator_sync(MemtableIterator* self,
-                       MemtablePage*     page,
-                       MemtablePage*     page_split,
-                       int               pos)
+memtable_iterator_sync_replace(MemtableIterator* self,
+                               MemtablePage*     page,
+                               int               pos)
 {
-	if (self->page != page || !self->current)
-		return;
-
-	// replace
-	if (self->page_pos == pos)
-	{
-		// update current page event pointer on replace
-		self->current = self->page->events[self->page_pos];
-		return;
-	}
+	// update current event on replace
+	if (self->current && self->page == page && self->page_pos == pos)
+		self->current = page->events[pos];
+}
 
-	// insert
-	if (page_split)
+static inline void
+memtable_iterator_sync_split(MemtableIterator* self,
+                             MemtablePage*     page,
+                             MemtablePage*     page_split)
+{
+	// move to the split page
+	if (self->current && self->page == page &&
+	    self->page_pos >= page->events_count)
 	{
-		if (self->page_pos >= page->events_count)
-		{
-			self->page = page_split;
-			self->page_pos = self->page_pos - page->events_count;
-		}
+		self->page = page_split;
+		self->page_pos -= page->events_count;
 	}
+}
 
+static inline void
+memtable_iterator_sync_insert(MemtableIterator* self,
+                              MemtablePage*     page,
+                              int               pos)
+{
 	// move position, if key was inserted before it
-	if (pos <= self->page_pos)
+	if (self->current && self->page == page && pos <= self->page_pos)
 		self->page_pos++;
+}
 
-	self->current = self->page->events[self->page_pos];
+static inline void
+memtable_iterator_sync_remove(MemtableIterator* self,
+                              MemtablePage*     page,
+                              int               pos)
+{
+	// move position, if key was removed before it
+	if (self->current && self->page == page && pos < self->page_pos)
+		self->page_pos--;
 }
-- 
2.43.0


From d94397b0c41c83b4a11189f94ebe55992bbdd0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:33 +0000
Subject: [PATCH 09/56] fix: count the first acquisition of a reference lock

Nested locks of the same thread were released together with the first
unlock: writing to the partition of an open cursor left the cursor without
its lock, and a later unlock could release the lock of another thread.
---
 monotone/engine/engine/lockage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monotone/engine/engine/lockage.h b/monotone/engine/engine/lockage.h
index 65a56d1..1466c7f 100644
--- a/monotone/engine/engine/lockage.h
+++ b/monotone/engine/engine/lockage.h
@@ -79,7 +79,7 @@ lockage_lock(Lockage* self, LockType type)
 		if (lock->locker == 0)
 		{
 			lock->locker = pthread_id;
-			lock->locker_refs = 0;
+			lock->locker_refs = 1;
 			break;
 		}
 		lock->pending++;
-- 
2.43.0


From df83b0d1663d450c57971147aee83a5985a9e8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:36 +0000
Subject: [PATCH 10/56] fix: replace the partition file before releasing its
 memtable

The memtable was released (and its wal became a subject of gc) before the
new partition file has replaced the old one. An error in between left the
data only in a file which is removed by recovery. Failed refresh was also
leaving the rotated memtable behind: next one wrote it over the newer data
or never included it.
---
 monotone/engine/engine/op.c      |   7 +-
 monotone/engine/engine/refresh.c | 144 +++++++++++++++++++++----------
 monotone/engine/engine/refresh.h |   1 +
 3 files changed, 104 insertions(+), 48 deletions(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index 606acb6..af67631 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -626,9 +626,12 @@ engine_checkpoint(Engine* self)
 	while (slice)
 	{
 		auto ref = ref_of(slice);
-		if (!ref->part->refresh && heap_used(&ref->part->memtable->heap) > 0)
+		auto part = ref->part;
+
+		// both memtables have data, if previous refresh failed
+		if (!part->refresh && (heap_used(&part->memtable_a.heap) > 0 ||
+		                       heap_used(&part->memtable_b.heap) > 0))
 		{
-			auto part = ref->part;
 			service_refresh(self->service, part);
 			part->refresh = true;
 		}
diff --git a/monotone/engine/engine/refresh.c b/monotone/engine/engine/refresh.c
index db6e5c0..b309b63 100644
--- a/monotone/engine/engine/refresh.c
+++ b/monotone/engine/engine/refresh.c
@@ -30,6 +30,7 @@ refresh_init(Refresh* self, Engine* engine)
 	self->memtable       = NULL;
 	self->storage_origin = NULL;
 	self->storage        = NULL;
+	self->retry          = false;
 	self->engine         = engine;
 	merger_init(&self->merger);
 }
@@ -49,6 +50,7 @@ refresh_reset(Refresh* self)
 	self->memtable       = NULL;
 	self->storage_origin = NULL;
 	self->storage        = NULL;
+	self->retry          = false;
 	merger_reset(&self->merger);
 }
 
@@ -108,7 +110,17 @@ refresh_begin(Refresh* self, uint64_t min, Str* storage, bool if_exists)
 	mutex_lock(&engine->lock);
 	ref_lock(ref, LOCK_ACCESS);
 
-	self->memtable = part_memtable_rotate(self->origin);
+	Memtable* prev;
+	part_memtable(self->origin, &prev);
+	if (prev->count > 0)
+	{
+		// previous refresh attempt failed, memtable is still in use and
+		// has older events
+		self->memtable = prev;
+		self->retry = true;
+	} else {
+		self->memtable = part_memtable_rotate(self->origin);
+	}
 
 	ref_unlock(ref, LOCK_ACCESS);
 	mutex_unlock(&engine->lock);
@@ -131,6 +143,45 @@ refresh_merge(Refresh* self)
 	self->merger.part = NULL;
 }
 
+static bool
+refresh_complete(Refresh* self, Exception* e)
+{
+	// replace partition file on disk
+	//
+	// returns true if the origin file has been removed, in this case the
+	// new partition must be used even on error
+	//
+	auto origin  = self->origin;
+	auto part    = self->part;
+	volatile bool removed = false;
+	if (enter(e))
+	{
+		// crash case 1
+		error_injection(error_refresh_1);
+
+		// step 1. rename new partition file as completed
+		part_rename(part, ID_INCOMPLETE, ID_COMPLETE);
+
+		// crash case 2
+		error_injection(error_refresh_2);
+
+		// step 2. remove old partition file
+		//
+		// file remains open and accessible until apply
+		part_delete(origin, ID);
+		removed = true;
+
+		// crash case 3
+		error_injection(error_refresh_3);
+
+		// step 3. rename new partition
+		part_rename(part, ID_COMPLETE, ID);
+	}
+	if (leave(e))
+	{ }
+	return removed;
+}
+
 static void
 refresh_apply(Refresh* self)
 {
@@ -149,57 +200,25 @@ refresh_apply(Refresh* self)
 	storage_remove(self->storage_origin, origin);
 
 	// add new partition to the storage
+	part_unset(part, ID_INCOMPLETE);
+	part_set(part, ID);
 	storage_add(self->storage, part);
 
 	// use active memtable on the new partition
 	memtable_move(part->memtable, origin->memtable);
 
-	// this should be ID_INCOMPLETE until sync
-	// completed, but made this way in order to be
-	// available for access during the
-	// refresh process
-	part_unset(part, ID_INCOMPLETE);
-	part_set(part, ID);
-
 	ref_unlock(self->ref, LOCK_ACCESS);
 	mutex_unlock(&engine->lock);
-}
-
-static void
-refresh_end(Refresh* self)
-{
-	auto origin = self->origin;
-	auto part   = self->part;
-
-	// free memtable memory
-	memtable_free(self->memtable);
-	self->memtable = NULL;
-
-	// crash case 1
-	error_injection(error_refresh_1);
 
-	// step 1. rename new partition file as completed
-	part_rename(part, ID_INCOMPLETE, ID_COMPLETE);
-
-	// crash case 2
-	error_injection(error_refresh_2);
-
-	// step 2. remove old partition file
-	file_close(&origin->file);
-	part_delete(origin, ID);
+	// free old partition and the memtable memory
 	part_free(origin);
-	self->origin = NULL;
-
-	// crash case 3
-	error_injection(error_refresh_3);
-
-	// step 3. rename new partition
-	part_rename(part, ID_COMPLETE, ID);
-	self->part = NULL;
+	self->origin   = NULL;
+	self->memtable = NULL;
+	self->part     = NULL;
 }
 
-void
-refresh_run(Refresh* self, uint64_t min, Str* storage, bool if_exists)
+static void
+refresh_run_once(Refresh* self, uint64_t min, Str* storage, bool if_exists)
 {
 	// step 1. find partition and take the service lock
 	//         match storage
@@ -221,17 +240,50 @@ refresh_run(Refresh* self, uint64_t min, Str* storage, bool if_exists)
 		// file with the memtable
 		refresh_merge(self);
 
-		// step 3. replace existing partition with the new one
-		refresh_apply(self);
+		// step 3. replace partition file on disk
+		//
+		// this must be done before the memtable is released, since
+		// the wal can be removed right after that
+		Exception complete;
+		auto removed = refresh_complete(self, &complete);
+
+		// step 4. replace existing partition with the new one
+		if (removed)
+			refresh_apply(self);
 
-		// step 4. finilize and cleanup
-		refresh_end(self);
+		if (complete.triggered)
+			rethrow();
 	}
+	auto failed = leave(&e);
+
+	// allow to schedule next attempt
+	if (failed && self->origin)
+		self->origin->refresh = false;
 
 	// complete
 	engine_unlock(self->engine, self->ref, LOCK_SERVICE);
 	self->ref = NULL;
 
-	if (leave(&e))
+	if (failed)
+	{
+		if (self->part)
+		{
+			part_free(self->part);
+			self->part = NULL;
+		}
 		rethrow();
+	}
+}
+
+void
+refresh_run(Refresh* self, uint64_t min, Str* storage, bool if_exists)
+{
+	refresh_run_once(self, min, storage, if_exists);
+	if (likely(! self->retry))
+		return;
+
+	// memtable of the failed attempt has been completed, repeat to include
+	// the current one
+	refresh_reset(self);
+	refresh_run_once(self, min, NULL, true);
 }
diff --git a/monotone/engine/engine/refresh.h b/monotone/engine/engine/refresh.h
index 071db07..e88c5a5 100644
--- a/monotone/engine/engine/refresh.h
+++ b/monotone/engine/engine/refresh.h
@@ -23,6 +23,7 @@ struct Refresh
 	Memtable* memtable;
 	Storage*  storage_origin;
 	Storage*  storage;
+	bool      retry;
 	Merger    merger;
 	Engine*   engine;
 };
-- 
2.43.0


From 98dffdb9fb7ebed7c9282cbc26997a6b749c5f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:47 +0000
Subject: [PATCH 11/56] fix: remove files of an unsuccessful refresh or upload

Partition files left by a failed refresh or upload were reused, restored
after a drop, or left the storage in a state which recovery rejected.
---
 monotone/engine/engine/engine_recover.c | 121 ++++++++++++------------
 monotone/engine/engine/engine_recover.h |   1 +
 monotone/engine/engine/op.c             |   3 +
 monotone/engine/engine/refresh.c        |   3 +
 monotone/runtime/runtime/file.h         |   4 +-
 5 files changed, 68 insertions(+), 64 deletions(-)

diff --git a/monotone/engine/engine/engine_recover.c b/monotone/engine/engine/engine_recover.c
index 5a6f1b4..5a01f62 100644
--- a/monotone/engine/engine/engine_recover.c
+++ b/monotone/engine/engine/engine_recover.c
@@ -119,82 +119,79 @@ engine_recover_validate(Engine* self, Storage* storage)
 	{
 		auto part = list_at(Part, link);
 
-		switch (part->state) {
-		case ID:
-		case ID | ID_CLOUD:
-		case ID_CLOUD:
-			// normal states
-			break;
-
-		// crash recovery cases (see refresh)
-
-		// crash case 1 (without parent)
-		case ID_INCOMPLETE:
-			storage_remove(storage, part);
-			part_delete(part, ID_INCOMPLETE);
-			part_free(part);
-			break;
-
-		// crash case 1 (with parent)
-		case ID | ID_INCOMPLETE:
+		// crash during refresh, download or upload before the file
+		// has been completed
+		if (part_has(part, ID_INCOMPLETE))
+		{
 			part_delete(part, ID_INCOMPLETE);
 			part_unset(part, ID_INCOMPLETE);
-			break;
-
-		// crash case 2
-		case ID | ID_COMPLETE:
-			part_delete(part, ID_COMPLETE);
-			part_unset(part, ID_COMPLETE);
-			break;
+		}
 
-		// crash case 3
-		case ID_COMPLETE:
+		if (part_has(part, ID_CLOUD_INCOMPLETE))
 		{
-			// crash during refresh on the same storage or move
+			part_delete(part, ID_CLOUD_INCOMPLETE);
+			part_unset(part, ID_CLOUD_INCOMPLETE);
+		}
 
-			// ensure partition does not exists on other storage
-			auto ref = storage_mgr_find_part(&self->storage_mgr, storage, part->id.min);
-			if (ref)
+		// crash during refresh on the same storage or move
+		if (part_has(part, ID_COMPLETE))
+		{
+			// ensure partition does not exists on this or other storage
+			auto exists = part_has(part, ID);
+			if (! exists)
 			{
-				if (! part_has(ref, ID))
-					error("partition '%" PRIu64"' has unexpected state: %d",
-					      ref->id.min, ref->state);
+				auto ref = storage_mgr_find_part(&self->storage_mgr, storage, part->id.min);
+				exists = ref && part_has(ref, ID|ID_CLOUD);
+			}
 
-				// parent still exists, remove incomplete partition
-				storage_remove(storage, part);
+			if (exists)
+			{
+				// parent still exists, remove completed partition
 				part_delete(part, ID_COMPLETE);
-				part_free(part);
-				continue;
+			} else
+			{
+				// finilize
+				part_rename(part, ID_COMPLETE, ID);
+				part_set(part, ID);
 			}
-
-			// finilize
-			part_rename(part, ID_COMPLETE, ID);
 			part_unset(part, ID_COMPLETE);
-			part_set(part, ID);
-			break;
 		}
 
-		// crash case 4
-		case ID_CLOUD | ID_INCOMPLETE:
-			// crash during download
-			//
-			// there is no complete state for download, cloud file not
-			// removed after download (only prior to refresh)
-			part_delete(part, ID_INCOMPLETE);
-			part_unset(part, ID_INCOMPLETE);
-			break;
+		// partition has no files left
+		if (part->state == ID_NONE)
+		{
+			storage_remove(storage, part);
+			part_free(part);
+		}
+	}
+}
 
-		// crash case 5
-		case ID | ID_CLOUD_INCOMPLETE:
-			// crash during upload
-			part_delete(part, ID_CLOUD_INCOMPLETE);
-			part_unset(part, ID_CLOUD_INCOMPLETE);
-			break;
+void
+engine_recover_part(Engine* self, Part* part)
+{
+	// remove files of the failed refresh or upload (without crash), requires
+	// service lock
 
-		default:
-			error("partition '%" PRIu64"' has unexpected state: %d",
-			      part->id.min, part->state);
-			break;
+	// partition has been replaced, but its file was not renamed
+	if (part_has(part, ID))
+	{
+		char path[PATH_MAX];
+		id_path(&part->id, part->source, ID, path);
+		if (! fs_exists("%s", path))
+			part_rename(part, ID_COMPLETE, ID);
+	}
+
+	// refresh can create files on the other storages
+	list_foreach(&self->storage_mgr.list)
+	{
+		auto source = list_at(Storage, link)->source;
+		int states[] = { ID_INCOMPLETE, ID_COMPLETE, ID_CLOUD_INCOMPLETE };
+		for (int i = 0; i < 3; i++)
+		{
+			char path[PATH_MAX];
+			id_path(&part->id, source, states[i], path);
+			if (fs_exists("%s", path))
+				fs_unlink("%s", path);
 		}
 	}
 }
diff --git a/monotone/engine/engine/engine_recover.h b/monotone/engine/engine/engine_recover.h
index ad93489..07fc399 100644
--- a/monotone/engine/engine/engine_recover.h
+++ b/monotone/engine/engine/engine_recover.h
@@ -14,3 +14,4 @@
 //
 
 void engine_recover(Engine*);
+void engine_recover_part(Engine*, Part*);
diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index af67631..f0175ca 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -201,6 +201,8 @@ engine_drop_file(Engine* self, uint64_t min, bool if_exists,
 	Exception e;
 	if (enter(&e))
 	{
+		engine_recover_part(self, part);
+
 		if (mask & ID_CLOUD)
 		{
 			if (part_has(part, ID_CLOUD))
@@ -445,6 +447,7 @@ engine_upload(Engine* self, uint64_t min,
 	// create cloud file and upload data file
 	Exception e;
 	if (enter(&e)) {
+		engine_recover_part(self, part);
 		part_upload(part);
 	}
 	if (leave(&e))
diff --git a/monotone/engine/engine/refresh.c b/monotone/engine/engine/refresh.c
index b309b63..1e265c6 100644
--- a/monotone/engine/engine/refresh.c
+++ b/monotone/engine/engine/refresh.c
@@ -236,6 +236,9 @@ refresh_run_once(Refresh* self, uint64_t min, Str* storage, bool if_exists)
 	Exception e;
 	if (enter(&e))
 	{
+		// remove files of the previous attempt
+		engine_recover_part(self->engine, self->origin);
+
 		// step 2. create new partition by merging existing partition
 		// file with the memtable
 		refresh_merge(self);
diff --git a/monotone/runtime/runtime/file.h b/monotone/runtime/runtime/file.h
index 73b263b..5642202 100644
--- a/monotone/runtime/runtime/file.h
+++ b/monotone/runtime/runtime/file.h
@@ -82,8 +82,8 @@ file_open_directory(File* self, const char* path)
 static inline void
 file_create(File* self, const char* path)
 {
-	// create file
-	file_open_as(self, path, O_CREAT|O_RDWR, 0644);
+	// create or truncate file
+	file_open_as(self, path, O_CREAT|O_TRUNC|O_RDWR, 0644);
 }
 
 static inline void
-- 
2.43.0


From 43a062857b7898bc53170fd1da7aeff903c3a9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:37 +0000
Subject: [PATCH 12/56] fix: remove incomplete log records

Record left by a failed write or a crash in the middle of a write stayed in
the log file: following records were appended after it and were lost or
misread on recovery. Log sequence number could also go back behind the last
log file after a drop.
---
 monotone/engine/wal/wal.c      | 19 +++++++++
 monotone/engine/wal/wal.h      |  1 +
 monotone/engine/wal/wal_file.h | 74 ++++++++++++++++++++++++++++++----
 monotone/main/main/main.c      |  5 +++
 4 files changed, 92 insertions(+), 7 deletions(-)

diff --git a/monotone/engine/wal/wal.c b/monotone/engine/wal/wal.c
index 80a32bf..c1fb368 100644
--- a/monotone/engine/wal/wal.c
+++ b/monotone/engine/wal/wal.c
@@ -65,6 +65,9 @@ wal_rotate(Wal* self, uint64_t wm)
 	Exception e;
 	if (enter(&e))
 	{
+		if (self->current)
+			wal_file_truncate(self->current);
+
 		file = wal_file_allocate(next_lsn);
 		wal_file_create(file);
 	}
@@ -186,6 +189,12 @@ wal_open(Wal* self)
 	if (self->list.list_count > 0)
 	{
 		uint64_t last = wal_id_max(&self->list);
+
+		// all log records before are already in use, even if none of them
+		// is present anymore
+		if (last > 0)
+			config_lsn_follow(last - 1);
+
 		self->current = wal_file_allocate(last);
 		wal_file_open(self->current);
 		file_seek_to_end(&self->current->file);
@@ -195,6 +204,16 @@ wal_open(Wal* self)
 	}
 }
 
+void
+wal_complete(Wal* self, uint64_t id, uint64_t size)
+{
+	// remove incomplete record from the end of the last file, to continue
+	// after the last complete one
+	auto current = self->current;
+	if (current->id == id && size < current->file.size)
+		file_truncate(&current->file, size);
+}
+
 hot bool
 wal_write(Wal* self, Log* log)
 {
diff --git a/monotone/engine/wal/wal.h b/monotone/engine/wal/wal.h
index 2a7e249..52a8f44 100644
--- a/monotone/engine/wal/wal.h
+++ b/monotone/engine/wal/wal.h
@@ -25,6 +25,7 @@ struct Wal
 void wal_init(Wal*);
 void wal_free(Wal*);
 void wal_open(Wal*);
+void wal_complete(Wal*, uint64_t, uint64_t);
 void wal_rotate(Wal*, uint64_t);
 void wal_gc(Wal*, uint64_t);
 bool wal_write(Wal*, Log*);
diff --git a/monotone/engine/wal/wal_file.h b/monotone/engine/wal/wal_file.h
index f34ad1f..974fb31 100644
--- a/monotone/engine/wal/wal_file.h
+++ b/monotone/engine/wal/wal_file.h
@@ -19,13 +19,17 @@ struct WalFile
 {
 	uint64_t id;
 	File     file;
+	uint64_t tail;
+	bool     tail_failed;
 };
 
 static inline WalFile*
 wal_file_allocate(uint64_t id)
 {
 	WalFile* self = mn_malloc(sizeof(WalFile));
-	self->id = id;
+	self->id          = id;
+	self->tail        = 0;
+	self->tail_failed = false;
 	file_init(&self->file);
 	return self;
 }
@@ -63,23 +67,76 @@ wal_file_close(WalFile* self)
 }
 
 static inline void
-wal_file_write(WalFile* self, void* data, int data_size)
+wal_file_truncate(WalFile* self)
+{
+	// remove record left by the failed write
+	if (likely(! self->tail_failed))
+		return;
+	file_truncate(&self->file, self->tail);
+	self->tail_failed = false;
+}
+
+static inline void
+wal_file_truncate_nothrow(WalFile* self)
+{
+	Exception e;
+	if (enter(&e))
+		wal_file_truncate(self);
+	// will be repeated on the next write
+	leave(&e);
+}
+
+static inline void
+wal_file_sync(WalFile* self)
 {
-	file_write(&self->file, data, data_size);
 	if (var_int_of(&config()->wal_sync_on_write) && config_sync())
 		file_sync(&self->file);
 }
 
+static inline void
+wal_file_write(WalFile* self, void* data, int data_size)
+{
+	wal_file_truncate(self);
+
+	Exception e;
+	if (enter(&e))
+	{
+		self->tail        = self->file.size;
+		self->tail_failed = true;
+		file_write(&self->file, data, data_size);
+		wal_file_sync(self);
+		self->tail_failed = false;
+	}
+	if (leave(&e))
+	{
+		wal_file_truncate_nothrow(self);
+		rethrow();
+	}
+}
+
 static inline void
 wal_file_writev(WalFile* self, struct iovec* iov, int iovc)
 {
-	file_writev(&self->file, iov, iovc);
-	if (var_int_of(&config()->wal_sync_on_write) && config_sync())
-		file_sync(&self->file);
+	wal_file_truncate(self);
+
+	Exception e;
+	if (enter(&e))
+	{
+		self->tail        = self->file.size;
+		self->tail_failed = true;
+		file_writev(&self->file, iov, iovc);
+		wal_file_sync(self);
+		self->tail_failed = false;
+	}
+	if (leave(&e))
+	{
+		wal_file_truncate_nothrow(self);
+		rethrow();
+	}
 }
 
 static inline bool
-wal_file_eof(WalFile* self, uint32_t offset, uint32_t size)
+wal_file_eof(WalFile* self, uint64_t offset, uint32_t size)
 {
 	return (offset + size) > self->file.size;
 }
@@ -98,6 +155,9 @@ wal_file_pread(WalFile* self, uint64_t offset, Buf* buf)
 	int start = buf_size(buf);
 	file_pread_buf(&self->file, buf, size_header, offset);
 	uint32_t size = ((LogWrite*)(buf->start + start))->size;
+	if (unlikely(size < size_header))
+		error("wal: file '%s' is corrupted at offset %" PRIu64,
+		      str_of(&self->file.path), offset);
 
 	// check for eof
 	if (wal_file_eof(self, offset, size))
diff --git a/monotone/main/main/main.c b/monotone/main/main/main.c
index 617b022..0473dff 100644
--- a/monotone/main/main/main.c
+++ b/monotone/main/main/main.c
@@ -204,6 +204,11 @@ main_replay(Main* self)
 
 		total += write->count;
 	}
+
+	// prepare to continue
+	if (cursor.file)
+		wal_complete(&self->wal, cursor.file->id, cursor.file_offset);
+
 	log("wal: %.1f million records processed",
 	    total / 1000000.0);
 }
-- 
2.43.0


From f2e928a0c55f43bfc2d48c9947d59031ce3842ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:14 +0000
Subject: [PATCH 13/56] fix: keep the log of a write until it is committed

Log gc could run between the log write and the commit, which sets the
minimum lsn of the memtable, and remove the log file of the write.
---
 monotone/engine/engine/op.c    | 4 +++-
 monotone/engine/engine/write.c | 9 +++++++++
 monotone/engine/io/memtable.c  | 7 +++++++
 monotone/engine/io/memtable.h  | 1 +
 4 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index f0175ca..fdfa5a6 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -653,7 +653,9 @@ engine_gc(Engine* self)
 	guard(control_unlock_guard, NULL);
 
 	// get minimum lsn currently used by any memtable
-	uint64_t lsn_min = UINT64_MAX;
+	//
+	// following writes use greater lsn
+	uint64_t lsn_min = config_lsn() + 1;
 	mutex_lock(&self->lock);
 
 	auto slice = mapping_min(&self->mapping);
diff --git a/monotone/engine/engine/write.c b/monotone/engine/engine/write.c
index 793f4fc..ca44581 100644
--- a/monotone/engine/engine/write.c
+++ b/monotone/engine/engine/write.c
@@ -114,6 +114,15 @@ engine_write(Engine* self, EventArg* events, int count)
 			// wal write error test case
 			error_injection(error_wal);
 
+			// announce log usage before the write, to keep the log record
+			// until commit
+			auto lsn_next = config_lsn() + 1;
+			for (int i = 0; i < (int)log.write.count; i++)
+			{
+				Ref* ref = log_of(&log, i)->ref;
+				memtable_follow_min(ref->part->memtable, lsn_next);
+			}
+
 			auto rotate_ready = wal_write(self->wal, &log);
 
 			// schedule wal rotation
diff --git a/monotone/engine/io/memtable.c b/monotone/engine/io/memtable.c
index 1853503..b46cbd8 100644
--- a/monotone/engine/io/memtable.c
+++ b/monotone/engine/io/memtable.c
@@ -383,3 +383,10 @@ memtable_follow(Memtable* self, uint64_t lsn)
 	if (lsn > atomic_u64_of(&self->lsn_max))
 		atomic_u64_set(&self->lsn_max, lsn);
 }
+
+void
+memtable_follow_min(Memtable* self, uint64_t lsn)
+{
+	if (lsn < atomic_u64_of(&self->lsn_min))
+		atomic_u64_set(&self->lsn_min, lsn);
+}
diff --git a/monotone/engine/io/memtable.h b/monotone/engine/io/memtable.h
index 1a66d06..49c2169 100644
--- a/monotone/engine/io/memtable.h
+++ b/monotone/engine/io/memtable.h
@@ -46,3 +46,4 @@ void   memtable_unset(Memtable*, Event*);
 Event* memtable_max(Memtable*);
 bool   memtable_seek(Memtable*, Event*, MemtablePage**, int*);
 void   memtable_follow(Memtable*, uint64_t);
+void   memtable_follow_min(Memtable*, uint64_t);
-- 
2.43.0


From da9291a95cb6c2f4134e475741d297383705bb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:37 +0000
Subject: [PATCH 14/56] fix: make partition drop atomic and repeatable by
 recovery

Drop record was written after removal of the partition files and outside of
the exclusive lock, so a crash could restore a part of the events and a
later write could be dropped by the replay. Replay was also writing the drop
to the log again and removing partitions created after the drop. Storage
metrics were not updated by the drop. Range commands stopped on a partition
which starts before the range.
---
 monotone/engine/engine/op.c    | 212 +++++++++++++++++++++------------
 monotone/engine/engine/op.h    |   1 +
 monotone/engine/io/memtable.c  |  30 +++++
 monotone/engine/io/memtable.h  |   1 +
 monotone/engine/wal/log_drop.h |  52 +++++++-
 monotone/main/main/main.c      |   5 +-
 6 files changed, 217 insertions(+), 84 deletions(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index fdfa5a6..5d7f3eb 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -151,19 +151,67 @@ static inline bool
 engine_foreach(Engine* self, uint64_t* min, uint64_t* min_next, uint64_t max)
 {
 	// get next reference >= min and <= max
-	auto ref = engine_lock(self, *min, LOCK_ACCESS, true, false);
-	if (ref == NULL)
-		return false;
-	uint64_t ref_min = ref->slice.min;
-	uint64_t ref_max = ref->slice.max;
-	engine_unlock(self, ref, LOCK_ACCESS);
-	if (ref_min >= *min && ref_max <= max)
+	for (;;)
 	{
-		*min = ref_min;
+		auto ref = engine_lock(self, *min, LOCK_ACCESS, true, false);
+		if (ref == NULL)
+			return false;
+		uint64_t ref_min = ref->slice.min;
+		uint64_t ref_max = ref->slice.max;
+		engine_unlock(self, ref, LOCK_ACCESS);
+		if (ref_max > max)
+			return false;
 		*min_next = ref_max + 1;
-		return true;
+		if (ref_min >= *min)
+		{
+			*min = ref_min;
+			return true;
+		}
+
+		// partition starts before the range
+		if (unlikely(*min_next == 0))
+			return false;
+		*min = *min_next;
+	}
+}
+
+static inline void
+engine_drop_metrics(Engine* self, Part* part)
+{
+	auto storage = storage_mgr_find(&self->storage_mgr, &part->source->name);
+	storage_remove_metrics(storage, part);
+	index_init(&part->index);
+	buf_reset(&part->index_data);
+}
+
+static void
+engine_drop_offload(Engine* self, Part* part, int mask)
+{
+	// delete partition file on storage or cloud
+	if (mask & ID_CLOUD)
+	{
+		if (part_has(part, ID_CLOUD))
+		{
+			part_offload(part, false);
+
+			// unset storage metrics before droping the last file
+			if (part->state == ID_CLOUD)
+				engine_drop_metrics(self, part);
+			part_unset(part, ID_CLOUD);
+		}
+	}
+
+	if (mask & ID)
+	{
+		if (part_has(part, ID))
+		{
+			part_offload(part, true);
+
+			if (part->state == ID)
+				engine_drop_metrics(self, part);
+			part_unset(part, ID);
+		}
 	}
-	return false;
 }
 
 static bool
@@ -203,32 +251,7 @@ engine_drop_file(Engine* self, uint64_t min, bool if_exists,
 	{
 		engine_recover_part(self, part);
 
-		if (mask & ID_CLOUD)
-		{
-			if (part_has(part, ID_CLOUD))
-			{
-				part_offload(part, false);
-				part_unset(part, ID_CLOUD);
-			}
-		}
-
-		if (mask & ID)
-		{
-			if (part_has(part, ID))
-			{
-				part_offload(part, true);
-				part_unset(part, ID);
-			}
-		}
-
-		if (part->state == ID_NONE)
-		{
-			// unset storage metrics before droping the reference
-			auto storage = storage_mgr_find(&self->storage_mgr, &part->source->name);
-			storage_remove_metrics(storage, part);
-			index_init(&part->index);
-			buf_reset(&part->index_data);
-		}
+		engine_drop_offload(self, part, mask);
 	}
 
 	mutex_lock(&self->lock);
@@ -243,47 +266,53 @@ engine_drop_file(Engine* self, uint64_t min, bool if_exists,
 	return true;
 }
 
-static bool
-engine_drop_reference(Engine* self, uint64_t min)
+static void
+engine_drop_reference(Engine* self, Ref* ref)
 {
-	// take exclusive control lock
-	control_lock_exclusive();
-
-	// find partition = min
-	auto slice = mapping_match(&self->mapping, min);
-	if (! slice)
-	{
-		control_unlock();
-		return true;
-	}
-	auto ref = ref_of(slice);
+	// delete partition files on storage and cloud
 	auto part = ref->part;
-
-	// remove only empty partitions
-	if (part->state != ID_NONE)
-	{
-		// retry truncate
-		control_unlock();
-		return false;
-	}
+	engine_drop_offload(self, part, ID|ID_CLOUD);
 
 	// remove partition from mapping
-	mapping_remove(&self->mapping, slice);
+	mapping_remove(&self->mapping, &ref->slice);
 
 	// remove partition from storage
 	auto storage = storage_mgr_find(&self->storage_mgr, &part->source->name);
 	storage_remove(storage, part);
 
-	control_unlock();
-
 	// free
 	ref_free(ref);
+}
+
+static void
+engine_drop_partition(Engine* self, uint64_t min, bool if_exists)
+{
+	// take exclusive control lock
+	control_lock_exclusive();
+	guard(control_unlock_guard, NULL);
+
+	// find partition = min
+	auto slice = mapping_match(&self->mapping, min);
+	if (unlikely(! slice))
+	{
+		if (! if_exists)
+			error("drop: partition '%" PRIu64 "' not found", min);
+		return;
+	}
+	auto ref = ref_of(slice);
+
+	// remove leftovers of the failed operations
+	engine_recover_part(self, ref->part);
 
 	// wal write
+	//
+	// this must be done before removal of any file, otherwise recovery can
+	// restore a part of events using the log. Exclusive lock guarantees
+	// that there are no writes to the partition after the log record.
 	if (var_int_of(&config()->wal))
 	{
 		LogDrop drop;
-		log_drop_init(&drop, min);
+		log_drop_init(&drop, slice->min, slice->max);
 		auto rotate_ready = wal_write_op(self->wal, &drop.write);
 
 		// schedule wal rotation
@@ -291,7 +320,7 @@ engine_drop_reference(Engine* self, uint64_t min)
 			service_rotate(self->service);
 	}
 
-	return true;
+	engine_drop_reference(self, ref);
 }
 
 void
@@ -300,20 +329,7 @@ engine_drop(Engine* self, uint64_t min, bool if_exists, int mask)
 	// partition drop
 	if (mask == (ID|ID_CLOUD))
 	{
-		for (;;)
-		{
-			// in order to avoid heavy exclusive lock during drop,
-			// separate file drop first
-			auto exists = engine_drop_file(self, min, if_exists, false, mask);
-			if (! exists)
-				break;
-
-			// try to drop partition mapping, or retry drop if
-			// partition still has files
-			if (engine_drop_reference(self, min))
-				break;
-		}
-
+		engine_drop_partition(self, min, if_exists);
 		return;
 	}
 
@@ -321,6 +337,50 @@ engine_drop(Engine* self, uint64_t min, bool if_exists, int mask)
 	engine_drop_file(self, min, if_exists, false, mask);
 }
 
+void
+engine_drop_replay(Engine* self, LogDrop* drop)
+{
+	auto lsn = drop->write.lsn;
+	uint64_t min;
+	uint64_t max;
+	auto has_range = log_drop_range(drop, &min, &max);
+
+	// take exclusive control lock
+	control_lock_exclusive();
+	guard(control_unlock_guard, NULL);
+
+	for (;;)
+	{
+		// get next partition which has ids in the drop range
+		auto slice = mapping_gte(&self->mapping, min);
+		if (!slice || slice->min > max)
+			break;
+		auto ref  = ref_of(slice);
+		auto part = ref->part;
+		auto next = slice->max;
+
+		if (part->state != ID_NONE && part->index.lsn >= lsn)
+		{
+			// partition is newer then the drop
+		} else
+		if (!has_range || (slice->min >= min && slice->max <= max))
+		{
+			engine_drop_reference(self, ref);
+		} else
+		{
+			// partition has been created by replay using different range,
+			// remove only events before the drop
+			memtable_unset_range(part->memtable, min, max);
+		}
+
+		if (next >= max)
+			break;
+		min = next + 1;
+	}
+
+	config_lsn_follow(lsn);
+}
+
 void
 engine_drop_range(Engine* self, uint64_t min, uint64_t max, int mask)
 {
diff --git a/monotone/engine/engine/op.h b/monotone/engine/engine/op.h
index a4ab3db..fc12b90 100644
--- a/monotone/engine/engine/op.h
+++ b/monotone/engine/engine/op.h
@@ -17,6 +17,7 @@
 void engine_fill_nolock(Engine*, uint64_t, uint64_t);
 void engine_fill(Engine*, uint64_t, uint64_t);
 void engine_drop(Engine*, uint64_t, bool, int);
+void engine_drop_replay(Engine*, LogDrop*);
 void engine_drop_range(Engine*, uint64_t, uint64_t, int);
 
 // cloud
diff --git a/monotone/engine/io/memtable.c b/monotone/engine/io/memtable.c
index b46cbd8..0396038 100644
--- a/monotone/engine/io/memtable.c
+++ b/monotone/engine/io/memtable.c
@@ -341,6 +341,36 @@ memtable_unset(Memtable* self, Event* event)
 	}
 }
 
+void
+memtable_unset_range(Memtable* self, uint64_t min, uint64_t max)
+{
+	// remove all events in range
+	char data[sizeof(Event)];
+	memset(data, 0, sizeof(data));
+	auto key = (Event*)data;
+	key->id = min;
+
+	while (self->count_pages > 0)
+	{
+		// find first event >= min
+		MemtablePage* page = NULL;
+		int pos = 0;
+		memtable_seek(self, key, &page, &pos);
+		if (pos >= page->events_count)
+		{
+			auto next = rbtree_next(&self->tree, &page->node);
+			if (next == NULL)
+				break;
+			page = container_of(next, MemtablePage, node);
+			pos  = 0;
+		}
+		auto event = page->events[pos];
+		if (event->id > max)
+			break;
+		memtable_unset(self, event);
+	}
+}
+
 Event*
 memtable_max(Memtable* self)
 {
diff --git a/monotone/engine/io/memtable.h b/monotone/engine/io/memtable.h
index 49c2169..23c9b2f 100644
--- a/monotone/engine/io/memtable.h
+++ b/monotone/engine/io/memtable.h
@@ -43,6 +43,7 @@ void   memtable_free(Memtable*);
 void   memtable_move(Memtable*, Memtable*);
 Event* memtable_set(Memtable*, Event*);
 void   memtable_unset(Memtable*, Event*);
+void   memtable_unset_range(Memtable*, uint64_t, uint64_t);
 Event* memtable_max(Memtable*);
 bool   memtable_seek(Memtable*, Event*, MemtablePage**, int*);
 void   memtable_follow(Memtable*, uint64_t);
diff --git a/monotone/engine/wal/log_drop.h b/monotone/engine/wal/log_drop.h
index 55f8254..8303515 100644
--- a/monotone/engine/wal/log_drop.h
+++ b/monotone/engine/wal/log_drop.h
@@ -18,20 +18,64 @@ typedef struct LogDrop LogDrop;
 struct LogDrop
 {
 	LogWrite write;
+	// position of the partition: [1 bit, 31 bit interval, 32 bit position] or
+	// partition min id followed by max, if the range can not be represented
 	uint64_t id;
+	uint64_t max;
 } packed;
 
+#define LOG_DROP_COMPACT (1ull << 63)
+
 static inline void
-log_drop_init(LogDrop* self, uint64_t id)
+log_drop_init(LogDrop* self, uint64_t min, uint64_t max)
 {
 	auto write = &self->write;
 	write->crc   = 0;
 	write->lsn   = 0;
 	write->type  = LOG_DROP;
 	write->count = 0;
-	write->size  = sizeof(LogDrop);
-	self->id     = id;
+
+	// range must not depend on the current interval, which can be changed
+	// before the replay
+	uint64_t interval = (max - min) + 1;
+	if (interval > 0 && interval <= INT32_MAX && min % interval == 0 &&
+	    min / interval <= UINT32_MAX)
+	{
+		write->size = sizeof(LogDrop) - sizeof(uint64_t);
+		self->id    = LOG_DROP_COMPACT | (interval << 32) | (min / interval);
+		self->max   = 0;
+	} else
+	{
+		write->size = sizeof(LogDrop);
+		self->id    = min;
+		self->max   = max;
+	}
+
 	// calculate crc
 	if (var_int_of(&config()->wal_crc))
-		self->write.crc = crc32(self->write.crc, &id, sizeof(id));
+		self->write.crc = crc32(self->write.crc, &self->id,
+		                        write->size - sizeof(LogWrite));
+}
+
+static inline bool
+log_drop_range(LogDrop* self, uint64_t* min, uint64_t* max)
+{
+	if (self->write.size == sizeof(LogDrop))
+	{
+		*min = self->id;
+		*max = self->max;
+		return true;
+	}
+	if (self->id & LOG_DROP_COMPACT)
+	{
+		uint64_t interval = (self->id & ~LOG_DROP_COMPACT) >> 32;
+		*min = (self->id & UINT32_MAX) * interval;
+		*max = *min + (interval - 1);
+		return true;
+	}
+
+	// previous format, has only id
+	*min = self->id;
+	*max = self->id;
+	return false;
 }
diff --git a/monotone/main/main/main.c b/monotone/main/main/main.c
index 0473dff..b119eb2 100644
--- a/monotone/main/main/main.c
+++ b/monotone/main/main/main.c
@@ -191,11 +191,8 @@ main_replay(Main* self)
 			engine_write_replay(&self->engine, write);
 			break;
 		case LOG_DROP:
-		{
-			auto drop = (LogDrop*)write;
-			engine_drop(&self->engine, drop->id, true, ID|ID_CLOUD);
+			engine_drop_replay(&self->engine, (LogDrop*)write);
 			break;
-		}
 		default:
 			error("wal: unrecognized operation: %d (lsn: %" PRIu64 ")",
 			      write->type, write->lsn);
-- 
2.43.0


From 241cca83873c9630dc2bf84858f70fe71aa3034d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:09 +0000
Subject: [PATCH 15/56] fix: replace the config file atomically

Config file was renamed before the new one has been written, so a crash
in between left the database without settings, storages and clouds.
---
 monotone/runtime/config/config.c | 33 ++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/monotone/runtime/config/config.c b/monotone/runtime/config/config.c
index 9abde99..9476ea6 100644
--- a/monotone/runtime/config/config.c
+++ b/monotone/runtime/config/config.c
@@ -243,7 +243,7 @@ config_save_to(Config* self, const char* path)
 	File file;
 	file_init(&file);
 	guard(file_close, &file);
-	file_open_as(&file, path, O_CREAT|O_RDWR, 0600);
+	file_open_as(&file, path, O_CREAT|O_TRUNC|O_RDWR, 0600);
 	file_write_buf(&file, &text);
 
 	// sync
@@ -254,26 +254,27 @@ config_save_to(Config* self, const char* path)
 void
 config_save(Config* self, const char* path)
 {
-	// remove old saved config, if exists
-	Buf buf;
-	buf_init(&buf);
-	guard(buf_free, &buf);
-	if (fs_exists("%s.old", path))
-		fs_unlink("%s.old", path);
+	// create new config file
+	char path_new[PATH_MAX];
+	snprintf(path_new, sizeof(path_new), "%s.new", path);
+	config_save_to(self, path_new);
 
-	// save existing config as a old
-	fs_rename(path,  "%s.old", path);
-
-	// create config file
-	config_save_to(self, path);
-
-	// remove old config file
-	fs_unlink("%s.old", path);
+	// replace existing config file
+	fs_rename(path_new, "%s", path);
 }
 
 void
 config_open(Config* self, const char* path)
 {
+	// restore previous config file (crash during config save using
+	// previous versions)
+	if (!fs_exists("%s", path) && fs_exists("%s.old", path))
+	{
+		char path_old[PATH_MAX];
+		snprintf(path_old, sizeof(path_old), "%s.old", path);
+		fs_rename(path_old, "%s", path);
+	}
+
 	if (fs_exists("%s", path))
 	{
 		Buf buf;
@@ -288,7 +289,7 @@ config_open(Config* self, const char* path)
 	}
 
 	// create config file
-	config_save_to(self, path);
+	config_save(self, path);
 }
 
 void
-- 
2.43.0


From 0a7eb855922124d4428fca67be9fa412f3e7b34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:26 +0000
Subject: [PATCH 16/56] fix: reserve enough space to compress a region using
 zstd

---
 monotone/runtime/lib/compression_zstd.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/monotone/runtime/lib/compression_zstd.c b/monotone/runtime/lib/compression_zstd.c
index 9c799a5..c94b3a0 100644
--- a/monotone/runtime/lib/compression_zstd.c
+++ b/monotone/runtime/lib/compression_zstd.c
@@ -61,7 +61,7 @@ compression_zstd_compress(Compression* ptr, Buf* buf, int level,
 	size_t size = 0;
 	for (int i = 0; i < argc; i++)
 		size += buf_size(argv[i]);
-	buf_reserve(buf, size);
+	buf_reserve(buf, ZSTD_compressBound(size));
 
 	ZSTD_outBuffer out;
 	out.dst  = buf->position;
@@ -77,8 +77,8 @@ compression_zstd_compress(Compression* ptr, Buf* buf, int level,
 
 		ssize_t rc;
 		rc = ZSTD_compressStream2(self->ctx, &out, &in, ZSTD_e_continue);
-		assert(rc == 0);
-		unused(rc);
+		if (unlikely(ZSTD_isError(rc) || in.pos != in.size))
+			error("zstd: compression failed");
 	}
 
 	ZSTD_inBuffer in;
@@ -87,8 +87,8 @@ compression_zstd_compress(Compression* ptr, Buf* buf, int level,
 	in.pos   = 0;
 	ssize_t rc;
 	rc = ZSTD_compressStream2(self->ctx, &out, &in, ZSTD_e_end);
-	assert(rc == 0);
-	unused(rc);
+	if (unlikely(rc != 0))
+		error("zstd: compression failed");
 
 	buf_advance(buf, out.pos);
 }
-- 
2.43.0


From 2f31e97a9b641919d89160a02629bfee1e0e4cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:29 +0000
Subject: [PATCH 17/56] fix: keep lz4 contexts in their own cache

---
 monotone/runtime/lib/compression_mgr.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/monotone/runtime/lib/compression_mgr.c b/monotone/runtime/lib/compression_mgr.c
index 395d88f..c04765a 100644
--- a/monotone/runtime/lib/compression_mgr.c
+++ b/monotone/runtime/lib/compression_mgr.c
@@ -33,6 +33,11 @@ compression_mgr_free(CompressionMgr* self)
 	cache_reset(&self->cache_zstd);
 	cache_free(&self->cache_zstd);
 
+	list_foreach_safe(&self->cache_lz4.list)
+	{
+		auto ref = list_at(Compression, link);
+		compression_free(ref);
+	}
 	cache_reset(&self->cache_lz4);
 	cache_free(&self->cache_lz4);
 }
@@ -67,7 +72,7 @@ compression_mgr_push(CompressionMgr* self, Compression* compression)
 	}
 	if (compression->iface->id == COMPRESSION_LZ4)
 	{
-		cache_push(&self->cache_zstd, &compression->link);
+		cache_push(&self->cache_lz4, &compression->link);
 		return;
 	}
 	abort();
-- 
2.43.0


From e19329125d749b6b264cde06caff81c95cd10934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:12 +0000
Subject: [PATCH 18/56] fix: sync files written by the mock cloud

---
 monotone/cloud/cloud/mock.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/monotone/cloud/cloud/mock.c b/monotone/cloud/cloud/mock.c
index 2286a67..85fd3c0 100644
--- a/monotone/cloud/cloud/mock.c
+++ b/monotone/cloud/cloud/mock.c
@@ -103,6 +103,10 @@ mock_download(Cloud* self, Source* source, Id* id)
 	file_create(&file, path_to);
 	file_write_buf(&file, &buf);
 
+	// sync
+	if (source->sync && config_sync())
+		file_sync(&file);
+
 	// crash case 4
 	error_injection(error_download);
 
@@ -141,6 +145,10 @@ mock_upload(Cloud* self, Source* source, Id* id)
 	guard(file_close, &file);
 	file_create(&file, path_to);
 	file_write_buf(&file, &buf);
+
+	// sync
+	if (source->sync && config_sync())
+		file_sync(&file);
 }
 
 static void
-- 
2.43.0


From 0a8ef5400298ca5a03e2516aabea7a37fe00a8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:38 +0000
Subject: [PATCH 19/56] fix: set serial using the last partition which has
 events

---
 monotone/engine/engine/engine.c | 43 ++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/monotone/engine/engine/engine.c b/monotone/engine/engine/engine.c
index dc4c28f..eea85ad 100644
--- a/monotone/engine/engine/engine.c
+++ b/monotone/engine/engine/engine.c
@@ -78,29 +78,34 @@ engine_close(Engine* self)
 void
 engine_set_serial(Engine* self)
 {
-	auto slice = mapping_max(&self->mapping);
-	if (! slice)
-		return;
-	auto ref  = ref_of(slice);
-	auto part = ref->part;
-
-	bool     serial_set = false;
+	// find last partition which has events
 	uint64_t serial = 0;
-	if (part->state != ID_NONE && part->index.regions > 0)
+	auto slice = mapping_max(&self->mapping);
+	for (; slice; slice = mapping_prev(&self->mapping, slice))
 	{
-		serial = index_max(&part->index, &part->index_data);
-		serial_set = true;
-	}
+		auto ref  = ref_of(slice);
+		auto part = ref->part;
 
-	auto max = memtable_max(part->memtable);
-	if (max && max->id >= serial)
-	{
-		serial = max->id;
-		serial_set = true;
-	}
+		bool serial_set = false;
+		if (part->state != ID_NONE && part->index.regions > 0)
+		{
+			serial = index_max(&part->index, &part->index_data);
+			serial_set = true;
+		}
 
-	if (serial_set)
-		serial++;
+		auto max = memtable_max(part->memtable);
+		if (max && max->id >= serial)
+		{
+			serial = max->id;
+			serial_set = true;
+		}
+
+		if (serial_set)
+		{
+			serial++;
+			break;
+		}
+	}
 
 	config_ssn_set(serial);
 }
-- 
2.43.0


From 51e99fbf61c1a8c1b27c0f763b7a7b50da23f426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:09 +0000
Subject: [PATCH 20/56] fix: never assign serial ids which are already in use

---
 monotone/engine/engine/engine.c |  3 ++-
 monotone/engine/engine/write.c  | 15 +++++++++++++--
 monotone/runtime/config/var.h   | 11 ++++++++---
 3 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/monotone/engine/engine/engine.c b/monotone/engine/engine/engine.c
index eea85ad..ba0ef20 100644
--- a/monotone/engine/engine/engine.c
+++ b/monotone/engine/engine/engine.c
@@ -102,7 +102,8 @@ engine_set_serial(Engine* self)
 
 		if (serial_set)
 		{
-			serial++;
+			if (likely(serial < UINT64_MAX))
+				serial++;
 			break;
 		}
 	}
diff --git a/monotone/engine/engine/write.c b/monotone/engine/engine/write.c
index ca44581..ed5bdc3 100644
--- a/monotone/engine/engine/write.c
+++ b/monotone/engine/engine/write.c
@@ -89,8 +89,19 @@ engine_write(Engine* self, EventArg* events, int count)
 				error("event key size limit is 255 bytes");
 
 			// set serial
-			if (arg->id == UINT64_MAX && config_serial())
-				arg->id = config_ssn_next();
+			if (config_serial())
+			{
+				if (arg->id == UINT64_MAX)
+				{
+					arg->id = config_ssn_next();
+					if (unlikely(arg->id == UINT64_MAX))
+					{
+						config_ssn_set(UINT64_MAX);
+						error("serial: no ids left");
+					}
+				} else
+					config_ssn_follow(arg->id + 1);
+			}
 
 			// prepare log record
 			auto op = log_add(&log);
diff --git a/monotone/runtime/config/var.h b/monotone/runtime/config/var.h
index 21f6ad1..09724f5 100644
--- a/monotone/runtime/config/var.h
+++ b/monotone/runtime/config/var.h
@@ -108,9 +108,14 @@ static inline void
 var_int_follow(Var* self, uint64_t value)
 {
 	assert(self->type == VAR_INT || self->type == VAR_BOOL);
-	// todo: cas loop
-	if (value > atomic_u64_of(&self->integer))
-		atomic_u64_set(&self->integer, value);
+	auto current = atomic_u64_of(&self->integer);
+	while (value > current)
+	{
+		auto prev = __sync_val_compare_and_swap(&self->integer, current, value);
+		if (prev == current)
+			break;
+		current = prev;
+	}
 }
 
 static inline uint64_t
-- 
2.43.0


From 4b7a85d929208322dbabad1edb7b6a8de427a01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:22 +0000
Subject: [PATCH 21/56] fix: remove record of a failed write on close

---
 monotone/engine/wal/wal.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/monotone/engine/wal/wal.c b/monotone/engine/wal/wal.c
index c1fb368..3da17da 100644
--- a/monotone/engine/wal/wal.c
+++ b/monotone/engine/wal/wal.c
@@ -34,6 +34,7 @@ wal_free(Wal* self)
 	if (self->current)
 	{
 		auto file = self->current;
+		wal_file_truncate_nothrow(file);
 		wal_file_close(file);
 		wal_file_free(file);
 		self->current = NULL;
-- 
2.43.0


From 3e9478b4e9ff1e7c4796e1f4bc90e5ee3c0f744d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:10 +0000
Subject: [PATCH 22/56] fix: treat unknown file status as an error

---
 monotone/runtime/runtime/fs.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/monotone/runtime/runtime/fs.h b/monotone/runtime/runtime/fs.h
index bf59b0f..b7bd2ec 100644
--- a/monotone/runtime/runtime/fs.h
+++ b/monotone/runtime/runtime/fs.h
@@ -21,7 +21,12 @@ fs_exists(const char* fmt, ...)
 	char path[PATH_MAX];
 	vsnprintf(path, sizeof(path), fmt, args);
 	va_end(args);
-	return vfs_size(path) >= 0;
+	if (vfs_size(path) >= 0)
+		return true;
+	// existence is unknown
+	if (unlikely(errno != ENOENT && errno != ENOTDIR))
+		error_system();
+	return false;
 }
 
 static inline void
-- 
2.43.0


From e0b46f02fbcd4d73beb2e7c02834e219f79dde89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:10 +0000
Subject: [PATCH 23/56] fix: free resources after failed recovery

---
 monotone/engine/engine/engine.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/monotone/engine/engine/engine.c b/monotone/engine/engine/engine.c
index ba0ef20..cd00c56 100644
--- a/monotone/engine/engine/engine.c
+++ b/monotone/engine/engine/engine.c
@@ -71,8 +71,22 @@ engine_close(Engine* self)
 			break;
 		mapping_remove(&self->mapping, slice);
 		auto ref = ref_of(slice);
+		ref->part = NULL;
 		ref_free(ref);
 	}
+
+	// free partitions, including ones which are not registered because of
+	// the failed recover
+	list_foreach(&self->storage_mgr.list)
+	{
+		auto storage = list_at(Storage, link);
+		list_foreach_safe(&storage->list)
+		{
+			auto part = list_at(Part, link);
+			storage_remove(storage, part);
+			part_free(part);
+		}
+	}
 }
 
 void
-- 
2.43.0


From 68f428ef804715d5ebca05e0d2a22ffa79400930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:10 +0000
Subject: [PATCH 24/56] fix: close previous log file when its sync fails

---
 monotone/engine/wal/wal.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/monotone/engine/wal/wal.c b/monotone/engine/wal/wal.c
index 3da17da..be137a2 100644
--- a/monotone/engine/wal/wal.c
+++ b/monotone/engine/wal/wal.c
@@ -93,10 +93,17 @@ wal_rotate(Wal* self, uint64_t wm)
 	// sync and close prev file
 	if (file_prev)
 	{
-		if (var_int_of(&config()->wal_sync_on_rotate) && config_sync())
-			file_sync(&file_prev->file);
+		Exception e_sync;
+		if (enter(&e_sync))
+		{
+			if (var_int_of(&config()->wal_sync_on_rotate) && config_sync())
+				file_sync(&file_prev->file);
+		}
+		auto failed = leave(&e_sync);
 		wal_file_close(file_prev);
 		wal_file_free(file_prev);
+		if (failed)
+			rethrow();
 	}
 }
 
-- 
2.43.0


From 4309df916821f23ea3281aa28fc13a9c89dcc958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:10 +0000
Subject: [PATCH 25/56] fix: keep partition file open unless it is removed,
 close it after failed download

---
 monotone/engine/io/part.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/monotone/engine/io/part.c b/monotone/engine/io/part.c
index 8e673a5..e42a104 100644
--- a/monotone/engine/io/part.c
+++ b/monotone/engine/io/part.c
@@ -171,7 +171,17 @@ part_download(Part* self)
 	cloud_download(self->cloud, self->source, &self->id);
 
 	// open
-	part_open(self, ID, false);
+	Exception e;
+	if (enter(&e))
+	{
+		Index index;
+		index_open(&self->file, self->source, &self->id, ID, &index);
+	}
+	if (leave(&e))
+	{
+		file_close(&self->file);
+		rethrow();
+	}
 }
 
 void
@@ -199,9 +209,9 @@ part_offload(Part* self, bool from_storage)
 	// remove from storage
 	if (from_storage)
 	{
-		// remove data file
-		file_close(&self->file);
+		// remove data file first, it must remain accessible on error
 		part_delete(self, ID);
+		file_close(&self->file);
 		return;
 	}
 
-- 
2.43.0


From 130b03793e17bcd4d2961861d19763f3175406eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:10 +0000
Subject: [PATCH 26/56] fix: allow to refresh partition again after an error

---
 monotone/engine/engine/op.c | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index 5d7f3eb..f605f82 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -659,6 +659,19 @@ engine_rebalance_next(Engine* self, uint64_t* min, Str* storage)
 	return false;
 }
 
+static void
+engine_refresh_reset(Engine* self, uint64_t min)
+{
+	// allow to schedule next refresh after error
+	control_lock_shared();
+	mutex_lock(&self->lock);
+	auto slice = mapping_match(&self->mapping, min);
+	if (slice && slice->min == min)
+		ref_of(slice)->part->refresh = false;
+	mutex_unlock(&self->lock);
+	control_unlock();
+}
+
 void
 engine_rebalance(Engine* self, Refresh* refresh)
 {
@@ -670,10 +683,20 @@ engine_rebalance(Engine* self, Refresh* refresh)
 		uint64_t min;
 		if (! engine_rebalance_next(self, &min, &storage))
 			break;
-		if (str_empty(&storage))
-			engine_drop(self, min, true, ID|ID_CLOUD);
-		else
-			engine_refresh(self, refresh, min, &storage, true);
+
+		Exception e;
+		if (enter(&e))
+		{
+			if (str_empty(&storage))
+				engine_drop(self, min, true, ID|ID_CLOUD);
+			else
+				engine_refresh(self, refresh, min, &storage, true);
+		}
+		if (leave(&e))
+		{
+			engine_refresh_reset(self, min);
+			rethrow();
+		}
 	}
 }
 
@@ -803,7 +826,7 @@ engine_service(Engine* self, Refresh* refresh, ServiceFilter filter, bool wait)
 		}
 	}
 	if (leave(&e))
-	{ }
+		engine_refresh_reset(self, req->id);
 
 	if (req)
 		service_req_free(req);
-- 
2.43.0


From 064e3b8e83028bd9dfbc3269428cccbb88578a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:50 +0000
Subject: [PATCH 27/56] fix: lock partitions of a batch in ascending order to
 avoid deadlock of concurrent writers

---
 monotone/engine/engine/write.c | 62 ++++++++++++++++++++++++++++++++++
 1 file changed, 62 insertions(+)

diff --git a/monotone/engine/engine/write.c b/monotone/engine/engine/write.c
index ed5bdc3..812f1b3 100644
--- a/monotone/engine/engine/write.c
+++ b/monotone/engine/engine/write.c
@@ -71,12 +71,65 @@ engine_commit(Engine* self, Log* log)
 	log_reset(log);
 }
 
+static int
+engine_write_compare(const void* a, const void* b)
+{
+	uint64_t a_id = *(const uint64_t*)a;
+	uint64_t b_id = *(const uint64_t*)b;
+	return (a_id > b_id) - (a_id < b_id);
+}
+
+static void
+engine_write_lock(Engine* self, EventArg* events, int count, Buf* locks)
+{
+	// do nothing if partitions are going to be locked in order
+	int i = 1;
+	while (i < count && events[i - 1].id <= events[i].id)
+		i++;
+	if (likely(i >= count))
+		return;
+
+	Buf ids;
+	buf_init(&ids);
+	guard(buf_free, &ids);
+	for (i = 0; i < count; i++)
+		buf_write(&ids, &events[i].id, sizeof(uint64_t));
+	qsort(ids.start, count, sizeof(uint64_t), engine_write_compare);
+
+	// lock partitions in ascending order, to avoid deadlock between
+	// concurrent writers
+	Ref* prev = NULL;
+	auto pos = (uint64_t*)ids.start;
+	auto end = (uint64_t*)ids.position;
+	for (; pos < end; pos++)
+	{
+		if (prev && slice_in(&prev->slice, *pos))
+			continue;
+		buf_reserve(locks, sizeof(Ref*));
+		prev = engine_lock(self, *pos, LOCK_ACCESS, false, true);
+		buf_append(locks, &prev, sizeof(Ref*));
+	}
+}
+
+static void
+engine_write_unlock(Engine* self, Buf* locks)
+{
+	auto pos = (Ref**)locks->start;
+	auto end = (Ref**)locks->position;
+	for (; pos < end; pos++)
+		engine_unlock(self, *pos, LOCK_ACCESS);
+	buf_free(locks);
+}
+
 hot void
 engine_write(Engine* self, EventArg* events, int count)
 {
 	Log log;
 	log_init(&log);
 
+	Buf locks;
+	buf_init(&locks);
+
 	Exception e;
 	if (enter(&e))
 	{
@@ -102,6 +155,13 @@ engine_write(Engine* self, EventArg* events, int count)
 				} else
 					config_ssn_follow(arg->id + 1);
 			}
+		}
+
+		engine_write_lock(self, events, count, &locks);
+
+		for (int i = 0; i < count; i++)
+		{
+			auto arg = &events[i];
 
 			// prepare log record
 			auto op = log_add(&log);
@@ -149,11 +209,13 @@ engine_write(Engine* self, EventArg* events, int count)
 	if (leave(&e))
 	{
 		engine_rollback(self, &log);
+		engine_write_unlock(self, &locks);
 		log_free(&log);
 		rethrow();
 	}
 
 	engine_commit(self, &log);
+	engine_write_unlock(self, &locks);
 	log_free(&log);
 }
 
-- 
2.43.0


From 31d63797c42385c606104fc89a3e8631dd8d15e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:39 +0000
Subject: [PATCH 28/56] fix: concurrent refresh of a cloud partition could drop
 its only copy

---
 monotone/engine/engine/op.c      | 48 ++++++++++++++++++++++++--------
 monotone/engine/engine/service.h |  4 +--
 2 files changed, 38 insertions(+), 14 deletions(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index f605f82..8982398 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -541,19 +541,46 @@ engine_upload_range(Engine* self, uint64_t min, uint64_t max, bool if_cloud)
 	}
 }
 
+static void
+engine_refresh_local(Engine* self, Refresh* refresh, uint64_t min, Str* storage,
+                     bool    if_exists)
+{
+	// keep service lock during the whole operation, to prevent concurrent
+	// refresh or upload from leaving the partition only on the cloud
+	auto ref = engine_lock(self, min, LOCK_SERVICE, false, false);
+	if (unlikely(! ref))
+	{
+		if (! if_exists)
+			error("download: partition '%" PRIu64 "' not found", min);
+		return;
+	}
+
+	Exception e;
+	if (enter(&e))
+	{
+		// download partition from cloud, if necessary
+		engine_download(self, min, if_exists, true);
+
+		// drop partition from cloud
+		engine_drop(self, min, if_exists, ID_CLOUD);
+
+		// refresh partition
+		refresh_reset(refresh);
+		refresh_run(refresh, min, storage, if_exists);
+	}
+	auto failed = leave(&e);
+
+	engine_unlock(self, ref, LOCK_SERVICE);
+	if (failed)
+		rethrow();
+}
+
 void
 engine_refresh(Engine* self, Refresh* refresh, uint64_t min, Str* storage,
                bool if_exists)
 {
-	// download partition from cloud, if necessary
-	engine_download(self, min, if_exists, true);
-
-	// drop partition from cloud
-	engine_drop(self, min, if_exists, ID_CLOUD);
-
-	// refresh partition
-	refresh_reset(refresh);
-	refresh_run(refresh, min, storage, if_exists);
+	// download partition from cloud, if necessary and refresh partition
+	engine_refresh_local(self, refresh, min, storage, if_exists);
 
 	// upload partition back to cloud
 	engine_upload(self, min, true, true);
@@ -810,8 +837,7 @@ engine_service(Engine* self, Refresh* refresh, ServiceFilter filter, bool wait)
 				engine_drop(self, req->id, true, ID_CLOUD);
 				break;
 			case ACTION_REFRESH:
-				refresh_reset(refresh);
-				refresh_run(refresh, req->id, NULL, true);
+				engine_refresh_local(self, refresh, req->id, NULL, true);
 				break;
 			case ACTION_DOWNLOAD:
 				engine_download(self, req->id, true, true);
diff --git a/monotone/engine/engine/service.h b/monotone/engine/engine/service.h
index 3bd7e6a..5629cae 100644
--- a/monotone/engine/engine/service.h
+++ b/monotone/engine/engine/service.h
@@ -120,10 +120,8 @@ service_refresh(Service* self, Part* part)
 		return;
 	}
 
-	service_add(self, part->id.min, 7,
+	service_add(self, part->id.min, 5,
 	            ACTION_REBALANCE,
-	            ACTION_DOWNLOAD,
-	            ACTION_DROP_ON_CLOUD,
 	            ACTION_REFRESH,
 	            ACTION_UPLOAD,
 	            ACTION_DROP_ON_STORAGE,
-- 
2.43.0


From 79b75a36d7b155f7d963531637436a853a9306cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:33 +0000
Subject: [PATCH 29/56] fix: refuse pipeline which uses the same storage twice
 (rebalance never ends)

---
 monotone/engine/storage/pipeline.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/monotone/engine/storage/pipeline.c b/monotone/engine/storage/pipeline.c
index 7c89b76..8d9fe25 100644
--- a/monotone/engine/storage/pipeline.c
+++ b/monotone/engine/storage/pipeline.c
@@ -108,10 +108,13 @@ pipeline_alter_validate(List* configs)
 			break;
 
 		// cannot use same storage
-		auto next = container_of(_i->next, TierConfig, link);
-		if (str_compare(&config->name, &next->name))
-			error("pipeline: tier '%.*s' is duplicated", str_size(&config->name),
-			      str_of(&config->name));
+		for (auto j = _i->next; j != configs; j = j->next)
+		{
+			auto next = container_of(j, TierConfig, link);
+			if (str_compare(&config->name, &next->name))
+				error("pipeline: tier '%.*s' is duplicated", str_size(&config->name),
+				      str_of(&config->name));
+		}
 
 		// ensure conditions are set to use next
 		if (tier_config_terminal(config))
-- 
2.43.0


From 5ab5cd09e0c93f4c5ff954f27b7530bf0e4b80ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:33 +0000
Subject: [PATCH 30/56] fix: rebalance used wrong storage after a partition
 which is already scheduled, partition was never rebalanced again

---
 monotone/engine/engine/op.c      | 6 ++++--
 monotone/engine/engine/refresh.c | 2 ++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index 8982398..3f02b7c 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -642,6 +642,10 @@ engine_rebalance_tier(Engine* self, Tier* tier, Str* storage)
 	if (! part)
 		return NULL;
 
+	// partition is already scheduled
+	if (part->refresh)
+		return NULL;
+
 	// schedule partition drop
 	if (list_is_last(&self->pipeline.list, &tier->link))
 		return part;
@@ -672,8 +676,6 @@ engine_rebalance_next(Engine* self, uint64_t* min, Str* storage)
 		{
 			// mark partition for refresh to avoid concurrent rebalance
 			// calls for the same partition
-			if (part->refresh)
-				continue;
 			part->refresh = true;
 
 			*min = part->id.min;
diff --git a/monotone/engine/engine/refresh.c b/monotone/engine/engine/refresh.c
index 1e265c6..a5aab81 100644
--- a/monotone/engine/engine/refresh.c
+++ b/monotone/engine/engine/refresh.c
@@ -98,6 +98,8 @@ refresh_begin(Refresh* self, uint64_t min, Str* storage, bool if_exists)
 	// if partition has the same storage already, do nothing
 	if (self->storage == self->storage_origin)
 	{
+		// allow to schedule next refresh
+		ref->part->refresh = false;
 		engine_unlock(engine, ref, LOCK_SERVICE);
 		return false;
 	}
-- 
2.43.0


From 989f4524ab1a6f1bd5ee04554e2d9aec1faf1725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:01 +0000
Subject: [PATCH 31/56] fix: recognize the min time unit (was matched as mi)

---
 monotone/main/command/lex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monotone/main/command/lex.c b/monotone/main/command/lex.c
index 9f66620..bfea674 100644
--- a/monotone/main/command/lex.c
+++ b/monotone/main/command/lex.c
@@ -44,7 +44,7 @@ static Keyword keywords[] =
 	{ KSEC,        "sec",          3},
 	{ KSEC,        "second",       6},
 	{ KSEC,        "seconds",      7},
-	{ KMIN,        "min",          2},
+	{ KMIN,        "min",          3},
 	{ KMIN,        "minute",       6},
 	{ KMIN,        "minutes",      7},
 	{ KHOUR,       "hr",           2},
-- 
2.43.0


From 7df35a1aaf24610d9cf2f8a9aa600b139ecdec41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:15 +0000
Subject: [PATCH 32/56] fix: length of the month and year units

---
 monotone/main/command/lex.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monotone/main/command/lex.c b/monotone/main/command/lex.c
index bfea674..aec43e7 100644
--- a/monotone/main/command/lex.c
+++ b/monotone/main/command/lex.c
@@ -161,10 +161,10 @@ lex_integer_mod(Lex* self, Token* value)
 		value->integer *= 7ULL * 24 * 60 * 60 * 1000 * 1000;
 		break;
 	case KMONTH:
-		value->integer *= 30ULL * 7 * 24 * 60 * 60 * 1000 * 1000;
+		value->integer *= 30ULL * 24 * 60 * 60 * 1000 * 1000;
 		break;
 	case KYEAR:
-		value->integer *= 12ULL * 30 * 7 * 24 * 60 * 60 * 1000 * 1000;
+		value->integer *= 12ULL * 30 * 24 * 60 * 60 * 1000 * 1000;
 		break;
 	// units
 	case KKB:
-- 
2.43.0


From 46126a88790d20e05b850cb3a6a2963e8e7249f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:15 +0000
Subject: [PATCH 33/56] fix: reject integers out of range instead of wrapping
 them

---
 monotone/main/command/lex.c | 40 +++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/monotone/main/command/lex.c b/monotone/main/command/lex.c
index aec43e7..a320143 100644
--- a/monotone/main/command/lex.c
+++ b/monotone/main/command/lex.c
@@ -135,6 +135,7 @@ lex_keywords(Lex* self, bool on)
 static void
 lex_integer_mod(Lex* self, Token* value)
 {
+	uint64_t unit = 1;
 	Token tk;
 	lex_next(self, &tk);
 	switch (tk.id) {
@@ -143,58 +144,61 @@ lex_integer_mod(Lex* self, Token* value)
 		// do nothing (default resolution)
 		break;
 	case KMSEC:
-		value->integer *= 1000ULL;
+		unit = 1000ULL;
 		break;
 	case KSEC:
-		value->integer *= 1000ULL * 1000;
+		unit = 1000ULL * 1000;
 		break;
 	case KMIN:
-		value->integer *= 60ULL * 1000 * 1000;
+		unit = 60ULL * 1000 * 1000;
 		break;
 	case KHOUR:
-		value->integer *= 60ULL * 60 * 1000 * 1000;
+		unit = 60ULL * 60 * 1000 * 1000;
 		break;
 	case KDAY:
-		value->integer *= 24ULL * 60 * 60 * 1000 * 1000;
+		unit = 24ULL * 60 * 60 * 1000 * 1000;
 		break;
 	case KWEEK:
-		value->integer *= 7ULL * 24 * 60 * 60 * 1000 * 1000;
+		unit = 7ULL * 24 * 60 * 60 * 1000 * 1000;
 		break;
 	case KMONTH:
-		value->integer *= 30ULL * 24 * 60 * 60 * 1000 * 1000;
+		unit = 30ULL * 24 * 60 * 60 * 1000 * 1000;
 		break;
 	case KYEAR:
-		value->integer *= 12ULL * 30 * 24 * 60 * 60 * 1000 * 1000;
+		unit = 12ULL * 30 * 24 * 60 * 60 * 1000 * 1000;
 		break;
 	// units
 	case KKB:
-		value->integer *= 1000ULL;
+		unit = 1000ULL;
 		break;
 	case KKIB:
-		value->integer *= 1024ULL;
+		unit = 1024ULL;
 		break;
 	case KMB:
-		value->integer *= 1000ULL * 1000;
+		unit = 1000ULL * 1000;
 		break;
 	case KMIB:
-		value->integer *= 1024ULL * 1024;
+		unit = 1024ULL * 1024;
 		break;
 	case KGB:
-		value->integer *= 1000ULL * 1000 * 1000;
+		unit = 1000ULL * 1000 * 1000;
 		break;
 	case KGIB:
-		value->integer *= 1024ULL * 1024 * 1024;
+		unit = 1024ULL * 1024 * 1024;
 		break;
 	case KTB:
-		value->integer *= 1000ULL * 1000 * 1000 * 1000;
+		unit = 1000ULL * 1000 * 1000 * 1000;
 		break;
 	case KTIB:
-		value->integer *= 1024ULL * 1024 * 1024 * 1024;
+		unit = 1024ULL * 1024 * 1024 * 1024;
 		break;
 	default:
 		lex_push(self, &tk);
 		break;
 	}
+
+	if (unlikely(__builtin_mul_overflow(value->integer, unit, &value->integer)))
+		error("integer value is out of range");
 }
 
 void
@@ -253,7 +257,9 @@ lex_next(Lex* self, Token* tk)
 			}
 			if (! isdigit(*self->pos))
 				break;
-			tk->integer = (tk->integer * 10) + *self->pos - '0';
+			if (unlikely(__builtin_mul_overflow(tk->integer, 10, &tk->integer) ||
+			             __builtin_add_overflow(tk->integer, *self->pos - '0', &tk->integer)))
+				error("integer value is out of range");
 			self->pos++;
 		}
 
-- 
2.43.0


From e75060b200251b8a1da70880cbbfa03bfa3967ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:15 +0000
Subject: [PATCH 34/56] fix: do not overflow the lexer backlog on a sequence of
 integers

---
 monotone/main/command/lex.c | 44 ++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/monotone/main/command/lex.c b/monotone/main/command/lex.c
index a320143..1f942a2 100644
--- a/monotone/main/command/lex.c
+++ b/monotone/main/command/lex.c
@@ -132,10 +132,37 @@ lex_keywords(Lex* self, bool on)
 	self->keywords = on;
 }
 
+static bool
+lex_skip(Lex* self)
+{
+	// skip white spaces and comments
+	for (;;)
+	{
+		while (self->pos < self->end && isspace(*self->pos))
+			self->pos++;
+		// eof
+		if (unlikely(self->pos == self->end))
+			return false;
+		if (*self->pos != '#')
+			break;
+		while (self->pos < self->end && *self->pos != '\n')
+			self->pos++;
+		// eof
+		if (self->pos == self->end)
+			return false;
+	}
+	return true;
+}
+
 static void
 lex_integer_mod(Lex* self, Token* value)
 {
 	uint64_t unit = 1;
+
+	// avoid reading ahead anything except a name
+	if (! lex_skip(self) || ! isalpha(*self->pos))
+		return;
+
 	Token tk;
 	lex_next(self, &tk);
 	switch (tk.id) {
@@ -213,21 +240,8 @@ lex_next(Lex* self, Token* tk)
 	tk->id = KEOF;
 
 	// skip white spaces and comments
-	for (;;)
-	{
-		while (self->pos < self->end && isspace(*self->pos))
-			self->pos++;
-		// eof
-		if (unlikely(self->pos == self->end))
-			return;
-		if (*self->pos != '#')
-			break;
-		while (self->pos < self->end && *self->pos != '\n')
-			self->pos++;
-		// eof
-		if (self->pos == self->end)
-			return;
-	}
+	if (! lex_skip(self))
+		return;
 
 	// symbols
 	if (*self->pos != '\"' &&
-- 
2.43.0


From 1a65f39b8f590b95292b50281256932109564e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:58 +0000
Subject: [PATCH 35/56] fix: quote strings in the exported json

---
 monotone/runtime/lib/json.c | 57 +++++++++++++++++++++++++++++++++----
 1 file changed, 52 insertions(+), 5 deletions(-)

diff --git a/monotone/runtime/lib/json.c b/monotone/runtime/lib/json.c
index a1660f3..160494b 100644
--- a/monotone/runtime/lib/json.c
+++ b/monotone/runtime/lib/json.c
@@ -53,6 +53,42 @@ json_next(Json* self, int n)
 	return self->json[self->pos];
 }
 
+static inline void
+json_read_string(Json* self, char* string, int size)
+{
+	auto data = &self->buf;
+	auto end  = string + size;
+
+	// count quoted symbols
+	int quoted = 0;
+	char* pos;
+	for (pos = string; pos < end; pos++)
+	{
+		if (likely(*pos != '\\') || pos + 1 == end)
+			continue;
+		if (pos[1] == '"' || pos[1] == '\\')
+			quoted++;
+		pos++;
+	}
+	if (likely(! quoted))
+	{
+		encode_raw(data, string, size);
+		return;
+	}
+
+	encode_string32(data, size - quoted);
+	for (pos = string; pos < end; pos++)
+	{
+		if (*pos == '\\' && pos + 1 < end)
+		{
+			if (pos[1] != '"' && pos[1] != '\\')
+				buf_write(data, pos, 1);
+			pos++;
+		}
+		buf_write(data, pos, 1);
+	}
+}
+
 hot static inline int
 json_read(Json* self, int skip)
 {
@@ -176,7 +212,7 @@ json_read(Json* self, int skip)
 		if (unlikely(self->pos > self->json_size))
 			return -1;
 		int size = self->pos - offset - 1;
-		encode_raw(data, self->json + offset, size);
+		json_read_string(self, (char*)self->json + offset, size);
 		return token;
 	}
 	case 'n':
@@ -271,6 +307,20 @@ json_parse(Json* self, Str* string)
 	assert(self->buf.position <= self->buf.end);
 }
 
+static void
+json_export_string(Buf* data, char* string, int size)
+{
+	buf_write(data, "\"", 1);
+	auto end = string + size;
+	for (; string < end; string++)
+	{
+		if (unlikely(*string == '"' || *string == '\\'))
+			buf_write(data, "\\", 1);
+		buf_write(data, string, 1);
+	}
+	buf_write(data, "\"", 1);
+}
+
 static void
 json_export_as(Buf* data, bool pretty, int deep, uint8_t** pos)
 {
@@ -311,13 +361,10 @@ json_export_as(Buf* data, bool pretty, int deep, uint8_t** pos)
 	}
 	case MN_STRINGV0 ... MN_STRING32:
 	{
-		// todo: quouting
 		char* value;
 		int   size;
 		data_read_raw(pos, &value, &size);
-		buf_write(data, "\"", 1);
-		buf_write(data, value, size);
-		buf_write(data, "\"", 1);
+		json_export_string(data, value, size);
 		break;
 	}
 	case MN_ARRAYV0 ... MN_ARRAY32:
-- 
2.43.0


From 583108d81829a6b0c97a9435ea012b8ad5598352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:21 +0000
Subject: [PATCH 36/56] fix: accept empty options of the last pipeline tier
 only at its end

---
 monotone/main/command/parse_pipeline.c | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/monotone/main/command/parse_pipeline.c b/monotone/main/command/parse_pipeline.c
index 2c78b35..04fafaa 100644
--- a/monotone/main/command/parse_pipeline.c
+++ b/monotone/main/command/parse_pipeline.c
@@ -61,15 +61,10 @@ parse_pipeline_set(Lex* self, Cmd* arg)
 			error("ALTER PIPELINE SET name '(' expected");
 
 		// [)]
-		if (lex_if(self, ')', NULL))
-		{
-			unguard();
-			cmd_pipeline_alter_add(cmd, config);
-			continue;
-		}
+		bool empty = lex_if(self, ')', NULL);
 
 		// (tier options)
-		for (;;)
+		while (! empty)
 		{
 			// name
 			lex_next(self, &name);
-- 
2.43.0


From 948869031475bbf7cf85b94e324bea990ade450d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:21 +0000
Subject: [PATCH 37/56] fix: alter storage with an unknown cloud must not
 change the storage

---
 monotone/engine/storage/storage_mgr.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/monotone/engine/storage/storage_mgr.c b/monotone/engine/storage/storage_mgr.c
index 4dd6773..556c71f 100644
--- a/monotone/engine/storage/storage_mgr.c
+++ b/monotone/engine/storage/storage_mgr.c
@@ -295,6 +295,15 @@ storage_mgr_alter(StorageMgr* self, Source* source, int mask, bool if_exists)
 				      str_of(&source->name));
 		}
 
+		// ensure new cloud exists before making any changes
+		if (! str_empty(&source->cloud) &&
+		    ! cloud_mgr_find(self->cloud_mgr, &source->cloud))
+			error("storage '%.*s': cloud '%.*s' not exists",
+			      str_size(&source->name),
+			      str_of(&source->name),
+			      str_size(&source->cloud),
+			      str_of(&source->cloud));
+
 		if (storage->cloud)
 			cloud_detach(storage->cloud, storage->source);
 	}
-- 
2.43.0


From 10b68c44406b05dabcaadf3d3063631ad8e58c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:34 +0000
Subject: [PATCH 38/56] fix: reject storage uuid with trailing symbols

---
 monotone/runtime/lib/uuid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monotone/runtime/lib/uuid.c b/monotone/runtime/lib/uuid.c
index 6299c55..d367f64 100644
--- a/monotone/runtime/lib/uuid.c
+++ b/monotone/runtime/lib/uuid.c
@@ -55,7 +55,7 @@ uuid_to_string(Uuid* self, char* string, int size)
 int
 uuid_from_string_nothrow(Uuid* self, Str* src)
 {
-	if (unlikely(str_size(src) < (UUID_SZ - 1)))
+	if (unlikely(str_size(src) != (UUID_SZ - 1)))
 		return -1;
 
 	auto string = str_of(src);
-- 
2.43.0


From 88ca1309a47cbd219a04cd30645748ff8742c52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:34 +0000
Subject: [PATCH 39/56] fix: two storages must not share a directory

---
 monotone/engine/storage/storage_mgr.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/monotone/engine/storage/storage_mgr.c b/monotone/engine/storage/storage_mgr.c
index 556c71f..18c68cd 100644
--- a/monotone/engine/storage/storage_mgr.c
+++ b/monotone/engine/storage/storage_mgr.c
@@ -195,6 +195,15 @@ storage_mgr_create(StorageMgr* self, Source* source, bool if_not_exists)
 		return false;
 	}
 
+	// ensure uuid is not used by another storage
+	list_foreach(&self->list)
+	{
+		auto ref = list_at(Storage, link);
+		if (uuid_compare(&ref->source->uuid, &source->uuid))
+			error("storage '%.*s': uuid is already in use", str_size(&source->name),
+			      str_of(&source->name));
+	}
+
 	// create storage directory
 	storage_mgr_mkdir(source);
 
-- 
2.43.0


From 483799cdd23d2b5783acdb520b73af64be340bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:42 +0000
Subject: [PATCH 40/56] fix: move into an unknown storage must not change the
 partition

---
 monotone/engine/engine/op.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index 3f02b7c..5ed7caa 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -558,6 +558,11 @@ engine_refresh_local(Engine* self, Refresh* refresh, uint64_t min, Str* storage,
 	Exception e;
 	if (enter(&e))
 	{
+		// ensure storage exists before dropping partition from the cloud
+		if (storage && !storage_mgr_find(&self->storage_mgr, storage))
+			error("refresh: storage '%.*s' not found", str_size(storage),
+			      str_of(storage));
+
 		// download partition from cloud, if necessary
 		engine_download(self, min, if_exists, true);
 
-- 
2.43.0


From 29df1652f041b2ba708c384c289d6597b4627466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:19 +0000
Subject: [PATCH 41/56] fix: alter cloud using invalid options prevented the
 next start

---
 monotone/cloud/cloud/cloud_mgr.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/monotone/cloud/cloud/cloud_mgr.c b/monotone/cloud/cloud/cloud_mgr.c
index 0b9b22c..31e8dab 100644
--- a/monotone/cloud/cloud/cloud_mgr.c
+++ b/monotone/cloud/cloud/cloud_mgr.c
@@ -159,6 +159,13 @@ cloud_mgr_alter(CloudMgr* self, CloudConfig* config, int mask, bool if_exists)
 		return;
 	}
 
+	// ensure that the new config is valid, otherwise it will not be possible
+	// to create the cloud on start
+	auto alter = cloud_config_copy(cloud->config);
+	guard(cloud_config_free, alter);
+	cloud_config_alter(alter, config, mask);
+	cloud_free(cloud_allocate(cloud->iface, alter));
+
 	// update and save cloud config
 	cloud_config_alter(cloud->config, config, mask);
 	cloud_mgr_save(self);
-- 
2.43.0


From bfb69dc18580ac18dda6907c0ae143ac8b28378d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:17 +0000
Subject: [PATCH 42/56] fix: keep storage options which do not fit 32 bits

---
 monotone/cloud/cloud/source.h | 6 +++---
 monotone/engine/io/part.h     | 2 +-
 monotone/engine/io/writer.c   | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/monotone/cloud/cloud/source.h b/monotone/cloud/cloud/source.h
index 6178ddf..cca4928 100644
--- a/monotone/cloud/cloud/source.h
+++ b/monotone/cloud/cloud/source.h
@@ -127,13 +127,13 @@ source_set_crc(Source* self, bool value)
 }
 
 static inline void
-source_set_refresh_wm(Source* self, int value)
+source_set_refresh_wm(Source* self, int64_t value)
 {
 	self->refresh_wm = value;
 }
 
 static inline void
-source_set_region_size(Source* self, int value)
+source_set_region_size(Source* self, int64_t value)
 {
 	self->region_size = value;
 }
@@ -146,7 +146,7 @@ source_set_compression(Source* self, Str* value)
 }
 
 static inline void
-source_set_compression_level(Source* self, int value)
+source_set_compression_level(Source* self, int64_t value)
 {
 	self->compression_level = value;
 }
diff --git a/monotone/engine/io/part.h b/monotone/engine/io/part.h
index 1908e1e..a983fdf 100644
--- a/monotone/engine/io/part.h
+++ b/monotone/engine/io/part.h
@@ -111,5 +111,5 @@ part_refresh_ready(Part* self)
 		return false;
 	if (! self->source->refresh_wm)
 		return false;
-	return heap_used(&self->memtable->heap) > (uint32_t)self->source->refresh_wm;
+	return heap_used(&self->memtable->heap) > (uint64_t)self->source->refresh_wm;
 }
diff --git a/monotone/engine/io/writer.c b/monotone/engine/io/writer.c
index 824bdd0..544b293 100644
--- a/monotone/engine/io/writer.c
+++ b/monotone/engine/io/writer.c
@@ -63,7 +63,7 @@ writer_is_region_limit(Writer* self)
 {
 	if (unlikely(! region_writer_started(&self->region_writer)))
 		return true;
-	return region_writer_size(&self->region_writer) >= (uint32_t)self->source->region_size;
+	return region_writer_size(&self->region_writer) >= (uint64_t)self->source->region_size;
 }
 
 static inline void
-- 
2.43.0


From 84523cfd3dd8d1abd7f2f07d54b0ebd4b529c239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:21 +0000
Subject: [PATCH 43/56] fix: symbols must not be read as keywords

---
 monotone/main/command/lex.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monotone/main/command/lex.h b/monotone/main/command/lex.h
index d6ba2a0..7bbcc20 100644
--- a/monotone/main/command/lex.h
+++ b/monotone/main/command/lex.h
@@ -19,8 +19,8 @@ typedef struct Lex   Lex;
 enum
 {
 	KEOF,
-	// values
-	KREAL,
+	// values (must not intersect with symbols)
+	KREAL = 256,
 	KINT,
 	KSTRING,
 	KNAME,
-- 
2.43.0


From 6621c5b23443a29104d7ad2d8738b4c6794bca16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:14 +0000
Subject: [PATCH 44/56] fix: refuse to open an environment which is already
 open

A second open on the same handle overwrote the directory lock descriptor,
which was then never closed, and kept the directory locked after close.
A refused open kept its descriptor as well.
---
 monotone/main/main/main.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/monotone/main/main/main.c b/monotone/main/main/main.c
index b119eb2..dcee6cb 100644
--- a/monotone/main/main/main.c
+++ b/monotone/main/main/main.c
@@ -117,8 +117,9 @@ main_prepare(Main* self)
 static void
 main_deploy(Main* self, Str* directory)
 {
-	if (config_online())
-		log("environment is already open");
+	// already open, or closing is required after an error
+	if (config_online() || file_is_openned(&self->lock_directory))
+		error("environment is already open");
 
 	// prepare random manager
 	random_open(&self->random);
@@ -144,7 +145,10 @@ main_deploy(Main* self, Str* directory)
 	// get exclusive directory lock
 	file_open_directory(&self->lock_directory, str_of(directory));
 	if (! file_lock(&self->lock_directory))
+	{
+		file_close(&self->lock_directory);
 		error("in use by another process");
+	}
 
 	// read or create config file
 	char path[PATH_MAX];
-- 
2.43.0


From 036cc62b4a90a8157e6b8ecbbd9cc742f95b40cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:14 +0000
Subject: [PATCH 45/56] fix: refuse writes, cursors and commands until the
 environment is open

A handle whose open was refused could overwrite the configuration of the
database which is open, or hit an assertion.
---
 monotone/main/api/monotone.c | 9 +++++++++
 monotone/main/main/execute.c | 4 ++++
 2 files changed, 13 insertions(+)

diff --git a/monotone/main/api/monotone.c b/monotone/main/api/monotone.c
index d4688e4..114b15c 100644
--- a/monotone/main/api/monotone.c
+++ b/monotone/main/api/monotone.c
@@ -41,6 +41,13 @@ monotone_enter(monotone_t* self)
 	runtime_init(&self->main.context);
 }
 
+static inline void
+monotone_check(monotone_t* self)
+{
+	if (unlikely(! var_int_of(&self->main.config.online)))
+		error("environment is not open");
+}
+
 MONOTONE_API monotone_t*
 monotone_init(void)
 {
@@ -156,6 +163,7 @@ monotone_write(monotone_t* self, monotone_event_t* events, int count)
 	int rc = 0;
 	Exception e;
 	if (enter(&e)) {
+		monotone_check(self);
 		engine_write(&self->main.engine, (EventArg*)events, count);
 	}
 	if (leave(&e)) {
@@ -181,6 +189,7 @@ monotone_cursor(monotone_t* self, const char* options, monotone_event_t* key)
 	Exception e;
 	if (enter(&e))
 	{
+		monotone_check(self);
 		if (key == NULL) {
 			engine_cursor_open(&cursor->cursor, &self->main.engine, NULL);
 		} else
diff --git a/monotone/main/main/execute.c b/monotone/main/main/execute.c
index 9cd65c5..50f87d7 100644
--- a/monotone/main/main/execute.c
+++ b/monotone/main/main/execute.c
@@ -573,6 +573,10 @@ main_execute(Main* self, const char* command, char** result)
 	// execute
 	Exception e;
 	if (enter(&e)) {
+		// only settings are available before open
+		if (unlikely(! config_online() &&
+		             cmd->type != CMD_SET && cmd->type != CMD_SHOW))
+			error("environment is not open");
 		execute->function(&arg);
 	}
 	if (execute->lock != EXECUTE_LOCK_NONE)
-- 
2.43.0


From 62cd62b55f3e2713cb6fc3eb1aa94ca77af66c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:52 +0000
Subject: [PATCH 46/56] fix: verify region checksums on read

Checksums were written with CRC enabled, but never compared: damaged regions
were returned as data or crashed the decompression.
---
 monotone/engine/io/reader.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/monotone/engine/io/reader.h b/monotone/engine/io/reader.h
index 5be2947..16ab507 100644
--- a/monotone/engine/io/reader.h
+++ b/monotone/engine/io/reader.h
@@ -107,6 +107,14 @@ reader_execute(Reader* self, IndexRegion* index_region)
 	}
 	Buf* origin = &self->buf;
 
+	// check region crc
+	if (index_region->crc != 0)
+	{
+		uint32_t crc = crc32(0, origin->start, buf_size(origin));
+		if (unlikely(crc != index_region->crc))
+			error("read: region crc mismatch");
+	}
+
 	// decrypt region
 	if (self->encryption)
 	{
-- 
2.43.0


From 938cd046884d7caa82cad82b2b0bdd74778e6ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:12 +0000
Subject: [PATCH 47/56] fix: do not count memory pages which could not be
 allocated

---
 monotone/runtime/lib/memory_mgr.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/monotone/runtime/lib/memory_mgr.h b/monotone/runtime/lib/memory_mgr.h
index 89dd37a..44770c3 100644
--- a/monotone/runtime/lib/memory_mgr.h
+++ b/monotone/runtime/lib/memory_mgr.h
@@ -161,7 +161,12 @@ memory_mgr_pop(MemoryMgr* self)
 	Page* page;
 	page = vfs_mmap(-1, sizeof(Page) + self->page_size);
 	if (unlikely(page == NULL))
+	{
+		mutex_lock(&self->lock);
+		self->count--;
+		mutex_unlock(&self->lock);
 		error_system();
+	}
 	page->used = 0;
 	page->next = NULL;
 	return page;
-- 
2.43.0


From ec0944115a04e00791cdab7e02b32b9156fee6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:12 +0000
Subject: [PATCH 48/56] fix: keep unused memory pages within mm_cache, wake up
 writers when pages are freed

---
 monotone/runtime/lib/heap.h       |  5 +--
 monotone/runtime/lib/memory_mgr.h | 62 +++++++++++++++----------------
 2 files changed, 32 insertions(+), 35 deletions(-)

diff --git a/monotone/runtime/lib/heap.h b/monotone/runtime/lib/heap.h
index 54e397a..2c96bc0 100644
--- a/monotone/runtime/lib/heap.h
+++ b/monotone/runtime/lib/heap.h
@@ -37,10 +37,7 @@ heap_reset(Heap* self)
 {
 	uint32_t count = atomic_u32_of(&self->list_count);
 	if (count > 0)
-		memory_mgr_push(self->memory_mgr,
-		                self->list,
-		                self->list_tail,
-		                count);
+		memory_mgr_push(self->memory_mgr, self->list, count);
 	self->list      = NULL;
 	self->list_tail = NULL;
 	atomic_u32_set(&self->list_count, 0);
diff --git a/monotone/runtime/lib/memory_mgr.h b/monotone/runtime/lib/memory_mgr.h
index 44770c3..bbb53a5 100644
--- a/monotone/runtime/lib/memory_mgr.h
+++ b/monotone/runtime/lib/memory_mgr.h
@@ -126,33 +126,31 @@ memory_mgr_pop(MemoryMgr* self)
 {
 	mutex_lock(&self->lock);
 
-	if (likely(self->free_list))
-	{
-		auto page = memory_mgr_pop_cache(self);
-		mutex_unlock(&self->lock);
-		return page;
-	}
-
-	if (self->limit)
+	bool hit = false;
+	while (!self->free_list && self->limit)
 	{
 		uint64_t used = self->count * (uint64_t)self->page_size;
-		if (unlikely(used >= self->limit_wm))
-		{
-			self->limit_hits++;
-			if (self->limit_error)
-			{
-				mutex_unlock(&self->lock);
-				error("mm: memory limit reached");
-			}
+		if (likely(used < self->limit_wm))
+			break;
 
-			// wait for free page
-			while (! self->free_list)
-				cond_var_wait(&self->cond_var, &self->lock);
-
-			auto page = memory_mgr_pop_cache(self);
+		if (! hit)
+			self->limit_hits++;
+		hit = true;
+		if (self->limit_error)
+		{
 			mutex_unlock(&self->lock);
-			return page;
+			error("mm: memory limit reached");
 		}
+
+		// wait for free page or for pages to be unmapped
+		cond_var_wait(&self->cond_var, &self->lock);
+	}
+
+	if (likely(self->free_list))
+	{
+		auto page = memory_mgr_pop_cache(self);
+		mutex_unlock(&self->lock);
+		return page;
 	}
 
 	self->count++;
@@ -173,20 +171,22 @@ memory_mgr_pop(MemoryMgr* self)
 }
 
 static inline void
-memory_mgr_push(MemoryMgr* self, Page* page, Page* page_tail, int count)
+memory_mgr_push(MemoryMgr* self, Page* page, int count)
 {
+	// keep as many pages as the cache limit allows, free the rest
+	uint64_t page_size = sizeof(Page) + self->page_size;
 	mutex_lock(&self->lock);
-	uint64_t cache = self->free_list_count * (uint64_t)self->page_size;
-	if (cache < self->cache)
+	while (page && (self->free_list_count + 1) * page_size <= self->cache)
 	{
-		page_tail->next = self->free_list;
+		auto next = page->next;
+		page->next = self->free_list;
 		self->free_list = page;
-		self->free_list_count += count;
-		cond_var_broadcast(&self->cond_var);
-		page = NULL;
-	} else {
-		self->count -= count;
+		self->free_list_count++;
+		count--;
+		page = next;
 	}
+	self->count -= count;
+	cond_var_broadcast(&self->cond_var);
 	mutex_unlock(&self->lock);
 
 	while (page)
-- 
2.43.0


From f55c6479880ef7c5f2ff4111479123ca44560272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:12 +0000
Subject: [PATCH 49/56] fix: release memory pages of rolled back writes on
 refresh

---
 monotone/engine/engine/refresh.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/monotone/engine/engine/refresh.c b/monotone/engine/engine/refresh.c
index a5aab81..a82ff74 100644
--- a/monotone/engine/engine/refresh.c
+++ b/monotone/engine/engine/refresh.c
@@ -121,6 +121,8 @@ refresh_begin(Refresh* self, uint64_t min, Str* storage, bool if_exists)
 		self->memtable = prev;
 		self->retry = true;
 	} else {
+		// release pages left by writes which were rolled back
+		memtable_free(prev);
 		self->memtable = part_memtable_rotate(self->origin);
 	}
 
-- 
2.43.0


From e49bc46725806b87c4f7b306498a90363ed60423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:12 +0000
Subject: [PATCH 50/56] fix: memory limit could prevent recovery of the log

---
 monotone/main/main/main.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/monotone/main/main/main.c b/monotone/main/main/main.c
index dcee6cb..26a9fc1 100644
--- a/monotone/main/main/main.c
+++ b/monotone/main/main/main.c
@@ -244,7 +244,13 @@ main_start(Main* self, const char* directory)
 	if (var_int_of(&config()->wal))
 	{
 		wal_open(&self->wal);
+
+		// do not apply memory limit during replay, it can require more
+		// memory than the original writes (e.g. the log has events of
+		// partitions which were refreshed and dropped later)
+		self->memory_mgr.limit = false;
 		main_replay(self);
+		self->memory_mgr.limit = var_int_of(&config()->mm_limit);
 	}
 
 	// restore serial number
-- 
2.43.0


From b883280b911ffd9904cdf92cd947db6f7e46a48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:12 +0000
Subject: [PATCH 51/56] fix: validate settings before they are saved

---
 monotone/main/main/main.c         | 28 +++++++++++++++++++++-------
 monotone/runtime/lib/memory_mgr.h |  5 ++++-
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/monotone/main/main/main.c b/monotone/main/main/main.c
index 26a9fc1..6c4d7d6 100644
--- a/monotone/main/main/main.c
+++ b/monotone/main/main/main.c
@@ -114,6 +114,18 @@ main_prepare(Main* self)
 	config_prepare(&self->config);
 }
 
+static void
+main_set_memory(Main* self)
+{
+	// configure memory manager
+	memory_mgr_set(&self->memory_mgr,
+	               var_int_of(&config()->mm_page_size),
+	               var_int_of(&config()->mm_cache),
+	               var_int_of(&config()->mm_limit),
+	               &config()->mm_limit_behaviour.string,
+	               var_int_of(&config()->mm_limit_wm));
+}
+
 static void
 main_deploy(Main* self, Str* directory)
 {
@@ -153,6 +165,14 @@ main_deploy(Main* self, Str* directory)
 	// read or create config file
 	char path[PATH_MAX];
 	snprintf(path, sizeof(path), "%s/config.json", config_directory());
+
+	// validate settings before they are saved
+	if (! fs_exists("%s", path))
+	{
+		Uuid uuid;
+		uuid_from_string(&uuid, &config()->uuid.string);
+		main_set_memory(self);
+	}
 	config_open(&self->config, path);
 
 	// configure logger
@@ -165,13 +185,7 @@ main_deploy(Main* self, Str* directory)
 		logger_open(logger, path);
 	}
 
-	// configure memory manager
-	memory_mgr_set(&self->memory_mgr,
-	               var_int_of(&config()->mm_page_size),
-	               var_int_of(&config()->mm_cache),
-	               var_int_of(&config()->mm_limit),
-	               &config()->mm_limit_behaviour.string,
-	               var_int_of(&config()->mm_limit_wm));
+	main_set_memory(self);
 }
 
 static void
diff --git a/monotone/runtime/lib/memory_mgr.h b/monotone/runtime/lib/memory_mgr.h
index bbb53a5..b92660f 100644
--- a/monotone/runtime/lib/memory_mgr.h
+++ b/monotone/runtime/lib/memory_mgr.h
@@ -55,12 +55,15 @@ memory_mgr_init(MemoryMgr* self)
 }
 
 static inline void
-memory_mgr_set(MemoryMgr* self, int page_size,
+memory_mgr_set(MemoryMgr* self,
+               uint64_t   page_size,
                uint64_t   cache,
                bool       limit,
                Str*       limit_behaviour,
                uint64_t   limit_wm)
 {
+	if (unlikely(page_size <= sizeof(Page) || page_size > INT32_MAX))
+		error("mm: page size is out of range");
 	self->page_size = page_size - sizeof(Page);
 	self->cache     = cache;
 	self->limit     = limit;
-- 
2.43.0


From 0bc5699124ee910a88f171da3231c4868e4205ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:21 +0000
Subject: [PATCH 52/56] fix: undo a configuration change which could not be
 saved

---
 monotone/cloud/cloud/cloud_mgr.c      |  22 +++-
 monotone/cloud/cloud/cloud_mgr.h      |   2 +-
 monotone/engine/storage/pipeline.c    |  45 +++++--
 monotone/engine/storage/storage_mgr.c |  28 ++++-
 monotone/engine/storage/storage_mgr.h |   2 +-
 monotone/main/main/execute.c          | 166 +++++++++++++++++++-------
 6 files changed, 207 insertions(+), 58 deletions(-)

diff --git a/monotone/cloud/cloud/cloud_mgr.c b/monotone/cloud/cloud/cloud_mgr.c
index 31e8dab..b687123 100644
--- a/monotone/cloud/cloud/cloud_mgr.c
+++ b/monotone/cloud/cloud/cloud_mgr.c
@@ -124,7 +124,7 @@ cloud_mgr_create(CloudMgr* self, CloudConfig* config, bool if_not_exists)
 }
 
 void
-cloud_mgr_drop(CloudMgr* self, Str* name, bool if_exists)
+cloud_mgr_drop(CloudMgr* self, Str* name, bool if_exists, bool save)
 {
 	auto cloud = cloud_mgr_find(self, name);
 	if (! cloud)
@@ -139,12 +139,28 @@ cloud_mgr_drop(CloudMgr* self, Str* name, bool if_exists)
 		error("cloud '%.*s': has dependencies", str_size(name),
 		      str_of(name));
 
+	auto prev = cloud->link.prev;
 	list_unlink(&cloud->link);
 	self->list_count--;
 	assert(self->list_count >= 0);
-	cloud_free(cloud);
-
 	cloud_mgr_save(self);
+
+	// rewrite config file
+	Exception e;
+	if (enter(&e))
+	{
+		if (save)
+			control_save_config();
+	}
+	if (leave(&e))
+	{
+		// undo
+		list_push(prev, &cloud->link);
+		self->list_count++;
+		cloud_mgr_save(self);
+		rethrow();
+	}
+	cloud_free(cloud);
 }
 
 void
diff --git a/monotone/cloud/cloud/cloud_mgr.h b/monotone/cloud/cloud/cloud_mgr.h
index 9efe056..5736cde 100644
--- a/monotone/cloud/cloud/cloud_mgr.h
+++ b/monotone/cloud/cloud/cloud_mgr.h
@@ -25,7 +25,7 @@ void cloud_mgr_init(CloudMgr*);
 void cloud_mgr_free(CloudMgr*);
 void cloud_mgr_open(CloudMgr*);
 void cloud_mgr_create(CloudMgr*, CloudConfig*, bool);
-void cloud_mgr_drop(CloudMgr*, Str*, bool);
+void cloud_mgr_drop(CloudMgr*, Str*, bool, bool);
 void cloud_mgr_alter(CloudMgr*, CloudConfig*, int, bool);
 void cloud_mgr_rename(CloudMgr*, Str*, Str*, bool);
 void cloud_mgr_show(CloudMgr*, Str*, Buf*);
diff --git a/monotone/engine/storage/pipeline.c b/monotone/engine/storage/pipeline.c
index 8d9fe25..ba6e5f4 100644
--- a/monotone/engine/storage/pipeline.c
+++ b/monotone/engine/storage/pipeline.c
@@ -123,6 +123,21 @@ pipeline_alter_validate(List* configs)
 	}
 }
 
+static int
+pipeline_move(List* from, List* to)
+{
+	int count = 0;
+	list_foreach_safe(from)
+	{
+		auto tier = list_at(Tier, link);
+		list_init(&tier->link);
+		list_append(to, &tier->link);
+		count++;
+	}
+	list_init(from);
+	return count;
+}
+
 void
 pipeline_alter(Pipeline* self, List* configs)
 {
@@ -152,17 +167,33 @@ pipeline_alter(Pipeline* self, List* configs)
 		rethrow();
 	}
 
-	pipeline_reset(self);
+	// use new list of tiers
+	List prev;
+	list_init(&prev);
+	pipeline_move(&self->list, &prev);
+	self->list_count = pipeline_move(&list, &self->list);
 
-	list_foreach_safe(&list)
+	// rewrite config file
+	if (enter(&e))
 	{
-		auto tier = list_at(Tier, link);
-		list_init(&tier->link);
-		list_append(&self->list, &tier->link);
-		self->list_count++;
+		pipeline_save(self);
+		control_save_config();
+	}
+	if (leave(&e))
+	{
+		// undo
+		pipeline_reset(self);
+		self->list_count = pipeline_move(&prev, &self->list);
+		pipeline_save(self);
+		rethrow();
 	}
 
-	pipeline_save(self);
+	// free previous tiers
+	list_foreach_safe(&prev)
+	{
+		auto tier = list_at(Tier, link);
+		tier_free(tier);
+	}
 }
 
 void
diff --git a/monotone/engine/storage/storage_mgr.c b/monotone/engine/storage/storage_mgr.c
index 18c68cd..afece04 100644
--- a/monotone/engine/storage/storage_mgr.c
+++ b/monotone/engine/storage/storage_mgr.c
@@ -217,7 +217,7 @@ storage_mgr_create(StorageMgr* self, Source* source, bool if_not_exists)
 }
 
 void
-storage_mgr_drop(StorageMgr* self, Str* name, bool if_exists)
+storage_mgr_drop(StorageMgr* self, Str* name, bool if_exists, bool save)
 {
 	if (unlikely(str_compare_raw(name, "main", 4)))
 	{
@@ -242,15 +242,31 @@ storage_mgr_drop(StorageMgr* self, Str* name, bool if_exists)
 		error("storage '%.*s': has partitions", str_size(name),
 		      str_of(name));
 
-	if (storage->cloud)
-		cloud_detach(storage->cloud, storage->source);
-
+	auto prev = storage->link.prev;
 	list_unlink(&storage->link);
 	self->list_count--;
 	assert(self->list_count >= 0);
-	storage_free(storage);
-
 	storage_mgr_save(self);
+
+	// rewrite config file
+	Exception e;
+	if (enter(&e))
+	{
+		if (save)
+			control_save_config();
+	}
+	if (leave(&e))
+	{
+		// undo
+		list_push(prev, &storage->link);
+		self->list_count++;
+		storage_mgr_save(self);
+		rethrow();
+	}
+
+	if (storage->cloud)
+		cloud_detach(storage->cloud, storage->source);
+	storage_free(storage);
 }
 
 void
diff --git a/monotone/engine/storage/storage_mgr.h b/monotone/engine/storage/storage_mgr.h
index cfa1e5e..2c9786f 100644
--- a/monotone/engine/storage/storage_mgr.h
+++ b/monotone/engine/storage/storage_mgr.h
@@ -27,7 +27,7 @@ void storage_mgr_free(StorageMgr*);
 void storage_mgr_open(StorageMgr*);
 bool storage_mgr_create_main(StorageMgr*);
 bool storage_mgr_create(StorageMgr*, Source*, bool);
-void storage_mgr_drop(StorageMgr*, Str*, bool);
+void storage_mgr_drop(StorageMgr*, Str*, bool, bool);
 void storage_mgr_alter(StorageMgr*, Source*, int, bool);
 void storage_mgr_rename(StorageMgr*, Str*, Str*, bool);
 void storage_mgr_rename_cloud(StorageMgr*, Str*, Str*);
diff --git a/monotone/main/main/execute.c b/monotone/main/main/execute.c
index 50f87d7..65248ca 100644
--- a/monotone/main/main/execute.c
+++ b/monotone/main/main/execute.c
@@ -134,6 +134,17 @@ execute_set(Executable* self)
 			      str_of(name));
 	}
 
+	// keep previous value to be able to undo the change
+	uint64_t prev = 0;
+	Str      prev_string;
+	str_init(&prev_string);
+	guard(str_free, &prev_string);
+	if (var->type == VAR_STRING)
+		str_copy(&prev_string, &var->string);
+	else
+	if (var->type != VAR_DATA)
+		prev = var_int_of(var);
+
 	// set value
 	auto value = &cmd->value;
 	switch (var->type) {
@@ -174,8 +185,21 @@ execute_set(Executable* self)
 	}
 
 	// rewrite config file
-	if (config_online() && !var_is(var, VAR_E))
+	if (!config_online() || var_is(var, VAR_E))
+		return;
+
+	Exception e;
+	if (enter(&e)) {
 		control_save_config();
+	}
+	if (leave(&e))
+	{
+		if (var->type == VAR_STRING)
+			var_string_set(var, &prev_string);
+		else
+			var_int_set(var, prev);
+		rethrow();
+	}
 }
 
 static void
@@ -252,13 +276,24 @@ static void
 execute_cloud_create(Executable* self)
 {
 	auto cmd = cmd_cloud_create_of(self->cmd);
+	auto cloud_mgr = &self->main->cloud_mgr;
+	auto exists = cloud_mgr_find(cloud_mgr, &cmd->config->name) != NULL;
 
 	// create cloud
-	cloud_mgr_create(&self->main->cloud_mgr, cmd->config,
-	                 cmd->if_not_exists);
+	cloud_mgr_create(cloud_mgr, cmd->config, cmd->if_not_exists);
 
 	// rewrite config file
-	control_save_config();
+	Exception e;
+	if (enter(&e)) {
+		control_save_config();
+	}
+	if (leave(&e))
+	{
+		// undo
+		if (! exists)
+			cloud_mgr_drop(cloud_mgr, &cmd->config->name, false, false);
+		rethrow();
+	}
 }
 
 static void
@@ -266,52 +301,83 @@ execute_cloud_drop(Executable* self)
 {
 	auto cmd = cmd_cloud_drop_of(self->cmd);
 
-	// drop storage
+	// drop cloud
 	cloud_mgr_drop(&self->main->cloud_mgr, &cmd->name.string,
-	               cmd->if_exists);
-
-	// rewrite config file
-	control_save_config();
+	               cmd->if_exists, true);
 }
 
 static void
 execute_cloud_alter(Executable* self)
 {
 	auto cmd = cmd_cloud_alter_of(self->cmd);
+	auto cloud_mgr = &self->main->cloud_mgr;
+	auto storage_mgr = &self->main->engine.storage_mgr;
+	auto name = cmd->config ? &cmd->config->name : &cmd->name.string;
+
+	auto cloud = cloud_mgr_find(cloud_mgr, name);
+	if (! cloud)
+	{
+		if (! cmd->if_exists)
+			error("cloud '%.*s': not exists", str_size(name),
+			      str_of(name));
+		return;
+	}
+	auto prev = cloud_config_copy(cloud->config);
+	guard(cloud_config_free, prev);
 
 	if (cmd->config)
 	{
 		// alter set
-		cloud_mgr_alter(&self->main->cloud_mgr,
-		                cmd->config,
-		                cmd->config_mask,
-		                cmd->if_exists);
+		cloud_mgr_alter(cloud_mgr, cmd->config, cmd->config_mask, false);
 	} else
 	{
 		// alter rename
-		cloud_mgr_rename(&self->main->cloud_mgr, &cmd->name.string,
-		                 &cmd->name_new.string,
-		                  cmd->if_exists);
-		storage_mgr_rename_cloud(&self->main->engine.storage_mgr,
-		                         &cmd->name.string,
-		                         &cmd->name_new.string);
+		cloud_mgr_rename(cloud_mgr, name, &cmd->name_new.string, false);
+		storage_mgr_rename_cloud(storage_mgr, name, &cmd->name_new.string);
 	}
 
 	// rewrite config file
-	control_save_config();
+	Exception e;
+	if (enter(&e)) {
+		control_save_config();
+	}
+	if (leave(&e))
+	{
+		// undo
+		if (cmd->config)
+		{
+			cloud_mgr_alter(cloud_mgr, prev, cmd->config_mask, false);
+		} else
+		{
+			cloud_mgr_rename(cloud_mgr, &cmd->name_new.string, name, false);
+			storage_mgr_rename_cloud(storage_mgr, &cmd->name_new.string, name);
+		}
+		rethrow();
+	}
 }
 
 static void
 execute_storage_create(Executable* self)
 {
 	auto cmd = cmd_storage_create_of(self->cmd);
+	auto storage_mgr = &self->main->engine.storage_mgr;
 
 	// create storage
-	storage_mgr_create(&self->main->engine.storage_mgr, cmd->config,
-	                   cmd->if_not_exists);
+	auto created =
+		storage_mgr_create(storage_mgr, cmd->config, cmd->if_not_exists);
 
 	// rewrite config file
-	control_save_config();
+	Exception e;
+	if (enter(&e)) {
+		control_save_config();
+	}
+	if (leave(&e))
+	{
+		// undo
+		if (created)
+			storage_mgr_drop(storage_mgr, &cmd->config->name, false, false);
+		rethrow();
+	}
 }
 
 static void
@@ -321,10 +387,7 @@ execute_storage_drop(Executable* self)
 
 	// drop storage
 	storage_mgr_drop(&self->main->engine.storage_mgr, &cmd->name.string,
-	                 cmd->if_exists);
-
-	// rewrite config file
-	control_save_config();
+	                 cmd->if_exists, true);
 }
 
 static void
@@ -332,26 +395,52 @@ execute_storage_alter(Executable* self)
 {
 	auto cmd = cmd_storage_alter_of(self->cmd);
 	auto engine = &self->main->engine;
+	auto storage_mgr = &engine->storage_mgr;
+	auto name = cmd->config ? &cmd->config->name : &cmd->name.string;
+
+	auto storage = storage_mgr_find(storage_mgr, name);
+	if (! storage)
+	{
+		if (cmd->config)
+			storage_mgr_alter(storage_mgr, cmd->config, cmd->config_mask,
+			                  cmd->if_exists);
+		else
+			storage_mgr_rename(storage_mgr, name, &cmd->name_new.string,
+			                   cmd->if_exists);
+		return;
+	}
+	auto prev = source_copy(storage->source);
+	guard(source_free, prev);
 
 	if (cmd->config)
 	{
 		// alter set
-		storage_mgr_alter(&engine->storage_mgr,
-		                  cmd->config,
-		                  cmd->config_mask,
-		                  cmd->if_exists);
+		storage_mgr_alter(storage_mgr, cmd->config, cmd->config_mask, false);
 	} else
 	{
 		// alter rename
-		storage_mgr_rename(&engine->storage_mgr, &cmd->name.string,
-		                   &cmd->name_new.string,
-		                    cmd->if_exists);
-		pipeline_rename(&engine->pipeline, &cmd->name.string,
-		                &cmd->name_new.string);
+		storage_mgr_rename(storage_mgr, name, &cmd->name_new.string, false);
+		pipeline_rename(&engine->pipeline, name, &cmd->name_new.string);
 	}
 
 	// rewrite config file
-	control_save_config();
+	Exception e;
+	if (enter(&e)) {
+		control_save_config();
+	}
+	if (leave(&e))
+	{
+		// undo
+		if (cmd->config)
+		{
+			storage_mgr_alter(storage_mgr, prev, cmd->config_mask, false);
+		} else
+		{
+			storage_mgr_rename(storage_mgr, &cmd->name_new.string, name, false);
+			pipeline_rename(&engine->pipeline, &cmd->name_new.string, name);
+		}
+		rethrow();
+	}
 }
 
 static void
@@ -361,9 +450,6 @@ execute_pipeline_alter(Executable* self)
 
 	// alter pipeline
 	pipeline_alter(&self->main->engine.pipeline, &cmd->list);
-
-	// rewrite config file
-	control_save_config();
 }
 
 static void
-- 
2.43.0


From 8156b2219d048815e34374193d43afa9f94d68b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:52 +0000
Subject: [PATCH 53/56] fix: arguments of the s3 error message

---
 monotone/cloud/s3/s3_request.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monotone/cloud/s3/s3_request.c b/monotone/cloud/s3/s3_request.c
index e9da4e8..dfc84a6 100644
--- a/monotone/cloud/s3/s3_request.c
+++ b/monotone/cloud/s3/s3_request.c
@@ -255,11 +255,11 @@ error:;
 	{
 		long http_code = 0;
 		curl_easy_getinfo(curl, CURLINFO_RESPONSE_CODE, &http_code);
-		error("s3: HTTP %d (%s)",
+		error("s3 %.*s: HTTP %d (%s)",
 		      str_size(&config->name),
 		      str_of(&config->name),
 		      (int)http_code,
-	          str);
+		      str);
 	}  else
 	{
 		error("s3 %.*s: %s",
-- 
2.43.0


From b663ac164bed92f00d6d7b910e2ea7274df8df6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:52 +0000
Subject: [PATCH 54/56] fix: s3 bucket which already exists or is already
 dropped is not an error

---
 monotone/cloud/s3/s3_op.c      | 6 ++++++
 monotone/cloud/s3/s3_request.c | 2 ++
 monotone/cloud/s3/s3_request.h | 1 +
 3 files changed, 9 insertions(+)

diff --git a/monotone/cloud/s3/s3_op.c b/monotone/cloud/s3/s3_op.c
index 4573625..103781d 100644
--- a/monotone/cloud/s3/s3_op.c
+++ b/monotone/cloud/s3/s3_op.c
@@ -45,6 +45,7 @@ s3_op_download(S3Io* self, Source* source, Id* id, File* file)
 		.content_type     = NULL,
 		.content_length   = 0,
 		.range            = NULL,
+		.accept           = 0,
 		.date[0]          = 0,
 		.authorization[0] = 0,
 		.url[0]           = 0
@@ -94,6 +95,7 @@ s3_op_upload(S3Io* self, Source* source, Id* id, File* file)
 		.content_type     = "application/octet-stream",
 		.content_length   = file->size,
 		.range            = NULL,
+		.accept           = 0,
 		.date[0]          = 0,
 		.authorization[0] = 0,
 		.url[0]           = 0
@@ -116,6 +118,7 @@ s3_op_delete(S3Io* self, Source* source, Id* id)
 		.content_type     = NULL,
 		.content_length   = 0,
 		.range            = NULL,
+		.accept           = 0,
 		.date[0]          = 0,
 		.authorization[0] = 0,
 		.url[0]           = 0
@@ -159,6 +162,7 @@ s3_op_read(S3Io*    self,
 		.content_type     = NULL,
 		.content_length   = 0,
 		.range            = range,
+		.accept           = 0,
 		.date[0]          = 0,
 		.authorization[0] = 0,
 		.url[0]           = 0
@@ -181,6 +185,7 @@ s3_op_create_bucket(S3Io* self, Source* source)
 		.content_type     = "application/octet-stream",
 		.content_length   = 0,
 		.range            = NULL,
+		.accept           = 409, // already exists
 		.date[0]          = 0,
 		.authorization[0] = 0,
 		.url[0]           = 0
@@ -203,6 +208,7 @@ s3_op_drop_bucket(S3Io* self, Source* source)
 		.content_type     = NULL,
 		.content_length   = 0,
 		.range            = NULL,
+		.accept           = 404, // not exists
 		.date[0]          = 0,
 		.authorization[0] = 0,
 		.url[0]           = 0
diff --git a/monotone/cloud/s3/s3_request.c b/monotone/cloud/s3/s3_request.c
index dfc84a6..c4c83ae 100644
--- a/monotone/cloud/s3/s3_request.c
+++ b/monotone/cloud/s3/s3_request.c
@@ -255,6 +255,8 @@ error:;
 	{
 		long http_code = 0;
 		curl_easy_getinfo(curl, CURLINFO_RESPONSE_CODE, &http_code);
+		if (self->accept && http_code == self->accept)
+			return;
 		error("s3 %.*s: HTTP %d (%s)",
 		      str_size(&config->name),
 		      str_of(&config->name),
diff --git a/monotone/cloud/s3/s3_request.h b/monotone/cloud/s3/s3_request.h
index 8310820..8ecaca3 100644
--- a/monotone/cloud/s3/s3_request.h
+++ b/monotone/cloud/s3/s3_request.h
@@ -27,6 +27,7 @@ struct S3Request
 	const char* content_type;
 	uint64_t    content_length;
 	const char* range;
+	long        accept;
 	char        date[64];
 	char        authorization[256];
 	char        url[1024];
-- 
2.43.0


From 0df4c5b4aaf1f34307b799816d6601baea6b953b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:52 +0000
Subject: [PATCH 55/56] fix: undo a cloud change of a storage which failed

---
 monotone/engine/storage/storage_mgr.c | 131 ++++++++++++++++++--------
 monotone/main/main/execute.c          |  43 +++------
 2 files changed, 104 insertions(+), 70 deletions(-)

diff --git a/monotone/engine/storage/storage_mgr.c b/monotone/engine/storage/storage_mgr.c
index afece04..902ff32 100644
--- a/monotone/engine/storage/storage_mgr.c
+++ b/monotone/engine/storage/storage_mgr.c
@@ -216,6 +216,23 @@ storage_mgr_create(StorageMgr* self, Source* source, bool if_not_exists)
 	return true;
 }
 
+static void
+storage_mgr_undo(Cloud* cloud, Source* source)
+{
+	// restore cloud and config file after a failed change
+	Exception e;
+	if (enter(&e)) {
+		if (cloud)
+			cloud_attach(cloud, source);
+	}
+	leave(&e);
+
+	if (enter(&e)) {
+		control_save_config();
+	}
+	leave(&e);
+}
+
 void
 storage_mgr_drop(StorageMgr* self, Str* name, bool if_exists, bool save)
 {
@@ -248,25 +265,44 @@ storage_mgr_drop(StorageMgr* self, Str* name, bool if_exists, bool save)
 	assert(self->list_count >= 0);
 	storage_mgr_save(self);
 
-	// rewrite config file
+	// rewrite config file and detach storage from the cloud
 	Exception e;
 	if (enter(&e))
 	{
 		if (save)
 			control_save_config();
+		if (storage->cloud)
+			cloud_detach(storage->cloud, storage->source);
 	}
 	if (leave(&e))
 	{
-		// undo
-		list_push(prev, &storage->link);
-		self->list_count++;
-		storage_mgr_save(self);
-		rethrow();
+		if (save)
+		{
+			// undo
+			list_push(prev, &storage->link);
+			self->list_count++;
+			storage_mgr_save(self);
+			storage_mgr_undo(storage->cloud, storage->source);
+			rethrow();
+		}
 	}
+	storage_free(storage);
+}
 
+static void
+storage_mgr_use_cloud(Storage* storage, Cloud* cloud)
+{
+	if (cloud)
+		cloud_ref(cloud);
 	if (storage->cloud)
-		cloud_detach(storage->cloud, storage->source);
-	storage_free(storage);
+		cloud_unref(storage->cloud);
+	storage->cloud = cloud;
+
+	list_foreach(&storage->list)
+	{
+		auto part = list_at(Part, link);
+		part->cloud = cloud;
+	}
 }
 
 void
@@ -281,6 +317,7 @@ storage_mgr_alter(StorageMgr* self, Source* source, int mask, bool if_exists)
 		return;
 	}
 	bool is_empty = (storage->list_count == 0);
+	auto cloud = storage->cloud;
 
 	if (mask & SOURCE_CRC)
 	{
@@ -321,45 +358,57 @@ storage_mgr_alter(StorageMgr* self, Source* source, int mask, bool if_exists)
 		}
 
 		// ensure new cloud exists before making any changes
-		if (! str_empty(&source->cloud) &&
-		    ! cloud_mgr_find(self->cloud_mgr, &source->cloud))
-			error("storage '%.*s': cloud '%.*s' not exists",
-			      str_size(&source->name),
-			      str_of(&source->name),
-			      str_size(&source->cloud),
-			      str_of(&source->cloud));
-
-		if (storage->cloud)
-			cloud_detach(storage->cloud, storage->source);
+		cloud = NULL;
+		if (! str_empty(&source->cloud))
+		{
+			cloud = cloud_mgr_find(self->cloud_mgr, &source->cloud);
+			if (! cloud)
+				error("storage '%.*s': cloud '%.*s' not exists",
+				      str_size(&source->name),
+				      str_of(&source->name),
+				      str_size(&source->cloud),
+				      str_of(&source->cloud));
+		}
 	}
 
-	source_alter(storage->source, source, mask);
-	storage_mgr_save(self);
+	auto source_prev = source_copy(storage->source);
+	guard(source_free, source_prev);
+	auto cloud_prev = storage->cloud;
 
-	if (mask & SOURCE_CLOUD)
-	{
-		if (storage->cloud)
-		{
-			cloud_unref(storage->cloud);
-			storage->cloud = NULL;
-		}
+	// nothing to detach, if both have the same endpoint
+	auto attach = cloud;
+	auto detach = cloud_prev;
+	if (attach == detach)
+		attach = detach = NULL;
+	if (attach && detach && attach->iface == detach->iface &&
+	    str_compare(&attach->config->url, &detach->config->url))
+		detach = NULL;
 
-		list_foreach(&storage->list)
-		{
-			auto part = list_at(Part, link);
-			part->cloud = NULL;
-		}
+	// attach new cloud before making any changes
+	if (attach)
+		cloud_attach(attach, storage->source);
 
-		storage_set_cloud(self, storage, true);
+	source_alter(storage->source, source, mask);
+	storage_mgr_use_cloud(storage, cloud);
+	storage_mgr_save(self);
 
-		if (storage->cloud)
-		{
-			list_foreach(&storage->list)
-			{
-				auto part = list_at(Part, link);
-				part->cloud = storage->cloud;
-			}
-		}
+	// rewrite config file and detach previous cloud
+	Exception e;
+	if (enter(&e))
+	{
+		control_save_config();
+		if (detach)
+			cloud_detach(detach, storage->source);
+	}
+	if (leave(&e))
+	{
+		// undo
+		source_alter(storage->source, source_prev, mask);
+		storage_mgr_use_cloud(storage, cloud_prev);
+		storage_mgr_save(self);
+		if (detach)
+			storage_mgr_undo(detach, storage->source);
+		rethrow();
 	}
 }
 
diff --git a/monotone/main/main/execute.c b/monotone/main/main/execute.c
index 65248ca..b4ef89e 100644
--- a/monotone/main/main/execute.c
+++ b/monotone/main/main/execute.c
@@ -396,32 +396,23 @@ execute_storage_alter(Executable* self)
 	auto cmd = cmd_storage_alter_of(self->cmd);
 	auto engine = &self->main->engine;
 	auto storage_mgr = &engine->storage_mgr;
-	auto name = cmd->config ? &cmd->config->name : &cmd->name.string;
 
-	auto storage = storage_mgr_find(storage_mgr, name);
-	if (! storage)
+	// alter set
+	if (cmd->config)
 	{
-		if (cmd->config)
-			storage_mgr_alter(storage_mgr, cmd->config, cmd->config_mask,
-			                  cmd->if_exists);
-		else
-			storage_mgr_rename(storage_mgr, name, &cmd->name_new.string,
-			                   cmd->if_exists);
+		storage_mgr_alter(storage_mgr, cmd->config, cmd->config_mask,
+		                  cmd->if_exists);
 		return;
 	}
-	auto prev = source_copy(storage->source);
-	guard(source_free, prev);
 
-	if (cmd->config)
-	{
-		// alter set
-		storage_mgr_alter(storage_mgr, cmd->config, cmd->config_mask, false);
-	} else
-	{
-		// alter rename
-		storage_mgr_rename(storage_mgr, name, &cmd->name_new.string, false);
-		pipeline_rename(&engine->pipeline, name, &cmd->name_new.string);
-	}
+	// alter rename
+	auto name = &cmd->name.string;
+	auto name_new = &cmd->name_new.string;
+	auto exists = storage_mgr_find(storage_mgr, name) != NULL;
+	storage_mgr_rename(storage_mgr, name, name_new, cmd->if_exists);
+	if (! exists)
+		return;
+	pipeline_rename(&engine->pipeline, name, name_new);
 
 	// rewrite config file
 	Exception e;
@@ -431,14 +422,8 @@ execute_storage_alter(Executable* self)
 	if (leave(&e))
 	{
 		// undo
-		if (cmd->config)
-		{
-			storage_mgr_alter(storage_mgr, prev, cmd->config_mask, false);
-		} else
-		{
-			storage_mgr_rename(storage_mgr, &cmd->name_new.string, name, false);
-			pipeline_rename(&engine->pipeline, &cmd->name_new.string, name);
-		}
+		storage_mgr_rename(storage_mgr, name_new, name, false);
+		pipeline_rename(&engine->pipeline, name_new, name);
 		rethrow();
 	}
 }
-- 
2.43.0


From 3b6af392eafe52d921f5a39dad67df0f683ec363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:04 +0000
Subject: [PATCH 56/56] fix: return the command if the text after it cannot be
 read

---
 monotone/main/command/parse.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/monotone/main/command/parse.c b/monotone/main/command/parse.c
index 964c54e..13108be 100644
--- a/monotone/main/command/parse.c
+++ b/monotone/main/command/parse.c
@@ -170,13 +170,13 @@ parse(Lex* self)
 		break;
 	}
 
+	if (cmd == NULL)
+		return NULL;
+
 	// eof
+	guard(cmd_free, cmd);
 	if (! lex_if(self, KEOF, NULL))
-	{
-		if (cmd)
-			cmd_free(cmd);
 		error("unexpected clause at the end of command");
-	}
 
-	return cmd;
+	return unguard();
 }
-- 
2.43.0

