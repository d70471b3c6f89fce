From 7bd5d03b1a8021ccf8c9455a92efc9f7bf62bf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:28 +0000
Subject: [PATCH 1/7] fix: list_insert_sorted() dereferences NULL when
 inserting behind the first item

---
 list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/list.c b/list.c
index b38535e..287d59f 100644
--- a/list.c
+++ b/list.c
@@ -215,7 +215,7 @@ _list_prepend_new_sorted(List *list, void *data)
 		}
 		else
 		{
-			ptr = &(*ptr)->prev->next;
+			ptr = &(*ptr)->next;
 		}
 	}
 
-- 
2.43.0


From 1b06deb472920e4501d28ac4e85d027b440fd4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:28 +0000
Subject: [PATCH 2/7] fix: rbtree_iter_init() leaves the stack of an iterator
 uninitialized if the tree is empty

---
 rbtree.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rbtree.c b/rbtree.c
index 6fbaa6c..f28800b 100644
--- a/rbtree.c
+++ b/rbtree.c
@@ -873,6 +873,7 @@ rbtree_iter_init(const RBTree *tree, RBTreeIter *iter)
 	assert(iter != NULL);
 
 	iter->tree = tree;
+	iter->stack = NULL;
 	iter->stack_size = tree->count + 1;
 	iter->sp = NULL;
 	iter->finished = false;
-- 
2.43.0


From c59c9b5a4d584611b830d0c776922f3c31fc9ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:28 +0000
Subject: [PATCH 3/7] fix: buffer_fill_from_fd() overflows the stack if count
 is large

---
 buffer.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/buffer.c b/buffer.c
index 8c218b5..89783ee 100644
--- a/buffer.c
+++ b/buffer.c
@@ -195,7 +195,13 @@ buffer_fill_from_fd(Buffer *buf, int fd, size_t count)
 	RETURN_VAL_IF_INVALID(buf, 0);
 
 	ssize_t bytes;
-	char data[count];
+	char *data = (char *)malloc(count ? count : 1);
+
+	if(!data)
+	{
+		perror("malloc()");
+		abort();
+	}
 
 	if((bytes = read(fd, data, count)) > 0)
 	{
@@ -209,6 +215,8 @@ buffer_fill_from_fd(Buffer *buf, int fd, size_t count)
 		perror("read()");
 	}
 
+	free(data);
+
 	return bytes;
 }
 
-- 
2.43.0


From 22da5f35c452b4e36d8bb08e8b0a0486d910c9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:28 +0000
Subject: [PATCH 4/7] fix: list_remove_by_data() compares with released data if
 it is stored in the list

---
 list.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/list.c b/list.c
index 287d59f..d85c2e5 100644
--- a/list.c
+++ b/list.c
@@ -302,6 +302,7 @@ list_remove_by_data(List *list, void *data, bool remove_all)
 
 	ListItem *iter = list->head;
 	bool completed = false;
+	bool stored = false;
 
 	while(iter && !completed)
 	{
@@ -311,11 +312,23 @@ list_remove_by_data(List *list, void *data, bool remove_all)
 		{
 			completed = !remove_all;
 
+			if(iter->data == data)
+			{
+				/* still required for comparison */
+				iter->data = NULL;
+				stored = true;
+			}
+
 			list_remove(list, iter);
 		}
 
 		iter = next;
 	}
+
+	if(stored && data && list->free)
+	{
+		list->free(data);
+	}
 }
 
 void *
-- 
2.43.0


From fa2bd99654d5522758cbad248ab2541be5e88e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:28 +0000
Subject: [PATCH 5/7] fix: slist_remove_by_data() compares with released data
 if it is stored in the list

---
 slist.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/slist.c b/slist.c
index 76f323e..0a8b3ff 100644
--- a/slist.c
+++ b/slist.c
@@ -294,6 +294,7 @@ slist_remove_by_data(SList *list, void *data, bool remove_all)
 	SListItem **ptr = &list->head;
 	SListItem *tail = NULL;
 	bool completed = false;
+	bool stored = false;
 
 	while(*ptr && !completed)
 	{
@@ -308,6 +309,13 @@ slist_remove_by_data(SList *list, void *data, bool remove_all)
 				list->tail = tail;
 			}
 
+			if((*ptr)->data == data)
+			{
+				/* still required for comparison */
+				(*ptr)->data = NULL;
+				stored = true;
+			}
+
 			_slist_item_free(list, *ptr);
 			*ptr = next;
 
@@ -319,6 +327,11 @@ slist_remove_by_data(SList *list, void *data, bool remove_all)
 			ptr = &(*ptr)->next;
 		}
 	}
+
+	if(stored && data && list->free)
+	{
+		list->free(data);
+	}
 }
 
 void *
-- 
2.43.0


From 9436bee28c5063dc5214be6b7c33fe80c3d148ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:28 +0000
Subject: [PATCH 6/7] fix: async_queue_pop_timeout() waits for another time
 than requested

---
 asyncqueue.c | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/asyncqueue.c b/asyncqueue.c
index 05a517f..4c9e61a 100644
--- a/asyncqueue.c
+++ b/asyncqueue.c
@@ -132,7 +132,7 @@ _async_queue_try_lock(AsyncQueue *queue)
 }
 
 static bool
-_async_queue_cond_wait(AsyncQueue *queue, uint32_t ms)
+_async_queue_cond_wait(AsyncQueue *queue, const struct timespec *deadline)
 {
 	assert(queue != NULL);
 
@@ -142,17 +142,9 @@ _async_queue_cond_wait(AsyncQueue *queue, uint32_t ms)
 	{
 		++queue->waiting;
 
-		if(ms)
+		if(deadline)
 		{
-			struct timespec val;
-			struct timeval now;
-
-			gettimeofday(&now, NULL);
-
-			val.tv_sec = now.tv_sec + (ms / 1000);
-			val.tv_nsec = 0;
-
-			success = !pthread_cond_timedwait(&queue->cond, &queue->mutex, &val);
+			success = !pthread_cond_timedwait(&queue->cond, &queue->mutex, deadline);
 		}
 		else
 		{
@@ -170,7 +162,7 @@ _async_queue_cond_wait(AsyncQueue *queue, uint32_t ms)
 }
 
 static bool
-_async_queue_pop(AsyncQueue *queue, void *data, uint32_t ms)
+_async_queue_pop(AsyncQueue *queue, void *data, const struct timespec *deadline)
 {
 	assert(queue != NULL);
 
@@ -179,7 +171,7 @@ _async_queue_pop(AsyncQueue *queue, void *data, uint32_t ms)
 	if(_async_queue_try_lock(queue))
 	{
 		success = queue_pop(&queue->queue, data)
-			|| (_async_queue_cond_wait(queue, ms) && queue_pop(&queue->queue, data));
+			|| (_async_queue_cond_wait(queue, deadline) && queue_pop(&queue->queue, data));
 
 		PTHREAD_CRITICAL_CALL(pthread_mutex_unlock, &queue->mutex);
 	}
@@ -192,13 +184,29 @@ async_queue_pop(AsyncQueue *queue, void *data)
 {
 	assert(queue != NULL);
 
-	return _async_queue_pop(queue, data, 0);
+	return _async_queue_pop(queue, data, NULL);
 }
 
 bool
 async_queue_pop_timeout(AsyncQueue *queue, void *data, uint32_t ms)
 {
-	return _async_queue_pop(queue, data, ms);
+	assert(queue != NULL);
+
+	struct timeval now;
+	struct timespec deadline;
+
+	gettimeofday(&now, NULL);
+
+	deadline.tv_sec = now.tv_sec + ms / 1000;
+	deadline.tv_nsec = now.tv_usec * 1000L + (ms % 1000) * 1000000L;
+
+	if(deadline.tv_nsec >= 1000000000L)
+	{
+		++deadline.tv_sec;
+		deadline.tv_nsec -= 1000000000L;
+	}
+
+	return _async_queue_pop(queue, data, &deadline);
 }
 
 void
-- 
2.43.0


From a7d0d107a13495b802b544a66d68671c8c12c042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:28 +0000
Subject: [PATCH 7/7] fix: async_queue_pop() returns without an element after a
 spurious or stolen wakeup

---
 asyncqueue.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/asyncqueue.c b/asyncqueue.c
index 4c9e61a..6067f1c 100644
--- a/asyncqueue.c
+++ b/asyncqueue.c
@@ -170,8 +170,13 @@ _async_queue_pop(AsyncQueue *queue, void *data, const struct timespec *deadline)
 
 	if(_async_queue_try_lock(queue))
 	{
-		success = queue_pop(&queue->queue, data)
-			|| (_async_queue_cond_wait(queue, deadline) && queue_pop(&queue->queue, data));
+		bool wait = true;
+
+		/* wakeups may be spurious or another consumer may be faster */
+		while(!(success = queue_pop(&queue->queue, data)) && wait)
+		{
+			wait = _async_queue_cond_wait(queue, deadline);
+		}
 
 		PTHREAD_CRITICAL_CALL(pthread_mutex_unlock, &queue->mutex);
 	}
-- 
2.43.0

