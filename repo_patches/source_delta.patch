From d93484bce47ed4b9309cee45130627200b5ef0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:40 +0000
Subject: [PATCH 01/10] fix: sc_buf: bounds checks wrap around for huge
 positions and lengths

---
 buffer/sc_buf.c | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/buffer/sc_buf.c b/buffer/sc_buf.c
index f04acc2..d742d38 100644
--- a/buffer/sc_buf.c
+++ b/buffer/sc_buf.c
@@ -251,9 +251,14 @@ void sc_buf_move(struct sc_buf *dest, struct sc_buf *src)
 	src->rpos += copy;
 }
 
+static bool sc_buf_fits(uint64_t pos, uint64_t len, uint64_t end)
+{
+	return len <= end && pos <= end - len;
+}
+
 static uint16_t sc_buf_peek_8_pos(struct sc_buf *b, uint64_t pos, uint8_t *val)
 {
-	if (b->err != 0 || pos + sizeof(*val) > b->wpos) {
+	if (b->err != 0 || !sc_buf_fits(pos, sizeof(*val), b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		*val = 0;
 		return 0;
@@ -269,7 +274,7 @@ static uint16_t sc_buf_peek_16_pos(struct sc_buf *b, uint64_t pos,
 {
 	unsigned char *p;
 
-	if (b->err != 0 || pos + sizeof(*val) > b->wpos) {
+	if (b->err != 0 || !sc_buf_fits(pos, sizeof(*val), b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		*val = 0;
 		return 0;
@@ -287,7 +292,7 @@ static uint64_t sc_buf_peek_32_pos(struct sc_buf *b, uint64_t pos,
 {
 	unsigned char *p;
 
-	if (b->err != 0 || pos + sizeof(*val) > b->wpos) {
+	if (b->err != 0 || !sc_buf_fits(pos, sizeof(*val), b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		*val = 0;
 		return 0;
@@ -306,7 +311,7 @@ static uint64_t sc_buf_peek_64_pos(struct sc_buf *b, uint64_t pos,
 {
 	unsigned char *p;
 
-	if (b->err != 0 || pos + sizeof(*val) > b->wpos) {
+	if (b->err != 0 || !sc_buf_fits(pos, sizeof(*val), b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		*val = 0;
 		return 0;
@@ -325,7 +330,7 @@ static uint64_t sc_buf_peek_64_pos(struct sc_buf *b, uint64_t pos,
 static uint64_t sc_buf_set_8_pos(struct sc_buf *b, uint64_t pos,
 				 const uint8_t *val)
 {
-	if (b->err != 0 || (pos + sizeof(*val) > b->cap)) {
+	if (b->err != 0 || !sc_buf_fits(pos, sizeof(*val), b->cap)) {
 		b->err |= SC_BUF_CORRUPT;
 		return 0;
 	}
@@ -340,7 +345,7 @@ static uint64_t sc_buf_set_16_pos(struct sc_buf *b, uint64_t pos,
 {
 	unsigned char *p;
 
-	if (b->err != 0 || (pos + sizeof(*val) > b->cap)) {
+	if (b->err != 0 || !sc_buf_fits(pos, sizeof(*val), b->cap)) {
 		b->err |= SC_BUF_CORRUPT;
 		return 0;
 	}
@@ -358,7 +363,7 @@ static uint64_t sc_buf_set_32_pos(struct sc_buf *b, uint64_t pos,
 {
 	unsigned char *p;
 
-	if (b->err != 0 || (pos + sizeof(*val) > b->cap)) {
+	if (b->err != 0 || !sc_buf_fits(pos, sizeof(*val), b->cap)) {
 		b->err |= SC_BUF_CORRUPT;
 		return 0;
 	}
@@ -378,7 +383,7 @@ static uint64_t sc_buf_set_64_pos(struct sc_buf *b, uint64_t pos,
 {
 	unsigned char *p;
 
-	if (b->err != 0 || (pos + sizeof(*val) > b->cap)) {
+	if (b->err != 0 || !sc_buf_fits(pos, sizeof(*val), b->cap)) {
 		b->err |= SC_BUF_CORRUPT;
 		return 0;
 	}
@@ -452,7 +457,7 @@ uint64_t sc_buf_peek_64(struct sc_buf *b)
 uint64_t sc_buf_peek_data(struct sc_buf *b, uint64_t pos, unsigned char *dest,
 			  uint64_t len)
 {
-	if (b->err != 0 || (pos + len > b->wpos)) {
+	if (b->err != 0 || !sc_buf_fits(pos, len, b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		memset(dest, 0, len);
 		return 0;
@@ -506,7 +511,7 @@ void sc_buf_set_64(struct sc_buf *b, uint64_t val)
 uint64_t sc_buf_set_data(struct sc_buf *b, uint64_t offset, const void *src,
 			 uint64_t len)
 {
-	if (b->err != 0 || (offset + len > b->cap)) {
+	if (b->err != 0 || !sc_buf_fits(offset, len, b->cap)) {
 		b->err |= SC_BUF_CORRUPT;
 		return 0;
 	}
@@ -585,7 +590,7 @@ const char *sc_buf_get_str(struct sc_buf *b)
 		return NULL;
 	}
 
-	if (b->rpos + len + 1 > b->wpos) {
+	if (len >= b->wpos - b->rpos) {
 		b->err |= SC_BUF_CORRUPT;
 		return NULL;
 	}
@@ -604,7 +609,7 @@ void *sc_buf_get_blob(struct sc_buf *b, uint64_t len)
 		return NULL;
 	}
 
-	if (b->rpos + len > b->wpos) {
+	if (!sc_buf_fits(b->rpos, len, b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		return NULL;
 	}
@@ -617,7 +622,7 @@ void *sc_buf_get_blob(struct sc_buf *b, uint64_t len)
 
 void sc_buf_get_data(struct sc_buf *b, void *dest, uint64_t len)
 {
-	if (b->rpos + len > b->wpos) {
+	if (!sc_buf_fits(b->rpos, len, b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		memset(dest, 0, len);
 		return;
-- 
2.43.0


From 548cbff29e886e3289e2eacc80d7f1f0f9ed0e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:40 +0000
Subject: [PATCH 02/10] fix: sc_buf_reserve: requested size overflows and
 shrinks the block

---
 buffer/sc_buf.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/buffer/sc_buf.c b/buffer/sc_buf.c
index d742d38..50db865 100644
--- a/buffer/sc_buf.c
+++ b/buffer/sc_buf.c
@@ -101,13 +101,14 @@ bool sc_buf_reserve(struct sc_buf *b, uint64_t len)
 	uint64_t size;
 	void *m;
 
-	if (b->wpos + len > b->cap) {
-		if (b->ref) {
+	if (len > b->cap - b->wpos) {
+		if (b->ref || b->cap >= SC_BUF_MAX - 4096 ||
+		    len > SC_BUF_MAX - 4096 - b->cap) {
 			goto err;
 		}
 
 		size = ((b->cap + len + 4095) / 4096) * 4096;
-		if (size > b->limit || b->cap >= SC_BUF_MAX - 4096) {
+		if (size > b->limit) {
 			goto err;
 		}
 
-- 
2.43.0


From fe152ce5b81faa2a23ee71829c4de187551743f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:40 +0000
Subject: [PATCH 03/10] fix: sc_buf_shrink: never reallocate an external block
 or grow beyond the limit

---
 buffer/sc_buf.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/buffer/sc_buf.c b/buffer/sc_buf.c
index 50db865..f5dd3e5 100644
--- a/buffer/sc_buf.c
+++ b/buffer/sc_buf.c
@@ -134,11 +134,14 @@ bool sc_buf_shrink(struct sc_buf *b, uint64_t len)
 
 	sc_buf_compact(b);
 
-	if (len > b->cap || b->wpos >= len) {
+	if (b->ref || len > b->cap || b->wpos >= len) {
 		return true;
 	}
 
 	len = ((len + 4095) / 4096) * 4096;
+	if (len >= b->cap) {
+		return true;
+	}
 
 	tmp = sc_buf_realloc(b->mem, len);
 	if (tmp == NULL) {
-- 
2.43.0


From a1fb896661adebe2d41a7d78400f14e9926f6210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:40 +0000
Subject: [PATCH 04/10] fix: sc_buf_move: bytes are lost when the destination
 is invalid

---
 buffer/sc_buf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/buffer/sc_buf.c b/buffer/sc_buf.c
index f5dd3e5..d927cc2 100644
--- a/buffer/sc_buf.c
+++ b/buffer/sc_buf.c
@@ -249,10 +249,11 @@ void sc_buf_move(struct sc_buf *dest, struct sc_buf *src)
 	uint64_t quota = sc_buf_quota(dest);
 	uint64_t size = sc_buf_size(src);
 	uint64_t copy = quota < size ? quota : size;
+	uint64_t wpos = dest->wpos;
 	void *from = &src->mem[src->rpos];
 
 	sc_buf_put_raw(dest, from, copy);
-	src->rpos += copy;
+	src->rpos += dest->wpos - wpos;
 }
 
 static bool sc_buf_fits(uint64_t pos, uint64_t len, uint64_t end)
-- 
2.43.0


From f765f4515eeee28d93b8947fe2d111877498313a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:40 +0000
Subject: [PATCH 05/10] fix: sc_buf_put_fmt: exact fit fails, invalid buffer
 still advances

---
 buffer/sc_buf.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/buffer/sc_buf.c b/buffer/sc_buf.c
index d927cc2..49fedf4 100644
--- a/buffer/sc_buf.c
+++ b/buffer/sc_buf.c
@@ -736,6 +736,11 @@ void sc_buf_put_fmt(struct sc_buf *b, const char *fmt, ...)
 	void *mem = (char *) sc_buf_wbuf(b) + sc_buf_64_len(0);
 	va_list args;
 
+	if (b->err != 0) {
+		b->err |= SC_BUF_CORRUPT;
+		return;
+	}
+
 	if (quota > len_bytes) {
 		quota -= len_bytes;
 	} else {
@@ -754,7 +759,7 @@ void sc_buf_put_fmt(struct sc_buf *b, const char *fmt, ...)
 	wr = (uint64_t) rc;
 
 	if (wr >= quota) {
-		if (!sc_buf_reserve(b, wr + len_bytes)) {
+		if (!sc_buf_reserve(b, wr + len_bytes + 1)) {
 			return;
 		}
 
-- 
2.43.0


From 718eab13a06d7ce690488ca330875d0ffb5cac3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:40 +0000
Subject: [PATCH 06/10] fix: sc_buf_put_text: failure corrupts cursors and
 drops earlier error flags

---
 buffer/sc_buf.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/buffer/sc_buf.c b/buffer/sc_buf.c
index 49fedf4..645f411 100644
--- a/buffer/sc_buf.c
+++ b/buffer/sc_buf.c
@@ -816,16 +816,18 @@ void sc_buf_put_text(struct sc_buf *b, const char *fmt, ...)
 		va_end(va);
 
 		if (rc < 0 || (uint64_t) rc >= quota) {
-			b->err = SC_BUF_OOM;
+			b->err |= SC_BUF_OOM;
 			goto clean_up;
 		}
 	}
 
-	sc_buf_mark_write(b, rc - off + 1);
+	sc_buf_mark_write(b, (uint64_t) rc - off + 1);
 	return;
 
 clean_up:
-	sc_buf_set_wpos(b, 0);
+	if (off) {
+		b->mem[b->wpos - 1] = '\0';
+	}
 }
 
 void sc_buf_put_blob(struct sc_buf *b, const void *ptr, uint64_t len)
-- 
2.43.0


From c13d9ab1667f24a62743b5851f818a0e6cebdcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:22 +0000
Subject: [PATCH 07/10] fix: sc_map: reject capacities that cannot be rounded
 up to a power of two

---
 map/sc_map.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/map/sc_map.c b/map/sc_map.c
index c81b124..5378225 100644
--- a/map/sc_map.c
+++ b/map/sc_map.c
@@ -107,6 +107,10 @@
 		}                                                              \
 		v++;                                                           \
                                                                                \
+		if (v == 0) {                                                  \
+			return NULL;                                           \
+		}                                                              \
+                                                                               \
 		*cap = v;                                                      \
 		t = sc_map_calloc(v + 1, sizeof(*t));                          \
 		return t ? &t[1] : NULL;                                       \
-- 
2.43.0


From 88823e9e0d64486c57d0bde8fb1311a2c629611c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:00 +0000
Subject: [PATCH 08/10] fix: sc_heap_add: failed growth still counted the
 element

---
 heap/sc_heap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/heap/sc_heap.c b/heap/sc_heap.c
index 984223d..35ad136 100644
--- a/heap/sc_heap.c
+++ b/heap/sc_heap.c
@@ -82,7 +82,7 @@ bool sc_heap_add(struct sc_heap *h, int64_t key, void *data)
 	size_t i, cap, m;
 	void *exp;
 
-	if (++h->size >= h->cap) {
+	if (h->size + 1 >= h->cap) {
 		cap = h->cap != 0 ? h->cap * 2 : 4;
 		m = cap * 2 * sizeof(*h->elems);
 
@@ -95,7 +95,7 @@ bool sc_heap_add(struct sc_heap *h, int64_t key, void *data)
 		h->cap = cap;
 	}
 
-	i = h->size;
+	i = ++h->size;
 	while (i != 1 && key < h->elems[i / 2].key) {
 		h->elems[i] = h->elems[i / 2];
 		i /= 2;
-- 
2.43.0


From 24b58ea905fcde5e4984d421e196145570fe42f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:25 +0000
Subject: [PATCH 09/10] fix: sc_array_del: index expression may use a variable
 named idx

---
 array/sc_array.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/array/sc_array.h b/array/sc_array.h
index cefca91..959445f 100644
--- a/array/sc_array.h
+++ b/array/sc_array.h
@@ -148,12 +148,12 @@
  */
 #define sc_array_del(a, i)                                                     \
 	do {                                                                   \
-                size_t idx = (i);                                              \
-		assert(idx < (a)->size);                                       \
+                size_t _idx = (i);                                             \
+		assert(_idx < (a)->size);                                      \
                                                                                \
-		const size_t _cnt = (a)->size - (idx) - 1;                     \
+		const size_t _cnt = (a)->size - (_idx) - 1;                    \
 		if (_cnt > 0) {                                                \
-			memmove(&((a)->elems[idx]), &((a)->elems[idx + 1]),    \
+			memmove(&((a)->elems[_idx]), &((a)->elems[_idx + 1]),  \
 				_cnt * sizeof(*((a)->elems)));                 \
 		}                                                              \
 		(a)->size--;                                                   \
@@ -171,9 +171,9 @@
  */
 #define sc_array_del_unordered(a, i)                                           \
 	do {                                                                   \
-                size_t idx = (i);                                              \
-		assert(idx < (a)->size);                                       \
-		(a)->elems[idx] = (a)->elems[(--(a)->size)];                   \
+                size_t _idx = (i);                                             \
+		assert(_idx < (a)->size);                                      \
+		(a)->elems[_idx] = (a)->elems[(--(a)->size)];                  \
 	} while (0)
 
 /**
-- 
2.43.0


From 847f23309bc5b43bc5aa87212f0fa3aba9ecd513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:25 +0000
Subject: [PATCH 10/10] fix: sc_queue: a failed growth made every later
 addition fail

---
 queue/sc_queue.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/queue/sc_queue.h b/queue/sc_queue.h
index fa50512..0174056 100644
--- a/queue/sc_queue.h
+++ b/queue/sc_queue.h
@@ -68,6 +68,7 @@
 		size_t _pos = ((q)->last + 1) & ((q)->cap - 1);                \
 		void *_dst, *_src;                                             \
                                                                                \
+		(q)->oom = (q)->elems == NULL;                                 \
 		if (_pos == (q)->first) {                                      \
 			if ((q)->cap > SC_QUEUE_MAX / 2ul) {                   \
 				(q)->oom = true;                               \
-- 
2.43.0

