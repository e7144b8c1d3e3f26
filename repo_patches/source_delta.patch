From e409ce1c6ecd46ee24c3c30d3a874c0a19a8d7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:33 +0000
Subject: [PATCH 1/5] fix: allocator carved its last block past the end of the
 segment

The segment header was skipped in the data pointer but not subtracted from
the size left to carve, so with a block size dividing the rest exactly the
last block overflowed the heap allocation by up to a header.
---
 tommyds/tommyalloc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tommyds/tommyalloc.c b/tommyds/tommyalloc.c
index 0da604c..bae7348 100644
--- a/tommyds/tommyalloc.c
+++ b/tommyds/tommyalloc.c
@@ -103,6 +103,7 @@ void* tommy_allocator_alloc(tommy_allocator* alloc)
 		segment->next = alloc->used_segment;
 		alloc->used_segment = segment;
 		data += sizeof(tommy_allocator_entry);
+		size -= sizeof(tommy_allocator_entry);
 
 		/* align if not aligned */
 		off = (tommy_uintptr_t)data;
-- 
2.43.0


From 380fb9eb8a513410f8a13dbf452226e7fa2b7994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:33 +0000
Subject: [PATCH 2/5] fix: tree leaves had height 0 instead of 1 until the
 first rebalance

A fresh leaf was seen as an empty subtree by its ancestors, so the tree was
left unbalanced by up to two levels, exceeding the AVL depth bound.
---
 tommyds/tommytree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tommyds/tommytree.c b/tommyds/tommytree.c
index 8ef8478..f9202c4 100644
--- a/tommyds/tommytree.c
+++ b/tommyds/tommytree.c
@@ -145,7 +145,7 @@ void* tommy_tree_insert(tommy_tree* tree, tommy_tree_node* node, void* data)
 	insert->data = data;
 	insert->prev = 0;
 	insert->next = 0;
-	insert->index = 0;
+	insert->index = 1;
 
 	tree->root = tommy_tree_insert_node(tree->cmp, tree->root, &insert);
 
-- 
2.43.0


From e13fa5590be16381afb7b857887f5b39ec63ec6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:52 +0000
Subject: [PATCH 3/5] fix: hashlin resumed growth too late after a partial
 shrink

When inserting while shrinking, growth resumed only when the count exceeded
half of the full size, ignoring that most of it could be already shrunk.
The single insertion crossing it had then to split all the missing buckets
at once, and before that the table was up to almost four times overloaded.
---
 tommyds/tommyhashlin.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tommyds/tommyhashlin.c b/tommyds/tommyhashlin.c
index fe138f7..7704a09 100644
--- a/tommyds/tommyhashlin.c
+++ b/tommyds/tommyhashlin.c
@@ -88,9 +88,10 @@ void tommy_hashlin_done(tommy_hashlin* hashlin)
  */
 tommy_inline void hashlin_grow_step(tommy_hashlin* hashlin)
 {
-	/* grow if more than 50% full */
+	/* grow if more than 50% full, counting only the buckets in use */
+	/* as when shrinking the ones not yet concatenated may be few */
 	if (hashlin->state != TOMMY_HASHLIN_STATE_GROW
-		&& hashlin->count > hashlin->bucket_max / 2
+		&& hashlin->count > (hashlin->low_max + hashlin->split) / 2
 	) {
 		/* if we are stable, setup a new grow state */
 		/* otherwise continue with the already setup shrink one */
-- 
2.43.0


From 846adf48f9075300075045f7683564a39499d010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:27 +0000
Subject: [PATCH 4/5] fix: strhash read up to 3 bytes after the string
 terminator

Hashing a string ending at the end of accessible memory could crash. The
hash values are unchanged.
---
 tommyds/tommyhash.c | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/tommyds/tommyhash.c b/tommyds/tommyhash.c
index 71c4ef3..f97237c 100644
--- a/tommyds/tommyhash.c
+++ b/tommyds/tommyhash.c
@@ -165,6 +165,26 @@ tommy_uint64_t tommy_hash_u64(tommy_uint64_t init_val, const void* void_key, tom
 	return c + ((tommy_uint64_t)b << 32);
 }
 
+/**
+ * Read a little-endian integer from a 0 terminated string.
+ * Never reads after the terminator. The missing bytes are set to 0.
+ */
+tommy_inline tommy_uint32_t tommy_le_uint32_strread(const unsigned char* ptr8)
+{
+	tommy_uint32_t v = ptr8[0];
+
+	if (ptr8[0]) {
+		v |= (tommy_uint32_t)ptr8[1] << 8;
+		if (ptr8[1]) {
+			v |= (tommy_uint32_t)ptr8[2] << 16;
+			if (ptr8[2])
+				v |= (tommy_uint32_t)ptr8[3] << 24;
+		}
+	}
+
+	return v;
+}
+
 tommy_uint32_t tommy_strhash_u32(tommy_uint64_t init_val, const void* void_key)
 {
 	const unsigned char* key = tommy_cast(const unsigned char*, void_key);
@@ -175,7 +195,7 @@ tommy_uint32_t tommy_strhash_u32(tommy_uint64_t init_val, const void* void_key)
 	/* this is different than original lookup3 and the result won't match */
 
 	while (1) {
-		tommy_uint32_t v = tommy_le_uint32_read(key);
+		tommy_uint32_t v = tommy_le_uint32_strread(key);
 
 		if (tommy_haszero_u32(v)) {
 			if (v & m[0]) {
@@ -192,7 +212,7 @@ tommy_uint32_t tommy_strhash_u32(tommy_uint64_t init_val, const void* void_key)
 
 		a += v;
 
-		v = tommy_le_uint32_read(key + 4);
+		v = tommy_le_uint32_strread(key + 4);
 
 		if (tommy_haszero_u32(v)) {
 			if (v & m[0]) {
@@ -209,7 +229,7 @@ tommy_uint32_t tommy_strhash_u32(tommy_uint64_t init_val, const void* void_key)
 
 		b += v;
 
-		v = tommy_le_uint32_read(key + 8);
+		v = tommy_le_uint32_strread(key + 8);
 
 		if (tommy_haszero_u32(v)) {
 			if (v & m[0]) {
-- 
2.43.0


From effbfad586274c7783c6a79798e38d72fad4519f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:31 +0000
Subject: [PATCH 5/5] fix: 64 bits MSVC builds used a type that does not exist

---
 tommyds/tommytypes.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tommyds/tommytypes.h b/tommyds/tommytypes.h
index 8dc206b..eef0ec5 100644
--- a/tommyds/tommytypes.h
+++ b/tommyds/tommytypes.h
@@ -42,8 +42,8 @@ typedef unsigned _int64 tommy_uint64_t; /**< Generic uint64_t type. */
 typedef size_t tommy_uintptr_t; /**< Generic uintptr_t type. */
 #ifdef _WIN64
 #define TOMMY_SIZE_BIT 64
-typedef unsigned _int64_t tommy_size_t; /**< Generic size_t type. */
-typedef _int64_t tommy_ssize_t; /**< Generic ssize_t type. */
+typedef unsigned _int64 tommy_size_t; /**< Generic size_t type. */
+typedef _int64 tommy_ssize_t; /**< Generic ssize_t type. */
 #else
 #define TOMMY_SIZE_BIT 32
 typedef unsigned tommy_size_t; /**< Generic size_t type. */
-- 
2.43.0

