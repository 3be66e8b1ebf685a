From 15a0eaa8f36ed2a0da96095785b1445b3b1d3531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:16 +0000
Subject: [PATCH 001/136] fix: huge shift amounts wrapped around and moved
 memory out of bounds

---
 harbol_common_includes.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index ca3199c..a07709a 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -599,7 +599,7 @@ static inline bool array_shift_up(void *const restrict buf, size_t *const restri
 		j = index
 	;
 	uint8_t *const restrict b = buf;
-	if( i < *len ) {
+	if( amount < *len - index ) {
 		*len -= amount;
 		memmove(&b[j * datasize], &b[i * datasize], (*len - j) * datasize);
 		memset(&b[*len * datasize], 0, amount * datasize);
@@ -627,7 +627,7 @@ static inline bool multi_array_shift_up(size_t *const restrict len, size_t const
 		j = index
 	;
 	
-	if( i < *len ) {
+	if( amount < *len - index ) {
 		*len -= amount;
 		size_t const cur_len = *len;
 		for( size_t n=0; n < n_buffers; n++ ) {
-- 
2.43.0


From 5fcc8829356019b3d2f1ae656af74f44f552a472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:16 +0000
Subject: [PATCH 002/136] fix: resizing an array below its length left the
 length past the capacity

---
 array/array.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/array/array.c b/array/array.c
index e36bf8e..05b04e6 100644
--- a/array/array.c
+++ b/array/array.c
@@ -17,6 +17,9 @@ static NO_NULL bool harbol_array_resizer(struct HarbolArray *const restrict vec,
 	}
 	vec->table = new_table;
 	vec->cap   = new_size;
+	if( vec->len > new_size ) {
+		vec->len = new_size;
+	}
 	return true;
 }
 
-- 
2.43.0


From 272bcb6360c74351e96dff7f22c773a6de4c4421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:16 +0000
Subject: [PATCH 003/136] fix: array add refused elements that exactly fit

---
 array/array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/array/array.c b/array/array.c
index 05b04e6..3d37e5f 100644
--- a/array/array.c
+++ b/array/array.c
@@ -124,7 +124,7 @@ HARBOL_EXPORT bool harbol_array_full(struct HarbolArray const *const vec) {
 
 /// array to array ops.
 HARBOL_EXPORT bool harbol_array_add(struct HarbolArray *const vecA, struct HarbolArray const *const vecB, size_t const datasize) {
-	if( vecA->table==NULL || vecB->table==NULL || (vecA->len + vecB->len) >= vecA->cap ) {
+	if( vecA->table==NULL || vecB->table==NULL || (vecA->len + vecB->len) > vecA->cap ) {
 		return false;
 	}
 	memcpy(&vecA->table[vecA->len * datasize], vecB->table, vecB->len * datasize);
-- 
2.43.0


From 39d454c7e33931417bc2bbe8851c99ef560cc8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:16 +0000
Subject: [PATCH 004/136] fix: deleting from an empty array could underflow its
 length

---
 array/array.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/array/array.c b/array/array.c
index 3d37e5f..d5048a9 100644
--- a/array/array.c
+++ b/array/array.c
@@ -271,7 +271,7 @@ HARBOL_EXPORT size_t harbol_array_index_of(struct HarbolArray const *const vec,
 
 /// deletion funcs.
 HARBOL_EXPORT bool harbol_array_del_by_index(struct HarbolArray *const vec, size_t const index, size_t const datasize) {
-	if( vec->table==NULL ) {
+	if( vec->table==NULL || vec->len==0 ) {
 		return false;
 	} else if( index==vec->len-1 ) {
 		memset(&vec->table[--vec->len * datasize], 0, datasize);
@@ -280,7 +280,7 @@ HARBOL_EXPORT bool harbol_array_del_by_index(struct HarbolArray *const vec, size
 	return harbol_array_shift_up(vec, index, datasize, 1);
 }
 HARBOL_EXPORT bool harbol_array_del_by_range(struct HarbolArray *const vec, size_t const index, size_t const datasize, size_t const range) {
-	if( vec->table==NULL ) {
+	if( vec->table==NULL || vec->len==0 ) {
 		return false;
 	} else if( index==0 && (index + range >= vec->len) ) {
 		harbol_array_wipe(vec, datasize);
-- 
2.43.0


From afc061ca0c495d351d38085b11d9c5340b0c6d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:17 +0000
Subject: [PATCH 005/136] fix: map lookup skipped bucket 0 when probing from
 the last bucket

---
 map/map.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/map/map.c b/map/map.c
index 905fcad..4e34561 100644
--- a/map/map.c
+++ b/map/map.c
@@ -74,12 +74,7 @@ HARBOL_EXPORT size_t harbol_map_get_entry_index(struct HarbolMap const *const ma
 		return val_idx;
 	}
 	
-	for( size_t i = bkt_idx+1; i != bkt_idx; (i = (i+1 >= mask)? ((i+1) & mask) : i+1) ) {
-		/// sometimes the `bkt_idx` is at the mask index. Account for that.
-		if( i > mask ) {
-			continue;
-		}
-		
+	for( size_t i = (bkt_idx+1) & mask; i != bkt_idx; i = (i+1) & mask ) {
 		size_t const idx = map->buckets[i];
 		if( idx==SIZE_MAX ) {
 			continue;
-- 
2.43.0


From aa3223087a610fb1804ced110360d511a2c1918a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:17 +0000
Subject: [PATCH 006/136] fix: setting a map value kept the old value's length

---
 map/map.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/map/map.c b/map/map.c
index 4e34561..7555806 100644
--- a/map/map.c
+++ b/map/map.c
@@ -213,7 +213,8 @@ HARBOL_EXPORT bool harbol_map_idx_set(struct HarbolMap *const restrict map, size
 		return false;
 	}
 	free(map->datum[index]);
-	map->datum[index] = data;
+	map->datum[index]    = data;
+	map->datalens[index] = datasize;
 	return true;
 }
 
-- 
2.43.0


From 42a1252e135b9d88dc225f6919c4a467e1a2437c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:17 +0000
Subject: [PATCH 007/136] fix: map rehash failed on an empty map and dropped
 entries when shrinking below the length

---
 map/map.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/map/map.c b/map/map.c
index 7555806..8ac1344 100644
--- a/map/map.c
+++ b/map/map.c
@@ -107,7 +107,7 @@ static bool _harbol_map_insert_entry(struct HarbolMap *const map, size_t const n
 }
 
 HARBOL_EXPORT bool harbol_map_rehash(struct HarbolMap *const map, size_t const new_size) {
-	if( !harbol_multi_recalloc(new_size, map->cap, 6,
+	if( new_size < map->len || !harbol_multi_recalloc(new_size, map->cap, 6,
 						&map->keys,     sizeof *map->keys,
 						&map->keylens,  sizeof *map->keylens,
 						&map->datum,    sizeof *map->datum,
@@ -122,9 +122,9 @@ HARBOL_EXPORT bool harbol_map_rehash(struct HarbolMap *const map, size_t const n
 		map->buckets[i] = SIZE_MAX;
 	}
 	
-	bool res = false;
+	bool res = true;
 	for( size_t i=0; i < map->len; i++ ) {
-		res |= _harbol_map_insert_entry(map, i);
+		res &= _harbol_map_insert_entry(map, i);
 	}
 	return res;
 }
-- 
2.43.0


From 5b222f2844ee270f5641939c71bc8c5773443efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:17 +0000
Subject: [PATCH 008/136] fix: removing a map entry emptied another entry's
 bucket and left stale entry indexes

---
 map/map.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/map/map.c b/map/map.c
index 8ac1344..ca63ea7 100644
--- a/map/map.c
+++ b/map/map.c
@@ -228,23 +228,24 @@ HARBOL_EXPORT bool harbol_map_idx_rm(struct HarbolMap *const map, size_t const n
 		return false;
 	}
 	
-	size_t const mask    = map->cap - 1;
-	size_t const bkt_idx = map->hashes[n] & mask;
-	size_t const val_idx = map->buckets[bkt_idx];
-	if( val_idx==SIZE_MAX ) {
-		return false;
-	}
-	
 	free(map->keys[n]);  map->keys[n]  = NULL;
 	free(map->datum[n]); map->datum[n] = NULL;
 	map->hashes[n] = map->keylens[n] = map->datalens[n] = 0;
-	map->buckets[bkt_idx] = SIZE_MAX;
 	
-	return multi_array_shift_up(&map->len, n, 1, 5,
+	bool const res = multi_array_shift_up(&map->len, n, 1, 5,
 			map->keys,     sizeof *map->keys,
 			map->datum,    sizeof *map->datum,
 			map->hashes,   sizeof *map->hashes,
 			map->keylens,  sizeof *map->keylens,
 			map->datalens, sizeof *map->datalens
 	);
+	
+	/// the entries after the removed one have moved, remake the buckets.
+	for( size_t i=0; i < map->cap; i++ ) {
+		map->buckets[i] = SIZE_MAX;
+	}
+	for( size_t i=0; i < map->len; i++ ) {
+		_harbol_map_insert_entry(map, i);
+	}
+	return res;
 }
\ No newline at end of file
-- 
2.43.0


From 8770b25f51a79d9320cc2e0b7aa6f6896c7ffe52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:38 +0000
Subject: [PATCH 009/136] fix: rehashing a map to exactly its number of entries
 lost all of them

---
 map/map.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/map/map.c b/map/map.c
index ca63ea7..be972a9 100644
--- a/map/map.c
+++ b/map/map.c
@@ -90,7 +90,7 @@ HARBOL_EXPORT bool harbol_map_has_key(struct HarbolMap const *const map, void co
 }
 
 static bool _harbol_map_insert_entry(struct HarbolMap *const map, size_t const n) {
-	if( map->len >= map->cap ) {
+	if( n >= map->cap ) {
 		return false;
 	}
 	
-- 
2.43.0


From fa086d4f16f49d2ce975998e06c6c6034561aadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:03 +0000
Subject: [PATCH 010/136] fix: map sizes that are not powers of 2 made lookups
 miss entries, hang or crash

---
 map/map.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/map/map.c b/map/map.c
index be972a9..606abf0 100644
--- a/map/map.c
+++ b/map/map.c
@@ -20,8 +20,14 @@ HARBOL_EXPORT struct HarbolMap harbol_map_make(size_t const init_size, bool *con
 	return map;
 }
 
+/// the hashes are masked into bucket indexes so the capacity must be a power of 2.
+static size_t _harbol_map_capacity(size_t const size) {
+	return( size > 0 && (size & (size - 1))==0 )? size : next_pow_of_2(size);
+}
+
 HARBOL_EXPORT bool harbol_map_init(struct HarbolMap *const map, size_t const init_size) {
-	if( !harbol_multi_calloc(init_size, 6,
+	size_t const cap = _harbol_map_capacity(init_size);
+	if( cap < init_size || !harbol_multi_calloc(cap, 6,
 						&map->keys,     sizeof *map->keys,
 						&map->keylens,  sizeof *map->keylens,
 						&map->datum,    sizeof *map->datum,
@@ -32,7 +38,7 @@ HARBOL_EXPORT bool harbol_map_init(struct HarbolMap *const map, size_t const ini
 		return false;
 	}
 	
-	map->cap = init_size;
+	map->cap = cap;
 	map->len = 0;
 	
 	for( size_t i=0; i < map->cap; i++ ) {
@@ -107,7 +113,8 @@ static bool _harbol_map_insert_entry(struct HarbolMap *const map, size_t const n
 }
 
 HARBOL_EXPORT bool harbol_map_rehash(struct HarbolMap *const map, size_t const new_size) {
-	if( new_size < map->len || !harbol_multi_recalloc(new_size, map->cap, 6,
+	size_t const new_cap = _harbol_map_capacity(new_size);
+	if( new_size < map->len || new_cap < new_size || !harbol_multi_recalloc(new_cap, map->cap, 6,
 						&map->keys,     sizeof *map->keys,
 						&map->keylens,  sizeof *map->keylens,
 						&map->datum,    sizeof *map->datum,
@@ -117,7 +124,7 @@ HARBOL_EXPORT bool harbol_map_rehash(struct HarbolMap *const map, size_t const n
 		return false;
 	}
 	
-	map->cap = new_size;
+	map->cap = new_cap;
 	for( size_t i=0; i < map->cap; i++ ) {
 		map->buckets[i] = SIZE_MAX;
 	}
-- 
2.43.0


From dc42cdace66bb7983a582ec131b38a6c487807f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:03 +0000
Subject: [PATCH 011/136] fix: zero-length map keys and values were read past
 their end

---
 map/map.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/map/map.c b/map/map.c
index 606abf0..ab3e907 100644
--- a/map/map.c
+++ b/map/map.c
@@ -76,7 +76,7 @@ HARBOL_EXPORT size_t harbol_map_get_entry_index(struct HarbolMap const *const ma
 	size_t const val_idx = map->buckets[bkt_idx];
 	if( val_idx==SIZE_MAX ) {
 		return SIZE_MAX;
-	} else if( map->keys[val_idx][0]==desired_key[0] && map->keylens[val_idx]==keylen && !memcmp(map->keys[val_idx], desired_key, keylen) ) {
+	} else if( map->keylens[val_idx]==keylen && !memcmp(map->keys[val_idx], desired_key, keylen) ) {
 		return val_idx;
 	}
 	
@@ -84,7 +84,7 @@ HARBOL_EXPORT size_t harbol_map_get_entry_index(struct HarbolMap const *const ma
 		size_t const idx = map->buckets[i];
 		if( idx==SIZE_MAX ) {
 			continue;
-		} else if( map->keys[idx][0]==desired_key[0] && map->keylens[idx]==keylen && !memcmp(desired_key, map->keys[idx], keylen) ) {
+		} else if( map->keylens[idx]==keylen && !memcmp(desired_key, map->keys[idx], keylen) ) {
 			return idx;
 		}
 	}
@@ -183,8 +183,7 @@ HARBOL_EXPORT size_t harbol_map_idx_val(struct HarbolMap const *const map, void
 	}
 	
 	for( size_t i=0; i < map->len; i++ ) {
-		uint8_t const *const restrict desired_val = val;
-		if( map->datum[i][0]==desired_val[0] && map->datalens[i]==datasize && !memcmp(map->datum[i], val, datasize) ) {
+		if( map->datalens[i]==datasize && !memcmp(map->datum[i], val, datasize) ) {
 			return i;
 		}
 	}
-- 
2.43.0


From d202002d20d76cfa5231f995505ab54379e8015f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:27 +0000
Subject: [PATCH 012/136] fix: the first deque element kept its free-list links

---
 deque/deque.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deque/deque.c b/deque/deque.c
index 05177dc..a9a26c9 100644
--- a/deque/deque.c
+++ b/deque/deque.c
@@ -72,6 +72,7 @@ static size_t _harbol_deque_alloc_node(struct HarbolDeque *const deque) {
 	if( deque->freed != SIZE_MAX && deque->freed < deque->cap ) {
 		deque->nexts[deque->freed] = SIZE_MAX;
 	}
+	deque->nexts[i] = deque->prevs[i] = SIZE_MAX;
 	return i;
 }
 
-- 
2.43.0


From 917af0b1fe174658581002366cd2f6d3e4a770b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:27 +0000
Subject: [PATCH 013/136] fix: resetting a deque kept its element count

---
 deque/deque.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deque/deque.c b/deque/deque.c
index a9a26c9..7fccfde 100644
--- a/deque/deque.c
+++ b/deque/deque.c
@@ -46,6 +46,7 @@ HARBOL_EXPORT void harbol_deque_reset(struct HarbolDeque *const deque) {
 	}
 	deque->head = deque->tail = deque->nexts[deque->cap - 1] = SIZE_MAX;
 	deque->freed = deque->cap - 1;
+	deque->len = 0;
 }
 
 HARBOL_EXPORT void harbol_deque_clear(struct HarbolDeque *const deque) {
-- 
2.43.0


From 54fa9fb98b0f8d0056730ca8c67a193f5b0eeddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:37 +0000
Subject: [PATCH 014/136] fix: a deque made with an initial size of 0 wrote
 before its arrays

---
 deque/deque.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/deque/deque.c b/deque/deque.c
index 7fccfde..0c6ab71 100644
--- a/deque/deque.c
+++ b/deque/deque.c
@@ -14,7 +14,8 @@ HARBOL_EXPORT struct HarbolDeque *harbol_deque_new(size_t const init_size) {
 }
 
 HARBOL_EXPORT bool harbol_deque_init(struct HarbolDeque *const deque, size_t const init_size) {
-	if( !harbol_multi_recalloc(init_size, deque->cap, 3,
+	size_t const cap = init_size==0? 1 : init_size;
+	if( !harbol_multi_recalloc(cap, deque->cap, 3,
 						&deque->nexts, sizeof *deque->nexts,
 						&deque->prevs, sizeof *deque->prevs,
 						&deque->datum, sizeof *deque->datum) ) {
@@ -22,8 +23,8 @@ HARBOL_EXPORT bool harbol_deque_init(struct HarbolDeque *const deque, size_t con
 	}
 	
 	
-	deque->cap = init_size;
-	for( size_t i=0; i < init_size; i++ ) {
+	deque->cap = cap;
+	for( size_t i=0; i < cap; i++ ) {
 		deque->prevs[i] = i - 1;
 		deque->nexts[i] = i + 1;
 	}
-- 
2.43.0


From d52bd724834d9d5bf19be3ff21821087b2431da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:49 +0000
Subject: [PATCH 015/136] fix: setting a larger tree value overflowed the
 node's data

---
 tree/tree.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tree/tree.c b/tree/tree.c
index ab3546d..b5871eb 100644
--- a/tree/tree.c
+++ b/tree/tree.c
@@ -59,13 +59,16 @@ HARBOL_EXPORT bool harbol_tree_set(struct HarbolTree *const restrict tree, void
 		return false;
 	}
 	
-	if( tree->data==NULL ) {
-		tree->data = calloc(datasize, sizeof *tree->data);
-		if( tree->data==NULL ) {
+	if( tree->data==NULL || datasize > tree->len ) {
+		uint8_t *const data = dup_data(val, datasize);
+		if( data==NULL ) {
 			return false;
 		}
+		free(tree->data);
+		tree->data = data;
+	} else {
+		memcpy(tree->data, val, datasize);
 	}
-	memcpy(tree->data, val, datasize);
 	tree->len = datasize;
 	return true;
 }
-- 
2.43.0


From 3da4ed891dd06404b0c0d612b91df322d3677ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:49 +0000
Subject: [PATCH 016/136] fix: tree value lookups matched prefixes and read
 past the given value

---
 tree/tree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tree/tree.c b/tree/tree.c
index b5871eb..846e262 100644
--- a/tree/tree.c
+++ b/tree/tree.c
@@ -109,7 +109,7 @@ HARBOL_EXPORT bool harbol_tree_rm_val(struct HarbolTree *const restrict tree, vo
 	}
 	for( size_t i=0; i < tree->kids.len; i++ ) {
 		struct HarbolTree **const child_ref = harbol_array_get(&tree->kids, i, sizeof *child_ref);
-		if( !memcmp((*child_ref)->data, val, (*child_ref)->len) ) {
+		if( (*child_ref)->len==datasize && !memcmp((*child_ref)->data, val, datasize) ) {
 			harbol_tree_free(child_ref);
 			return harbol_array_del_by_index(&tree->kids, i, sizeof *child_ref);
 		}
@@ -128,7 +128,7 @@ HARBOL_EXPORT struct HarbolTree *harbol_tree_get_node_by_val(struct HarbolTree c
 	}
 	for( size_t i=0; i < tree->kids.len; i++ ) {
 		struct HarbolTree **const child_ref = harbol_array_get(&tree->kids, i, sizeof *child_ref);
-		if( !memcmp((*child_ref)->data, val, (*child_ref)->len) ) {
+		if( (*child_ref)->len==datasize && !memcmp((*child_ref)->data, val, datasize) ) {
 			return *child_ref;
 		}
 	}
-- 
2.43.0


From b5dbc8123201b229e99cb10d811858c2b418cfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:26 +0000
Subject: [PATCH 017/136] fix: a packed tuple did not report itself as packed

---
 tuple/tuple.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tuple/tuple.c b/tuple/tuple.c
index 27e8b70..f516263 100644
--- a/tuple/tuple.c
+++ b/tuple/tuple.c
@@ -52,6 +52,7 @@ HARBOL_EXPORT bool harbol_tuple_init(struct HarbolTuple *const tuple, size_t con
 	}
 	
 	tuple->len = packed? total_size : aligned_total;
+	tuple->packed = packed;
 	tuple->fields = harbol_array_make(sizeof(uint32_t), tuple->len, &( bool ){false});
 	uint32_t offset = 0;
 	for( size_t i=0; i < len; i++ ) {
-- 
2.43.0


From 72e906fef3c08b370f9062bc5a15196f9d27a6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:58 +0000
Subject: [PATCH 018/136] fix: tuples over 64 KiB truncated their field sizes
 and offsets instead of failing

---
 tuple/tuple.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tuple/tuple.c b/tuple/tuple.c
index f516263..d263dd3 100644
--- a/tuple/tuple.c
+++ b/tuple/tuple.c
@@ -46,6 +46,10 @@ HARBOL_EXPORT bool harbol_tuple_init(struct HarbolTuple *const tuple, size_t con
 	
 	/// now do a final size alignment with the largest member.
 	size_t const aligned_total = harbol_align_size(total_size, largest_memb >= ptr_size? ptr_size : largest_memb);
+	/// field sizes and offsets are stored as 16 bits each.
+	if( largest_memb > UINT16_MAX || (packed? total_size : aligned_total) > UINT16_MAX ) {
+		return false;
+	}
 	tuple->datum = calloc(packed? total_size : aligned_total, sizeof *tuple->datum);
 	if( tuple->datum==NULL ) {
 		return false;
-- 
2.43.0


From e25f47121f4348512da66dc919df6764daf4d43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:41 +0000
Subject: [PATCH 019/136] fix: freeing the address one past an object pool was
 accepted

---
 allocators/objpool/objpool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allocators/objpool/objpool.c b/allocators/objpool/objpool.c
index d4f4de6..72cbee0 100644
--- a/allocators/objpool/objpool.c
+++ b/allocators/objpool/objpool.c
@@ -81,7 +81,7 @@ HARBOL_EXPORT void *harbol_objpool_alloc(struct HarbolObjPool *const objpool) {
 
 HARBOL_EXPORT void harbol_objpool_free(struct HarbolObjPool *const restrict objpool, void *const restrict ptr) {
 	uintptr_t const p = ( uintptr_t )(ptr);
-	if( ptr==NULL || p < objpool->mem || p > objpool->mem + (objpool->size * objpool->objsize) ) {
+	if( ptr==NULL || p < objpool->mem || p >= objpool->mem + (objpool->size * objpool->objsize) ) {
 		return;
 	}
 	/// when we free our pointer, we recycle the pointer space to store the previous index
-- 
2.43.0


From d549fa4cd545072ef8428130d72842d305b1fb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:41 +0000
Subject: [PATCH 020/136] fix: an object size near SIZE_MAX wrapped to 0 and
 the pool wrote out of bounds

---
 allocators/objpool/objpool.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/allocators/objpool/objpool.c b/allocators/objpool/objpool.c
index 72cbee0..8d4dc45 100644
--- a/allocators/objpool/objpool.c
+++ b/allocators/objpool/objpool.c
@@ -11,6 +11,9 @@ HARBOL_EXPORT NO_NULL bool harbol_objpool_init(struct HarbolObjPool *const objpo
 	}
 	
 	size_t const aligned_objsize = harbol_align_size(objsize, sizeof(size_t));
+	if( aligned_objsize < objsize ) {
+		return false;
+	}
 	objpool->mem = ( uintptr_t )(calloc(len, aligned_objsize));
 	if( objpool->mem==NIL ) {
 		return false;
-- 
2.43.0


From d517866fe48d33f8e5f72f876877d103f8edfdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:41 +0000
Subject: [PATCH 021/136] fix: a region whose size is not a multiple of the
 word size handed out misaligned blocks

---
 allocators/region/region.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/allocators/region/region.c b/allocators/region/region.c
index 55e6141..ea3ef2d 100644
--- a/allocators/region/region.c
+++ b/allocators/region/region.c
@@ -16,7 +16,8 @@ HARBOL_EXPORT struct HarbolRegion harbol_region_make(size_t const size) {
 		return region;
 	}
 	
-	region.size = region.offs = size;
+	region.size = size;
+	region.offs = size - (size % sizeof(uintptr_t)); /// blocks go down from here and must stay aligned.
 	return region;
 }
 
@@ -25,7 +26,8 @@ HARBOL_EXPORT struct HarbolRegion harbol_region_make_from_buffer(void *const buf
 	if( size==0 ) {
 		return region;
 	}
-	region.size = region.offs = size;
+	region.size = size;
+	region.offs = size - (size % sizeof(uintptr_t)); /// blocks go down from here and must stay aligned.
 	region.mem  = buf;
 	return region;
 }
-- 
2.43.0


From 720a9049050d2a7639a3f51184c662ea067a209e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:41 +0000
Subject: [PATCH 022/136] fix: bistack requests larger than the gap wrapped
 around and were granted

---
 allocators/bistack/bistack.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/allocators/bistack/bistack.c b/allocators/bistack/bistack.c
index 32e032a..3c1f936 100644
--- a/allocators/bistack/bistack.c
+++ b/allocators/bistack/bistack.c
@@ -46,7 +46,7 @@ HARBOL_EXPORT void *harbol_bistack_alloc_front(struct HarbolBiStack *const bistk
 	
 	size_t const aligned_size = harbol_align_size(size, sizeof aligned_size);
 	/// front end arena is too high!
-	if( bistk->front + aligned_size >= bistk->back ) {
+	if( aligned_size < size || aligned_size >= bistk->back - bistk->front ) {
 		return NULL;
 	}
 	size_t const f = bistk->front;
@@ -61,7 +61,7 @@ HARBOL_EXPORT void *harbol_bistack_alloc_back(struct HarbolBiStack *const restri
 	
 	size_t const aligned_size = harbol_align_size(size, sizeof aligned_size);
 	/// back end arena is too low
-	if( bistk->back - aligned_size <= bistk->front ) {
+	if( aligned_size < size || aligned_size >= bistk->back - bistk->front ) {
 		return NULL;
 	}
 	bistk->back -= aligned_size;
-- 
2.43.0


From ba7ba623bb3b56caf4f67dd9266cfdf65637aef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:41 +0000
Subject: [PATCH 023/136] fix: bistack refused a request of exactly the
 reported margin

---
 allocators/bistack/bistack.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/allocators/bistack/bistack.c b/allocators/bistack/bistack.c
index 3c1f936..72330d0 100644
--- a/allocators/bistack/bistack.c
+++ b/allocators/bistack/bistack.c
@@ -46,7 +46,7 @@ HARBOL_EXPORT void *harbol_bistack_alloc_front(struct HarbolBiStack *const bistk
 	
 	size_t const aligned_size = harbol_align_size(size, sizeof aligned_size);
 	/// front end arena is too high!
-	if( aligned_size < size || aligned_size >= bistk->back - bistk->front ) {
+	if( aligned_size < size || aligned_size > bistk->back - bistk->front ) {
 		return NULL;
 	}
 	size_t const f = bistk->front;
@@ -61,7 +61,7 @@ HARBOL_EXPORT void *harbol_bistack_alloc_back(struct HarbolBiStack *const restri
 	
 	size_t const aligned_size = harbol_align_size(size, sizeof aligned_size);
 	/// back end arena is too low
-	if( aligned_size < size || aligned_size >= bistk->back - bistk->front ) {
+	if( aligned_size < size || aligned_size > bistk->back - bistk->front ) {
 		return NULL;
 	}
 	bistk->back -= aligned_size;
-- 
2.43.0


From 908eea41a1a0ee6fa058c1040e434ed77ab81733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:54 +0000
Subject: [PATCH 024/136] fix: resizing a bistack to 0 freed its buffer but
 kept using it

---
 allocators/bistack/bistack.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/allocators/bistack/bistack.c b/allocators/bistack/bistack.c
index 72330d0..d70b4b7 100644
--- a/allocators/bistack/bistack.c
+++ b/allocators/bistack/bistack.c
@@ -96,6 +96,9 @@ HARBOL_EXPORT size_t harbol_bistack_get_margins(struct HarbolBiStack const bistk
 
 
 HARBOL_EXPORT bool harbol_bistack_resize(struct HarbolBiStack *const restrict bistk, size_t const new_size) {
+	if( new_size==0 ) {
+		return false;
+	}
 	uint8_t *const new_buf = harbol_recalloc(( void* )(bistk->mem), new_size, sizeof *new_buf, bistk->size);
 	if( new_buf==NULL ) {
 		return false;
-- 
2.43.0


From 32ed0b160f2a827b696204b4aa679e554bcc26f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:03 +0000
Subject: [PATCH 025/136] fix: back blocks of a bistack whose size is not a
 multiple of the word size were misaligned

---
 allocators/bistack/bistack.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/allocators/bistack/bistack.c b/allocators/bistack/bistack.c
index d70b4b7..b2aee64 100644
--- a/allocators/bistack/bistack.c
+++ b/allocators/bistack/bistack.c
@@ -5,6 +5,11 @@
 #endif
 
 
+/// the back end starts word-aligned so that back blocks are aligned as well.
+static size_t _harbol_bistack_end(size_t const len) {
+	return len - (len % sizeof(size_t));
+}
+
 HARBOL_EXPORT bool harbol_bistack_init(struct HarbolBiStack *const bistk, size_t const len) {
 	if( len==0 ) {
 		return false;
@@ -13,7 +18,8 @@ HARBOL_EXPORT bool harbol_bistack_init(struct HarbolBiStack *const bistk, size_t
 	if( bistk->mem==NULL ) {
 		return false;
 	}
-	bistk->size = bistk->back = len;
+	bistk->size = len;
+	bistk->back = _harbol_bistack_end(len);
 	return true;
 }
 
@@ -27,7 +33,7 @@ HARBOL_EXPORT struct HarbolBiStack harbol_bistack_make_from_buffer(void *const b
 	struct HarbolBiStack bistk = {0};
 	bistk.size  = len;
 	bistk.mem   = buf;
-	bistk.back  = len;
+	bistk.back  = _harbol_bistack_end(len);
 	return bistk;
 }
 
@@ -79,7 +85,7 @@ HARBOL_EXPORT void harbol_bistack_reset_back(struct HarbolBiStack *const bistk)
 	if( bistk->mem==NULL ) {
 		return;
 	}
-	bistk->back = bistk->size;
+	bistk->back = _harbol_bistack_end(bistk->size);
 }
 
 HARBOL_EXPORT void harbol_bistack_reset_all(struct HarbolBiStack *const bistk) {
@@ -87,7 +93,7 @@ HARBOL_EXPORT void harbol_bistack_reset_all(struct HarbolBiStack *const bistk) {
 		return;
 	}
 	bistk->front = 0;
-	bistk->back  = bistk->size;
+	bistk->back  = _harbol_bistack_end(bistk->size);
 }
 
 HARBOL_EXPORT size_t harbol_bistack_get_margins(struct HarbolBiStack const bistk) {
@@ -104,7 +110,8 @@ HARBOL_EXPORT bool harbol_bistack_resize(struct HarbolBiStack *const restrict bi
 		return false;
 	}
 	bistk->mem   = new_buf;
-	bistk->size  = bistk->back = new_size;
+	bistk->size  = new_size;
+	bistk->back  = _harbol_bistack_end(new_size);
 	bistk->front = 0;
 	return true;
 }
-- 
2.43.0


From 1a3e5a3fc443085cbc28e133b659078e4bb8e799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:52 +0000
Subject: [PATCH 026/136] fix: mempool remaining memory was the negated stack
 offset

---
 allocators/mempool/mempool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allocators/mempool/mempool.c b/allocators/mempool/mempool.c
index 21cf32d..9db052c 100644
--- a/allocators/mempool/mempool.c
+++ b/allocators/mempool/mempool.c
@@ -294,7 +294,7 @@ HARBOL_EXPORT bool harbol_mempool_cleanup(struct HarbolMemPool *const restrict m
 }
 
 HARBOL_EXPORT size_t harbol_mempool_mem_remaining(struct HarbolMemPool const *mempool) {
-	size_t total_remaining = mempool->stack.mem - (mempool->stack.mem + mempool->stack.offs);
+	size_t total_remaining = harbol_region_remaining(&mempool->stack);
 	for( struct HarbolMemNode *n = mempool->large.head; n != NULL; n = n->next ) {
 		total_remaining += n->size;
 	}
-- 
2.43.0


From 72a90fba8d75e7a9ed969cce361a293618c2c665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:10 +0000
Subject: [PATCH 027/136] fix: freeing or reallocating a pointer outside a
 mempool read memory in front of it

---
 allocators/mempool/mempool.c | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/allocators/mempool/mempool.c b/allocators/mempool/mempool.c
index 9db052c..9783e7f 100644
--- a/allocators/mempool/mempool.c
+++ b/allocators/mempool/mempool.c
@@ -239,13 +239,26 @@ HARBOL_EXPORT void *harbol_mempool_alloc(struct HarbolMemPool *const mempool, si
 	}
 }
 
+/// the address has to be checked before the node in front of it can be read.
+static bool _harbol_mempool_has_block(struct HarbolMemPool const *const mempool, void const *const ptr) {
+	uintptr_t const
+		mem  = ( uintptr_t )(mempool->stack.mem),
+		addr = ( uintptr_t )(ptr)
+	;
+	if( addr < mem + mempool->stack.offs + sizeof(struct HarbolMemNode) || addr >= mem + mempool->stack.size ) {
+		return false;
+	}
+	struct HarbolMemNode const *const node = ( struct HarbolMemNode const* )(addr - sizeof *node);
+	return is_uint_in_bounds(node->size, mempool->stack.size, sizeof *node);
+}
+
 HARBOL_EXPORT void *harbol_mempool_realloc(struct HarbolMemPool *const restrict mempool, void *const ptr, size_t const size) {
 	if( size > mempool->stack.size ) {
 		return NULL;
 	} else if( ptr==NULL ) {
 		/// NULL ptr should make this work like regular alloc.
 		return harbol_mempool_alloc(mempool, size);
-	} else if( ( uintptr_t )(ptr) - sizeof(struct HarbolMemNode) < ( uintptr_t )(mempool->stack.mem) ) {
+	} else if( !_harbol_mempool_has_block(mempool, ptr) ) {
 		return NULL;
 	}
 	
@@ -261,18 +274,14 @@ HARBOL_EXPORT void *harbol_mempool_realloc(struct HarbolMemPool *const restrict
 }
 
 HARBOL_EXPORT bool harbol_mempool_free(struct HarbolMemPool *const restrict mempool, void *const ptr) {
-	if( ptr==NULL || ( uintptr_t )(ptr) - sizeof(struct HarbolMemNode) < ( uintptr_t )(mempool->stack.mem) ) {
+	/// make sure the pointer data is valid.
+	if( ptr==NULL || !_harbol_mempool_has_block(mempool, ptr) ) {
 		return false;
 	}
 	/// behind the actual pointer data is the allocation info.
 	struct HarbolMemNode *mem_node = ( struct HarbolMemNode* )(( uint8_t* )(ptr) - sizeof *mem_node);
 	size_t const slot = (mem_node->size >> HARBOL_BUCKET_BITS) - 1;
 	
-	/// make sure the pointer data is valid.
-	if( !is_uintptr_in_bounds(( uintptr_t )(mem_node), ( uintptr_t )(mempool->stack.mem + mempool->stack.size), ( uintptr_t )(mempool->stack.offs))
-			|| !is_uint_in_bounds(mem_node->size, mempool->stack.size, sizeof(struct HarbolMemNode)) )
-		return false;
-	
 	/// if the mem_node is right at the stack base ptr, then add it to the stack.
 	if( ( uintptr_t )(mem_node)==mempool->stack.offs ) {
 		mempool->stack.offs += mem_node->size;
-- 
2.43.0


From 8b2b3fc50c58b5a1aef13ab7d703628cd0d6a508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:18 +0000
Subject: [PATCH 028/136] fix: freeing into the middle of a mempool free list
 put the nodes in the wrong order and lost blocks

---
 allocators/mempool/mempool.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/allocators/mempool/mempool.c b/allocators/mempool/mempool.c
index 9783e7f..206c9a5 100644
--- a/allocators/mempool/mempool.c
+++ b/allocators/mempool/mempool.c
@@ -28,10 +28,10 @@ HARBOL_EXPORT void harbol_memnode_replace(struct HarbolMemNode *const old, struc
 /// makes a current node into the next node.
 HARBOL_EXPORT void harbol_freelist_insert_before(struct HarbolFreeList *const list, struct HarbolMemNode *const curr, struct HarbolMemNode *const insert) {
 	insert->next = curr;
+	insert->prev = curr->prev;
 	if( curr->prev==NULL ) {
 		list->head = insert;
 	} else {
-		insert->prev = curr->prev;
 		curr->prev->next = insert;
 	}
     curr->prev = insert;
@@ -115,7 +115,7 @@ HARBOL_EXPORT void harbol_freelist_insert(struct HarbolMemPool *const mempool, s
 				}
 				return;
 			} else {
-				harbol_freelist_insert_before(list, node, iter);
+				harbol_freelist_insert_before(list, iter, node);
 				list->len++;
 				return;
 			}
-- 
2.43.0


From 9d10d6631eb428d531edecd8c26a6a2bec0cfdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:27 +0000
Subject: [PATCH 029/136] fix: a mempool node moved to another free list kept
 its old links

---
 allocators/mempool/mempool.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/allocators/mempool/mempool.c b/allocators/mempool/mempool.c
index 206c9a5..b9bffaa 100644
--- a/allocators/mempool/mempool.c
+++ b/allocators/mempool/mempool.c
@@ -142,6 +142,7 @@ HARBOL_EXPORT struct HarbolMemNode *harbol_freelist_remove(struct HarbolFreeList
 		else list->head = NULL;
 	}
 	list->len--;
+	node->next = node->prev = NULL;
 	return node;
 }
 
-- 
2.43.0


From 82d143db677937e1fbbbadef2cefc00690867262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:33 +0000
Subject: [PATCH 030/136] fix: merging a freed mempool block with the first
 free block left a dangling back link

---
 allocators/mempool/mempool.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/allocators/mempool/mempool.c b/allocators/mempool/mempool.c
index b9bffaa..b537914 100644
--- a/allocators/mempool/mempool.c
+++ b/allocators/mempool/mempool.c
@@ -94,8 +94,7 @@ HARBOL_EXPORT void harbol_freelist_insert(struct HarbolMemPool *const mempool, s
 					}
 				} else if( node_end==iiter ) {
 					node->size += list->head->size;
-					node->next = list->head->next;
-					node->prev = NULL;
+					harbol_memnode_replace(iter, node);
 					list->head = node;
 					if( is_bucket ) {
 						_harbol_freelist_transfer_node(mempool, harbol_freelist_remove(list, list->head));
-- 
2.43.0


From 77aae79b61b5cab40f7b977453786457207e2535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:42 +0000
Subject: [PATCH 031/136] fix: mempool refused small requests once the freed
 blocks had been coalesced

---
 allocators/mempool/mempool.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/allocators/mempool/mempool.c b/allocators/mempool/mempool.c
index b537914..3631295 100644
--- a/allocators/mempool/mempool.c
+++ b/allocators/mempool/mempool.c
@@ -194,10 +194,15 @@ HARBOL_EXPORT void harbol_mempool_clear(struct HarbolMemPool *const mempool) {
 }
 
 static NO_NULL void *_get_freenode(struct HarbolMemPool *const mempool, size_t const bytes) {
-	/// check if we have a good sized node from the buckets.
-	size_t const slot = (bytes >> HARBOL_BUCKET_BITS) - 1;
-	struct HarbolFreeList *const l = (slot < HARBOL_BUCKET_SIZE)? &mempool->buckets[slot] : &mempool->large;
-	struct HarbolMemNode *new_mem = harbol_freelist_find(l, bytes);
+	/// check if we have a good sized node from the buckets,
+	/// coalesced nodes move up to the larger buckets so we have to check those too.
+	struct HarbolMemNode *new_mem = NULL;
+	for( size_t slot = (bytes >> HARBOL_BUCKET_BITS) - 1; new_mem==NULL && slot < HARBOL_BUCKET_SIZE; slot++ ) {
+		new_mem = harbol_freelist_find(&mempool->buckets[slot], bytes);
+	}
+	if( new_mem==NULL ) {
+		new_mem = harbol_freelist_find(&mempool->large, bytes);
+	}
 	if( new_mem==NULL ) {
 		return NULL;
 	} else {
-- 
2.43.0


From ad080e44dd1e79fddad77c203dadd0871b10ea84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:52 +0000
Subject: [PATCH 032/136] fix: mempool never returned blocks freed at its stack
 base

---
 allocators/mempool/mempool.c | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/allocators/mempool/mempool.c b/allocators/mempool/mempool.c
index 3631295..969ea92 100644
--- a/allocators/mempool/mempool.c
+++ b/allocators/mempool/mempool.c
@@ -45,6 +45,11 @@ static void _harbol_freelist_transfer_node(struct HarbolMemPool *const mempool,
 
 
 HARBOL_EXPORT void harbol_freelist_insert(struct HarbolMemPool *const mempool, struct HarbolFreeList *const list, struct HarbolMemNode *const node, bool const is_bucket) {
+	/// the list is sorted by address so only its head can be right at the stack base.
+	while( list->head != NULL && ( uint8_t* )(list->head)==mempool->stack.mem + mempool->stack.offs ) {
+		mempool->stack.offs += harbol_freelist_remove(list, list->head)->size;
+	}
+	
 	if( list->head==NULL ) {
 		list->head = node;
 		list->len++;
@@ -52,16 +57,6 @@ HARBOL_EXPORT void harbol_freelist_insert(struct HarbolMemPool *const mempool, s
 	}
 	
 	for( struct HarbolMemNode *iter = list->head; iter != NULL; iter = iter->next ) {
-		if( ( uintptr_t )(iter)==mempool->stack.offs ) {
-			mempool->stack.offs += iter->size;
-			harbol_freelist_remove(list, iter);
-			iter = list->head;
-			if( iter==NULL ) {
-				list->head = node;    
-				return;
-            }
-			continue;
-		}
 		uintptr_t const inode = ( uintptr_t )(node);
 		uintptr_t const iiter = ( uintptr_t )(iter);
 		uintptr_t const iter_end = iiter + iter->size;
@@ -288,7 +283,7 @@ HARBOL_EXPORT bool harbol_mempool_free(struct HarbolMemPool *const restrict memp
 	size_t const slot = (mem_node->size >> HARBOL_BUCKET_BITS) - 1;
 	
 	/// if the mem_node is right at the stack base ptr, then add it to the stack.
-	if( ( uintptr_t )(mem_node)==mempool->stack.offs ) {
+	if( ( uint8_t* )(mem_node)==mempool->stack.mem + mempool->stack.offs ) {
 		mempool->stack.offs += mem_node->size;
 	} else {
 		/// try to place it into bucket or large freelist.
-- 
2.43.0


From 5551a8aee584a96ab17323ba4b4d6b6073b6886f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:38 +0000
Subject: [PATCH 033/136] fix: removing characters or spaces from a
 never-assigned string crashed

---
 str/str.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/str/str.c b/str/str.c
index 8953ce6..09b0bec 100644
--- a/str/str.c
+++ b/str/str.c
@@ -383,6 +383,9 @@ HARBOL_EXPORT bool harbol_string_reverse(struct HarbolString *const str) {
 
 
 HARBOL_EXPORT size_t harbol_string_rm_char(struct HarbolString *const str, char const c) {
+	if( str->cstr==NULL ) {
+		return 0;
+	}
 	size_t j = 0, counts = 0;
 	for( size_t i=0; str->cstr[i] != 0; i++ ) {
 		if( str->cstr[i] != c ) {
@@ -397,6 +400,9 @@ HARBOL_EXPORT size_t harbol_string_rm_char(struct HarbolString *const str, char
 
 
 HARBOL_EXPORT size_t harbol_string_trim_spaces(struct HarbolString *const str) {
+	if( str->cstr==NULL ) {
+		return 0;
+	}
 	size_t j = 0, counts = 0;
 	for( size_t i=0; str->cstr[i] != 0; i++ ) {
 		if( !isspace(str->cstr[i]) ) {
-- 
2.43.0


From f175ac9698dd5bf89d6a9047319c52f31165bf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:44 +0000
Subject: [PATCH 034/136] fix: adding a huge number of characters to a string
 wrapped its length around

---
 str/str.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/str/str.c b/str/str.c
index 09b0bec..a82b773 100644
--- a/str/str.c
+++ b/str/str.c
@@ -66,7 +66,7 @@ HARBOL_EXPORT bool harbol_string_add_char(struct HarbolString *const str, char c
 }
 
 HARBOL_EXPORT bool harbol_string_add_char_rep(struct HarbolString *const str, char const c, size_t const amount) {
-	if( !_harbol_resize_string(str, str->len + amount) ) {
+	if( amount >= SIZE_MAX - str->len || !_harbol_resize_string(str, str->len + amount) ) {
 		return false;
 	}
 	for( size_t i=0; i < amount; i++ ) {
-- 
2.43.0


From d7b1ca6a7ca4a6d4f6833f5c91c95859c590e6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:48 +0000
Subject: [PATCH 035/136] fix: a failing conversion in string formatting
 corrupted the string's length

---
 str/str.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/str/str.c b/str/str.c
index a82b773..3dde88f 100644
--- a/str/str.c
+++ b/str/str.c
@@ -150,7 +150,7 @@ HARBOL_EXPORT int harbol_string_format_va(struct HarbolString *const restrict st
 	va_end(va_l);
 	
 	size_t const old_size = clear? 0 : str->len;
-	if( !_harbol_resize_string(str, size + old_size) ) {
+	if( size < 0 || !_harbol_resize_string(str, size + old_size) ) {
 		va_end(st);
 		return -1;
 	}
-- 
2.43.0


From 575f8e1c97c63c4eaf1c1b3f80e19cd9aca1ecae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:53 +0000
Subject: [PATCH 036/136] fix: removing characters from a string did not update
 its length

---
 str/str.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/str/str.c b/str/str.c
index 3dde88f..a7a9b8d 100644
--- a/str/str.c
+++ b/str/str.c
@@ -392,6 +392,7 @@ HARBOL_EXPORT size_t harbol_string_rm_char(struct HarbolString *const str, char
 			str->cstr[j++] = str->cstr[i];
 		} else {
 			counts++;
+			str->len--;
 		}
 	}
 	str->cstr[j] = 0;
-- 
2.43.0


From 3dca44908c1e89106aabcef2dbec6e71ba07dd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:59 +0000
Subject: [PATCH 037/136] fix: appending a string to itself overflowed its
 buffer

---
 str/str.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/str/str.c b/str/str.c
index a7a9b8d..bb89ce5 100644
--- a/str/str.c
+++ b/str/str.c
@@ -76,10 +76,12 @@ HARBOL_EXPORT bool harbol_string_add_char_rep(struct HarbolString *const str, ch
 }
 
 HARBOL_EXPORT bool harbol_string_add_str(struct HarbolString *const strA, struct HarbolString const *const strB) {
-	if( strB->cstr==NULL || !_harbol_resize_string(strA, strA->len + strB->len) ) {
+	/// strB could be strA itself so save the lengths before resizing.
+	size_t const lenA = strA->len, lenB = strB->len;
+	if( strB->cstr==NULL || !_harbol_resize_string(strA, lenA + lenB) ) {
 		return false;
 	}
-	strncat(strA->cstr, strB->cstr, strB->len);
+	memcpy(&strA->cstr[lenA], strB->cstr, lenB);
 	return true;
 }
 
-- 
2.43.0


From 8f2333dc002621807dcd6e93262c6bc3f48f83ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:27 +0000
Subject: [PATCH 038/136] fix: counting or replacing the empty substring never
 ended

---
 str/str.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/str/str.c b/str/str.c
index bb89ce5..de13126 100644
--- a/str/str.c
+++ b/str/str.c
@@ -317,6 +317,9 @@ HARBOL_EXPORT size_t harbol_string_count_cstr(struct HarbolString const *const r
 	
 	size_t occurrences = 0;
 	size_t const occ_len = strlen(occurrence);
+	if( occ_len==0 ) {
+		return 0;
+	}
 	char const *pos = strstr(str->cstr, occurrence);
 	while( pos != NULL ) {
 		occurrences++;
-- 
2.43.0


From 983d7734c1b16c44daf5d734dd4b1eaaadb4a3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:33 +0000
Subject: [PATCH 039/136] fix: replacing a number of substrings replaced one
 more and could overflow the new string

---
 str/str.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/str/str.c b/str/str.c
index de13126..63cf7b2 100644
--- a/str/str.c
+++ b/str/str.c
@@ -250,7 +250,7 @@ HARBOL_EXPORT bool harbol_string_replace_cstr(struct HarbolString *const restric
 	}
 	
 	size_t const counts = harbol_string_count_cstr(str, to_replace);
-	if( counts==0 ) {
+	if( counts==0 || amount==0 ) {
 		return false;
 	} else if( amount > counts ) {
 		amount = counts;
@@ -271,7 +271,7 @@ HARBOL_EXPORT bool harbol_string_replace_cstr(struct HarbolString *const restric
 	
 	strcpy(&rep_str.cstr[rep_len], with);
 	rep_len += with_len;
-	for( size_t i=0; i < amount; i++ ) {
+	for( size_t i=1; i < amount; i++ ) {
 		size_t const saved_offset = offset;
 		size_t const relative_offs = _subcstr_diff(&str->cstr[saved_offset], to_replace);
 		if( relative_offs==SIZE_MAX ) {
-- 
2.43.0


From 369be8e96b23aaa56bdcafebf3dc192cfe27ee62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:39 +0000
Subject: [PATCH 040/136] fix: replacing a range up to the string's length read
 past its terminator

---
 str/str.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/str/str.c b/str/str.c
index 63cf7b2..7aacb84 100644
--- a/str/str.c
+++ b/str/str.c
@@ -438,7 +438,7 @@ HARBOL_EXPORT bool harbol_string_replace_range(struct HarbolString *const restri
 		return false;
 	}
 	
-	if( upper > str->len ) {
+	if( upper >= str->len ) {
 		upper = str->len - 1;
 	}
 	
-- 
2.43.0


From c8944afe37473d87780238babedf7a8e224c58a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:27 +0000
Subject: [PATCH 041/136] fix: growing an allocated buffer of length 0 leaked
 it

---
 harbol_common_includes.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index a07709a..8aef5d0 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -174,7 +174,7 @@
 
 
 static inline void *harbol_recalloc(void *const arr, size_t const new_size, size_t const element_size, size_t const old_size) {
-	if( arr==NULL || old_size==0 ) {
+	if( arr==NULL ) {
 		return calloc(new_size, element_size);
 	}
 #ifdef __cplusplus
@@ -193,7 +193,7 @@ static inline void *harbol_recalloc(void *const arr, size_t const new_size, size
 #ifdef __cplusplus
 template< typename T >
 static inline T *harbol_tg_recalloc(T *const arr, size_t const new_size, size_t const old_size) {
-	if( arr==nullptr || old_size==0 ) {
+	if( arr==nullptr ) {
 		return ( T* )(calloc(new_size, sizeof *arr));
 	}
 	
-- 
2.43.0


From f7c6e31eb1e2b40c16ea94e43c9cd8ab5ff0265a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:33 +0000
Subject: [PATCH 042/136] fix: reading a shorter file into a string left it
 unterminated

---
 str/str.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/str/str.c b/str/str.c
index 7aacb84..60b60b1 100644
--- a/str/str.c
+++ b/str/str.c
@@ -211,6 +211,7 @@ HARBOL_EXPORT bool harbol_string_read_from_file(struct HarbolString *const str,
 		return false;
 	}
 	str->len = fread(str->cstr, sizeof *str->cstr, filesize, file);
+	str->cstr[str->len] = 0;
 	return true;
 }
 
-- 
2.43.0


From 94e6c0fd080ee92682faef9bf6ae233b47b6c56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:35 +0000
Subject: [PATCH 043/136] fix: listing more substring positions than there are
 repeated stale positions or read past the string

---
 str/str.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/str/str.c b/str/str.c
index 60b60b1..986ff79 100644
--- a/str/str.c
+++ b/str/str.c
@@ -335,9 +335,15 @@ HARBOL_EXPORT NO_NULL bool harbol_string_cstr_offsets(struct HarbolString const
 	}
 	
 	size_t offset = 0;
+	bool found = occurrence[0] != 0;
 	for( size_t i=0; i < offsets_len; i++ ) {
-		size_t const curr_offs = offset;
-		offset += _subcstr_diff(&str->cstr[curr_offs], occurrence);
+		size_t const relative_offs = found? _subcstr_diff(&str->cstr[offset], occurrence) : SIZE_MAX;
+		if( relative_offs==SIZE_MAX ) {
+			found = false;
+			offsets[i] = SIZE_MAX;
+			continue;
+		}
+		offset += relative_offs;
 		offsets[i] = offset;
 		offset++;
 	}
-- 
2.43.0


From f414680fe49cf81ca01c9fa1b06da2b7be26a764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:40 +0000
Subject: [PATCH 044/136] fix: comparing a string with a C string had the
 opposite sign of comparing two strings

---
 str/str.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/str/str.c b/str/str.c
index 986ff79..264ddea 100644
--- a/str/str.c
+++ b/str/str.c
@@ -181,7 +181,7 @@ HARBOL_EXPORT int harbol_string_cmpcstr(struct HarbolString const *const str, ch
 		return -1;
 	}
 	size_t const cstr_len = strlen(cstr);
-	return strncmp(cstr, str->cstr, (str->len > cstr_len)? str->len : cstr_len);
+	return strncmp(str->cstr, cstr, (str->len > cstr_len)? str->len : cstr_len);
 }
 
 HARBOL_EXPORT int harbol_string_cmpstr(struct HarbolString const *const strA, struct HarbolString const *const strB) {
-- 
2.43.0


From d4f7396781a75d627ced52ce7941d112ce25714b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:54 +0000
Subject: [PATCH 045/136] fix: searching a character in a never-assigned string
 crashed

---
 str/str.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/str/str.c b/str/str.c
index 264ddea..f7a157b 100644
--- a/str/str.c
+++ b/str/str.c
@@ -436,7 +436,7 @@ static NO_NULL size_t _find_chr(char const src[const static 1], char const c) {
 }
 
 HARBOL_EXPORT size_t harbol_string_find_char(struct HarbolString const *const str, char const c) {
-	return _find_chr(str->cstr, c);
+	return( str->cstr==NULL )? SIZE_MAX : _find_chr(str->cstr, c);
 }
 
 
-- 
2.43.0


From 1d4420608d08513172f694a600693381e08ad904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:54 +0000
Subject: [PATCH 046/136] fix: scanning a never-assigned string crashed

---
 str/str.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/str/str.c b/str/str.c
index f7a157b..3778661 100644
--- a/str/str.c
+++ b/str/str.c
@@ -170,7 +170,7 @@ HARBOL_EXPORT int harbol_string_scan(struct HarbolString const *const restrict s
 
 
 HARBOL_EXPORT int harbol_string_scan_va(struct HarbolString const *const restrict str, char const fmt[const restrict static 1], va_list args) {
-	int const result = vsscanf(str->cstr, fmt, args);
+	int const result = vsscanf(str->cstr==NULL? "" : str->cstr, fmt, args);
 	va_end(args);
 	return result;
 }
-- 
2.43.0


From 161dbdbf7af9a1b33d22017a4089e1cb2c6f4cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:49 +0000
Subject: [PATCH 047/136] fix: resizing an emptied byte buffer to 0 freed its
 table but kept using it

---
 bytebuffer/bytebuffer.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bytebuffer/bytebuffer.c b/bytebuffer/bytebuffer.c
index d31a1b9..0276d2e 100644
--- a/bytebuffer/bytebuffer.c
+++ b/bytebuffer/bytebuffer.c
@@ -40,6 +40,10 @@ HARBOL_EXPORT uint8_t *harbol_bytebuffer_get_buffer(struct HarbolByteBuf const *
 }
 
 static NO_NULL bool _harbol_buffer_resize(struct HarbolByteBuf *const restrict buf, size_t const new_size) {
+	/// resizing to 0 would free the table.
+	if( new_size==0 ) {
+		return true;
+	}
 	uint8_t *const new_table = harbol_recalloc(buf->table, new_size, sizeof *buf->table, buf->cap);
 	if( new_table==NULL ) {
 		return false;
-- 
2.43.0


From 18fd7e108cb24f4d28fb85371d8e0b688800220d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:57 +0000
Subject: [PATCH 048/136] fix: huge byte buffer insertions wrapped around and
 wrote out of bounds

---
 bytebuffer/bytebuffer.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bytebuffer/bytebuffer.c b/bytebuffer/bytebuffer.c
index 0276d2e..c99b54e 100644
--- a/bytebuffer/bytebuffer.c
+++ b/bytebuffer/bytebuffer.c
@@ -107,7 +107,9 @@ HARBOL_EXPORT bool harbol_bytebuffer_insert_cstr(struct HarbolByteBuf *const res
 }
 
 HARBOL_EXPORT bool harbol_bytebuffer_insert_obj(struct HarbolByteBuf *const restrict buf, void const *const obj, size_t const size) {
-	if( buf->len + size >= buf->cap && !_harbol_buffer_resize(buf, buf->len + size) ) {
+	if( size > SIZE_MAX - buf->len ) {
+		return false;
+	} else if( buf->len + size >= buf->cap && !_harbol_buffer_resize(buf, buf->len + size) ) {
 		return false;
 	}
 	memcpy(&buf->table[buf->len], obj, size);
@@ -116,7 +118,9 @@ HARBOL_EXPORT bool harbol_bytebuffer_insert_obj(struct HarbolByteBuf *const rest
 }
 
 HARBOL_EXPORT bool harbol_bytebuffer_insert_zeros(struct HarbolByteBuf *const buf, size_t const amount) {
-	if( buf->len + amount >= buf->cap && !_harbol_buffer_resize(buf, buf->len + amount) ) {
+	if( amount > SIZE_MAX - buf->len ) {
+		return false;
+	} else if( buf->len + amount >= buf->cap && !_harbol_buffer_resize(buf, buf->len + amount) ) {
 		return false;
 	}
 	memset(&buf->table[buf->len], 0, amount);
-- 
2.43.0


From 765b36a38a293afaf83173d7fb32d5318841c1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:22 +0000
Subject: [PATCH 049/136] fix: inserting a file that could not be read
 completely left part of it in the byte buffer

---
 bytebuffer/bytebuffer.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bytebuffer/bytebuffer.c b/bytebuffer/bytebuffer.c
index c99b54e..8bab782 100644
--- a/bytebuffer/bytebuffer.c
+++ b/bytebuffer/bytebuffer.c
@@ -163,8 +163,11 @@ HARBOL_EXPORT bool harbol_bytebuffer_insert_from_file(struct HarbolByteBuf *cons
 		return false;
 	}
 	size_t const bytes_read = fread(&buf->table[buf->len], sizeof *buf->table, file_size, file);
+	if( bytes_read != ( size_t )(file_size) ) {
+		return false;
+	}
 	buf->len += bytes_read;
-	return bytes_read==( size_t )(file_size);
+	return true;
 }
 
 HARBOL_EXPORT bool harbol_bytebuffer_append(struct HarbolByteBuf *const bufA, struct HarbolByteBuf const *const bufB) {
-- 
2.43.0


From b9c8536f79f785d7f8a71bc9f866d9a6011c00c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:11 +0000
Subject: [PATCH 050/136] fix: text read from a file or stream was not
 NUL-terminated

---
 harbol_common_includes.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index 8aef5d0..d86c9ee 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -448,9 +448,9 @@ static inline NO_NULL uint8_t *make_buffer_from_file(FILE *const restrict file,
 	}
 	
 #ifdef __cplusplus
-	uint8_t *restrict stream = reinterpret_cast< decltype(stream) >(calloc(filesize, sizeof *stream));
+	uint8_t *restrict stream = reinterpret_cast< decltype(stream) >(calloc(filesize + 1, sizeof *stream));
 #else
-	uint8_t *restrict stream = calloc(filesize, sizeof *stream);
+	uint8_t *restrict stream = calloc(filesize + 1, sizeof *stream);
 #endif
 	if( stream==NULL ) {
 		*bytes = SIZE_MAX;
-- 
2.43.0


From 7c4d92a6e793a6e19e75eca8cb9b5de28da2da37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:18 +0000
Subject: [PATCH 051/136] fix: counting the runes of malformed UTF-8 read past
 the terminator

---
 lex/lex.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index c8dc42c..6b0ffbc 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -60,8 +60,10 @@ HARBOL_EXPORT size_t get_utf8_len(char const c) {
 HARBOL_EXPORT size_t get_str_rune_len(char const cstr[const static 1]) {
 	size_t runes = 0;
 	for( size_t i=0; cstr[i] != 0; ) {
-		size_t const read = get_utf8_len(cstr[i]);
-		i += read;
+		/// a truncated sequence ends at the terminator.
+		for( size_t read = get_utf8_len(cstr[i]); read > 0 && cstr[i] != 0; read-- ) {
+			i++;
+		}
 		runes++;
 	}
 	return runes;
-- 
2.43.0


From b0e22a804dbc57e994d8397e0d81d5583684c4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:20 +0000
Subject: [PATCH 052/136] fix: iterating over malformed UTF-8 read past the
 given length

---
 lex/lex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lex/lex.c b/lex/lex.c
index 6b0ffbc..c04da6d 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -396,7 +396,7 @@ HARBOL_EXPORT int32_t utf8_to_rune_iter(char const cstr[const restrict static 1]
 		return -1;
 	}
 	int32_t rune = -1;
-	size_t const bytes_read = read_utf8(&cstr[*idx], cstr_len, &rune);
+	size_t const bytes_read = read_utf8(&cstr[*idx], cstr_len - *idx, &rune);
 	if( bytes_read > 0 ) {
 		*idx += bytes_read;
 	}
-- 
2.43.0


From dba38aa24d4497294ecf55dad672c79d8cf73b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:01 +0000
Subject: [PATCH 053/136] fix: number lexers left the end position unset at the
 end of the text and reported success for text that is no number

---
 lex/lex.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index c04da6d..b39472a 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -483,6 +483,7 @@ exit:;
 HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool *const restrict is_float) {
 	int result = HarbolLexNoErr;
 	if( *str==0 ) {
+		*end = str;
 		return HarbolLexEoF;
 	} else if( *str != '0' ) {
 		/// missing initial 0.
@@ -682,6 +683,7 @@ lex_c_style_hex_err:;
 HARBOL_EXPORT enum HarbolLexErrType lex_go_style_hex(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool *const restrict is_float) {
 	int result = HarbolLexNoErr;
 	if( *str==0 ) {
+		*end = str;
 		return HarbolLexEoF;
 	} else if( *str != '0' ) {
 		harbol_string_add_char(buf, *str++);
@@ -794,6 +796,7 @@ lex_go_style_hex_err:;
 HARBOL_EXPORT enum HarbolLexErrType lex_c_style_octal(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool *const restrict is_float) {
 	int result = HarbolLexNoErr;
 	if( *str==0 ) {
+		*end = str;
 		return HarbolLexEoF;
 	} else if( *str != '0' ) {
 		harbol_string_add_char(buf, *str++);
@@ -881,6 +884,7 @@ lex_c_style_octal_err:;
 HARBOL_EXPORT enum HarbolLexErrType lex_go_style_octal(char const str[static 1], char const **const end, struct HarbolString *const restrict buf) {
 	int result = HarbolLexNoErr;
 	if( *str==0 ) {
+		*end = str;
 		return HarbolLexEoF;
 	} else if( *str != '0' ) {
 		harbol_string_add_char(buf, *str++);
@@ -941,6 +945,7 @@ lex_go_style_octal_err:;
 HARBOL_EXPORT enum HarbolLexErrType lex_c_style_binary(char const str[static 1], char const **const end, struct HarbolString *const restrict buf) {
 	int result = HarbolLexNoErr;
 	if( *str==0 ) {
+		*end = str;
 		return HarbolLexEoF;
 	} else if( *str != '0' ) {
 		harbol_string_add_char(buf, *str++);
@@ -1033,6 +1038,7 @@ lex_c_style_binary_err:;
 HARBOL_EXPORT enum HarbolLexErrType lex_go_style_binary(char const str[static 1], char const **const end, struct HarbolString *const restrict buf) {
 	int result = HarbolLexNoErr;
 	if( *str==0 ) {
+		*end = str;
 		return HarbolLexEoF;
 	} else if( *str != '0' ) {
 		harbol_string_add_char(buf, *str++);
@@ -1092,6 +1098,7 @@ lex_go_style_binary_err:;
 HARBOL_EXPORT enum HarbolLexErrType lex_c_style_decimal(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool *const restrict is_float) {
 	int result = HarbolLexNoErr;
 	if( *str==0 ) {
+		*end = str;
 		return HarbolLexEoF;
 	}
 	size_t lit_flags = 0;
@@ -1259,6 +1266,7 @@ lex_c_style_decimal_err:;
 HARBOL_EXPORT enum HarbolLexErrType lex_go_style_decimal(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool *const restrict is_float) {
 	int result = HarbolLexNoErr;
 	if( *str==0 ) {
+		*end = str;
 		return HarbolLexEoF;
 	}
 	size_t lit_flags = 0;
@@ -1373,7 +1381,8 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_number(char const str[static 1],
 			return lex_c_style_decimal(str, end, buf, is_float);
 		}
 	}
-	return HarbolLexNoErr;
+	*end = str;
+	return *str==0? HarbolLexEoF : HarbolLexBadGylph;
 }
 
 HARBOL_EXPORT enum HarbolLexErrType lex_go_style_number(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool *const restrict is_float) {
@@ -1391,7 +1400,8 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_number(char const str[static 1]
 			return lex_go_style_decimal(str, end, buf, is_float);
 		}
 	}
-	return HarbolLexNoErr;
+	*end = str;
+	return *str==0? HarbolLexEoF : HarbolLexBadGylph;
 }
 
 static NO_NULL enum HarbolLexErrType _lex_str(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool const raw) {
-- 
2.43.0


From 57ab06fa51093e7a08d612d4e575883ee2b28857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:01 +0000
Subject: [PATCH 054/136] fix: a lone 0 moved the end position of the prefixed
 number lexers past the terminator

---
 lex/lex.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index b39472a..683657a 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -496,7 +496,9 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], ch
 	
 	if( *str != 'x' && *str != 'X' ) {
 		/// missing following `x`.
-		harbol_string_add_char(buf, *str++);
+		if( *str != 0 ) {
+			harbol_string_add_char(buf, *str++);
+		}
 		result = HarbolLexMissingX;
 		goto lex_c_style_hex_err;
 	} else {
@@ -694,7 +696,9 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_hex(char const str[static 1], c
 	}
 	
 	if( *str != 'x' && *str != 'X' ) {
-		harbol_string_add_char(buf, *str++);
+		if( *str != 0 ) {
+			harbol_string_add_char(buf, *str++);
+		}
 		result = HarbolLexMissingX;
 		goto lex_go_style_hex_err;
 	} else {
@@ -895,7 +899,9 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_octal(char const str[static 1],
 	}
 	
 	if( *str != 'o' && *str != 'O' ) {
-		harbol_string_add_char(buf, *str++);
+		if( *str != 0 ) {
+			harbol_string_add_char(buf, *str++);
+		}
 		result = HarbolLexMissingO;
 		goto lex_go_style_octal_err;
 	} else {
@@ -956,7 +962,9 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_binary(char const str[static 1],
 	}
 	
 	if( *str != 'b' && *str != 'B' ) {
-		harbol_string_add_char(buf, *str++);
+		if( *str != 0 ) {
+			harbol_string_add_char(buf, *str++);
+		}
 		result = HarbolLexMissingB;
 		goto lex_c_style_binary_err;
 	} else {
@@ -1050,7 +1058,9 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_binary(char const str[static 1]
 	
 	if( *str != 'b' && *str != 'B' ) {
 		result = HarbolLexMissingB;
-		harbol_string_add_char(buf, *str++);
+		if( *str != 0 ) {
+			harbol_string_add_char(buf, *str++);
+		}
 		goto lex_go_style_binary_err;
 	} else {
 		harbol_string_add_char(buf, *str++);
-- 
2.43.0


From 92e8fbdc9ec3cca7b48111ee4839ee0b499ce3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:22 +0000
Subject: [PATCH 055/136] fix: + and - after a number literal's fraction or
 suffix were swallowed or rejected

---
 lex/lex.c | 72 ++++++++++++++++++++++---------------------------------
 1 file changed, 29 insertions(+), 43 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index 683657a..af6e825 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -514,7 +514,6 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], ch
 		exponent_p = 1u << 4u, /// xxx.xpxxx
 		one_hex    = 1u << 5u,
 		f_suffix   = 1u << 6u,
-		math_op    = 1u << 7u,
 		digit_sep  = 1u << 8u
 	;
 	while( *str != 0 && (isalnum(*str) || *str=='.' || *str=='+' || *str=='-' || *str==DigitSep_C) ) {
@@ -553,19 +552,14 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], ch
 				}
 				break;
 			case '+': case '-':
-				if( lit_flags & math_op ) {
-					goto lex_c_style_hex_err;
-				} else if( !(lit_flags & (exponent_p|flt_dot)) ) { /// bad +/- placement.
-					harbol_string_add_char(buf, chr);
-					result = HarbolLexBadPlusMinusPlace;
-					goto lex_c_style_hex_err;
-				} else if( !is_decimal(str[1]) && !(lit_flags & math_op) ) { /// no number after exponent?
+				if( str[-1] != 'p' && str[-1] != 'P' ) { /// not the exponent's sign: the literal ends here.
+					goto lex_c_style_hex_end;
+				} else if( !is_decimal(str[1]) ) { /// no number after exponent?
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexNoNumAfterExp;
 					goto lex_c_style_hex_err;
 				} else {
 					harbol_string_add_char(buf, chr);
-					lit_flags |= math_op;
 				}
 				break;
 			case 'U': case 'u':
@@ -667,6 +661,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], ch
 		}
 		str++;
 	}
+lex_c_style_hex_end:;
 	if( (lit_flags & flt_dot) && !(lit_flags & exponent_p) ) { /// missing exponent...
 		result = HarbolLexHexFltNoExp;
 		goto lex_c_style_hex_err;
@@ -710,7 +705,6 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_hex(char const str[static 1], c
 		flt_dot    = 1u << 0u,
 		exponent_p = 1u << 1u, /** xxx.xpxxx */
 		digit_sep  = 1u << 2u,
-		math_op    = 1u << 3u,
 		one_hex    = 1u << 4u
 	;
 	while( *str != 0 && (isalnum(*str) || *str=='.' || *str=='+' || *str=='-' || *str==DigitSep_Go) ) {
@@ -743,19 +737,14 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_hex(char const str[static 1], c
 				}
 				break;
 			case '+': case '-':
-				if( lit_flags & math_op ) {
+				if( str[-1] != 'p' && str[-1] != 'P' ) { /// not the exponent's sign: the literal ends here.
+					goto lex_go_style_hex_end;
+				} else if( !is_decimal(str[1]) ) { /// no number after exponent?
+					result = HarbolLexNoNumAfterExp;
+					harbol_string_add_char(buf, chr);
 					goto lex_go_style_hex_err;
-				} else if( lit_flags & (exponent_p|flt_dot) ) {
-					if( !is_decimal(str[1]) ) { /// no number after exponent?
-						result = HarbolLexNoNumAfterExp;
-						harbol_string_add_char(buf, chr);
-						goto lex_go_style_hex_err;
-					} else {
-						lit_flags |= math_op;
-						harbol_string_add_char(buf, chr);
-					}
 				} else {
-					goto lex_go_style_hex_err;
+					harbol_string_add_char(buf, chr);
 				}
 				break;
 			case 'a': case 'b': case 'c': case 'd': case 'e': case 'f':
@@ -785,6 +774,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_hex(char const str[static 1], c
 		}
 		str++;
 	}
+lex_go_style_hex_end:;
 	if( (lit_flags & flt_dot) && !(lit_flags & exponent_p) ) { /// hex float missing exponent.
 		result = HarbolLexHexFltNoExp;
 		goto lex_go_style_hex_err;
@@ -1111,6 +1101,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_decimal(char const str[static 1]
 		*end = str;
 		return HarbolLexEoF;
 	}
+	char const *const start = str;
 	size_t lit_flags = 0;
 	size_t const
 		uflag       = 1u << 0u,
@@ -1120,7 +1111,6 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_decimal(char const str[static 1]
 		flt_f_flag  = 1u << 4u,
 		flt_e_flag  = 1u << 5u,
 		got_exp_num = 1u << 6u,
-		math_op     = 1u << 7u,
 		digit_sep   = 1u << 8u
 	;
 	while( *str != 0 && (isalnum(*str) || *str=='.' || *str=='+' || *str=='-' || *str==DigitSep_C) ) {
@@ -1142,17 +1132,14 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_decimal(char const str[static 1]
 				}
 				break;
 			case '-': case '+':
-				if( (lit_flags & (math_op|got_exp_num)) || lit_flags==0 ) {
+				if( str==start || (str[-1] != 'e' && str[-1] != 'E') ) { /// not the exponent's sign: the literal ends here.
+					goto lex_c_style_decimal_end;
+				} else if( !is_decimal(str[1]) ) { /// no number after exponent?
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexNoNumAfterExp;
 					goto lex_c_style_decimal_err;
-				} else if( lit_flags & (flt_e_flag|flt_dot) ) {
-					if( !is_decimal(str[1]) ) { /// no number after exponent?
-						harbol_string_add_char(buf, chr);
-						result = HarbolLexNoNumAfterExp;
-						goto lex_c_style_decimal_err;
-					} else {
-						lit_flags |= math_op;
-						harbol_string_add_char(buf, chr);
-					}
+				} else {
+					harbol_string_add_char(buf, chr);
 				}
 				break;
 			case 'F': case 'f':
@@ -1261,6 +1248,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_decimal(char const str[static 1]
 		str++;
 	}
 	
+lex_c_style_decimal_end:;
 	if( (lit_flags & flt_e_flag) && (str[-1]=='e'||str[-1]=='E') ) { /// float missing exponent!
 		result = HarbolLexNoNumAfterExp;
 		goto lex_c_style_decimal_err;
@@ -1279,12 +1267,12 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_decimal(char const str[static 1
 		*end = str;
 		return HarbolLexEoF;
 	}
+	char const *const start = str;
 	size_t lit_flags = 0;
 	size_t const
 		flt_dot = 1u << 0u,
 		flt_e_flag = 1u << 1u,
 		got_exp_num = 1u << 2u,
-		math_op = 1u << 3u,
 		digit_sep = 1u << 4u
 	;
 	while( *str != 0 && (isalnum(*str) || *str=='.' || *str=='+' || *str=='-' || *str==DigitSep_Go) ) {
@@ -1306,17 +1294,14 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_decimal(char const str[static 1
 				}
 				break;
 			case '-': case '+':
-				if( (lit_flags & math_op) || lit_flags==0 ) {
+				if( str==start || (str[-1] != 'e' && str[-1] != 'E') ) { /// not the exponent's sign: the literal ends here.
+					goto lex_go_style_decimal_end;
+				} else if( !is_decimal(str[1]) ) { /// no number after exponent?
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexNoNumAfterExp;
 					goto lex_go_style_decimal_err;
-				} else if( lit_flags & (flt_e_flag|flt_dot) ) {
-					if( !is_decimal(str[1]) ) { /// no number after exponent?
-						harbol_string_add_char(buf, chr);
-						result = HarbolLexNoNumAfterExp;
-						goto lex_go_style_decimal_err;
-					} else {
-						lit_flags |= math_op;
-						harbol_string_add_char(buf, chr);
-					}
+				} else {
+					harbol_string_add_char(buf, chr);
 				}
 				break;
 			case 'E': case 'e':
@@ -1361,6 +1346,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_decimal(char const str[static 1
 		str++;
 	}
 	
+lex_go_style_decimal_end:;
 	if( (lit_flags & flt_e_flag) && (str[-1]=='e'||str[-1]=='E') ) { /// e mark missing exponent!
 		result = HarbolLexNoNumAfterExp;
 		goto lex_go_style_decimal_err;
-- 
2.43.0


From 9f2cd9b30edeb21db1b3364a623832f284f8074c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:14 +0000
Subject: [PATCH 056/136] fix: number literals without a single digit were
 accepted

---
 lex/lex.c | 85 ++++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 68 insertions(+), 17 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index af6e825..4721cd7 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -778,6 +778,9 @@ lex_go_style_hex_end:;
 	if( (lit_flags & flt_dot) && !(lit_flags & exponent_p) ) { /// hex float missing exponent.
 		result = HarbolLexHexFltNoExp;
 		goto lex_go_style_hex_err;
+	} else if( !(lit_flags & one_hex) ) { /// hex int with no digits.
+		result = HarbolLexHexMissingDigits;
+		goto lex_go_style_hex_err;
 	} else if( lit_flags & digit_sep ) { /// digit seps can only separate digits.
 		result = HarbolLexDigitSepNotSepDigits;
 		goto lex_go_style_hex_err;
@@ -787,6 +790,8 @@ lex_go_style_hex_err:;
 	return result;
 }
 
+static enum HarbolLexErrType _lex_c_style_decimal(char const str[static 1], char const **end, struct HarbolString *restrict buf, bool *restrict is_float, bool after_digits);
+
 HARBOL_EXPORT enum HarbolLexErrType lex_c_style_octal(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool *const restrict is_float) {
 	int result = HarbolLexNoErr;
 	if( *str==0 ) {
@@ -821,7 +826,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_octal(char const str[static 1],
 				}
 				break;
 			case '.':
-				return lex_c_style_decimal(str, end, buf, is_float);
+				return _lex_c_style_decimal(str, end, buf, is_float, true);
 			case 'U': case 'u':
 				if( lit_flags & uflag ) { /// too many Us.
 					harbol_string_add_char(buf, chr);
@@ -900,7 +905,8 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_octal(char const str[static 1],
 	
 	size_t lit_flags = 0;
 	size_t const
-		digit_sep = 1u
+		digit_sep = 1u,
+		got_digit = 1u << 1u
 	;
 	while( *str != 0 && (isalnum(*str) || *str==DigitSep_Go) ) {
 		int_fast8_t const chr = *str;
@@ -919,6 +925,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_octal(char const str[static 1],
 			case '4': case '5': case '6': case '7':
 				harbol_string_add_char(buf, chr);
 				lit_flags &= ~digit_sep;
+				lit_flags |= got_digit;
 				break;
 			default: /// bad digit/glyph.
 				harbol_string_add_char(buf, chr);
@@ -929,7 +936,10 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_octal(char const str[static 1],
 		str++;
 	}
 	
-	if( lit_flags & digit_sep ) { /// digit seps can only separate digits.
+	if( !(lit_flags & got_digit) ) { /// no digits after the prefix.
+		result = HarbolLexBadGylph;
+		goto lex_go_style_octal_err;
+	} else if( lit_flags & digit_sep ) { /// digit seps can only separate digits.
 		result = HarbolLexDigitSepNotSepDigits;
 		goto lex_go_style_octal_err;
 	}
@@ -966,7 +976,8 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_binary(char const str[static 1],
 		uflag     = 1u << 0u,
 		long1     = 1u << 1u,
 		long2     = 1u << 2u,
-		digit_sep = 1u << 3u
+		digit_sep = 1u << 3u,
+		got_digit = 1u << 4u
 	;
 	while( *str != 0 && (isalnum(*str) || *str==DigitSep_C) ) {
 		int_fast8_t const chr = *str;
@@ -1014,6 +1025,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_binary(char const str[static 1],
 					harbol_string_add_char(buf, chr);
 				}
 				lit_flags &= ~digit_sep;
+				lit_flags |= got_digit;
 				break;
 			default: /// bad digit/glyph.
 				harbol_string_add_char(buf, chr);
@@ -1024,7 +1036,10 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_binary(char const str[static 1],
 		str++;
 	}
 	
-	if( lit_flags & digit_sep ) { /// digit seps can only separate digits.
+	if( !(lit_flags & got_digit) ) { /// no digits after the prefix.
+		result = HarbolLexBadGylph;
+		goto lex_c_style_binary_err;
+	} else if( lit_flags & digit_sep ) { /// digit seps can only separate digits.
 		result = HarbolLexDigitSepNotSepDigits;
 		goto lex_c_style_binary_err;
 	}
@@ -1058,7 +1073,8 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_binary(char const str[static 1]
 	
 	size_t lit_flags = 0;
 	size_t const
-		digit_sep = 1u
+		digit_sep = 1u,
+		got_digit = 1u << 1u
 	;
 	while( *str != 0 && (isalnum(*str) || *str==DigitSep_Go) ) {
 		int_fast8_t const chr = *str;
@@ -1076,6 +1092,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_binary(char const str[static 1]
 			case '0': case '1':
 				harbol_string_add_char(buf, chr);
 				lit_flags &= ~digit_sep;
+				lit_flags |= got_digit;
 				break;
 			default: /// bad digit/glyph.
 				result = HarbolLexBadGylph;
@@ -1086,7 +1103,10 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_binary(char const str[static 1]
 		str++;
 	}
 	
-	if( lit_flags & digit_sep ) { /// digit seps can only separate digits.
+	if( !(lit_flags & got_digit) ) { /// no digits after the prefix.
+		result = HarbolLexBadGylph;
+		goto lex_go_style_binary_err;
+	} else if( lit_flags & digit_sep ) { /// digit seps can only separate digits.
 		result = HarbolLexDigitSepNotSepDigits;
 		goto lex_go_style_binary_err;
 	}
@@ -1095,14 +1115,14 @@ lex_go_style_binary_err:;
 	return result;
 }
 
-HARBOL_EXPORT enum HarbolLexErrType lex_c_style_decimal(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool *const restrict is_float) {
+/** 'after_digits': the caller has already consumed the literal's digits before the dot. */
+static enum HarbolLexErrType _lex_c_style_decimal(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool *const restrict is_float, bool const after_digits) {
 	int result = HarbolLexNoErr;
 	if( *str==0 ) {
 		*end = str;
 		return HarbolLexEoF;
 	}
 	char const *const start = str;
-	size_t lit_flags = 0;
 	size_t const
 		uflag       = 1u << 0u,
 		long1       = 1u << 1u,
@@ -1111,8 +1131,10 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_decimal(char const str[static 1]
 		flt_f_flag  = 1u << 4u,
 		flt_e_flag  = 1u << 5u,
 		got_exp_num = 1u << 6u,
-		digit_sep   = 1u << 8u
+		digit_sep   = 1u << 8u,
+		got_digit   = 1u << 9u
 	;
+	size_t lit_flags = after_digits? got_digit : 0;
 	while( *str != 0 && (isalnum(*str) || *str=='.' || *str=='+' || *str=='-' || *str==DigitSep_C) ) {
 		int_fast8_t const chr = *str;
 		switch( chr ) {
@@ -1161,7 +1183,11 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_decimal(char const str[static 1]
 				}
 				break;
 			case 'E': case 'e':
-				if( lit_flags & flt_e_flag ) { /// too many Es.
+				if( !(lit_flags & got_digit) ) { /// no digits before the exponent.
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexBadGylph;
+					goto lex_c_style_decimal_err;
+				} else if( lit_flags & flt_e_flag ) { /// too many Es.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexExtraExp;
 					goto lex_c_style_decimal_err;
@@ -1216,6 +1242,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_decimal(char const str[static 1]
 				if( lit_flags & flt_e_flag ) {
 					lit_flags |= got_exp_num;
 				}
+				lit_flags |= got_digit;
 				if( lit_flags & (uflag|long1|long2) ) { /// numbers after int suffix.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexIntExtraSuffix;
@@ -1230,7 +1257,11 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_decimal(char const str[static 1]
 				}
 				break;
 			case DigitSep_C:
-				if( lit_flags & digit_sep ) { /// too many digit seps.
+				if( !(lit_flags & got_digit) ) { /// digit sep before any digit.
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexDigitSepNotSepDigits;
+					goto lex_c_style_decimal_err;
+				} else if( lit_flags & digit_sep ) { /// too many digit seps.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexExtraDigitSeps;
 					goto lex_c_style_decimal_err;
@@ -1249,7 +1280,10 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_decimal(char const str[static 1]
 	}
 	
 lex_c_style_decimal_end:;
-	if( (lit_flags & flt_e_flag) && (str[-1]=='e'||str[-1]=='E') ) { /// float missing exponent!
+	if( !(lit_flags & got_digit) ) { /// no digits at all.
+		result = HarbolLexBadGylph;
+		goto lex_c_style_decimal_err;
+	} else if( (lit_flags & flt_e_flag) && (str[-1]=='e'||str[-1]=='E') ) { /// float missing exponent!
 		result = HarbolLexNoNumAfterExp;
 		goto lex_c_style_decimal_err;
 	} else if( lit_flags & digit_sep ) { /// digit seps can only separate digits.
@@ -1261,6 +1295,10 @@ lex_c_style_decimal_err:;
 	return result;
 }
 
+HARBOL_EXPORT enum HarbolLexErrType lex_c_style_decimal(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool *const restrict is_float) {
+	return _lex_c_style_decimal(str, end, buf, is_float, false);
+}
+
 HARBOL_EXPORT enum HarbolLexErrType lex_go_style_decimal(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool *const restrict is_float) {
 	int result = HarbolLexNoErr;
 	if( *str==0 ) {
@@ -1273,7 +1311,8 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_decimal(char const str[static 1
 		flt_dot = 1u << 0u,
 		flt_e_flag = 1u << 1u,
 		got_exp_num = 1u << 2u,
-		digit_sep = 1u << 4u
+		digit_sep = 1u << 4u,
+		got_digit = 1u << 5u
 	;
 	while( *str != 0 && (isalnum(*str) || *str=='.' || *str=='+' || *str=='-' || *str==DigitSep_Go) ) {
 		int_fast8_t const chr = *str;
@@ -1306,7 +1345,11 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_decimal(char const str[static 1
 				break;
 			case 'E': case 'e':
 				*is_float = true;
-				if( lit_flags & flt_e_flag ) { /// too many Es.
+				if( !(lit_flags & got_digit) ) { /// no digits before the exponent.
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexBadGylph;
+					goto lex_go_style_decimal_err;
+				} else if( lit_flags & flt_e_flag ) { /// too many Es.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexExtraExp;
 					goto lex_go_style_decimal_err;
@@ -1324,11 +1367,16 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_decimal(char const str[static 1
 				if( lit_flags & flt_e_flag ) {
 					lit_flags |= got_exp_num;
 				}
+				lit_flags |= got_digit;
 				harbol_string_add_char(buf, chr);
 				lit_flags &= ~digit_sep;
 				break;
 			case DigitSep_Go:
-				if( lit_flags & digit_sep ) { /// too many digit seps.
+				if( !(lit_flags & got_digit) ) { /// digit sep before any digit.
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexDigitSepNotSepDigits;
+					goto lex_go_style_decimal_err;
+				} else if( lit_flags & digit_sep ) { /// too many digit seps.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexExtraDigitSeps;
 					goto lex_go_style_decimal_err;
@@ -1347,7 +1395,10 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_decimal(char const str[static 1
 	}
 	
 lex_go_style_decimal_end:;
-	if( (lit_flags & flt_e_flag) && (str[-1]=='e'||str[-1]=='E') ) { /// e mark missing exponent!
+	if( !(lit_flags & got_digit) ) { /// no digits at all.
+		result = HarbolLexBadGylph;
+		goto lex_go_style_decimal_err;
+	} else if( (lit_flags & flt_e_flag) && (str[-1]=='e'||str[-1]=='E') ) { /// e mark missing exponent!
 		result = HarbolLexNoNumAfterExp;
 		goto lex_go_style_decimal_err;
 	} else if( lit_flags & digit_sep ) { /// digit seps can only separate digits.
-- 
2.43.0


From 2c8a68b896d7641e744a9a321a854e3c40d197c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:14 +0000
Subject: [PATCH 057/136] fix: number literals were accepted with several dots
 or a dot after the exponent or suffix

---
 lex/lex.c | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index 4721cd7..eeb735d 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -521,7 +521,11 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], ch
 		switch( chr ) {
 			case '.':
 				*is_float = true;
-				if( !(lit_flags & one_hex) ) { /// missing at least one hex number before float dot.
+				if( lit_flags & (flt_dot|exponent_p|uflag|long1|f_suffix) ) { /// too many dots or dot after exponent/suffix.
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexExtraFltDot;
+					goto lex_c_style_hex_err;
+				} else if( !(lit_flags & one_hex) ) { /// missing at least one hex number before float dot.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexMissingHexB4dot;
 					goto lex_c_style_hex_err;
@@ -712,7 +716,11 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_hex(char const str[static 1], c
 		switch( chr ) {
 			case '.':
 				*is_float = true;
-				if( (lit_flags & digit_sep) || str[1]==DigitSep_Go ) { /// digit sep before or after dot.
+				if( lit_flags & (flt_dot|exponent_p) ) { /// too many dots or dot after exponent.
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexExtraFltDot;
+					goto lex_go_style_hex_err;
+				} else if( (lit_flags & digit_sep) || str[1]==DigitSep_Go ) { /// digit sep before or after dot.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexDigitSepNearDot;
 					goto lex_go_style_hex_err;
@@ -826,6 +834,15 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_octal(char const str[static 1],
 				}
 				break;
 			case '.':
+				if( lit_flags & (uflag|long1) ) { /// dot after suffix.
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexExtraFltDot;
+					goto lex_c_style_octal_err;
+				} else if( lit_flags & digit_sep ) { /// digit sep before dot.
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexDigitSepNearDot;
+					goto lex_c_style_octal_err;
+				}
 				return _lex_c_style_decimal(str, end, buf, is_float, true);
 			case 'U': case 'u':
 				if( lit_flags & uflag ) { /// too many Us.
@@ -1139,7 +1156,7 @@ static enum HarbolLexErrType _lex_c_style_decimal(char const str[static 1], char
 		int_fast8_t const chr = *str;
 		switch( chr ) {
 			case '.':
-				if( lit_flags & flt_dot ) { /// too many float dots.
+				if( lit_flags & (flt_dot|flt_e_flag|uflag|long1) ) { /// too many float dots or dot after exponent/suffix.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexExtraFltDot;
 					goto lex_c_style_decimal_err;
@@ -1319,7 +1336,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_decimal(char const str[static 1
 		switch( chr ) {
 			case '.':
 				*is_float = true;
-				if( lit_flags & flt_dot ) { /// too many float dots.
+				if( lit_flags & (flt_dot|flt_e_flag) ) { /// too many float dots or dot after exponent.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexExtraFltDot;
 					goto lex_go_style_decimal_err;
-- 
2.43.0


From 293b680e60995f05dd2015e7a234897cf9b13f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:14 +0000
Subject: [PATCH 058/136] fix: malformed exponents of number literals were
 accepted

---
 lex/lex.c | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index eeb735d..abebfae 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -535,7 +535,6 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], ch
 					goto lex_c_style_hex_err;
 				} else {
 					lit_flags |= flt_dot;
-					lit_flags &= ~one_hex;
 					harbol_string_add_char(buf, chr);
 				}
 				break;
@@ -545,6 +544,14 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], ch
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexTooManyPs;
 					goto lex_c_style_hex_err;
+				} else if( !(lit_flags & one_hex) ) { /// exponent without digits before it.
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexHexNoDigitsB4Exp;
+					goto lex_c_style_hex_err;
+				} else if( lit_flags & (uflag|long1) ) { /// exponent after suffix.
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexIntExtraSuffix;
+					goto lex_c_style_hex_err;
 				} else if( (lit_flags & digit_sep) || str[1]==DigitSep_C ) { /// digit sep before or after exponent.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexDigitSepNearExp;
@@ -610,6 +617,10 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], ch
 						result = HarbolLexFltExtraSuffix;
 						harbol_string_add_char(buf, chr);
 						goto lex_c_style_hex_err;
+					} else { /// exponents are decimal.
+						result = HarbolLexBadGylph;
+						harbol_string_add_char(buf, chr);
+						goto lex_c_style_hex_err;
 					}
 				}
 				if( !(lit_flags & one_hex) ) {
@@ -731,7 +742,11 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_hex(char const str[static 1], c
 				break;
 			case 'P': case 'p':
 				*is_float = true;
-				if( !(lit_flags & one_hex) ) { /// missing at least one hex number before hex exponent.
+				if( lit_flags & exponent_p ) { /// too many P's.
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexTooManyPs;
+					goto lex_go_style_hex_err;
+				} else if( !(lit_flags & one_hex) ) { /// missing at least one hex number before hex exponent.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexHexNoDigitsB4Exp;
 					goto lex_go_style_hex_err;
@@ -757,6 +772,12 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_hex(char const str[static 1], c
 				break;
 			case 'a': case 'b': case 'c': case 'd': case 'e': case 'f':
 			case 'A': case 'B': case 'C': case 'D': case 'E': case 'F':
+				if( lit_flags & exponent_p ) { /// exponents are decimal.
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexBadGylph;
+					goto lex_go_style_hex_err;
+				}
+				/// fall through.
 			case '0': case '1': case '2': case '3': case '4':
 			case '5': case '6': case '7': case '8': case '9':
 				if( !(lit_flags & one_hex) ) {
@@ -786,6 +807,9 @@ lex_go_style_hex_end:;
 	if( (lit_flags & flt_dot) && !(lit_flags & exponent_p) ) { /// hex float missing exponent.
 		result = HarbolLexHexFltNoExp;
 		goto lex_go_style_hex_err;
+	} else if( (lit_flags & exponent_p) && (str[-1]=='p'||str[-1]=='P') ) { /// exponent with no digits.
+		result = HarbolLexNoNumAfterExp;
+		goto lex_go_style_hex_err;
 	} else if( !(lit_flags & one_hex) ) { /// hex int with no digits.
 		result = HarbolLexHexMissingDigits;
 		goto lex_go_style_hex_err;
@@ -1212,6 +1236,10 @@ static enum HarbolLexErrType _lex_c_style_decimal(char const str[static 1], char
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexExpAfterFltSuffix;
 					goto lex_c_style_decimal_err;
+				} else if( lit_flags & (uflag|long1) ) { /// exponent after suffix.
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexIntExtraSuffix;
+					goto lex_c_style_decimal_err;
 				} else if( (lit_flags & digit_sep) || str[1]==DigitSep_C ) { /// not separating numbers.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexDigitSepNotSepDigits;
@@ -1300,7 +1328,7 @@ lex_c_style_decimal_end:;
 	if( !(lit_flags & got_digit) ) { /// no digits at all.
 		result = HarbolLexBadGylph;
 		goto lex_c_style_decimal_err;
-	} else if( (lit_flags & flt_e_flag) && (str[-1]=='e'||str[-1]=='E') ) { /// float missing exponent!
+	} else if( (lit_flags & flt_e_flag) && !(lit_flags & got_exp_num) ) { /// float missing exponent!
 		result = HarbolLexNoNumAfterExp;
 		goto lex_c_style_decimal_err;
 	} else if( lit_flags & digit_sep ) { /// digit seps can only separate digits.
@@ -1415,7 +1443,7 @@ lex_go_style_decimal_end:;
 	if( !(lit_flags & got_digit) ) { /// no digits at all.
 		result = HarbolLexBadGylph;
 		goto lex_go_style_decimal_err;
-	} else if( (lit_flags & flt_e_flag) && (str[-1]=='e'||str[-1]=='E') ) { /// e mark missing exponent!
+	} else if( (lit_flags & flt_e_flag) && !(lit_flags & got_exp_num) ) { /// e mark missing exponent!
 		result = HarbolLexNoNumAfterExp;
 		goto lex_go_style_decimal_err;
 	} else if( lit_flags & digit_sep ) { /// digit seps can only separate digits.
-- 
2.43.0


From c12d4b4d72a03fe5e8991e44419e7726dbc49aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:14 +0000
Subject: [PATCH 059/136] fix: float literals were accepted with combined or
 integer suffixes

---
 lex/lex.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index abebfae..0ccf1d6 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -574,7 +574,11 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], ch
 				}
 				break;
 			case 'U': case 'u':
-				if( lit_flags & uflag ) { /// too many U's.
+				if( lit_flags & exponent_p ) { /// int suffix on float literal.
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexIntSuffixOnFlt;
+					goto lex_c_style_hex_err;
+				} else if( lit_flags & uflag ) { /// too many U's.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexTooManyUs;
 					goto lex_c_style_hex_err;
@@ -588,7 +592,11 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], ch
 				}
 				break;
 			case 'L': case 'l':
-				if( lit_flags & long2 ) { /// too many L's.
+				if( (lit_flags & exponent_p) && (lit_flags & (long1|f_suffix)) ) { /// extra suffix on float literal.
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexFltExtraSuffix;
+					goto lex_c_style_hex_err;
+				} else if( lit_flags & long2 ) { /// too many L's.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexTooManyLs;
 					goto lex_c_style_hex_err;
@@ -606,7 +614,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], ch
 						goto lex_c_style_hex_err;
 					} else if( (chr=='F'||chr=='f') ) { /// invalid hex float suffix!
 						harbol_string_add_char(buf, chr);
-						if( lit_flags & f_suffix ) {
+						if( lit_flags & (f_suffix|long1) ) {
 							result = HarbolLexFltExtraSuffix;
 							goto lex_c_style_hex_err;
 						} else {
@@ -1210,7 +1218,7 @@ static enum HarbolLexErrType _lex_c_style_decimal(char const str[static 1], char
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexMissingDotOrExp;
 					goto lex_c_style_decimal_err;
-				} else if( lit_flags & flt_f_flag ) { /// already have an F float suffix.
+				} else if( lit_flags & (flt_f_flag|long1) ) { /// already have a float suffix.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexExtraFltSuffix;
 					goto lex_c_style_decimal_err;
@@ -1273,7 +1281,7 @@ static enum HarbolLexErrType _lex_c_style_decimal(char const str[static 1], char
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexTooManyLs;
 					goto lex_c_style_decimal_err;
-				} else if( (lit_flags & (flt_dot|flt_f_flag|flt_e_flag)) && (lit_flags & (long2|uflag)) ) { /// int suffix on float literal.
+				} else if( (lit_flags & (flt_dot|flt_f_flag|flt_e_flag)) && (lit_flags & (long1|flt_f_flag|uflag)) ) { /// int suffix on float literal.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexIntSuffixOnFlt;
 					goto lex_c_style_decimal_err;
-- 
2.43.0


From 8aceb348d98fd35e4e83337a46a06f84ae06ebb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:06 +0000
Subject: [PATCH 060/136] fix: code points beyond U+10FFFF counted as valid

---
 lex/lex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lex/lex.c b/lex/lex.c
index 0ccf1d6..a80ea09 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -37,7 +37,7 @@ HARBOL_EXPORT bool is_valid_unicode(int32_t const u) {
 	/// It's not allowed to encode ASCII characters using \U or \u.
 	/// Some characters not in the basic character set (C11 5.2.1p3)
 	/// are allowed as exceptions.
-	return 0xA0u <= c || c=='$' || c=='@' || c=='`';
+	return (0xA0u <= c && c <= 0x10FFFFu) || c=='$' || c=='@' || c=='`';
 }
 
 HARBOL_EXPORT bool check_is_char(char const str[static 1], size_t const len, size_t const idx, int32_t const c) {
-- 
2.43.0


From c02bb79644b0858c3a50f04f042618b0277926c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:06 +0000
Subject: [PATCH 061/136] fix: skipping a string ending in an escape character
 ran past the terminator

---
 lex/lex.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index a80ea09..4a957f1 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -104,7 +104,7 @@ HARBOL_EXPORT char const *skip_string_literal(char const str[static 1], char con
 	int_fast8_t const quote = *str++;
 	while( *str != 0 && *str != quote ) {
 		int_fast8_t const c = *str;
-		str += ( c==esc )? 2 : 1;
+		str += ( c==esc && str[1] != 0 )? 2 : 1;
 	}
 	return str;
 }
@@ -171,7 +171,7 @@ HARBOL_EXPORT char *clear_multi_line_comment(char str[static 1], char const end_
 HARBOL_EXPORT char const *skip_multiquote_string(char const str[static 1], char const quote[static 1], size_t const quote_len, char const esc) {
 	while( *str != 0 && strncmp(quote, str, quote_len) != 0 ) {
 		int_fast8_t const c = *str;
-		str += ( c==esc )? 2 : 1;
+		str += ( c==esc && str[1] != 0 )? 2 : 1;
 	}
 	if( *str != 0 ) {
 		str += quote_len;
-- 
2.43.0


From 6ab95b3125143195c1b5b16c3755d471ded2942d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:06 +0000
Subject: [PATCH 062/136] fix: a backslash in a single-line comment without a
 following line break ran past the terminator

---
 lex/lex.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index 4a957f1..5fe27e0 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -113,10 +113,11 @@ HARBOL_EXPORT char const *skip_single_line_comment(char const str[static 1], uin
 	char const *begin = str;
 	while( *begin != 0 && *begin != '\n' ) {
 		if( *begin=='\\' ) {
-			while( *++begin != '\n' );
-			if( *begin=='\n' ) {
-				++*lines;
+			while( *++begin != '\n' && *begin != 0 );
+			if( *begin==0 ) {
+				break;
 			}
+			++*lines;
 		}
 		begin++;
 	}
@@ -140,7 +141,10 @@ HARBOL_EXPORT char *clear_single_line_comment(char str[static 1]) {
 	char *begin = str;
 	while( *begin != 0 && *begin != '\n' ) {
 		if( *begin=='\\' ) {
-			while( *++begin != '\n' );
+			while( *++begin != '\n' && *begin != 0 );
+			if( *begin==0 ) {
+				break;
+			}
 			memset(str, ' ', begin-str);
 			str = ++begin;
 		} else {
@@ -183,12 +187,13 @@ HARBOL_EXPORT bool lex_single_line_comment(char const str[static 1], char const
 	while( *str != 0 && *str != '\n' ) {
 		if( *str=='\\' ) {
 			harbol_string_add_char(buf, *str);
-			while( *++str != '\n' ) {
+			while( *++str != '\n' && *str != 0 ) {
 				harbol_string_add_char(buf, *str);
 			}
-			if( *str=='\n' ) {
-				++*lines;
+			if( *str==0 ) {
+				break;
 			}
+			++*lines;
 		}
 		harbol_string_add_char(buf, *str++);
 	}
-- 
2.43.0


From 4688e6bbf302076bd37296f25ff6ee294553a15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:28 +0000
Subject: [PATCH 063/136] fix: multi-line comments were closed by a token
 overlapping the opening one and an empty text was read past its end

---
 lex/lex.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index 5fe27e0..17114b4 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -124,8 +124,9 @@ HARBOL_EXPORT char const *skip_single_line_comment(char const str[static 1], uin
 	return begin;
 }
 HARBOL_EXPORT char const *skip_multi_line_comment(char const str[static 1], char const end_token[static 1], size_t const end_len, uint32_t *const restrict lines) {
-	char const *begin = str + 1;
-	while( *begin != 0 && strncmp(end_token, begin, end_len) != 0 ) {
+	char const *begin = str;
+	/// the opening token, as long as the closing one, cannot be part of the closing one.
+	while( *begin != 0 && (( size_t )(begin - str) < end_len || strncmp(end_token, begin, end_len) != 0) ) {
 		if( *begin=='\n' ) {
 			++*lines;
 		}
@@ -156,8 +157,9 @@ HARBOL_EXPORT char *clear_single_line_comment(char str[static 1]) {
 }
 
 HARBOL_EXPORT char *clear_multi_line_comment(char str[static 1], char const end_token[static 1], size_t const end_len) {
-	char *begin = str + 1;
-	while( *begin != 0 && strncmp(end_token, begin, end_len) != 0 ) {
+	char *begin = str;
+	char const *const start = str;
+	while( *begin != 0 && (( size_t )(begin - start) < end_len || strncmp(end_token, begin, end_len) != 0) ) {
 		if( *begin=='\n' ) {
 			memset(str, ' ', begin-str);
 			str = ++begin;
@@ -202,8 +204,8 @@ HARBOL_EXPORT bool lex_single_line_comment(char const str[static 1], char const
 }
 
 HARBOL_EXPORT bool lex_multi_line_comment(char const str[static 1], char const **const end, char const end_token[static 1], size_t const end_len, struct HarbolString *const restrict buf, uint32_t *const restrict lines) {
-	harbol_string_add_char(buf, *str++);
-	while( *str != 0 && strncmp(end_token, str, end_len) != 0 ) {
+	char const *const start = str;
+	while( *str != 0 && (( size_t )(str - start) < end_len || strncmp(end_token, str, end_len) != 0) ) {
 		if( *str=='\n' ) {
 			++*lines;
 		}
-- 
2.43.0


From 82dfecce17a5adeffe262f5da2025c419406210f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:28 +0000
Subject: [PATCH 064/136] fix: lexing an unterminated multi-line comment
 delivered a closing token that is not in the text

---
 lex/lex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lex/lex.c b/lex/lex.c
index 17114b4..50f2152 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -211,8 +211,8 @@ HARBOL_EXPORT bool lex_multi_line_comment(char const str[static 1], char const *
 		}
 		harbol_string_add_char(buf, *str++);
 	}
-	harbol_string_add_cstr(buf, end_token);
 	if( *str != 0 ) {
+		harbol_string_add_cstr(buf, end_token);
 		str += end_len;
 	}
 	*end = str;
-- 
2.43.0


From b00bc14511ee06f4d8329c4064438407a73415b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:28 +0000
Subject: [PATCH 065/136] fix: line breaks in multi-quote strings were
 delivered twice

---
 lex/lex.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lex/lex.c b/lex/lex.c
index 50f2152..a375763 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -230,7 +230,6 @@ HARBOL_EXPORT bool lex_multiquote_string(char const str[static 1], char const **
 		} else if( c=='\n' ) {
 			/// make sure you converted all carriage returns '\r' to '\n'.
 			++*line;
-			harbol_string_add_char(buf, c);
 		}
 		harbol_string_add_char(buf, *str);
 		str++;
-- 
2.43.0


From d7d9425da83df08bfc1d970929427af56c866da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:28 +0000
Subject: [PATCH 066/136] fix: unterminated multi-quote strings were reported
 as success

---
 lex/lex.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index a375763..2df4e07 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -224,21 +224,19 @@ HARBOL_EXPORT bool lex_multiquote_string(char const str[static 1], char const **
 		str += quote_len;
 	}
 	while( str[0] != 0 && strncmp(str, quote, quote_len) ) {
-		int_fast8_t const c = *str;
-		if( c==0 ) {
-			return false;
-		} else if( c=='\n' ) {
+		if( *str=='\n' ) {
 			/// make sure you converted all carriage returns '\r' to '\n'.
 			++*line;
 		}
 		harbol_string_add_char(buf, *str);
 		str++;
 	}
-	if( !strncmp(str, quote, quote_len) ) {
+	bool const terminated = *str != 0;
+	if( terminated ) {
 		str += quote_len;
 	}
 	*end = str;
-	return true;
+	return terminated;
 }
 
 HARBOL_EXPORT size_t rune_byte_len(int32_t const rune) {
-- 
2.43.0


From d6ed8cd4994d40a7ded8ba450abe936b591298c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:28 +0000
Subject: [PATCH 067/136] fix: string lexing read past the terminator after a
 final backslash and in an empty text

---
 lex/lex.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lex/lex.c b/lex/lex.c
index 2df4e07..174d931 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -1510,6 +1510,10 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_number(char const str[static 1]
 
 static NO_NULL enum HarbolLexErrType _lex_str(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool const raw) {
 	int result = HarbolLexNoErr;
+	if( *str==0 ) {
+		*end = str;
+		return HarbolLexEoF;
+	}
 	for( int_fast8_t const quote = *str++; *str != quote; str++ ) {
 		int_fast8_t const c = *str;
 		if( c==0 ) {
@@ -1517,6 +1521,10 @@ static NO_NULL enum HarbolLexErrType _lex_str(char const str[static 1], char con
 			goto lex_str_err;
 		} else if( c=='\\' ) {
 			char const esc = *++str;
+			if( esc==0 ) {
+				result = HarbolLexSuddenEoFStr;
+				goto lex_str_err;
+			}
 			if( raw ) {
 				harbol_string_add_char(buf, c);
 				harbol_string_add_char(buf, esc);
-- 
2.43.0


From 74c7e83d0ec17cc0fe0f011549ea32ebfa040f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:47 +0000
Subject: [PATCH 068/136] fix: backslashes in Go raw strings escaped the
 closing backquote

---
 lex/lex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lex/lex.c b/lex/lex.c
index 174d931..8fb6b3f 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -1527,7 +1527,7 @@ static NO_NULL enum HarbolLexErrType _lex_str(char const str[static 1], char con
 			}
 			if( raw ) {
 				harbol_string_add_char(buf, c);
-				harbol_string_add_char(buf, esc);
+				str--; /// backslashes aren't special in raw strings.
 			} else {
 				switch( esc ) {
 					case 'a': harbol_string_add_char(buf, '\a'); break;
-- 
2.43.0


From 2c7bda7a293566e61a82aeb15d50d9ea94a2372a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:47 +0000
Subject: [PATCH 069/136] fix: lexing something that is no identifier left the
 end position unset

---
 lex/lex.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lex/lex.c b/lex/lex.c
index 8fb6b3f..0c246ad 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -1668,6 +1668,7 @@ lex_id_u8_err:
 }
 
 HARBOL_EXPORT bool lex_c_style_identifier(char const str[static 1], char const **const end, struct HarbolString *const restrict buf) {
+	*end = str;
 	if( !is_alphabetic(*str) ) {
 		return false;
 	}
-- 
2.43.0


From b4e1f339ce2eac787302128bedd3b3f97068d407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:47 +0000
Subject: [PATCH 070/136] fix: octal escapes took more than three digits and
 left the end position unset

---
 lex/lex.c | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index 0c246ad..e295a02 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -441,18 +441,14 @@ HARBOL_EXPORT int32_t lex_octal_escape_char(char const str[static 1], char const
 	if( !is_octal(*str) ) {
 		r = -1;
 	} else {
-		for( ; *str != 0; count++ ) {
+		for( ; *str != 0 && count < 3; count++ ) { /// at most three digits.
 			int_fast8_t const c = *str;
-			if( count > 3 ) {
-				return -1; /// out of range.
-			} else {
-				switch( c ) {
-					case '0': case '1': case '2': case '3':
-					case '4': case '5': case '6': case '7':
-						r = (r << 3) | (c - '0'); break;
-					default:
-						goto exit;
-				}
+			switch( c ) {
+				case '0': case '1': case '2': case '3':
+				case '4': case '5': case '6': case '7':
+					r = (r << 3) | (c - '0'); break;
+				default:
+					goto exit;
 			}
 			str++;
 		}
-- 
2.43.0


From 2ee81fc9178dbd41a1f83a6651f3e9bc517bbccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:08 +0000
Subject: [PATCH 071/136] fix: hex escapes beyond U+10FFFF overflowed or were
 dropped silently

---
 lex/lex.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lex/lex.c b/lex/lex.c
index e295a02..b04fab4 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -416,6 +416,10 @@ HARBOL_EXPORT int32_t lex_hex_escape_char(char const str[static 1], char const *
 	} else {
 		for( ; *str != 0; count++ ) {
 			int_fast8_t const c = *str;
+			if( is_hex(c) && r > (INT32_MAX >> 4) ) { /// out of range.
+				r = -1;
+				goto exit;
+			}
 			switch( c ) {
 				case '0': case '1': case '2': case '3': case '4':
 				case '5': case '6': case '7': case '8': case '9':
@@ -1538,7 +1542,7 @@ static NO_NULL enum HarbolLexErrType _lex_str(char const str[static 1], char con
 					case 'x': case 'X': {
 						str++;
 						int32_t const h = lex_hex_escape_char(str, &str);
-						if( h == -1 ) {
+						if( h == -1 || rune_byte_len(h)==0 ) {
 							result = HarbolLexBadHexChar;
 							goto lex_str_err;
 						} else {
-- 
2.43.0


From 9a6862fe4569775cb8639a385bed5661e7270cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:08 +0000
Subject: [PATCH 072/136] fix: unicode escapes with too few digits were
 accepted

---
 lex/lex.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index b04fab4..966f19f 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -463,8 +463,9 @@ exit:;
 }
 
 HARBOL_EXPORT int32_t lex_unicode_char(char const str[static 1], char const **const end, size_t const encoding) {
-	int32_t r = 0;
-	for( size_t i=0; i < encoding*2; i++ ) {
+	uint32_t r = 0;
+	size_t digits = 0;
+	for( ; digits < encoding*2; digits++ ) {
 		int_fast8_t const c = *str;
 		switch( c ) {
 			case '0': case '1': case '2': case '3': case '4':
@@ -481,7 +482,7 @@ HARBOL_EXPORT int32_t lex_unicode_char(char const str[static 1], char const **co
 	}
 exit:;
 	*end = str;
-	return !is_valid_unicode(r)? -1 : r;
+	return digits < encoding*2 || !is_valid_unicode(r)? -1 : ( int32_t )(r);
 }
 
 HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool *const restrict is_float) {
-- 
2.43.0


From cc9b18291cfd6760f83b690860061e8cfd32e4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:16 +0000
Subject: [PATCH 073/136] fix: skipping a string in an empty text read past the
 terminator

---
 lex/lex.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lex/lex.c b/lex/lex.c
index 966f19f..5cedf9b 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -101,6 +101,9 @@ HARBOL_EXPORT char const *skip_chars_until_newline(char const str[static 1], boo
 }
 
 HARBOL_EXPORT char const *skip_string_literal(char const str[static 1], char const esc) {
+	if( *str==0 ) {
+		return str;
+	}
 	int_fast8_t const quote = *str++;
 	while( *str != 0 && *str != quote ) {
 		int_fast8_t const c = *str;
-- 
2.43.0


From c9fc3bdbc802fc883885c6154edcc321459f2381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:42 +0000
Subject: [PATCH 074/136] fix: math: long number literals overflowed the lexeme
 buffer, malformed ones counted as 0

---
 math/math_parser.c | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/math/math_parser.c b/math/math_parser.c
index fd733da..95993f6 100644
--- a/math/math_parser.c
+++ b/math/math_parser.c
@@ -39,14 +39,13 @@ struct HarbolMathLexer {
 
 
 static NO_NULL bool _harbol_math_lex_decimal(struct HarbolMathLexer *const restrict ls, char const expression[const restrict static 1]) {
-	bool has_dot = false;
-	while( expression[ls->idx] != 0 && (isalnum(expression[ls->idx]) || expression[ls->idx]=='.') ) {
+	bool has_dot = false, has_digit = false;
+	char const *const literal = &expression[ls->idx];
+	for( ; expression[ls->idx] != 0 && (isalnum(expression[ls->idx]) || expression[ls->idx]=='.'); ls->idx++ ) {
 		switch( expression[ls->idx] ) {
 			case '0': case '1': case '2': case '3': case '4':
 			case '5': case '6': case '7': case '8': case '9': {
-				ls->tok.lexeme[ls->tok.size] = expression[ls->idx];
-				ls->tok.size++;
-				ls->idx++;
+				has_digit = true;
 				break;
 			}
 			case '.': {
@@ -54,21 +53,20 @@ static NO_NULL bool _harbol_math_lex_decimal(struct HarbolMathLexer *const restr
 					//LogError("ConfigMap-Math :: extra dot in decimal literal");
 					return false;
 				}
-				ls->tok.lexeme[ls->tok.size] = expression[ls->idx];
-				ls->tok.size++;
-				ls->idx++;
 				has_dot = true;
 				break;
 			}
 			default: {
-				ls->tok.lexeme[ls->tok.size] = expression[ls->idx];
-				ls->tok.size++;
-				//LogError("ConfigMap-Math :: invalid decimal literal: '%s'", ls->tok.lexeme);
+				//LogError("ConfigMap-Math :: invalid decimal literal: '%s'", literal);
 				return false;
 			}
 		}
 	}
-	return true;
+	if( has_digit ) {
+		/// read from the expression itself, the literal can be longer than a lexeme.
+		ls->tok.val = strtofmax(literal, NULL);
+	}
+	return has_digit;
 }
 
 static NO_NULL bool _harbol_math_get_token(struct HarbolMathLexer *const restrict ls, char const expression[const restrict static 1]) {
@@ -85,12 +83,9 @@ static NO_NULL bool _harbol_math_get_token(struct HarbolMathLexer *const restric
 			case '.': 
 			case '0': case '1': case '2': case '3': case '4':
 			case '5': case '6': case '7': case '8': case '9': {
-				ls->tok.tag = TokenNum;
 				/// Decimal/Float.
 				bool const res = _harbol_math_lex_decimal(ls, expression);
-				if( res ) {
-					ls->tok.val = strtofmax(ls->tok.lexeme, NULL);
-				}
+				ls->tok.tag = (res)? TokenNum : TokenInvalid;
 				return res;
 			}
 			case '(': {
-- 
2.43.0


From fdb971c9a25613f2721fb7ce8a8634b048d34838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:42 +0000
Subject: [PATCH 075/136] fix: math: names of 64 or more characters were cut
 off without terminator

---
 math/math_parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/math/math_parser.c b/math/math_parser.c
index 95993f6..587577a 100644
--- a/math/math_parser.c
+++ b/math/math_parser.c
@@ -159,7 +159,8 @@ static NO_NULL bool _harbol_math_get_token(struct HarbolMathLexer *const restric
 					ls->tok.size++;
 					got_something = true;
 				}
-				if( got_something ) {
+				/// a name that fills the lexeme is cut off and not terminated.
+				if( got_something && ls->tok.size < LEXEME_SIZE ) {
 					ls->tok.tag = TokenVar;
 					return true;
 				}			
-- 
2.43.0


From 959a587f2e38ad8a5cb399f782780f5b960362fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:03 +0000
Subject: [PATCH 076/136] fix: math: errors evaluated to an ordinary number, or
 were lost, and trailing input was ignored

---
 math/math_parser.c | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/math/math_parser.c b/math/math_parser.c
index 587577a..25ffb79 100644
--- a/math/math_parser.c
+++ b/math/math_parser.c
@@ -35,6 +35,7 @@ struct HarbolMathLexer {
 	HarbolMathVarFunc       *var_func;
 	void                    *data;
 	size_t                   expr_len, idx, data_len;
+	bool                     failed;
 };
 
 
@@ -86,6 +87,7 @@ static NO_NULL bool _harbol_math_get_token(struct HarbolMathLexer *const restric
 				/// Decimal/Float.
 				bool const res = _harbol_math_lex_decimal(ls, expression);
 				ls->tok.tag = (res)? TokenNum : TokenInvalid;
+				ls->failed |= !res;
 				return res;
 			}
 			case '(': {
@@ -165,6 +167,7 @@ static NO_NULL bool _harbol_math_get_token(struct HarbolMathLexer *const restric
 					return true;
 				}			
 				//LogError("ConfigMap-Math :: invalid expression token '%s'.", ls->tok.lexeme);
+				ls->failed = true;
 				return false;
 			}
 		}
@@ -187,7 +190,10 @@ HARBOL_EXPORT floatmax_t harbol_math_parse_expr(char const expression[const rest
 		.data_len = data_len,
 	};
 	_harbol_math_get_token(&ls, expression);
-	return harbol_math_parse_add_expr(&ls, expression);
+	floatmax_t const result = harbol_math_parse_add_expr(&ls, expression);
+	/// an error must not be lost on the way up: `pow(x, 0)` is 1 for any x, even NaN.
+	/// neither may anything be left over after the expression.
+	return( ls.failed || ls.tok.tag != TokenInvalid )? ( floatmax_t )(NAN) : result;
 }
 
 /// AddExpr = MulExpr *( ('+' | '-') MulExpr ) .
@@ -251,10 +257,6 @@ floatmax_t harbol_math_parse_unary_expr(struct HarbolMathLexer *const restrict l
 
 /// Factor = number | ident | func ( '(' | '[' )? UnaryExpr , PowExpr | '(' Expr ')' | '[' Expr ']' .
 floatmax_t harbol_math_parse_factor(struct HarbolMathLexer *const restrict ls, char const expression[const restrict static 1]) {
-	union {
-		uintmax_t  u;
-		floatmax_t f;
-	} value = { UINTMAX_MAX };
 	switch( ls->tok.tag ) {
 		case TokenNum: {
 			floatmax_t const f = ls->tok.val;
@@ -268,22 +270,28 @@ floatmax_t harbol_math_parse_factor(struct HarbolMathLexer *const restrict ls, c
 			_harbol_math_get_token(ls, expression);
 			
 			/// void HarbolMathVarFunc(char const var_name[], size_t var_len, floatmax_t *value, HarbolMathFunc **math_func, void *data, size_t data_len, bool *is_func);
+			floatmax_t value = ( floatmax_t )(NAN);
 			if( ls->var_func != NULL ) {
 				HarbolMathFunc *math_fn = NULL;
 				bool is_func = false;
-				(*ls->var_func)(lexeme, len, &value.f, &math_fn, ls->data, ls->data_len, &is_func);
+				(*ls->var_func)(lexeme, len, &value, &math_fn, ls->data, ls->data_len, &is_func);
 				if( is_func && math_fn != NULL ) {
 					return (*math_fn)( (ls->tok.tag==TokenLParen || ls->tok.tag==TokenLBrack)? harbol_math_parse_unary_expr(ls, expression) : harbol_math_parse_pow_expr(ls, expression) );
 				}
 			}
-			return value.f;
+			if( isnan(value) ) {
+				/// nothing by that name.
+				ls->failed = true;
+			}
+			return value;
 		}
 		case TokenLParen: {
 			_harbol_math_get_token(ls, expression);
 			floatmax_t const f = harbol_math_parse_add_expr(ls, expression);
 			if( ls->tok.tag != TokenRParen ) {
 				//LogError("ConfigMap-Math :: expected ')' bracket but got '%s'", ls->tok.lexeme);
-				return value.f;
+				ls->failed = true;
+				return ( floatmax_t )(NAN);
 			}
 			_harbol_math_get_token(ls, expression);
 			return f;
@@ -293,13 +301,15 @@ floatmax_t harbol_math_parse_factor(struct HarbolMathLexer *const restrict ls, c
 			floatmax_t const f = harbol_math_parse_add_expr(ls, expression);
 			if( ls->tok.tag != TokenRBrack ) {
 				//LogError("ConfigMap-Math :: expected ']' bracket but got '%s'", ls->tok.lexeme);
-				return value.f;
+				ls->failed = true;
+				return ( floatmax_t )(NAN);
 			}
 			_harbol_math_get_token(ls, expression);
 			return f;
 		}
 		default: {
-			return value.f;
+			ls->failed = true;
+			return ( floatmax_t )(NAN);
 		}
 	}
 }
-- 
2.43.0


From e6a8b28984d68fd9c53693bbf75cf3e4a0bbbf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:27 +0000
Subject: [PATCH 077/136] fix: cfg: empty strings crashed, inline math in keys
 replaced the wrong range or was cut off, errors in it were ignored

---
 cfg/cfg.c | 53 ++++++++++++++++++++++-------------------------------
 1 file changed, 22 insertions(+), 31 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 69ddaa3..8014485 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -110,32 +110,30 @@ static void _harbol_cfg_math_var_func(
 	harbol_math_default_var_func(var_name, var_len, value, math_func, data, data_len, is_func);
 }
 
-static NO_NULL floatmax_t _harbol_cfg_parse_inline_math(struct HarbolString *const str, HarbolCfgState *const parse_state, bool const replace_str_with_res) {
-	union {
-		uintmax_t  u;
-		floatmax_t f;
-	} const c = { -1ULL };
-	char const *math_str = strstr(str->cstr, "<math");
+/// replaces the first `<math expression>` with its value, false if it is malformed.
+static NO_NULL bool _harbol_cfg_parse_inline_math(struct HarbolString *const str, HarbolCfgState *const parse_state) {
+	char const *const math_str = harbol_string_empty(str)? NULL : strstr(str->cstr, "<math");
 	if( math_str==NULL ) {
-		return c.f;
+		return true;
 	}
-	char const *expr_start = math_str + sizeof "<math" - 1;
-	char *math_end = strchr(expr_start, '>');
+	char const *const expr_start = math_str + sizeof "<math" - 1;
+	char *const math_end = strchr(expr_start, '>');
 	if( math_end==NULL ) {
 		/// missing ending '>'. Forgot it?
 		harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "syntax error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: ending '>' for math expression\n");
-		return c.f;
+		return false;
 	}
 	math_end[0] = 0; /// temporarily set it as null terminator.
 	floatmax_t const result = harbol_math_parse_expr(expr_start, _harbol_cfg_math_var_func, parse_state, sizeof *parse_state);
 	math_end[0] = '>';
-	if( replace_str_with_res ) {
-		size_t const start = ( size_t )(math_str - str->cstr);
-		char result_str[30] = {0};
-		snprintf(&result_str[0],  sizeof result_str - 1,  "%" PRIfMAX "", result);
-		harbol_string_replace_range(str, start, (math_end==NULL)? SIZE_MAX : ( size_t )(math_end - math_str), result_str);
+	if( isnan(result) ) {
+		harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "syntax error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: invalid math expression in '%s'.\n", str->cstr);
+		return false;
 	}
-	return result;
+	char *number = sprintf_alloc("%" PRIfMAX "", result);
+	bool const res = number != NULL && harbol_string_replace_range(str, ( size_t )(math_str - str->cstr), ( size_t )(math_end - str->cstr), number);
+	free(number); number = NULL;
+	return res;
 }
 
 static inline bool _cfgmath_end_and_newline(int32_t const c) {
@@ -218,7 +216,10 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		if( harbol_string_replace_cstr(&keystr, "<ENUM>", global_enum_str, SIZE_MAX) ) {
 			++parse_state->global_enum;
 		}
-		_harbol_cfg_parse_inline_math(&keystr, parse_state, true);
+		if( !_harbol_cfg_parse_inline_math(&keystr, parse_state) ) {
+			harbol_string_clear(&keystr);
+			return false;
+		}
 	}
 	
 	bool res = false;
@@ -261,20 +262,10 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			harbol_string_clear(&keystr);
 			return false;
 		}
-		char *math_marker = strstr(str->cstr, "<math");
-		if( math_marker != NULL ) {
-			char *const math_start = math_marker + sizeof "<math"-1;
-			char *const math_end = strchr(math_start, '>');
-			if( math_end != NULL ) {
-				*math_end = 0;
-			}
-			floatmax_t const expr_result = harbol_math_parse_expr(math_start, _harbol_cfg_math_var_func, parse_state, sizeof *parse_state);
-			if( math_end != NULL ) {
-				*math_end = '>';
-			}
-			char *number = sprintf_alloc("%" PRIfMAX "", expr_result);
-			harbol_string_replace_range(str, math_marker - str->cstr, ( size_t )(math_end - str->cstr), number);
-			free(number); number = NULL;
+		if( !_harbol_cfg_parse_inline_math(str, parse_state) ) {
+			harbol_string_clear(&keystr);
+			harbol_string_free(&str);
+			return false;
 		}
 		struct HarbolVariant var = harbol_variant_make(&str, sizeof str, HarbolCfgType_String, &( bool ){0});
 		harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var);
-- 
2.43.0


From 07f7d4891ebf8dc38b6cd47240ed15df1c09a9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:27 +0000
Subject: [PATCH 078/136] fix: cfg: a malformed string value or include path
 leaked its text

---
 cfg/cfg.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 8014485..58d5142 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -180,6 +180,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		int const str_res = lex_c_style_str(*cfgcoderef, cfgcoderef, &file_path);
 		if( str_res > HarbolLexNoErr ) {
 			harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "syntax error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: invalid string value '%s' for key '%s' %s.\n", file_path.cstr, keystr.cstr, lex_get_err(str_res));
+			harbol_string_clear(&file_path);
 			harbol_string_clear(&keystr);
 			return false;
 		}
@@ -259,6 +260,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		int const str_res = lex_c_style_str(*cfgcoderef, cfgcoderef, str);
 		if( str_res > HarbolLexNoErr ) {
 			harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "syntax error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: invalid string value '%s' for key '%s' %s.\n", str->cstr, keystr.cstr, lex_get_err(str_res));
+			harbol_string_free(&str);
 			harbol_string_clear(&keystr);
 			return false;
 		}
-- 
2.43.0


From 70fa846cea2647980666604da3934f434edb6825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:27 +0000
Subject: [PATCH 079/136] fix: cfg: a key made a duplicate by <enum> or <math>
 leaked its value and was dropped silently

---
 cfg/cfg.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 58d5142..9d44c09 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -220,6 +220,11 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		if( !_harbol_cfg_parse_inline_math(&keystr, parse_state) ) {
 			harbol_string_clear(&keystr);
 			return false;
+		} else if( harbol_map_has_key(map, keystr.cstr, keystr.len+1) ) {
+			/// the substitutions can make a key that's already there.
+			harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "syntax error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: duplicate string key '%s'.\n", keystr.cstr);
+			harbol_string_clear(&keystr);
+			return false;
 		}
 	}
 	
-- 
2.43.0


From d22e00d18763ef17ea02298da09d0688efcd1941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:27 +0000
Subject: [PATCH 080/136] fix: cfg: an include with an empty or repeated path
 crashed or leaked, one at the end of a section was an error

---
 cfg/cfg.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 9d44c09..d2d5e49 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -186,16 +186,28 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		}
 		
 		harbol_string_clear(&keystr);
+		if( harbol_string_empty(&file_path) ) {
+			harbol_write_msg(NULL, stderr, parse_state->cfg_filename, "parse warning", COLOR_MAGENTA, &parse_state->curr_line, NULL, "Harbol Config Parser :: empty path of cfg file to include\n");
+			harbol_string_clear(&file_path);
+			skip_ws_and_comments(cfgcoderef, parse_state);
+			return true;
+		} else if( harbol_map_has_key(map, file_path.cstr, file_path.len+1) ) {
+			harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "syntax error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: duplicate string key '%s'.\n", file_path.cstr);
+			harbol_string_clear(&file_path);
+			return false;
+		}
 		struct HarbolMap *included_cfg = harbol_cfg_parse_file(file_path.cstr);
 		if( included_cfg==NULL ) {
 			/// if we failed somehow, warn, and set the value as a null.
 			harbol_write_msg(NULL, stderr, parse_state->cfg_filename, "parse warning", COLOR_MAGENTA, &parse_state->curr_line, NULL, "Harbol Config Parser :: failed to include cfg file '%s'\n", file_path.cstr);
 			harbol_string_clear(&file_path);
+			skip_ws_and_comments(cfgcoderef, parse_state);
 			return true;
 		} else {
 			struct HarbolVariant var = harbol_variant_make(&included_cfg, sizeof included_cfg, HarbolCfgType_Map, &( bool ){0});
 			bool const inclusion_res = harbol_map_insert(map, file_path.cstr, file_path.len+1, &var, sizeof var);
 			harbol_string_clear(&file_path);
+			skip_ws_and_comments(cfgcoderef, parse_state);
 			return inclusion_res;
 		}
 	} else {
-- 
2.43.0


From 0a3a6be3952f269b8630594b24e1ade563a12bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:28 +0000
Subject: [PATCH 081/136] fix: cfg: a file that includes itself was parsed
 until the stack ran out

---
 cfg/cfg.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index d2d5e49..b096aa2 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -17,7 +17,8 @@ math    = "<math" expression ">" . /// See HarbolMath module for math parser's g
 ```
  */
 
-typedef struct {
+typedef struct HarbolCfgState {
+	struct HarbolCfgState const *includer; /// state of the file that includes this one.
 	size_t      errc;
 	intmax_t   *local_iota, *local_enum, global_iota, global_enum;
 	char const *cfg_filename;
@@ -77,6 +78,7 @@ static bool NO_NULL _lex_number(char const **restrict strref, struct HarbolStrin
 }
 
 static NO_NULL bool harbol_cfg_parse_section(struct HarbolMap *cfg, char const **code_ref, HarbolCfgState *parse_state);
+static struct HarbolMap *_harbol_cfg_parse_file(char const filename[], HarbolCfgState const *includer);
 static NO_NULL bool harbol_cfg_parse_number(struct HarbolMap *cfg, struct HarbolString const *key, char const **code_ref, HarbolCfgState *parse_state);
 
 
@@ -136,6 +138,15 @@ static NO_NULL bool _harbol_cfg_parse_inline_math(struct HarbolString *const str
 	return res;
 }
 
+static bool _is_being_parsed(HarbolCfgState const *state, char const filename[const static 1]) {
+	for( ; state != NULL; state = state->includer ) {
+		if( state->cfg_filename != NULL && !strcmp(state->cfg_filename, filename) ) {
+			return true;
+		}
+	}
+	return false;
+}
+
 static inline bool _cfgmath_end_and_newline(int32_t const c) {
 	return c != '>' && c != '\n';
 }
@@ -196,7 +207,8 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			harbol_string_clear(&file_path);
 			return false;
 		}
-		struct HarbolMap *included_cfg = harbol_cfg_parse_file(file_path.cstr);
+		/// a file that includes itself, directly or not, would be parsed forever.
+		struct HarbolMap *included_cfg = _is_being_parsed(parse_state, file_path.cstr)? NULL : _harbol_cfg_parse_file(file_path.cstr, parse_state);
 		if( included_cfg==NULL ) {
 			/// if we failed somehow, warn, and set the value as a null.
 			harbol_write_msg(NULL, stderr, parse_state->cfg_filename, "parse warning", COLOR_MAGENTA, &parse_state->curr_line, NULL, "Harbol Config Parser :: failed to include cfg file '%s'\n", file_path.cstr);
@@ -489,8 +501,8 @@ static struct HarbolMap *_harbol_cfg_parse(char const cfgcode[static 1], HarbolC
 	return objs;
 }
 
-HARBOL_EXPORT struct HarbolMap *harbol_cfg_parse_file(char const filename[static 1]) {
-	HarbolCfgState parse_state = {0};
+static struct HarbolMap *_harbol_cfg_parse_file(char const filename[static 1], HarbolCfgState const *const includer) {
+	HarbolCfgState parse_state = { .includer = includer };
 	FILE *restrict cfgfile = fopen(filename, "r");
 	if( cfgfile==NULL ) {
 		harbol_write_msg(&parse_state.errc, stderr, NULL, "parse error", COLOR_RED, NULL, NULL, "Harbol Config Parser :: unable to find file '%s'.\n", filename);
@@ -512,6 +524,10 @@ HARBOL_EXPORT struct HarbolMap *harbol_cfg_parse_file(char const filename[static
 	return objs;
 }
 
+HARBOL_EXPORT struct HarbolMap *harbol_cfg_parse_file(char const filename[static 1]) {
+	return _harbol_cfg_parse_file(filename, NULL);
+}
+
 
 HARBOL_EXPORT struct HarbolMap *harbol_cfg_parse_cstr(char const cfgcode[static 1]) {
 	HarbolCfgState parse_state = {0};
-- 
2.43.0


From 9efc819bc3ffcd338d744732ba685cef172a35ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:28 +0000
Subject: [PATCH 082/136] fix: cfg: binary numbers and numbers with digit
 separators were cut off, a malformed number in a vector crashed

---
 cfg/cfg.c | 42 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index b096aa2..bfab076 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -74,9 +74,35 @@ static bool NO_NULL _lex_number(char const **restrict strref, struct HarbolStrin
 	}
 	*strref = end;
 	*typeref = (is_float)? HarbolCfgType_Float : HarbolCfgType_Int;
+	
+	/// the conversions know nothing of digit separators.
+	size_t len = 0;
+	for( size_t i=0; i < str->len; i++ ) {
+		if( str->cstr[i] != '\'' ) {
+			str->cstr[len++] = str->cstr[i];
+		}
+	}
+	if( str->cstr != NULL ) {
+		str->cstr[str->len = len] = 0;
+	}
 	return str->len > 0;
 }
 
+static NO_NULL intmax_t _number_to_int(struct HarbolString const *const num) {
+	char const *const digits = &num->cstr[num->cstr[0]=='-' || num->cstr[0]=='+'];
+	if( digits[0]=='0' && (digits[1]=='b' || digits[1]=='B') ) {
+		uintmax_t const value = strtoull(&digits[2], NULL, 2);
+		return ( intmax_t )( (num->cstr[0]=='-')? 0 - value : value );
+	}
+	return strtoll(num->cstr, NULL, 0);
+}
+
+static NO_NULL floatmax_t _number_to_float(struct HarbolString const *const num, enum HarbolCfgType const type) {
+	char const *const digits = &num->cstr[num->cstr[0]=='-' || num->cstr[0]=='+'];
+	bool const is_octal_or_binary = type==HarbolCfgType_Int && digits[0]=='0' && digits[1] != 'x' && digits[1] != 'X';
+	return (is_octal_or_binary)? ( floatmax_t )(_number_to_int(num)) : lex_string_to_float(num);
+}
+
 static NO_NULL bool harbol_cfg_parse_section(struct HarbolMap *cfg, char const **code_ref, HarbolCfgState *parse_state);
 static struct HarbolMap *_harbol_cfg_parse_file(char const filename[], HarbolCfgState const *includer);
 static NO_NULL bool harbol_cfg_parse_number(struct HarbolMap *cfg, struct HarbolString const *key, char const **code_ref, HarbolCfgState *parse_state);
@@ -324,15 +350,15 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			struct HarbolString numstr = {0};
 			enum HarbolCfgType type = HarbolCfgType_Null;
 			bool const result = _lex_number(cfgcoderef, &numstr, &type, parse_state);
-			if( iterations < 4 ) {
+			if( result && iterations < 4 ) {
 				if( valtype=='c' ) {
-					matrix_value.color.array[iterations] = ( uint8_t )(strtoul(numstr.cstr, NULL, 0));
+					matrix_value.color.array[iterations] = ( uint8_t )(_number_to_int(&numstr));
 				} else {
 					switch( iterations ) {
-						case 0: matrix_value.vec4d.x = lex_string_to_float(&numstr); break;
-						case 1: matrix_value.vec4d.y = lex_string_to_float(&numstr); break;
-						case 2: matrix_value.vec4d.z = lex_string_to_float(&numstr); break;
-						case 3: matrix_value.vec4d.w = lex_string_to_float(&numstr); break;
+						case 0: matrix_value.vec4d.x = _number_to_float(&numstr, type); break;
+						case 1: matrix_value.vec4d.y = _number_to_float(&numstr, type); break;
+						case 2: matrix_value.vec4d.z = _number_to_float(&numstr, type); break;
+						case 3: matrix_value.vec4d.w = _number_to_float(&numstr, type); break;
 					}
 				}
 				iterations++;
@@ -454,10 +480,10 @@ static bool harbol_cfg_parse_number(struct HarbolMap *const restrict map, struct
 	
 	struct HarbolVariant var = {0};
 	if( type==HarbolCfgType_Float ) {
-		floatmax_t f = lex_string_to_float(&numstr);
+		floatmax_t f = _number_to_float(&numstr, type);
 		var = harbol_variant_make(&f, sizeof f, type, &( bool ){0});
 	} else {
-		intmax_t i = strtoll(numstr.cstr, NULL, 0);
+		intmax_t i = _number_to_int(&numstr);
 		var = harbol_variant_make(&i, sizeof i, HarbolCfgType_Int, &( bool ){0});
 	}
 	harbol_string_clear(&numstr);
-- 
2.43.0


From 788d55756fba2a364eead056b61b2122adbe0a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:13 +0000
Subject: [PATCH 083/136] fix: cfg: paths through values, with repeated names,
 empty or escaped parts and top-level nulls found the wrong entry

---
 cfg/cfg.c | 84 +++++++++++--------------------------------------------
 1 file changed, 16 insertions(+), 68 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index bfab076..ec3e66c 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -648,82 +648,30 @@ HARBOL_EXPORT struct HarbolString harbol_cfg_to_str(struct HarbolMap const *cons
 	return cfg_str;
 }
 
-static NO_NULL bool harbol_cfg_parse_target_path(char const key[static 1], struct HarbolString *const restrict str) {
-	/// parse something like: "root.section1.section2.section3.\\.dotsection"
-	char const *iter = key;
-	iter += strlen(key) - 1;
-	while( iter != key ) {
-		if( *iter=='.' ) {
-			if( iter[-1]=='\\' ) {
-				iter--;
-			} else {
-				iter++;
-				break;
-			}
-		} else {
-			iter--;
-		}
-	}
-	
-	/// now we save the target section and then use the resulting string.
-	while( *iter != 0 ) {
-		if( *iter=='\\' ) {
-			iter++;
-			continue;
-		}
-		harbol_string_add_char(str, *iter++);
-	}
-	return str->len > 0;
-}
-
+/// walks something like: "root.section1.section2.section3.\\.dotsection"
 static NO_NULL struct HarbolVariant *_get_var(struct HarbolMap const *const cfgmap, char const key[const]) {
-	/// first check if we're getting a singular value OR we iterate through a sectional path.
-	char const *dot = strchr(key, '.');
-	
-	/// Patch: dot and escaped dot glitching out the hashmap hashing...
-	if( dot==NULL || (dot > key && (dot[-1] == '\\')) ) {
-		struct HarbolVariant *const restrict var = harbol_map_key_get(cfgmap, key, strlen(key)+1);
-		return( var==NULL || var->tag==HarbolCfgType_Null )? NULL : var;
-	}
-	
-	/// ok, not a singular value, iterate to the specific map section then.
-	/// parse the target key first.
-	char const *iter = key;
-	struct HarbolString
-		sectionstr = {0},
-		targetstr = {0}
-	;
-	
-	harbol_cfg_parse_target_path(key, &targetstr);
 	struct HarbolMap const *itermap = cfgmap;
-	struct HarbolVariant *restrict var = NULL;
-	while( itermap != NULL ) {
-		harbol_string_clear(&sectionstr);
+	struct HarbolString sectionstr = {0};
+	char const *iter = key;
+	while( true ) {
 		/// Patch: allow keys to use dot without interfering with dot path.
-		while( *iter != 0 ) {
-			if( *iter=='\\' && iter[1] != 0 && iter[1]=='.' ) {
-				iter++;
-				harbol_string_add_char(&sectionstr, *iter++);
-			} else if( *iter=='.' ) {
+		while( *iter != 0 && *iter != '.' ) {
+			if( *iter=='\\' && iter[1]=='.' ) {
 				iter++;
-				break;
-			} else {
-				harbol_string_add_char(&sectionstr, *iter++);
 			}
+			harbol_string_add_char(&sectionstr, *iter++);
 		}
-		if( harbol_string_empty(&sectionstr) ) {
-			break;
-		}
-		var = harbol_map_key_get(itermap, sectionstr.cstr, sectionstr.len+1);
-		if( var==NULL || !harbol_string_cmpstr(&sectionstr, &targetstr) ) {
-			break;
-		} else if( var->tag==HarbolCfgType_Map ) {
-			itermap = *( struct HarbolMap const** )(var->data);
+		struct HarbolVariant *const var = harbol_string_empty(&sectionstr)? NULL : harbol_map_key_get(itermap, sectionstr.cstr, sectionstr.len+1);
+		harbol_string_clear(&sectionstr);
+		if( var==NULL || *iter==0 ) {
+			return var;
+		} else if( var->tag != HarbolCfgType_Map ) {
+			/// there's no way through a value.
+			return NULL;
 		}
+		itermap = *( struct HarbolMap const** )(var->data);
+		iter++;
 	}
-	harbol_string_clear(&sectionstr);
-	harbol_string_clear(&targetstr);
-	return var;
 }
 
 HARBOL_EXPORT struct HarbolMap *harbol_cfg_get_section(struct HarbolMap const *const restrict cfgmap, char const key[static 1]) {
-- 
2.43.0


From 7399fba09f8a830740bead3467297c96f7c98a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:13 +0000
Subject: [PATCH 084/136] fix: cfg: setters lost the old value before copying
 the new one, and ignored empty strings

---
 cfg/cfg.c | 61 +++++++++++++++++++++++++++++--------------------------
 1 file changed, 32 insertions(+), 29 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index ec3e66c..12f54ac 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -727,25 +727,40 @@ HARBOL_EXPORT enum HarbolCfgType harbol_cfg_get_type(struct HarbolMap const *con
 	return( var==NULL )? HarbolCfgType_Invalid : var->tag;
 }
 
+/// the value is only lost when there's memory for the new one.
+static NO_NULL bool _replace_var(struct HarbolVariant *const var, void const *const val, size_t const size, enum HarbolCfgType const type) {
+	bool res = false;
+	struct HarbolVariant const replacement = harbol_variant_make(val, size, type, &res);
+	if( res ) {
+		_harbol_cfgkey_clear(var);
+		*var = replacement;
+	}
+	return res;
+}
+
 HARBOL_EXPORT bool harbol_cfg_set_str(struct HarbolMap *const restrict cfgmap, char const keypath[restrict static 1], struct HarbolString const str, bool const override_convert) {
-	return harbol_cfg_set_cstr(cfgmap, keypath, str.cstr, override_convert);
+	return harbol_cfg_set_cstr(cfgmap, keypath, str.cstr==NULL? "" : str.cstr, override_convert);
 }
 
 HARBOL_EXPORT bool harbol_cfg_set_cstr(struct HarbolMap *const restrict cfgmap, char const key[static 1], char const cstr[static 1], bool const override_convert) {
 	struct HarbolVariant *const restrict var = _get_var(cfgmap, key);
-	if( var==NULL ) {
+	if( var==NULL || (var->tag != HarbolCfgType_String && !override_convert) ) {
 		return false;
-	} else if( var->tag != HarbolCfgType_String ) {
-		if( override_convert ) {
-			_harbol_cfgkey_clear(var);
-			struct HarbolString *str = harbol_string_new(cstr);
-			*var = harbol_variant_make(&str, sizeof str, HarbolCfgType_String, &( bool ){0});
-			return true;
-		}
+	}
+	
+	/// make the copy first, `cstr` can belong to the value that is replaced.
+	struct HarbolString *str = harbol_string_new(cstr);
+	if( str==NULL || (str->cstr==NULL && *cstr != 0) ) {
+		harbol_string_free(&str);
 		return false;
+	} else if( var->tag==HarbolCfgType_String ) {
+		struct HarbolString *const old = *( struct HarbolString** )(var->data);
+		harbol_string_clear(old);
+		*old = *str;
+		free(str); str = NULL;
+		return true;
 	}
-	harbol_string_copy_cstr(*( struct HarbolString** )(var->data), cstr);
-	return true;
+	return _replace_var(var, &str, sizeof str, HarbolCfgType_String) || (harbol_string_free(&str), false);
 }
 
 HARBOL_EXPORT bool harbol_cfg_set_float(struct HarbolMap *const restrict cfgmap, char const key[static 1], floatmax_t const val, bool const override_convert) {
@@ -754,9 +769,7 @@ HARBOL_EXPORT bool harbol_cfg_set_float(struct HarbolMap *const restrict cfgmap,
 		return false;
 	} else if( var->tag != HarbolCfgType_Float ) {
 		if( override_convert ) {
-			_harbol_cfgkey_clear(var);
-			*var = harbol_variant_make(&val, sizeof val, HarbolCfgType_Float, &( bool ){0});
-			return true;
+			return _replace_var(var, &val, sizeof val, HarbolCfgType_Float);
 		}
 		return false;
 	}
@@ -770,9 +783,7 @@ HARBOL_EXPORT bool harbol_cfg_set_int(struct HarbolMap *const restrict cfgmap, c
 		return false;
 	} else if( var->tag != HarbolCfgType_Int ) {
 		if( override_convert ) {
-			_harbol_cfgkey_clear(var);
-			*var = harbol_variant_make(&val, sizeof val, HarbolCfgType_Int, &( bool ){0});
-			return true;
+			return _replace_var(var, &val, sizeof val, HarbolCfgType_Int);
 		}
 		return false;
 	}
@@ -786,9 +797,7 @@ HARBOL_EXPORT bool harbol_cfg_set_bool(struct HarbolMap *const restrict cfgmap,
 		return false;
 	} else if( var->tag != HarbolCfgType_Bool ) {
 		if( override_convert ) {
-			_harbol_cfgkey_clear(var);
-			*var = harbol_variant_make(&val, sizeof val, HarbolCfgType_Bool, &( bool ){0});
-			return true;
+			return _replace_var(var, &val, sizeof val, HarbolCfgType_Bool);
 		}
 		return false;
 	}
@@ -802,9 +811,7 @@ HARBOL_EXPORT bool harbol_cfg_set_color(struct HarbolMap *const restrict cfgmap,
 		return false;
 	} else if( var->tag != HarbolCfgType_Color ) {
 		if( override_convert ) {
-			_harbol_cfgkey_clear(var);
-			*var = harbol_variant_make(&val, sizeof val, HarbolCfgType_Color, &( bool ){0});
-			return true;
+			return _replace_var(var, &val, sizeof val, HarbolCfgType_Color);
 		}
 		return false;
 	}
@@ -818,9 +825,7 @@ HARBOL_EXPORT bool harbol_cfg_set_vec4D(struct HarbolMap *const restrict cfgmap,
 		return false;
 	} else if( var->tag != HarbolCfgType_Vec4D ) {
 		if( override_convert ) {
-			_harbol_cfgkey_clear(var);
-			*var = harbol_variant_make(&val, sizeof val, HarbolCfgType_Vec4D, &( bool ){0});
-			return true;
+			return _replace_var(var, &val, sizeof val, HarbolCfgType_Vec4D);
 		}
 		return false;
 	}
@@ -835,9 +840,7 @@ HARBOL_EXPORT bool harbol_cfg_set_to_null(struct HarbolMap *const restrict cfgma
 		return false;
 	}
 	
-	_harbol_cfgkey_clear(var);
-	*var = harbol_variant_make(&( char ){0}, 1, HarbolCfgType_Null, &( bool ){0});
-	return true;
+	return _replace_var(var, &( char ){0}, 1, HarbolCfgType_Null);
 }
 
 static NO_NULL void _write_tabs(FILE *const file, size_t const tabs) {
-- 
2.43.0


From 536f11e2368406c1ddda4e1bd8b4b8d41e9262fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:13 +0000
Subject: [PATCH 085/136] fix: cfg: keys and strings were written without
 escapes, empty strings as (null)

---
 cfg/cfg.c | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 12f54ac..0ba24ae 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -599,6 +599,22 @@ static NO_NULL void _concat_tabs(struct HarbolString *const str, size_t const ta
 	}
 }
 
+/// puts a text in the quotes and escapes that the parser reads.
+static NO_NULL void _add_quoted(struct HarbolString *const restrict str, char const text[const], size_t const len) {
+	harbol_string_add_char(str, '"');
+	for( size_t i=0; i < len; i++ ) {
+		if( text[i]=='"' || text[i]=='\\' ) {
+			harbol_string_add_char(str, '\\');
+			harbol_string_add_char(str, text[i]);
+		} else if( (text[i] >= 0 && text[i] < ' ') || text[i]==127 ) {
+			harbol_string_format(str, false, "\\%03o", ( unsigned )(text[i]));
+		} else {
+			harbol_string_add_char(str, text[i]);
+		}
+	}
+	harbol_string_add_char(str, '"');
+}
+
 HARBOL_EXPORT struct HarbolString harbol_cfg_to_str(struct HarbolMap const *const map) {
 	static size_t tabs = 0;
 	struct HarbolString cfg_str = harbol_string_make(NULL, &( bool ){false});
@@ -608,7 +624,8 @@ HARBOL_EXPORT struct HarbolString harbol_cfg_to_str(struct HarbolMap const *cons
 		union ConfigVal const cv = { var->data };
 		
 		_concat_tabs(str, tabs);
-		harbol_string_format(str, false, "\"%s\": ", ( char const* )(map->keys[i]));
+		_add_quoted(str, ( char const* )(map->keys[i]), map->keylens[i] - 1);
+		harbol_string_add_cstr(str, ": ");
 		switch( var->tag ) {
 			case HarbolCfgType_Null:
 				harbol_string_add_cstr(str, "null\n");
@@ -626,7 +643,8 @@ HARBOL_EXPORT struct HarbolString harbol_cfg_to_str(struct HarbolMap const *cons
 				break;
 			}
 			case HarbolCfgType_String:
-				harbol_string_format(str, false, "\"%s\"\n", (*cv.str)->cstr);
+				_add_quoted(str, (*cv.str)->cstr, (*cv.str)->len);
+				harbol_string_add_cstr(str, "\n");
 				break;
 			case HarbolCfgType_Float:
 				harbol_string_format(str, false, "%" PRIfMAX "\n", *cv.f);
@@ -849,13 +867,21 @@ static NO_NULL void _write_tabs(FILE *const file, size_t const tabs) {
 	}
 }
 
+static NO_NULL void _write_quoted(FILE *const file, char const text[const], size_t const len) {
+	struct HarbolString quoted = {0};
+	_add_quoted(&quoted, text, len);
+	fwrite(quoted.cstr, sizeof *quoted.cstr, quoted.len, file);
+	harbol_string_clear(&quoted);
+}
+
 static NO_NULL bool _harbol_cfg_build_file(struct HarbolMap const *const map, FILE *const file, size_t const tabs) {
 	for( size_t i=0; i < map->len; i++ ) {
 		struct HarbolVariant const *const v = ( struct HarbolVariant const* )(map->datum[i]);
 		int32_t const type = v->tag;
 		_write_tabs(file, tabs);
 		/// using double pointer iterators as we need the key.
-		fprintf(file, "\"%s\": ", ( char const* )(map->keys[i]));
+		_write_quoted(file, ( char const* )(map->keys[i]), map->keylens[i] - 1);
+		fputs(": ", file);
 		
 		union ConfigVal const cv = { v->data };
 		switch( type ) {
@@ -868,7 +894,10 @@ static NO_NULL bool _harbol_cfg_build_file(struct HarbolMap const *const map, FI
 				fputs("}\n", file);
 				break;
 			
-			case HarbolCfgType_String: fprintf(file, "\"%s\"\n", (*cv.str)->cstr);       break;
+			case HarbolCfgType_String:
+				_write_quoted(file, (*cv.str)->cstr, (*cv.str)->len);
+				fputs("\n", file);
+				break;
 			case HarbolCfgType_Float:  fprintf(file, "%" PRIfMAX "\n", *cv.f);           break;
 			case HarbolCfgType_Int:    fprintf(file, "%" PRIiMAX "\n", *cv.i);           break;
 			case HarbolCfgType_Bool:   fprintf(file, "%s\n", (*cv.b)? "true" : "false"); break;
-- 
2.43.0


From e93abfa5014e1048748317b3f8a1ea2b4dccf9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:13 +0000
Subject: [PATCH 086/136] fix: cfg: evaluating an empty string crashed, a
 missing one evaluated to a number

---
 cfg/cfg.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 0ba24ae..0e4c01f 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -924,12 +924,8 @@ HARBOL_EXPORT bool harbol_cfg_build_file(struct HarbolMap const *const cfg, char
 
 HARBOL_EXPORT floatmax_t harbol_cfg_calc_math(struct HarbolMap const *const restrict cfg, char const key[const restrict static 1], HarbolMathVarFunc *const var_func, void *const restrict data, size_t const data_len) {
 	struct HarbolString *const restrict str = harbol_cfg_get_str(cfg, key);
-	if( str==NULL ) {
-		union {
-			uintmax_t const  u;
-			floatmax_t const f;
-		} const c = { -1ULL };
-		return c.f;
+	if( str==NULL || harbol_string_empty(str) ) {
+		return ( floatmax_t )(NAN);
 	}
 	return harbol_math_parse_expr(str->cstr, var_func==NULL? harbol_math_default_var_func : var_func, data, data_len);
 }
-- 
2.43.0


From e8e569fe8fbfacf2e1835f9275b0c9b43abf61ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:37 +0000
Subject: [PATCH 087/136] fix: cfg: an empty string has no buffer to quote

---
 cfg/cfg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 0e4c01f..3332a86 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -600,7 +600,7 @@ static NO_NULL void _concat_tabs(struct HarbolString *const str, size_t const ta
 }
 
 /// puts a text in the quotes and escapes that the parser reads.
-static NO_NULL void _add_quoted(struct HarbolString *const restrict str, char const text[const], size_t const len) {
+static void _add_quoted(struct HarbolString *const restrict str, char const text[const], size_t const len) {
 	harbol_string_add_char(str, '"');
 	for( size_t i=0; i < len; i++ ) {
 		if( text[i]=='"' || text[i]=='\\' ) {
@@ -867,7 +867,7 @@ static NO_NULL void _write_tabs(FILE *const file, size_t const tabs) {
 	}
 }
 
-static NO_NULL void _write_quoted(FILE *const file, char const text[const], size_t const len) {
+static void _write_quoted(FILE *const file, char const text[const], size_t const len) {
 	struct HarbolString quoted = {0};
 	_add_quoted(&quoted, text, len);
 	fwrite(quoted.cstr, sizeof *quoted.cstr, quoted.len, file);
-- 
2.43.0


From b23b9221a36fe082a1ed35c32bd56c9cbe23e0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:37 +0000
Subject: [PATCH 088/136] fix: cfg: deeply nested sections ran out of stack

---
 cfg/cfg.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 3332a86..650b616 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -22,9 +22,13 @@ typedef struct HarbolCfgState {
 	size_t      errc;
 	intmax_t   *local_iota, *local_enum, global_iota, global_enum;
 	char const *cfg_filename;
-	uint32_t    curr_line;
+	uint32_t    curr_line, depth;
 } HarbolCfgState;
 
+enum {
+	MAX_CFG_DEPTH = 512, /// parsing, writing, and freeing recurse into the sections.
+};
+
 
 static NO_NULL bool skip_ws_and_comments(char const **strref, HarbolCfgState *const restrict parse_state) {
 	if( *strref==NULL || **strref==0 ) {
@@ -281,6 +285,11 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 	bool res = false;
 	/// it's a section!
 	if( **cfgcoderef=='{' ) {
+		if( parse_state->depth >= MAX_CFG_DEPTH ) {
+			harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "syntax error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: section '%s' is nested too deep.\n", keystr.cstr);
+			harbol_string_clear(&keystr);
+			return false;
+		}
 		intmax_t *const old_iota = parse_state->local_iota;
 		intmax_t *const old_enum = parse_state->local_enum;
 		parse_state->local_iota = &( intmax_t ){0};
@@ -293,7 +302,9 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			return false;
 		}
 		
+		parse_state->depth++;
 		res = harbol_cfg_parse_section(subsection, cfgcoderef, parse_state);
+		parse_state->depth--;
 		struct HarbolVariant var = harbol_variant_make(&subsection, sizeof subsection, HarbolCfgType_Map, &( bool ){0});
 		if( !harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var) ) {
 			harbol_write_msg(NULL, stderr, parse_state->cfg_filename, "memory warning", COLOR_MAGENTA, &parse_state->curr_line, NULL, "Harbol Config Parser :: some how failed to insert subsection for key '%s', destroying...\n", keystr.cstr);
@@ -528,7 +539,7 @@ static struct HarbolMap *_harbol_cfg_parse(char const cfgcode[static 1], HarbolC
 }
 
 static struct HarbolMap *_harbol_cfg_parse_file(char const filename[static 1], HarbolCfgState const *const includer) {
-	HarbolCfgState parse_state = { .includer = includer };
+	HarbolCfgState parse_state = { .includer = includer, .depth = (includer==NULL)? 0 : includer->depth };
 	FILE *restrict cfgfile = fopen(filename, "r");
 	if( cfgfile==NULL ) {
 		harbol_write_msg(&parse_state.errc, stderr, NULL, "parse error", COLOR_RED, NULL, NULL, "Harbol Config Parser :: unable to find file '%s'.\n", filename);
-- 
2.43.0


From 8008cdab5613d8a7ed1c0a0cb3afed6e6abf9342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:37 +0000
Subject: [PATCH 089/136] fix: math: deeply nested expressions ran out of stack

---
 math/math_parser.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/math/math_parser.c b/math/math_parser.c
index 25ffb79..83d710c 100644
--- a/math/math_parser.c
+++ b/math/math_parser.c
@@ -35,9 +35,14 @@ struct HarbolMathLexer {
 	HarbolMathVarFunc       *var_func;
 	void                    *data;
 	size_t                   expr_len, idx, data_len;
+	size_t                   depth;
 	bool                     failed;
 };
 
+enum {
+	MAX_MATH_DEPTH = 512, /// signs, brackets, and functions recurse.
+};
+
 
 static NO_NULL bool _harbol_math_lex_decimal(struct HarbolMathLexer *const restrict ls, char const expression[const restrict static 1]) {
 	bool has_dot = false, has_digit = false;
@@ -244,14 +249,24 @@ floatmax_t harbol_math_parse_pow_expr(struct HarbolMathLexer *const restrict ls,
 
 /// UnaryExpr = *( '-' | '+' ) Factor .
 floatmax_t harbol_math_parse_unary_expr(struct HarbolMathLexer *const restrict ls, char const expression[const restrict static 1]) {
+	if( ls->depth >= MAX_MATH_DEPTH ) {
+		ls->failed = true;
+		return ( floatmax_t )(NAN);
+	}
+	
+	ls->depth++;
+	floatmax_t val = 0;
 	if( ls->tok.tag==TokenSub ) {
 		_harbol_math_get_token(ls, expression);
-		return -harbol_math_parse_unary_expr(ls, expression);
+		val = -harbol_math_parse_unary_expr(ls, expression);
 	} else if( ls->tok.tag==TokenPlus ) {
 		_harbol_math_get_token(ls, expression);
-		return fabs( harbol_math_parse_unary_expr(ls, expression) );
+		val = fabs( harbol_math_parse_unary_expr(ls, expression) );
+	} else {
+		val = harbol_math_parse_factor(ls, expression);
 	}
-	return harbol_math_parse_factor(ls, expression);
+	ls->depth--;
+	return val;
 }
 
 
-- 
2.43.0


From 9a0ddc617e2f6a77f28c7787d269471dc6c99348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:37 +0000
Subject: [PATCH 090/136] fix: bytes_bitmask was wrong for four bytes and more

---
 harbol_common_includes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index d86c9ee..3976a9f 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -1113,7 +1113,7 @@ static inline NEVER_NULL(1) void harbol_trilink_set_c(void *const p, void *const
 
 
 static inline size_t bytes_bitmask(size_t const bytes) {
-	return (1 << (bytes * CHAR_BIT)) - 1;
+	return (bytes >= sizeof(size_t))? SIZE_MAX : (( size_t )(1) << (bytes * CHAR_BIT)) - 1;
 }
 
 #endif /** HARBOL_COMMON_INCLUDES_INCLUDED */
-- 
2.43.0


From 14da41adccfbba903dfe544b4ae571853e0a974d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:37 +0000
Subject: [PATCH 091/136] fix: make_int_log_tables shifted out of range and
 rounded logarithms of large bases up

---
 harbol_common_includes.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index 3976a9f..c4ca551 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -826,7 +826,10 @@ static inline NO_NULL size_t make_int_log_tables(size_t const base, size_t (*con
 		return 0;
 	}
 	/// floor( log ~0 / log base ) === highest power of the base `size_t` or other int types can reach.
-	size_t const num_exp = ( size_t )(log(SIZE_MAX) / log(base)) + 1;
+	size_t num_exp = 1;
+	for( size_t n = SIZE_MAX; n >= base; n /= base ) {
+		num_exp++;
+	}
 	size_t *powers = calloc(num_exp + 1, sizeof *powers);
 	if( powers==NULL ) {
 		return 0;
@@ -841,8 +844,13 @@ static inline NO_NULL size_t make_int_log_tables(size_t const base, size_t (*con
 	*powers_of_N = powers;
 	
 	/// generate log of N table.
-	for( size_t i=0; i < MAX_LOG_TABLE_SIZE; i++ ) {
-		(*logN_table)[i] = floor( log(1UL << i) / log(base) );
+	for( size_t i=0, power_idx=0; i < MAX_LOG_TABLE_SIZE; i++ ) {
+		if( i < MAX_LOG_TABLE_SIZE - 1 ) {
+			while( power_idx + 1 < num_exp && powers[power_idx + 1] <= ( size_t )(1) << i ) {
+				power_idx++;
+			}
+		}
+		(*logN_table)[i] = power_idx;
 	}
 	return num_exp;
 }
-- 
2.43.0


From f3515a4ecdfaec017a53cf8ce22cc2af33b7747a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:37 +0000
Subject: [PATCH 092/136] fix: harbol_link_add_to_tail left the first node's
 link unset

---
 harbol_common_includes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index c4ca551..42cfe07 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -999,8 +999,8 @@ static inline NO_NULL void harbol_link_add_to_tail(void *const h, void *const n,
 		**const tail = t,
 		 *const node = n
 	;
+	node->a = NULL;
 	if( *head != NULL ) {
-		node->a = NULL;
 		(*tail)->a = node;
 		*tail = node;
 	} else {
-- 
2.43.0


From 6f5c9663af35a6bf1165558375b0fec501b82daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:37 +0000
Subject: [PATCH 093/136] fix: harbol_multi_recalloc freed the caller's buffers
 when one of them could not grow

---
 harbol_common_includes.h | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index 42cfe07..f8b416b 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -243,10 +243,17 @@ static inline bool harbol_multi_recalloc(size_t const new_size, size_t const old
 	va_list cp; va_copy(cp, ap);
 	bool res = true;
 	void **bufs = calloc(n_buffers, sizeof *bufs);
+	if( bufs==NULL ) {
+		va_end(ap);
+		va_end(cp);
+		return false;
+	}
+	
+	/// a `realloc` can't be undone, so the old buffers are only let go when there are new ones for all of them.
 	for( size_t i=0; i < n_buffers; i++ ) {
-		void **buf = va_arg(ap, void**);
+		va_arg(ap, void**);
 		size_t const elem_size = va_arg(ap, size_t);
-		bufs[i] = harbol_recalloc(*buf, new_size, elem_size, old_size);
+		bufs[i] = calloc(new_size, elem_size);
 		res &= bufs[i] != NULL;
 	}
 	va_end(ap);
@@ -258,7 +265,11 @@ static inline bool harbol_multi_recalloc(size_t const new_size, size_t const old
 	} else {
 		for( size_t i=0; i < n_buffers; i++ ) {
 			void **buf = va_arg(cp, void**);
-			va_arg(cp, size_t);
+			size_t const elem_size = va_arg(cp, size_t);
+			if( *buf != NULL ) {
+				memcpy(bufs[i], *buf, (old_size < new_size? old_size : new_size) * elem_size);
+				free(*buf);
+			}
 			*buf = bufs[i];
 		}
 	}
-- 
2.43.0


From ad5d3dcbb69289e3680c10f4348342fc9f4f114a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:37 +0000
Subject: [PATCH 094/136] fix: harbol_recalloc wrapped around for sizes beyond
 the address space

---
 harbol_common_includes.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index f8b416b..4151f7f 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -176,6 +176,8 @@
 static inline void *harbol_recalloc(void *const arr, size_t const new_size, size_t const element_size, size_t const old_size) {
 	if( arr==NULL ) {
 		return calloc(new_size, element_size);
+	} else if( element_size != 0 && new_size > SIZE_MAX / element_size ) {
+		return NULL;
 	}
 #ifdef __cplusplus
 	uint8_t *const restrict new_block = reinterpret_cast< decltype(new_block) >(realloc(arr, new_size * element_size));
-- 
2.43.0


From 3951d21f0fb851efe0a964c07591c5be4ae7273e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:05 +0000
Subject: [PATCH 095/136] fix: msg_span: a source that is unreadable, without a
 newline, or to be kept was written out of bounds or mangled

---
 msg_span/msg_span.c | 41 ++++++++++++++++-------------------------
 1 file changed, 16 insertions(+), 25 deletions(-)

diff --git a/msg_span/msg_span.c b/msg_span/msg_span.c
index 21fbc8e..896bab7 100644
--- a/msg_span/msg_span.c
+++ b/msg_span/msg_span.c
@@ -25,47 +25,38 @@ HARBOL_EXPORT struct HarbolMsgSpan harbol_msg_span_make(char const cstr[const re
 }
 
 HARBOL_EXPORT bool harbol_msg_span_init(struct HarbolMsgSpan *const restrict msgspan, char const cstr[const restrict static 1], bool const is_filename, bool const free_src_str) {
-	(( is_filename )? harbol_string_read_file : harbol_string_copy_cstr)(&msgspan->src.code, cstr);
-	if( is_filename ) {
-		harbol_string_copy_cstr(&msgspan->src.filename, cstr);
-	}
-	lex_fix_newlines(&msgspan->src.code, true);
-	
-	size_t newlines = harbol_string_count_cstr(&msgspan->src.code, "\n");
-	if( newlines==0 ) {
-		newlines = 1;
-	}
-	
-	size_t *newline_offs = calloc(newlines, sizeof *newline_offs);
-	if( newline_offs==NULL ) {
+	bool const got_src = (( is_filename )? harbol_string_read_file : harbol_string_copy_cstr)(&msgspan->src.code, cstr);
+	if( !got_src ) {
 		harbol_string_clear(&msgspan->src.code);
 		return false;
 	}
-	
-	harbol_string_cstr_offsets(&msgspan->src.code, "\n", newline_offs, newlines);
-	for( size_t i=0; i < newlines; i++ ) {
-		size_t const offs = newline_offs[i];
-		msgspan->src.code.cstr[offs] = 0;
+	if( is_filename ) {
+		harbol_string_copy_cstr(&msgspan->src.filename, cstr);
 	}
+	lex_fix_newlines(&msgspan->src.code, true);
 	
+	/// every newline ends a line and there's always a last line after the last newline.
+	size_t const newlines = harbol_string_count_cstr(&msgspan->src.code, "\n");
 	msgspan->src.lines = calloc(newlines + 1, sizeof *msgspan->src.lines);
 	if( msgspan->src.lines==NULL ) {
+		harbol_string_clear(&msgspan->src.filename);
 		harbol_string_clear(&msgspan->src.code);
-		free(newline_offs); newline_offs = NULL;
 		return false;
 	}
 	
 	msgspan->src.len = newlines + 1;
-	harbol_string_copy_cstr(&msgspan->src.lines[0], msgspan->src.code.cstr);
-	for( size_t i=1; i < newlines; i++ ) {
-		size_t const offs = newline_offs[i-1] + 1;
-		harbol_string_copy_cstr(&msgspan->src.lines[i], &msgspan->src.code.cstr[offs]);
+	char *line = msgspan->src.code.cstr;
+	for( size_t i=0; i < newlines; i++ ) {
+		char *const newline = strchr(line, '\n');
+		*newline = 0;
+		harbol_string_copy_cstr(&msgspan->src.lines[i], line);
+		*newline = '\n';
+		line = newline + 1;
 	}
-	harbol_string_copy_cstr(&msgspan->src.lines[newlines], &msgspan->src.code.cstr[newline_offs[newlines-1] + 1]);
+	harbol_string_copy_cstr(&msgspan->src.lines[newlines], line);
 	if( free_src_str ) {
 		harbol_string_clear(&msgspan->src.code);
 	}
-	free(newline_offs); newline_offs = NULL;
 	return true;
 }
 
-- 
2.43.0


From 06154bac6b1bfbd70cce2dfe78dc0a20f703058e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:05 +0000
Subject: [PATCH 096/136] fix: msg_span: clearing twice walked freed lines

---
 msg_span/msg_span.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/msg_span/msg_span.c b/msg_span/msg_span.c
index 896bab7..aff2609 100644
--- a/msg_span/msg_span.c
+++ b/msg_span/msg_span.c
@@ -92,6 +92,7 @@ HARBOL_EXPORT void harbol_msg_span_clear(struct HarbolMsgSpan *const msgspan) {
 		harbol_string_clear(&msgspan->src.lines[i]);
 	}
 	free(msgspan->src.lines); msgspan->src.lines = NULL;
+	msgspan->src.len = 0;
 	_harbol_msg_span_purge_labels(msgspan, true);
 	_harbol_msg_span_purge_notes(msgspan, true);
 }
-- 
2.43.0


From 81d1ecd312e8bf28dd0bad20cae311380fe92a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:05 +0000
Subject: [PATCH 097/136] fix: msg_span: blank lines, empty messages and
 zero-width highlights were shown as (null)

---
 msg_span/msg_span.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/msg_span/msg_span.c b/msg_span/msg_span.c
index aff2609..b455bd1 100644
--- a/msg_span/msg_span.c
+++ b/msg_span/msg_span.c
@@ -179,7 +179,7 @@ static NO_NULL void _output_span(struct HarbolMsgSpan const *const msgspan, stru
 		struct HarbolString line_num_pad = {0};
 		harbol_string_add_char_rep(&line_num_pad, ' ', len - base_10_digits(line));
 		struct HarbolString const *code_line = harbol_msg_span_get_line(msgspan, line-1);
-		fprintf(stream, "%u%s|%s\n", line, line_num_pad.cstr, code_line->cstr);
+		fprintf(stream, "%u%s|%s\n", line, line_num_pad.cstr==NULL? "" : line_num_pad.cstr, code_line->cstr==NULL? "" : code_line->cstr);
 		harbol_string_clear(&line_num_pad);
 	}
 }
@@ -243,7 +243,7 @@ HARBOL_EXPORT void harbol_msg_span_emit_to_stream(
 			}
 			
 			char const *const restrict sym_color = labels[i].sym_color;
-			fprintf(stream, "%s|%s%s%s%s %s\n", span_pad.cstr, colm_pad.cstr, sym_color==NULL? "" : sym_color, hilighter.cstr, COLOR_RESET, labels[i].msg.cstr);
+			fprintf(stream, "%s|%s%s%s%s %s\n", span_pad.cstr, colm_pad.cstr==NULL? "" : colm_pad.cstr, sym_color==NULL? "" : sym_color, hilighter.cstr==NULL? "" : hilighter.cstr, COLOR_RESET, labels[i].msg.cstr==NULL? "" : labels[i].msg.cstr);
 			harbol_string_clear(&colm_pad);
 			harbol_string_clear(&hilighter);
 		}
@@ -253,7 +253,7 @@ HARBOL_EXPORT void harbol_msg_span_emit_to_stream(
 			fprintf(stream, "%s|\n", span_pad.cstr);
 			struct HarbolString const *notes = ( struct HarbolString const* )(msgspan->notes.table);
 			for( size_t i=0; i < msgspan->notes.len; i++ ) {
-				fprintf(stream, "%s%s\n", span_pad.cstr, notes[i].cstr);
+				fprintf(stream, "%s%s\n", span_pad.cstr, notes[i].cstr==NULL? "" : notes[i].cstr);
 			}
 			_harbol_msg_span_purge_notes(msgspan, false);
 		}
-- 
2.43.0


From 07527fd17402a59f607cf692a39b0ad99b309bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:05 +0000
Subject: [PATCH 098/136] fix: msg_span: labels outside of the source's lines
 were dereferenced as NULL

---
 msg_span/msg_span.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/msg_span/msg_span.c b/msg_span/msg_span.c
index b455bd1..e579de1 100644
--- a/msg_span/msg_span.c
+++ b/msg_span/msg_span.c
@@ -175,7 +175,10 @@ static NEVER_NULL(1) void _print_file_margins(FILE *const restrict stream, char
 
 
 static NO_NULL void _output_span(struct HarbolMsgSpan const *const msgspan, struct HarbolTokenSpan const span, size_t const len, FILE *const stream) {
-	for( uint32_t line = span.line_start; line <= span.line_end; line++ ) {
+	/// only the lines that exist can be shown.
+	size_t const num_lines = harbol_msg_span_get_num_lines(msgspan);
+	uint32_t const last = span.line_end < num_lines? span.line_end : ( uint32_t )(num_lines);
+	for( uint32_t line = span.line_start==0? 1 : span.line_start; line <= last; line++ ) {
 		struct HarbolString line_num_pad = {0};
 		harbol_string_add_char_rep(&line_num_pad, ' ', len - base_10_digits(line));
 		struct HarbolString const *code_line = harbol_msg_span_get_line(msgspan, line-1);
-- 
2.43.0


From 005bed3df3000a5ff45c5a55b9836e1d585e2ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:05 +0000
Subject: [PATCH 099/136] fix: msg_span: a span ending on an earlier column
 than it starts wrapped around

---
 msg_span/msg_span.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msg_span/msg_span.c b/msg_span/msg_span.c
index e579de1..30b05a7 100644
--- a/msg_span/msg_span.c
+++ b/msg_span/msg_span.c
@@ -241,7 +241,7 @@ HARBOL_EXPORT void harbol_msg_span_emit_to_stream(
 			/// here we emit the label msgs.
 			struct HarbolString colm_pad={0}, hilighter={0};
 			harbol_string_add_char_rep(&colm_pad, ' ', span.colm_start);
-			for( size_t n=0; n < (span.colm_end - span.colm_start); n++ ) {
+			for( size_t n=span.colm_start; n < span.colm_end; n++ ) {
 				write_utf8_str(&hilighter, labels[i].sym);
 			}
 			
-- 
2.43.0


From f8674a5beb0bb25a613188b0e84d373275a2e5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 100/136] fix: msg_span: notes without a label were not shown
 but kept for a later message

---
 msg_span/msg_span.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msg_span/msg_span.c b/msg_span/msg_span.c
index 30b05a7..7f21cf7 100644
--- a/msg_span/msg_span.c
+++ b/msg_span/msg_span.c
@@ -217,7 +217,7 @@ HARBOL_EXPORT void harbol_msg_span_emit_to_stream(
 		++*msg_cnt;
 	}
 	
-	if( msgspan->labels.len > 0 ) {
+	if( msgspan->labels.len > 0 || msgspan->notes.len > 0 ) {
 		fprintf(stream, "\n");
 		uint32_t largest_span = 0;
 		struct HarbolMsgLabel const *labels = ( struct HarbolMsgLabel const* )(msgspan->labels.table);
-- 
2.43.0


From b8465a7d828a0bcf63dc93fc9c0e9067517d95e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 101/136] fix: msg_span: an optional filename and an optional
 color were declared never to be NULL

---
 msg_span/msg_span.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msg_span/msg_span.c b/msg_span/msg_span.c
index 7f21cf7..2741b0c 100644
--- a/msg_span/msg_span.c
+++ b/msg_span/msg_span.c
@@ -138,7 +138,7 @@ HARBOL_EXPORT bool harbol_msg_span_add_label(struct HarbolMsgSpan *const restric
 	return res;
 }
 
-HARBOL_EXPORT bool harbol_msg_span_add_note(struct HarbolMsgSpan *const restrict msgspan, char const msg_color[const restrict static 1], char const msg[const restrict static 1], ...) {
+HARBOL_EXPORT bool harbol_msg_span_add_note(struct HarbolMsgSpan *const restrict msgspan, char const msg_color[const restrict], char const msg[const restrict static 1], ...) {
 	struct HarbolString note = {0};
 	if( harbol_array_full(&msgspan->notes) && !harbol_array_grow(&msgspan->notes, sizeof note) ) {
 		return false;
@@ -161,7 +161,7 @@ HARBOL_EXPORT bool harbol_msg_span_add_note(struct HarbolMsgSpan *const restrict
 }
 
 
-static NEVER_NULL(1) void _print_file_margins(FILE *const restrict stream, char const filename[const restrict static 1], uint32_t const *const restrict line, uint32_t const *const restrict col) {
+static NEVER_NULL(1) void _print_file_margins(FILE *const restrict stream, char const filename[const restrict], uint32_t const *const restrict line, uint32_t const *const restrict col) {
 	if( filename != NULL ) {
 		fprintf(stream, "\n--> %s", filename);
 		if( line != NULL ) {
-- 
2.43.0


From ac07aa0e76deaa6c6aec67c4753a9a0ded92a8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:08 +0000
Subject: [PATCH 102/136] fix: plugins: clearing a plugin that isn't loaded ran
 its unload event

---
 plugins/plugins.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/plugins.c b/plugins/plugins.c
index 868a5f5..3f5193a 100644
--- a/plugins/plugins.c
+++ b/plugins/plugins.c
@@ -30,7 +30,7 @@ HARBOL_EXPORT bool harbol_plugin_load(struct HarbolPlugin *const restrict pl, ch
 }
 
 HARBOL_EXPORT void harbol_plugin_clear(struct HarbolPlugin *const restrict pl, HarbolPluginEvent unload_fn, void *const restrict userdata) {
-	if( unload_fn != NULL ) {
+	if( pl->dll != NULL && unload_fn != NULL ) {
 		(*unload_fn)(pl, userdata, false);
 	}
 	
-- 
2.43.0


From a1bb527a5650a63f0d6530af11a83649d95c6d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:08 +0000
Subject: [PATCH 103/136] fix: plugins: a successful load kept the error of an
 earlier failure

---
 plugins/plugins.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/plugins/plugins.c b/plugins/plugins.c
index 3f5193a..4acf1c0 100644
--- a/plugins/plugins.c
+++ b/plugins/plugins.c
@@ -23,6 +23,7 @@ HARBOL_EXPORT bool harbol_plugin_load(struct HarbolPlugin *const restrict pl, ch
 		return false;
 	}
 	
+	pl->err = HarbolPluginErrNone;
 	if( load_fn != NULL ) {
 		(*load_fn)(pl, userdata, false);
 	}
@@ -76,6 +77,7 @@ HARBOL_EXPORT bool harbol_plugin_reload(struct HarbolPlugin *const restrict pl,
 		pl->err = HarbolPluginErrCantReload;
 		return false;
 	}
+	pl->err = HarbolPluginErrNone;
 	if( load_fn != NULL ) {
 		(*load_fn)(pl, userdata, true);
 	}
-- 
2.43.0


From cc6ae8fdb4aa080e963fd93a4a4e472f810023da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:08 +0000
Subject: [PATCH 104/136] fix: plugins: a reloaded plugin was still reported as
 changed

---
 plugins/plugins.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/plugins/plugins.c b/plugins/plugins.c
index 4acf1c0..95108f2 100644
--- a/plugins/plugins.c
+++ b/plugins/plugins.c
@@ -77,6 +77,10 @@ HARBOL_EXPORT bool harbol_plugin_reload(struct HarbolPlugin *const restrict pl,
 		pl->err = HarbolPluginErrCantReload;
 		return false;
 	}
+	struct stat result;
+	if( !stat(pl->path, &result) ) {
+		pl->last_write = result.st_mtime;
+	}
 	pl->err = HarbolPluginErrNone;
 	if( load_fn != NULL ) {
 		(*load_fn)(pl, userdata, true);
-- 
2.43.0


From 6b73ff089101d0c2ed273bdccdada2d0edf37617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:08 +0000
Subject: [PATCH 105/136] fix: plugins: a plugin whose path couldn't be
 allocated was loaded without one

---
 plugins/plugins.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/plugins.c b/plugins/plugins.c
index 95108f2..f2416b3 100644
--- a/plugins/plugins.c
+++ b/plugins/plugins.c
@@ -14,7 +14,7 @@ HARBOL_EXPORT bool harbol_plugin_load(struct HarbolPlugin *const restrict pl, ch
 	
 	pl->path = dup_cstr(strlen(path), path);
 	struct stat result;
-	if( !stat(path, &result) ) {
+	if( pl->path != NULL && !stat(path, &result) ) {
 		pl->last_write = result.st_mtime;
 	} else {
 		MODULE_CLOSE(pl->dll); pl->dll = NULL;
-- 
2.43.0


From aafd6c032c450fba395ad409c1685ea01b8d07fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:08 +0000
Subject: [PATCH 106/136] fix: plugins: an entry that can't be read (a dangling
 link) was retried forever

---
 plugins/plugins.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/plugins.c b/plugins/plugins.c
index f2416b3..2209964 100644
--- a/plugins/plugins.c
+++ b/plugins/plugins.c
@@ -124,7 +124,7 @@ static NEVER_NULL(1) void _dir_open(tinydir_dir *const restrict dir, HarbolPlugi
 	while( dir->has_next ) {
 		tinydir_file *file = &( tinydir_file ){0};
 		if( tinydir_readfile(dir, file) < 0 ) {
-			continue;
+			goto dir_iter_loop;
 		} else if( file->is_dir ) {
 			if( file->name[0]=='.' ) {
 				/// advance if parent dir dot.
-- 
2.43.0


From 1466e928596d034e66a7f90657cb10e5ecabde68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:34 +0000
Subject: [PATCH 107/136] fix: plugins: links to a parent directory were
 followed over and over

---
 plugins/plugins.c | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/plugins/plugins.c b/plugins/plugins.c
index 2209964..6cca364 100644
--- a/plugins/plugins.c
+++ b/plugins/plugins.c
@@ -120,7 +120,32 @@ HARBOL_EXPORT void *harbol_plugin_get_obj(struct HarbolPlugin *const restrict pl
 }
 
 
-static NEVER_NULL(1) void _dir_open(tinydir_dir *const restrict dir, HarbolPluginDirEvent dir_fn, void *const restrict userdata, char const ext[static 1]) {
+/// the directories that are currently being iterated, from the innermost to the outermost.
+struct _OpenDir {
+	struct _OpenDir const *parent;
+	struct stat            info;
+};
+
+static bool _is_open_dir(struct _OpenDir const *dirs, struct stat const *const info) {
+#ifdef OS_WINDOWS
+	( void )dirs; ( void )info;
+#else
+	for( ; dirs != NULL; dirs = dirs->parent ) {
+		if( dirs->info.st_dev==info->st_dev && dirs->info.st_ino==info->st_ino ) {
+			return true;
+		}
+	}
+#endif
+	return false;
+}
+
+static NEVER_NULL(1) void _dir_open(tinydir_dir *const restrict dir, struct _OpenDir const *const parent, HarbolPluginDirEvent dir_fn, void *const restrict userdata, char const ext[static 1]) {
+	struct _OpenDir open_dir = { .parent = parent };
+	if( stat(dir->path, &open_dir.info) != 0 || _is_open_dir(parent, &open_dir.info) ) {
+		/// a link back to a directory we're already in.
+		tinydir_close(dir);
+		return;
+	}
 	while( dir->has_next ) {
 		tinydir_file *file = &( tinydir_file ){0};
 		if( tinydir_readfile(dir, file) < 0 ) {
@@ -135,7 +160,7 @@ static NEVER_NULL(1) void _dir_open(tinydir_dir *const restrict dir, HarbolPlugi
 				/// jumping to tinydir_next at end of loop so we can advance the dir iterator.
 				goto dir_iter_loop;
 			} else {
-				_dir_open(sub_dir, dir_fn, userdata, ext);
+				_dir_open(sub_dir, &open_dir, dir_fn, userdata, ext);
 			}
 		} else if( !strcmp(file->extension, ext) ) {
 			(*dir_fn)(file->path, file->name, userdata);
@@ -166,7 +191,7 @@ HARBOL_EXPORT bool harbol_plugin_dir_open(char const dir[static 1], HarbolPlugin
 			fprintf(stderr, "Harbol Plugin Directory Error: **** unable to open dir: '%s' ****\n", pl_dir);
 			tinydir_close(dir_handle);
 		} else {
-			_dir_open(dir_handle, dir_fn, userdata, custom_ext==NULL? LIB_EXT : custom_ext);
+			_dir_open(dir_handle, NULL, dir_fn, userdata, custom_ext==NULL? LIB_EXT : custom_ext);
 		}
 		free(pl_dir); pl_dir = NULL;
 		return true;
-- 
2.43.0


From 0ec17e26853f977b80e87876ff7352b03694f83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:34 +0000
Subject: [PATCH 108/136] fix: plugins: an optional event and an optional
 extension were assumed to be given

---
 plugins/plugins.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plugins/plugins.c b/plugins/plugins.c
index 6cca364..c7e94a5 100644
--- a/plugins/plugins.c
+++ b/plugins/plugins.c
@@ -162,7 +162,7 @@ static NEVER_NULL(1) void _dir_open(tinydir_dir *const restrict dir, struct _Ope
 			} else {
 				_dir_open(sub_dir, &open_dir, dir_fn, userdata, ext);
 			}
-		} else if( !strcmp(file->extension, ext) ) {
+		} else if( !strcmp(file->extension, ext) && dir_fn != NULL ) {
 			(*dir_fn)(file->path, file->name, userdata);
 		}
 	dir_iter_loop:;
@@ -173,7 +173,7 @@ static NEVER_NULL(1) void _dir_open(tinydir_dir *const restrict dir, struct _Ope
 	tinydir_close(dir);
 }
 
-HARBOL_EXPORT bool harbol_plugin_dir_open(char const dir[static 1], HarbolPluginDirEvent dir_fn, void *const restrict userdata, char const custom_ext[static 1]) {
+HARBOL_EXPORT bool harbol_plugin_dir_open(char const dir[static 1], HarbolPluginDirEvent dir_fn, void *const restrict userdata, char const custom_ext[]) {
 	/// 'FILENAME_MAX' is defined in stdio.h
 	char currdir[FILENAME_MAX] = {0};
 #ifdef OS_WINDOWS
-- 
2.43.0


From 898c5e6d5fbbb83198e8c00667b024d1d4d07aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 109/136] fix: str: replacing text ignored a failed allocation

---
 str/str.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/str/str.c b/str/str.c
index 3778661..c45b88f 100644
--- a/str/str.c
+++ b/str/str.c
@@ -263,7 +263,9 @@ HARBOL_EXPORT bool harbol_string_replace_cstr(struct HarbolString *const restric
 	
 	size_t offset = _subcstr_diff(&str->cstr[0], to_replace);
 	size_t const len_calc = str->len + (amount * (with_len - replace_len));
-	_harbol_resize_string(&rep_str, len_calc);
+	if( !_harbol_resize_string(&rep_str, len_calc) ) {
+		return false;
+	}
 	size_t rep_len = 0;
 	/// first copy contents up to the first offset.
 	strncpy(&rep_str.cstr[0], &str->cstr[0], offset);
@@ -454,13 +456,15 @@ HARBOL_EXPORT bool harbol_string_replace_range(struct HarbolString *const restri
 		return false;
 	}
 	
-	char *start = &str->cstr[lower];
-	start[0] = 0;
-	char const *end = &str->cstr[upper];
+	size_t const with_len = strlen(with);
+	size_t const end_len  = str->len - (upper + 1);
 	struct HarbolString s = {0};
-	harbol_string_add_cstr(&s, str->cstr);
-	harbol_string_add_cstr(&s, with);
-	harbol_string_add_cstr(&s, &end[1]);
+	if( !_harbol_resize_string(&s, lower + with_len + end_len) ) {
+		return false;
+	}
+	memcpy(&s.cstr[0], &str->cstr[0], lower);
+	memcpy(&s.cstr[lower], with, with_len);
+	memcpy(&s.cstr[lower + with_len], &str->cstr[upper + 1], end_len);
 	harbol_string_clear(str);
 	*str = s;
 	return true;
-- 
2.43.0


From 5e896bd6a27d96b5fac27086350d3c8fb464529a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 110/136] fix: deque: a node was added without its data when
 the data couldn't be allocated

---
 deque/deque.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/deque/deque.c b/deque/deque.c
index 0c6ab71..9065319 100644
--- a/deque/deque.c
+++ b/deque/deque.c
@@ -140,12 +140,18 @@ HARBOL_EXPORT size_t harbol_deque_prepend(struct HarbolDeque *const restrict deq
 		return SIZE_MAX;
 	}
 	
+	void *const data = dup_data(val, datasize);
+	if( data==NULL ) {
+		return SIZE_MAX;
+	}
+	
 	size_t const i = _harbol_deque_alloc_node(deque);
 	if( i==SIZE_MAX ) {
+		free(data);
 		return SIZE_MAX;
 	}
 	
-	deque->datum[i] = dup_data(val, datasize);
+	deque->datum[i] = data;
 	if( deque->head==SIZE_MAX ) {
 		deque->head = deque->tail = i;
 	} else {
@@ -163,12 +169,18 @@ HARBOL_EXPORT size_t harbol_deque_append(struct HarbolDeque *const restrict dequ
 		return SIZE_MAX;
 	}
 	
+	void *const data = dup_data(val, datasize);
+	if( data==NULL ) {
+		return SIZE_MAX;
+	}
+	
 	size_t const i = _harbol_deque_alloc_node(deque);
 	if( i==SIZE_MAX ) {
+		free(data);
 		return SIZE_MAX;
 	}
 	
-	deque->datum[i] = dup_data(val, datasize);
+	deque->datum[i] = data;
 	if( deque->tail==SIZE_MAX ) {
 		deque->head = deque->tail = i;
 	} else {
-- 
2.43.0


From 1cab1f9f339f40d8a7c62401ec17282ef5c66022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 111/136] fix: tuple: was made without its fields when they
 couldn't be allocated

---
 tuple/tuple.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tuple/tuple.c b/tuple/tuple.c
index d263dd3..0a952a7 100644
--- a/tuple/tuple.c
+++ b/tuple/tuple.c
@@ -58,6 +58,10 @@ HARBOL_EXPORT bool harbol_tuple_init(struct HarbolTuple *const tuple, size_t con
 	tuple->len = packed? total_size : aligned_total;
 	tuple->packed = packed;
 	tuple->fields = harbol_array_make(sizeof(uint32_t), tuple->len, &( bool ){false});
+	if( tuple->len > 0 && tuple->fields.table==NULL ) {
+		harbol_tuple_clear(tuple);
+		return false;
+	}
 	uint32_t offset = 0;
 	for( size_t i=0; i < len; i++ ) {
 		uint32_t const size_pack = (( uint32_t )(sizes[i]) << 16) | offset;
-- 
2.43.0


From b53abceb183563342e2390a08e10b2494ee543df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 112/136] fix: mempool: making a pool without memory was
 reported as a success

---
 allocators/mempool/mempool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allocators/mempool/mempool.c b/allocators/mempool/mempool.c
index 969ea92..351d719 100644
--- a/allocators/mempool/mempool.c
+++ b/allocators/mempool/mempool.c
@@ -160,7 +160,7 @@ HARBOL_EXPORT bool harbol_mempool_init(struct HarbolMemPool *const mempool, size
 		return false;
 	
 	mempool->stack = harbol_region_make(size);
-	return true;
+	return mempool->stack.mem != 0;
 }
 
 HARBOL_EXPORT struct HarbolMemPool harbol_mempool_make(size_t const size, bool *const res) {
-- 
2.43.0


From 27904cd34be16e816fe85b5e9c7a1347f1895885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:00 +0000
Subject: [PATCH 113/136] fix: str: a new string was made without its text when
 that could not be allocated

---
 str/str.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/str/str.c b/str/str.c
index c45b88f..c9af53b 100644
--- a/str/str.c
+++ b/str/str.c
@@ -19,7 +19,9 @@ HARBOL_EXPORT struct HarbolString *harbol_string_new(char const cstr[]) {
 	if( str==NULL ) {
 		return NULL;
 	}
-	harbol_string_init(str, cstr);
+	if( !harbol_string_init(str, cstr) && cstr != NULL && *cstr != 0 ) {
+		free(str); str = NULL;
+	}
 	return str;
 }
 
-- 
2.43.0


From 8318701eb7e6c423f2038ef5124a59d7e1bc9cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:56 +0000
Subject: [PATCH 114/136] fix: cfg: the parser kept pointing to a section's
 counters when the section couldn't be allocated

---
 cfg/cfg.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 650b616..1ca1ffc 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -299,6 +299,8 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		if( subsection==NULL ) {
 			harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "memory error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: unable to allocate subsection for key '%s'.\n", keystr.cstr);
 			harbol_string_clear(&keystr);
+			parse_state->local_iota = old_iota;
+			parse_state->local_enum = old_enum;
 			return false;
 		}
 		
-- 
2.43.0


From 117d5559facc4c3aa9426a82a4c3c081157a2cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:21 +0000
Subject: [PATCH 115/136] fix: cfg: a value that couldn't be inserted was
 leaked, or inserted without its data

---
 cfg/cfg.c | 68 +++++++++++++++++++++++++++++++------------------------
 1 file changed, 38 insertions(+), 30 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 1ca1ffc..712916e 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -181,6 +181,18 @@ static inline bool _cfgmath_end_and_newline(int32_t const c) {
 	return c != '>' && c != '\n';
 }
 
+/// the value's box is only kept when it could be inserted.
+static NO_NULL bool _insert_var(struct HarbolMap *const restrict map, struct HarbolString const *const key, void const *const val, size_t const size, enum HarbolCfgType const type, HarbolCfgState *const restrict parse_state) {
+	bool res = false;
+	struct HarbolVariant var = harbol_variant_make(val, size, type, &res);
+	if( !res || !harbol_map_insert(map, key->cstr, key->len+1, &var, sizeof var) ) {
+		harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "memory error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: unable to insert value for key '%s'.\n", key->cstr);
+		harbol_variant_clear(&var);
+		return false;
+	}
+	return true;
+}
+
 /// keyval = ( string | "<include>" | "<enum>" | math ) [':'] ( value | section ) [','] .
 static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char const **cfgcoderef, HarbolCfgState *const restrict parse_state) {
 	if( *cfgcoderef==NULL ) {
@@ -246,8 +258,10 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			skip_ws_and_comments(cfgcoderef, parse_state);
 			return true;
 		} else {
-			struct HarbolVariant var = harbol_variant_make(&included_cfg, sizeof included_cfg, HarbolCfgType_Map, &( bool ){0});
-			bool const inclusion_res = harbol_map_insert(map, file_path.cstr, file_path.len+1, &var, sizeof var);
+			bool const inclusion_res = _insert_var(map, &file_path, &included_cfg, sizeof included_cfg, HarbolCfgType_Map, parse_state);
+			if( !inclusion_res ) {
+				harbol_cfg_free(&included_cfg);
+			}
 			harbol_string_clear(&file_path);
 			skip_ws_and_comments(cfgcoderef, parse_state);
 			return inclusion_res;
@@ -307,12 +321,9 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		parse_state->depth++;
 		res = harbol_cfg_parse_section(subsection, cfgcoderef, parse_state);
 		parse_state->depth--;
-		struct HarbolVariant var = harbol_variant_make(&subsection, sizeof subsection, HarbolCfgType_Map, &( bool ){0});
-		if( !harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var) ) {
-			harbol_write_msg(NULL, stderr, parse_state->cfg_filename, "memory warning", COLOR_MAGENTA, &parse_state->curr_line, NULL, "Harbol Config Parser :: some how failed to insert subsection for key '%s', destroying...\n", keystr.cstr);
+		if( !_insert_var(map, &keystr, &subsection, sizeof subsection, HarbolCfgType_Map, parse_state) ) {
 			harbol_cfg_free(&subsection);
-			harbol_string_clear(&keystr);
-			harbol_variant_clear(&var);
+			res = false;
 		}
 		parse_state->local_iota = old_iota;
 		parse_state->local_enum = old_enum;
@@ -337,9 +348,10 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			harbol_string_free(&str);
 			return false;
 		}
-		struct HarbolVariant var = harbol_variant_make(&str, sizeof str, HarbolCfgType_String, &( bool ){0});
-		harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var);
-		res = true;
+		res = _insert_var(map, &keystr, &str, sizeof str, HarbolCfgType_String, parse_state);
+		if( !res ) {
+			harbol_string_free(&str);
+		}
 	} else if( **cfgcoderef=='c' || **cfgcoderef=='v' ) {
 		/// color or vector value!
 		char const valtype = *(*cfgcoderef)++;
@@ -391,10 +403,9 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		}
 		(*cfgcoderef)++;
 		
-		struct HarbolVariant var = (valtype=='c')?
-			  harbol_variant_make(&matrix_value.color, sizeof matrix_value.color, HarbolCfgType_Color, &( bool ){0})
-			: harbol_variant_make(&matrix_value.vec4d, sizeof matrix_value.vec4d, HarbolCfgType_Vec4D, &( bool ){0});
-		res = harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var);
+		res = (valtype=='c')?
+			  _insert_var(map, &keystr, &matrix_value.color, sizeof matrix_value.color, HarbolCfgType_Color, parse_state)
+			: _insert_var(map, &keystr, &matrix_value.vec4d, sizeof matrix_value.vec4d, HarbolCfgType_Vec4D, parse_state);
 	} else if( **cfgcoderef=='t' ) {
 		/// true bool value.
 		if( strncmp("true", *cfgcoderef, sizeof("true")-1) ) {
@@ -403,8 +414,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			return false;
 		}
 		*cfgcoderef += sizeof("true") - 1;
-		struct HarbolVariant var = harbol_variant_make(&( bool ){true}, sizeof(bool), HarbolCfgType_Bool, &( bool ){0});
-		res = harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var);
+		res = _insert_var(map, &keystr, &( bool ){true}, sizeof(bool), HarbolCfgType_Bool, parse_state);
 	} else if( **cfgcoderef=='f' ) {
 		/// false bool value
 		if( strncmp("false", *cfgcoderef, sizeof("false")-1) ) {
@@ -413,8 +423,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			return false;
 		}
 		*cfgcoderef += sizeof("false") - 1;
-		struct HarbolVariant var = harbol_variant_make(&( bool ){false}, sizeof(bool), HarbolCfgType_Bool, &( bool ){0});
-		res = harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var);
+		res = _insert_var(map, &keystr, &( bool ){false}, sizeof(bool), HarbolCfgType_Bool, parse_state);
 	} else if( **cfgcoderef=='n' ) {
 		/// null value.
 		if( strncmp("null", *cfgcoderef, sizeof("null")-1) ) {
@@ -423,8 +432,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			return false;
 		}
 		*cfgcoderef += sizeof("null") - 1;
-		struct HarbolVariant var = harbol_variant_make(&( char ){0}, sizeof(char), HarbolCfgType_Null, &( bool ){0});
-		res = harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var);
+		res = _insert_var(map, &keystr, &( char ){0}, sizeof(char), HarbolCfgType_Null, parse_state);
 	} else if( **cfgcoderef=='I' ) {
 		/// local iota value.
 		if( strncmp("IOTA", *cfgcoderef, sizeof("IOTA")-1) ) {
@@ -433,9 +441,8 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			return false;
 		}
 		*cfgcoderef += sizeof("IOTA") - 1;
-		struct HarbolVariant var = harbol_variant_make(&parse_state->global_iota, sizeof parse_state->global_iota, HarbolCfgType_Int, &( bool ){0});
+		res = _insert_var(map, &keystr, &parse_state->global_iota, sizeof parse_state->global_iota, HarbolCfgType_Int, parse_state);
 		parse_state->global_iota++;
-		res = harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var);
 	} else if( **cfgcoderef=='i' ) {
 		/// local iota value.
 		if( strncmp("iota", *cfgcoderef, sizeof("iota")-1) ) {
@@ -444,9 +451,8 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			return false;
 		}
 		*cfgcoderef += sizeof("iota") - 1;
-		struct HarbolVariant var = harbol_variant_make(parse_state->local_iota, sizeof *parse_state->local_iota, HarbolCfgType_Int, &( bool ){0});
+		res = _insert_var(map, &keystr, parse_state->local_iota, sizeof *parse_state->local_iota, HarbolCfgType_Int, parse_state);
 		++*parse_state->local_iota;
-		res = harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var);
 	} else if( is_decimal(**cfgcoderef) || **cfgcoderef=='.' || **cfgcoderef=='-' || **cfgcoderef=='+' ) {
 		/// numeric value.
 		res = harbol_cfg_parse_number(map, &keystr, cfgcoderef, parse_state);
@@ -466,8 +472,10 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			}
 			
 			harbol_string_copy_cstr(str, ( parse_state->cfg_filename==NULL )? "C-string-cfg" : parse_state->cfg_filename);
-			struct HarbolVariant var = harbol_variant_make(&str, sizeof str, HarbolCfgType_String, &( bool ){0});
-			res = harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var);
+			res = _insert_var(map, &keystr, &str, sizeof str, HarbolCfgType_String, parse_state);
+			if( !res ) {
+				harbol_string_free(&str);
+			}
 			*cfgcoderef += file_cstr_len;
 		} else {
 			harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "syntax error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: unknown control/command '%c'.\n", (*cfgcoderef)[1]);
@@ -491,16 +499,16 @@ static bool harbol_cfg_parse_number(struct HarbolMap *const restrict map, struct
 		return false;
 	}
 	
-	struct HarbolVariant var = {0};
+	bool res = false;
 	if( type==HarbolCfgType_Float ) {
 		floatmax_t f = _number_to_float(&numstr, type);
-		var = harbol_variant_make(&f, sizeof f, type, &( bool ){0});
+		res = _insert_var(map, key, &f, sizeof f, type, parse_state);
 	} else {
 		intmax_t i = _number_to_int(&numstr);
-		var = harbol_variant_make(&i, sizeof i, HarbolCfgType_Int, &( bool ){0});
+		res = _insert_var(map, key, &i, sizeof i, HarbolCfgType_Int, parse_state);
 	}
 	harbol_string_clear(&numstr);
-	return harbol_map_insert(map, key->cstr, key->len+1, &var, sizeof var);
+	return res;
 }
 
 /// section = '{' <keyval> '}' ;
-- 
2.43.0


From 5398fa4e98592b03633b8b1e32bc1fb2fc15402e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:21 +0000
Subject: [PATCH 116/136] fix: cfg: without memory for the whole key, another
 key could be looked up

---
 cfg/cfg.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 712916e..4274fe1 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -698,7 +698,10 @@ static NO_NULL struct HarbolVariant *_get_var(struct HarbolMap const *const cfgm
 			if( *iter=='\\' && iter[1]=='.' ) {
 				iter++;
 			}
-			harbol_string_add_char(&sectionstr, *iter++);
+			if( !harbol_string_add_char(&sectionstr, *iter++) ) {
+				harbol_string_clear(&sectionstr);
+				return NULL;
+			}
 		}
 		struct HarbolVariant *const var = harbol_string_empty(&sectionstr)? NULL : harbol_map_key_get(itermap, sectionstr.cstr, sectionstr.len+1);
 		harbol_string_clear(&sectionstr);
-- 
2.43.0


From 96dccd3d299a9e6fa6d7b58467b0437f95b1e155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:43 +0000
Subject: [PATCH 117/136] fix: cfg: writing a file reported success though it
 couldn't be written completely

---
 cfg/cfg.c | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 4274fe1..3fdf657 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -621,19 +621,20 @@ static NO_NULL void _concat_tabs(struct HarbolString *const str, size_t const ta
 }
 
 /// puts a text in the quotes and escapes that the parser reads.
-static void _add_quoted(struct HarbolString *const restrict str, char const text[const], size_t const len) {
-	harbol_string_add_char(str, '"');
+static bool _add_quoted(struct HarbolString *const restrict str, char const text[const], size_t const len) {
+	bool res = harbol_string_add_char(str, '"');
 	for( size_t i=0; i < len; i++ ) {
 		if( text[i]=='"' || text[i]=='\\' ) {
-			harbol_string_add_char(str, '\\');
-			harbol_string_add_char(str, text[i]);
+			res &= harbol_string_add_char(str, '\\');
+			res &= harbol_string_add_char(str, text[i]);
 		} else if( (text[i] >= 0 && text[i] < ' ') || text[i]==127 ) {
-			harbol_string_format(str, false, "\\%03o", ( unsigned )(text[i]));
+			res &= harbol_string_format(str, false, "\\%03o", ( unsigned )(text[i])) >= 0;
 		} else {
-			harbol_string_add_char(str, text[i]);
+			res &= harbol_string_add_char(str, text[i]);
 		}
 	}
-	harbol_string_add_char(str, '"');
+	res &= harbol_string_add_char(str, '"');
+	return res;
 }
 
 HARBOL_EXPORT struct HarbolString harbol_cfg_to_str(struct HarbolMap const *const map) {
@@ -891,11 +892,11 @@ static NO_NULL void _write_tabs(FILE *const file, size_t const tabs) {
 	}
 }
 
-static void _write_quoted(FILE *const file, char const text[const], size_t const len) {
+static bool _write_quoted(FILE *const file, char const text[const], size_t const len) {
 	struct HarbolString quoted = {0};
-	_add_quoted(&quoted, text, len);
-	fwrite(quoted.cstr, sizeof *quoted.cstr, quoted.len, file);
+	bool const res = _add_quoted(&quoted, text, len) && fwrite(quoted.cstr, sizeof *quoted.cstr, quoted.len, file)==quoted.len;
 	harbol_string_clear(&quoted);
+	return res;
 }
 
 static NO_NULL bool _harbol_cfg_build_file(struct HarbolMap const *const map, FILE *const file, size_t const tabs) {
@@ -904,7 +905,7 @@ static NO_NULL bool _harbol_cfg_build_file(struct HarbolMap const *const map, FI
 		int32_t const type = v->tag;
 		_write_tabs(file, tabs);
 		/// using double pointer iterators as we need the key.
-		_write_quoted(file, ( char const* )(map->keys[i]), map->keylens[i] - 1);
+		bool res = _write_quoted(file, ( char const* )(map->keys[i]), map->keylens[i] - 1);
 		fputs(": ", file);
 		
 		union ConfigVal const cv = { v->data };
@@ -913,13 +914,13 @@ static NO_NULL bool _harbol_cfg_build_file(struct HarbolMap const *const map, FI
 				fputs("null\n", file); break;
 			case HarbolCfgType_Map:
 				fputs("{\n", file);
-				_harbol_cfg_build_file(*cv.section, file, tabs+1);
+				res &= _harbol_cfg_build_file(*cv.section, file, tabs+1);
 				_write_tabs(file, tabs);
 				fputs("}\n", file);
 				break;
 			
 			case HarbolCfgType_String:
-				_write_quoted(file, (*cv.str)->cstr, (*cv.str)->len);
+				res &= _write_quoted(file, (*cv.str)->cstr, (*cv.str)->len);
 				fputs("\n", file);
 				break;
 			case HarbolCfgType_Float:  fprintf(file, "%" PRIfMAX "\n", *cv.f);           break;
@@ -930,6 +931,9 @@ static NO_NULL bool _harbol_cfg_build_file(struct HarbolMap const *const map, FI
 			case HarbolCfgType_Vec4D:
 				fprintf(file, "v[ %" PRIf32 ", %" PRIf32 ", %" PRIf32 ", %" PRIf32 " ]\n", cv.v->x, cv.v->y, cv.v->z, cv.v->w); break;
 		}
+		if( !res ) {
+			return false;
+		}
 	}
 	return true;
 }
@@ -940,9 +944,8 @@ HARBOL_EXPORT bool harbol_cfg_build_file(struct HarbolMap const *const cfg, char
 		fputs("harbol_cfg_build_file :: unable to create file.\n", stderr);
 		return false;
 	}
-	bool const result = _harbol_cfg_build_file(cfg, cfgfile, 0);
-	fclose(cfgfile); cfgfile=NULL;
-	return result;
+	bool const result = _harbol_cfg_build_file(cfg, cfgfile, 0) && !ferror(cfgfile);
+	return fclose(cfgfile)==0 && result;
 }
 
 
-- 
2.43.0


From 2b85c16c4deed4b9efc1ed786935af7b7f49e3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:03 +0000
Subject: [PATCH 118/136] fix: lex: writing a character reported success though
 it was written partly or not at all

---
 lex/lex.c | 29 +++++++----------------------
 1 file changed, 7 insertions(+), 22 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index 5cedf9b..c5530a3 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -287,29 +287,14 @@ HARBOL_EXPORT size_t write_utf8_cstr(char buf[static 1], size_t const buflen, in
 }
 
 HARBOL_EXPORT bool write_utf8_str(struct HarbolString *const str, int32_t const rune) {
-	size_t const byte_len = rune_byte_len(rune);
-	switch( byte_len ) {
-		case 1:
-			harbol_string_add_char(str, rune);
-			return true;
-		case 2:
-			harbol_string_add_char(str, 0xC0 | (rune >> 6));
-			harbol_string_add_char(str, 0x80 | (rune & 0x3F));
-			return true;
-		case 3:
-			harbol_string_add_char(str, 0xE0 | (rune >> 12));
-			harbol_string_add_char(str, 0x80 | ((rune >> 6) & 0x3F));
-			harbol_string_add_char(str, 0x80 | (rune & 0x3F));
-			return true;
-		case 4:
-			harbol_string_add_char(str, 0xF0 | (rune >> 18));
-			harbol_string_add_char(str, 0x80 | ((rune >> 12) & 0x3F));
-			harbol_string_add_char(str, 0x80 | ((rune >> 6) & 0x3F));
-			harbol_string_add_char(str, 0x80 | (rune & 0x3F));
-			return true;
-		default:
-			return false;
+	char bytes[4] = {0};
+	size_t const byte_len = write_utf8_cstr(bytes, sizeof bytes, rune);
+	size_t const old_len  = str->len;
+	if( byte_len==0 || !harbol_string_add_char_rep(str, 0, byte_len) ) {
+		return false;
 	}
+	memcpy(&str->cstr[old_len], bytes, byte_len);
+	return true;
 }
 
 static NO_NULL size_t _prechecked_utf8_read(char const cstr[const restrict], int32_t *const restrict rune) {
-- 
2.43.0


From fa9cd5a6102559a7c30a2e09b5ee57d8bba58aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:03 +0000
Subject: [PATCH 119/136] fix: msg_span: was made without lines of its source
 when they couldn't be copied

---
 msg_span/msg_span.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/msg_span/msg_span.c b/msg_span/msg_span.c
index 2741b0c..0bb0e77 100644
--- a/msg_span/msg_span.c
+++ b/msg_span/msg_span.c
@@ -30,10 +30,9 @@ HARBOL_EXPORT bool harbol_msg_span_init(struct HarbolMsgSpan *const restrict msg
 		harbol_string_clear(&msgspan->src.code);
 		return false;
 	}
-	if( is_filename ) {
-		harbol_string_copy_cstr(&msgspan->src.filename, cstr);
-	}
+	bool copied = !is_filename || harbol_string_copy_cstr(&msgspan->src.filename, cstr);
 	lex_fix_newlines(&msgspan->src.code, true);
+	copied &= strpbrk(msgspan->src.code.cstr, "\r\t")==NULL;
 	
 	/// every newline ends a line and there's always a last line after the last newline.
 	size_t const newlines = harbol_string_count_cstr(&msgspan->src.code, "\n");
@@ -49,11 +48,15 @@ HARBOL_EXPORT bool harbol_msg_span_init(struct HarbolMsgSpan *const restrict msg
 	for( size_t i=0; i < newlines; i++ ) {
 		char *const newline = strchr(line, '\n');
 		*newline = 0;
-		harbol_string_copy_cstr(&msgspan->src.lines[i], line);
+		copied &= *line==0 || harbol_string_copy_cstr(&msgspan->src.lines[i], line);
 		*newline = '\n';
 		line = newline + 1;
 	}
-	harbol_string_copy_cstr(&msgspan->src.lines[newlines], line);
+	copied &= *line==0 || harbol_string_copy_cstr(&msgspan->src.lines[newlines], line);
+	if( !copied ) {
+		harbol_msg_span_clear(msgspan);
+		return false;
+	}
 	if( free_src_str ) {
 		harbol_string_clear(&msgspan->src.code);
 	}
-- 
2.43.0


From 10f88cad42e9ff2421021372fd605f42c23a055e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:03 +0000
Subject: [PATCH 120/136] fix: msg_span: a label or note was added without its
 color when that couldn't be allocated

---
 msg_span/msg_span.c | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/msg_span/msg_span.c b/msg_span/msg_span.c
index 0bb0e77..002f93c 100644
--- a/msg_span/msg_span.c
+++ b/msg_span/msg_span.c
@@ -126,15 +126,13 @@ HARBOL_EXPORT bool harbol_msg_span_add_label(struct HarbolMsgSpan *const restric
 	}
 	
 	va_list ap; va_start(ap, msg);
+	bool res = msg_color==NULL || *msg_color==0 || harbol_string_add_cstr(&label.msg, msg_color);
+	res &= harbol_string_format_va(&label.msg, false, msg, ap) >= 0;
 	if( msg_color != NULL ) {
-		harbol_string_add_cstr(&label.msg, msg_color);
-	}
-	int const format_res = harbol_string_format_va(&label.msg, false, msg, ap);
-	if( msg_color != NULL ) {
-		harbol_string_add_cstr(&label.msg, COLOR_RESET);
+		res &= harbol_string_add_cstr(&label.msg, COLOR_RESET);
 	}
 	
-	bool const res = format_res >= 0 && harbol_array_insert(&msgspan->labels, &label, sizeof label);
+	res = res && harbol_array_insert(&msgspan->labels, &label, sizeof label);
 	if( !res ) {
 		harbol_string_clear(&label.msg);
 	}
@@ -148,15 +146,13 @@ HARBOL_EXPORT bool harbol_msg_span_add_note(struct HarbolMsgSpan *const restrict
 	}
 	
 	va_list ap; va_start(ap, msg);
+	bool res = msg_color==NULL || *msg_color==0 || harbol_string_add_cstr(&note, msg_color);
+	res &= harbol_string_format_va(&note, false, msg, ap) >= 0;
 	if( msg_color != NULL ) {
-		harbol_string_add_cstr(&note, msg_color);
-	}
-	int const format_res = harbol_string_format_va(&note, false, msg, ap);
-	if( msg_color != NULL ) {
-		harbol_string_add_cstr(&note, COLOR_RESET);
+		res &= harbol_string_add_cstr(&note, COLOR_RESET);
 	}
 	
-	bool const res = format_res >= 0 && harbol_array_insert(&msgspan->notes, &note, sizeof note);
+	res = res && harbol_array_insert(&msgspan->notes, &note, sizeof note);
 	if( !res ) {
 		harbol_string_clear(&note);
 	}
-- 
2.43.0


From a7244eeb2049037d349f6a6b6542ea5cc3a5b902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:09 +0000
Subject: [PATCH 121/136] fix: msg_span: printed '(null)' margins when they
 couldn't be allocated

---
 msg_span/msg_span.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/msg_span/msg_span.c b/msg_span/msg_span.c
index 002f93c..7370aa4 100644
--- a/msg_span/msg_span.c
+++ b/msg_span/msg_span.c
@@ -228,14 +228,15 @@ HARBOL_EXPORT void harbol_msg_span_emit_to_stream(
 		
 		/// Using log10 + 1 gives us how many digits a decimal value has.
 		struct HarbolString span_pad = {0};
-		harbol_string_add_char_rep(&span_pad, ' ', (base_10_digits(largest_span) + 1));
-		fprintf(stream, "%s|\n", span_pad.cstr);
+		size_t const span_len = base_10_digits(largest_span) + 1;
+		char const *const restrict pad = harbol_string_add_char_rep(&span_pad, ' ', span_len)? span_pad.cstr : "";
+		fprintf(stream, "%s|\n", pad);
 		
 		for( size_t i=0; i < msgspan->labels.len; i++ ) {
 			struct HarbolTokenSpan const span = labels[i].span;
 			
 			/// here we emit the actual code line.
-			_output_span(msgspan, span, span_pad.len, stream);
+			_output_span(msgspan, span, span_len, stream);
 			
 			/// here we emit the label msgs.
 			struct HarbolString colm_pad={0}, hilighter={0};
@@ -245,17 +246,17 @@ HARBOL_EXPORT void harbol_msg_span_emit_to_stream(
 			}
 			
 			char const *const restrict sym_color = labels[i].sym_color;
-			fprintf(stream, "%s|%s%s%s%s %s\n", span_pad.cstr, colm_pad.cstr==NULL? "" : colm_pad.cstr, sym_color==NULL? "" : sym_color, hilighter.cstr==NULL? "" : hilighter.cstr, COLOR_RESET, labels[i].msg.cstr==NULL? "" : labels[i].msg.cstr);
+			fprintf(stream, "%s|%s%s%s%s %s\n", pad, colm_pad.cstr==NULL? "" : colm_pad.cstr, sym_color==NULL? "" : sym_color, hilighter.cstr==NULL? "" : hilighter.cstr, COLOR_RESET, labels[i].msg.cstr==NULL? "" : labels[i].msg.cstr);
 			harbol_string_clear(&colm_pad);
 			harbol_string_clear(&hilighter);
 		}
 		_harbol_msg_span_purge_labels(msgspan, false);
 		
 		if( msgspan->notes.len > 0 ) {
-			fprintf(stream, "%s|\n", span_pad.cstr);
+			fprintf(stream, "%s|\n", pad);
 			struct HarbolString const *notes = ( struct HarbolString const* )(msgspan->notes.table);
 			for( size_t i=0; i < msgspan->notes.len; i++ ) {
-				fprintf(stream, "%s%s\n", span_pad.cstr, notes[i].cstr==NULL? "" : notes[i].cstr);
+				fprintf(stream, "%s%s\n", pad, notes[i].cstr==NULL? "" : notes[i].cstr);
 			}
 			_harbol_msg_span_purge_notes(msgspan, false);
 		}
-- 
2.43.0


From 1e5993da9c4bcba251dceb9141c277f094915580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 122/136] fix: lex: a newline became two when the first
 replacement couldn't be allocated

---
 lex/lex.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lex/lex.c b/lex/lex.c
index c5530a3..e88b919 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -1733,7 +1733,10 @@ lex_custom_lit_err:;
 }
 
 HARBOL_EXPORT void lex_fix_newlines(struct HarbolString *const str, bool const replace_tabs_w_spaces) {
-	harbol_string_replace_cstr(str, "\r\n", "\n", -1);
+	if( !harbol_string_replace_cstr(str, "\r\n", "\n", -1) && harbol_string_count_cstr(str, "\r\n") > 0 ) {
+		/// no memory, replacing the '\r' alone would make two newlines of one.
+		return;
+	}
 	harbol_string_replace_cstr(str, "\r",   "\n", -1);
 	if( replace_tabs_w_spaces ) {
 		harbol_string_replace_cstr(str, "\t", "    ", -1);
-- 
2.43.0


From df96fd9aab432e6eeb867150e9531df565b39ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:10 +0000
Subject: [PATCH 123/136] fix: lex: without memory, converted runes were
 silently cut short

---
 lex/lex.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lex/lex.c b/lex/lex.c
index e88b919..0b4422e 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -376,6 +376,10 @@ HARBOL_EXPORT struct HarbolString rune_to_utf8_str(int32_t const runes[static 1]
 	struct HarbolString str = {0};
 	for( size_t i=0; runes[i] != 0; i++ ) {
 		if( !write_utf8_str(&str, runes[i]) ) {
+			if( rune_byte_len(runes[i]) != 0 ) {
+				/// no memory.
+				harbol_string_clear(&str);
+			}
 			break;
 		}
 	}
-- 
2.43.0


From a09f2ead167b47ba836a2deae00512b435ffab8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:20 +0000
Subject: [PATCH 124/136] fix: lex: convert_runes_to_base_int was declared but
 not defined

---
 lex/lex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lex/lex.c b/lex/lex.c
index 0b4422e..e0c89bb 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -1748,7 +1748,7 @@ HARBOL_EXPORT void lex_fix_newlines(struct HarbolString *const str, bool const r
 }
 
  
-HARBOL_EXPORT intmax_t convert_runes_to_base(
+HARBOL_EXPORT intmax_t convert_runes_to_base_int(
 	int32_t const        runes[const restrict static 1],
 	uint_fast8_t const   base,
 	int32_t const        numerals[const restrict static 1],
-- 
2.43.0


From fd21a8abc2004b5385068011171bf514746cc258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:20 +0000
Subject: [PATCH 125/136] fix: lex: a minus sign inside of a number negated it

---
 lex/lex.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index e0c89bb..0a9b60f 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -1757,7 +1757,7 @@ HARBOL_EXPORT intmax_t convert_runes_to_base_int(
 	intmax_t value = 0;
 	int sign = 1;
 	for( size_t i=0; runes[i] != 0; i++ ) {
-		if( runes[i]=='-' ) {
+		if( i==0 && runes[i]=='-' ) {
 			sign = -1;
 			continue;
 		}
@@ -1810,7 +1810,7 @@ HARBOL_EXPORT intmax_t convert_cstr_to_base_int(char const cstr[const static 1],
 	intmax_t value = 0;
 	int sign = 1;
 	for( size_t i=0; cstr[i] != 0; i++ ) {
-		if( cstr[i]=='-' ) {
+		if( i==0 && cstr[i]=='-' ) {
 			sign = -1;
 			continue;
 		}
-- 
2.43.0


From 1234201c2be42d0817c486a7760c0f73faa54039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:20 +0000
Subject: [PATCH 126/136] fix: lex: numerals beyond the base were taken as
 digits

---
 lex/lex.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index 0a9b60f..ed10822 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -1763,7 +1763,7 @@ HARBOL_EXPORT intmax_t convert_runes_to_base_int(
 		}
 		
 		size_t const idx = find_rune_in_runes(numerals, runes[i]);
-		if( idx != SIZE_MAX ) {
+		if( idx < base ) {
 			value = value * base + idx;
 			continue;
 		}
@@ -1783,7 +1783,7 @@ HARBOL_EXPORT uintmax_t convert_runes_to_base_uint(
 	uintmax_t value = 0;
 	for( size_t i=0; runes[i] != 0; i++ ) {
 		size_t const idx = find_rune_in_runes(numerals, runes[i]);
-		if( idx != SIZE_MAX ) {
+		if( idx < base ) {
 			value = value * base + idx;
 			continue;
 		}
@@ -1816,7 +1816,7 @@ HARBOL_EXPORT intmax_t convert_cstr_to_base_int(char const cstr[const static 1],
 		}
 		
 		char const *const p = strchr(numerals, cstr[i]);
-		if( p != NULL ) {
+		if( p != NULL && p - &numerals[0] < base ) {
 			value = value * base + (p - &numerals[0]);
 			continue;
 		}
@@ -1831,7 +1831,7 @@ HARBOL_EXPORT uintmax_t convert_cstr_to_base_uint(char const cstr[], uint_fast8_
 	uintmax_t value = 0;
 	for( size_t i=0; cstr[i] != 0; i++ ) {
 		char const *const p = strchr(numerals, cstr[i]);
-		if( p != NULL ) {
+		if( p != NULL && p - &numerals[0] < base ) {
 			value = value * base + (p - &numerals[0]);
 			continue;
 		}
-- 
2.43.0


From dbe47f2986ee2d8509b970f6b03320394399864b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:41 +0000
Subject: [PATCH 127/136] fix: lex: converting a string that was never assigned
 to a number crashed

---
 lex/lex.c | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index ed10822..680c78c 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -1681,33 +1681,40 @@ HARBOL_EXPORT bool lex_until(char const str[static 1], char const **const end, s
 }
 
 HARBOL_EXPORT intmax_t lex_c_string_to_int(struct HarbolString const *const str, char **const end) {
-	bool const is_binary = !strncmp(str->cstr, "0b", 2) || !strncmp(str->cstr, "0B", 2);
+	char const *const text = (str->cstr==NULL)? "" : str->cstr;
+	bool const is_binary = !strncmp(text, "0b", 2) || !strncmp(text, "0B", 2);
 	size_t const extra = (is_binary)? 2 : 0;
-	return strtoll(&str->cstr[extra], end, is_binary? 2 : 0);
+	return strtoll(&text[extra], end, is_binary? 2 : 0);
 }
 
 HARBOL_EXPORT intmax_t lex_go_string_to_int(struct HarbolString const *const str, char **const end) {
-	bool const is_octal  = !strncmp(str->cstr, "0o", 2) || !strncmp(str->cstr, "0O", 2);
-	bool const is_binary = !strncmp(str->cstr, "0b", 2) || !strncmp(str->cstr, "0B", 2);
+	char const *const text = (str->cstr==NULL)? "" : str->cstr;
+	bool const is_octal  = !strncmp(text, "0o", 2) || !strncmp(text, "0O", 2);
+	bool const is_binary = !strncmp(text, "0b", 2) || !strncmp(text, "0B", 2);
 	size_t const extra = (is_octal || is_binary)? 2 : 0;
-	return strtoll(&str->cstr[extra], end, is_octal? 8 : is_binary? 2 : 0);
+	return strtoll(&text[extra], end, is_octal? 8 : is_binary? 2 : 0);
 }
 
 
 HARBOL_EXPORT uintmax_t lex_c_string_to_uint(struct HarbolString const *const str, char **const end) {
-	bool const is_binary = !strncmp(str->cstr, "0b", 2) || !strncmp(str->cstr, "0B", 2);
+	char const *const text = (str->cstr==NULL)? "" : str->cstr;
+	bool const is_binary = !strncmp(text, "0b", 2) || !strncmp(text, "0B", 2);
 	size_t const extra = (is_binary)? 2 : 0;
-	return strtoull(&str->cstr[extra], end, is_binary? 2 : 0);
+	return strtoull(&text[extra], end, is_binary? 2 : 0);
 }
 
 HARBOL_EXPORT uintmax_t lex_go_string_to_uint(struct HarbolString const *const str, char **const end) {
-	bool const is_octal  = !strncmp(str->cstr, "0o", 2) || !strncmp(str->cstr, "0O", 2);
-	bool const is_binary = !strncmp(str->cstr, "0b", 2) || !strncmp(str->cstr, "0B", 2);
+	char const *const text = (str->cstr==NULL)? "" : str->cstr;
+	bool const is_octal  = !strncmp(text, "0o", 2) || !strncmp(text, "0O", 2);
+	bool const is_binary = !strncmp(text, "0b", 2) || !strncmp(text, "0B", 2);
 	size_t const extra = (is_octal || is_binary)? 2 : 0;
-	return strtoull(&str->cstr[extra], end, is_octal? 8 : is_binary? 2 : 0);
+	return strtoull(&text[extra], end, is_octal? 8 : is_binary? 2 : 0);
 }
 
 HARBOL_EXPORT floatmax_t lex_string_to_float(struct HarbolString const *const str) {
+	if( str->cstr==NULL ) {
+		return 0;
+	}
 	bool const is_hex = !strncmp(str->cstr, "0x", 2) || !strncmp(str->cstr, "0X", 2);
 	floatmax_t f = 0;
 	harbol_string_scan(str, is_hex? "%" SCNxfMAX "" : "%" SCNfMAX "", &f);
-- 
2.43.0


From 6598a2efa66b1d154a27189820e9bc2074762024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:15 +0000
Subject: [PATCH 128/136] fix: msg_sys: a message without a type was shown as
 (null)

---
 msg_sys/msg_sys.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msg_sys/msg_sys.c b/msg_sys/msg_sys.c
index 103b7f4..babb798 100644
--- a/msg_sys/msg_sys.c
+++ b/msg_sys/msg_sys.c
@@ -21,7 +21,7 @@ static NEVER_NULL(1) void _print_file_margins(FILE *const restrict file, char co
 HARBOL_EXPORT void harbol_write_msg(size_t *const restrict msg_cnt, FILE *const restrict stream, char const filename[const restrict], char const msgtype[const restrict], char const msg_color[const restrict], uint32_t const *const line, uint32_t const *const col, char const msg_fmt[const restrict static 1], ...) {
 	va_list args; va_start(args, msg_fmt);
 	_print_file_margins(stream, filename, line, col);
-	fprintf(stream, "%s%s%s: **** ", msg_color, msgtype, COLOR_RESET);
+	fprintf(stream, "%s%s%s: **** ", msg_color, (msgtype==NULL)? "" : msgtype, COLOR_RESET);
 	vfprintf(stream, msg_fmt, args);
 	fprintf(stream, " ****\n");
 	va_end(args);
-- 
2.43.0


From 3434bfc4cc80e2ed00b3f833565dac9adf966bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:13 +0000
Subject: [PATCH 129/136] fix: dup_cstr of a part of a string overflowed the
 copy

---
 harbol_common_includes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index 4151f7f..129d4e3 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -537,7 +537,7 @@ static inline NO_NULL char *dup_cstr(size_t const len, char const cstr[const res
 #else
 	char *restrict cpy = calloc(len + 1, sizeof *cpy);
 #endif
-	return( cpy==NULL )? NULL : strcpy(cpy, cstr);
+	return( cpy==NULL )? NULL : strncpy(cpy, cstr, len);
 }
 
 
-- 
2.43.0


From 28f9f3f4a070d4c5378520378bee9962b7aadbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:12 +0000
Subject: [PATCH 130/136] fix: str: a file that could not be read was taken as
 read

---
 cfg/cfg.c | 1 +
 str/str.c | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 3fdf657..b1910c9 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -561,6 +561,7 @@ static struct HarbolMap *_harbol_cfg_parse_file(char const filename[static 1], H
 	fclose(cfgfile); cfgfile = NULL;
 	if( !read_result ) {
 		harbol_write_msg(&parse_state.errc, stderr, NULL, "parse error", COLOR_RED, NULL, NULL, "Harbol Config Parser :: failed to read file '%s' into string.\n", filename);
+		harbol_string_clear(&cfg);
 		return NULL;
 	}
 	/// fix up new lines and tabs.
diff --git a/str/str.c b/str/str.c
index c9af53b..cb1d734 100644
--- a/str/str.c
+++ b/str/str.c
@@ -214,7 +214,7 @@ HARBOL_EXPORT bool harbol_string_read_from_file(struct HarbolString *const str,
 	}
 	str->len = fread(str->cstr, sizeof *str->cstr, filesize, file);
 	str->cstr[str->len] = 0;
-	return true;
+	return !ferror(file);
 }
 
 HARBOL_EXPORT bool harbol_string_read_file(struct HarbolString *const restrict str, char const filename[static 1]) {
-- 
2.43.0


From 68e19635f0ea016bf373e1e62a62353ee425b5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:12 +0000
Subject: [PATCH 131/136] fix: a failed seek gave the wrong size of a file, and
 a failed read an incomplete buffer

---
 bytebuffer/bytebuffer.c  | 4 +---
 harbol_common_includes.h | 9 +++++++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/bytebuffer/bytebuffer.c b/bytebuffer/bytebuffer.c
index 8bab782..3ef1750 100644
--- a/bytebuffer/bytebuffer.c
+++ b/bytebuffer/bytebuffer.c
@@ -152,13 +152,11 @@ HARBOL_EXPORT bool harbol_bytebuffer_insert_from_filename(struct HarbolByteBuf *
 }
 
 HARBOL_EXPORT bool harbol_bytebuffer_insert_from_file(struct HarbolByteBuf *const buf, FILE *const file) {
-	fseek(file, 0, SEEK_END);
-	long const file_size = ftell(file);
+	ssize_t const file_size = get_file_size(file);
 	if( file_size <= 0 ) {
 		return false;
 	}
 	
-	rewind(file);
 	if( buf->len + file_size >= buf->cap && !_harbol_buffer_resize(buf, buf->len + file_size) ) {
 		return false;
 	}
diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index 129d4e3..8eae10b 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -426,10 +426,12 @@ static inline NO_NULL size_t ptr_hash(void const *const p, size_t const seed) {
 
 
 static inline NO_NULL ssize_t get_file_size(FILE *const file) {
-	fseek(file, 0, SEEK_END);
+	if( fseek(file, 0, SEEK_END) != 0 ) {
+		return -1;
+	}
 	ssize_t const filesize = ftell(file);
 	rewind(file);
-	return filesize;
+	return (ftell(file)==0)? filesize : -1;
 }
 
 /// Harbol Iterator.
@@ -469,6 +471,9 @@ static inline NO_NULL uint8_t *make_buffer_from_file(FILE *const restrict file,
 		*bytes = SIZE_MAX;
 	} else {
 		*bytes = fread(stream, sizeof *stream, filesize, file);
+		if( ferror(file) ) {
+			free(stream); stream = NULL;
+		}
 	}
 	return stream;
 }
-- 
2.43.0


From 4b7bff2977f1b49c61314162a1abfa7c1ca25075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:24 +0000
Subject: [PATCH 132/136] fix: cfg: reports named a later line after comments,
 and an earlier one after strings over several lines

---
 cfg/cfg.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index b1910c9..9ffb381 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -46,7 +46,6 @@ static NO_NULL bool skip_ws_and_comments(char const **strref, HarbolCfgState *co
 				*strref = skip_chars(*strref, is_whitespace, &parse_state->curr_line);
 			} else if( **strref=='#' || (**strref=='/' && (*strref)[1]=='/') ) {
 				*strref = skip_single_line_comment(*strref, &parse_state->curr_line);
-				parse_state->curr_line++;
 			} else if( **strref=='/' && (*strref)[1]=='*' ) {
 				*strref = skip_multi_line_comment(*strref, "*/", sizeof "*/"-1, &parse_state->curr_line);
 			} else if( **strref==':' || **strref==',' ) {
@@ -57,6 +56,16 @@ static NO_NULL bool skip_ws_and_comments(char const **strref, HarbolCfgState *co
 	}
 }
 
+/// strings can go over several lines.
+static NO_NULL int _lex_str(char const **const restrict strref, struct HarbolString *const restrict str, HarbolCfgState *const restrict parse_state) {
+	char const *const start = *strref;
+	int const res = lex_c_style_str(start, strref, str);
+	for( char const *iter = start; iter < *strref; iter++ ) {
+		parse_state->curr_line += *iter=='\n';
+	}
+	return res;
+}
+
 static bool NO_NULL _lex_number(char const **restrict strref, struct HarbolString *const restrict str, enum HarbolCfgType *const typeref, HarbolCfgState *const restrict parse_state) {
 	if( *strref==NULL || **strref==0 ) {
 		return false;
@@ -206,7 +215,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 	}
 	
 	struct HarbolString keystr = {0};
-	int const str_res = lex_c_style_str(*cfgcoderef, cfgcoderef, &keystr);
+	int const str_res = _lex_str(cfgcoderef, &keystr, parse_state);
 	if( str_res > HarbolLexNoErr ) {
 		harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "syntax error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: invalid string key '%s' %s.\n", keystr.cstr, lex_get_err(str_res));
 		harbol_string_clear(&keystr);
@@ -230,7 +239,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		}
 		
 		struct HarbolString file_path = harbol_string_make(NULL, &( bool ){false});
-		int const str_res = lex_c_style_str(*cfgcoderef, cfgcoderef, &file_path);
+		int const str_res = _lex_str(cfgcoderef, &file_path, parse_state);
 		if( str_res > HarbolLexNoErr ) {
 			harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "syntax error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: invalid string value '%s' for key '%s' %s.\n", file_path.cstr, keystr.cstr, lex_get_err(str_res));
 			harbol_string_clear(&file_path);
@@ -336,7 +345,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			return false;
 		}
 		
-		int const str_res = lex_c_style_str(*cfgcoderef, cfgcoderef, str);
+		int const str_res = _lex_str(cfgcoderef, str, parse_state);
 		if( str_res > HarbolLexNoErr ) {
 			harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "syntax error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: invalid string value '%s' for key '%s' %s.\n", str->cstr, keystr.cstr, lex_get_err(str_res));
 			harbol_string_free(&str);
-- 
2.43.0


From c6ddc4739f3203e695006c336a09dd4f13eec910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:32 +0000
Subject: [PATCH 133/136] fix: plugins: a directory whose name ends in a
 backslash was read under another name

---
 plugins/tinydir.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/plugins/tinydir.h b/plugins/tinydir.h
index ffcd9df..38961fc 100644
--- a/plugins/tinydir.h
+++ b/plugins/tinydir.h
@@ -300,7 +300,11 @@ int tinydir_open(tinydir_dir *dir, const _tinydir_char_t *path)
 	_tinydir_strcpy(dir->path, path);
 	/* Remove trailing slashes */
 	pathp = &dir->path[_tinydir_strlen(dir->path) - 1];
+#if defined _MSC_VER || defined __MINGW32__
 	while (pathp != dir->path && (*pathp == TINYDIR_STRING('\\') || *pathp == TINYDIR_STRING('/')))
+#else
+	while (pathp != dir->path && *pathp == TINYDIR_STRING('/'))
+#endif
 	{
 		*pathp = TINYDIR_STRING('\0');
 		pathp++;
-- 
2.43.0


From c097be9e91c85375ff33aa93a55d0fdfd3b149b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:59 +0000
Subject: [PATCH 134/136] fix: map: every operation on a cleared map
 dereferenced a null pointer

---
 map/map.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/map/map.c b/map/map.c
index ab3e907..8f2b14f 100644
--- a/map/map.c
+++ b/map/map.c
@@ -69,6 +69,10 @@ HARBOL_EXPORT void harbol_map_free(struct HarbolMap **const map_ref) {
 
 
 HARBOL_EXPORT size_t harbol_map_get_entry_index(struct HarbolMap const *const map, void const *const key, size_t const keylen) {
+	if( map->len==0 ) {
+		return SIZE_MAX;
+	}
+	
 	uint8_t const *const restrict desired_key = key;
 	size_t const hash    = array_hash(desired_key, keylen, map->seed);
 	size_t const mask    = map->cap - 1;
-- 
2.43.0


From 963db75abe63b98fb18ee9a780900f14e2ff4aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:59 +0000
Subject: [PATCH 135/136] fix: deque: insertion into and traversal of a cleared
 deque dereferenced a null pointer

---
 deque/deque.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/deque/deque.c b/deque/deque.c
index 9065319..3c76ed1 100644
--- a/deque/deque.c
+++ b/deque/deque.c
@@ -40,6 +40,10 @@ HARBOL_EXPORT struct HarbolDeque harbol_deque_make(size_t const init_size, bool
 }
 
 HARBOL_EXPORT void harbol_deque_reset(struct HarbolDeque *const deque) {
+	if( deque->cap==0 ) {
+		return;
+	}
+	
 	for( size_t i=0; i < deque->cap; i++ ) {
 		free(deque->datum[i]); deque->datum[i] = NULL;
 		deque->prevs[i] = i - 1;
@@ -56,6 +60,7 @@ HARBOL_EXPORT void harbol_deque_clear(struct HarbolDeque *const deque) {
 	}
 	harbol_multi_cleanup(3, &deque->nexts, &deque->prevs, &deque->datum);
 	*deque = ( struct HarbolDeque ){0};
+	deque->head = deque->tail = deque->freed = SIZE_MAX;
 }
 HARBOL_EXPORT void harbol_deque_free(struct HarbolDeque **const dequeref) {
 	if( *dequeref==NULL ) {
@@ -136,7 +141,7 @@ HARBOL_EXPORT void *harbol_deque_get_data(struct HarbolDeque const *const deque,
 }
 
 HARBOL_EXPORT size_t harbol_deque_prepend(struct HarbolDeque *const restrict deque, void const *const val, size_t const datasize) {
-	if( deque->len >= deque->cap && !_harbol_deque_resize(deque, deque->cap << 1) ) {
+	if( deque->len >= deque->cap && !_harbol_deque_resize(deque, deque->cap==0? 1 : deque->cap << 1) ) {
 		return SIZE_MAX;
 	}
 	
@@ -165,7 +170,7 @@ HARBOL_EXPORT size_t harbol_deque_prepend(struct HarbolDeque *const restrict deq
 }
 
 HARBOL_EXPORT size_t harbol_deque_append(struct HarbolDeque *const restrict deque, void const *const val, size_t const datasize) {
-	if( deque->len >= deque->cap && !_harbol_deque_resize(deque, deque->cap << 1) ) {
+	if( deque->len >= deque->cap && !_harbol_deque_resize(deque, deque->cap==0? 1 : deque->cap << 1) ) {
 		return SIZE_MAX;
 	}
 	
-- 
2.43.0


From 251c0d8894a15f41f46bd91d11a3fed527b50cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:43 +0000
Subject: [PATCH 136/136] fix: tree: setting a node from a part of its own
 value copies between overlapping regions

---
 tree/tree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree/tree.c b/tree/tree.c
index 846e262..7c89101 100644
--- a/tree/tree.c
+++ b/tree/tree.c
@@ -67,7 +67,7 @@ HARBOL_EXPORT bool harbol_tree_set(struct HarbolTree *const restrict tree, void
 		free(tree->data);
 		tree->data = data;
 	} else {
-		memcpy(tree->data, val, datasize);
+		memmove(tree->data, val, datasize);
 	}
 	tree->len = datasize;
 	return true;
-- 
2.43.0

