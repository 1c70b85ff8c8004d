From 512ae48dc63649cf8ea5e49abd23a7983d1aa9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 01/82] fix: serialise 4-byte wide strings as unicode, not
 truncated to 8 bits

---
 python/pointless_create.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/pointless_create.c b/python/pointless_create.c
index 0ae2302..f21540c 100644
--- a/python/pointless_create.c
+++ b/python/pointless_create.c
@@ -311,9 +311,9 @@ static uint32_t pointless_export_py_rec(pointless_export_state_t* state, PyObjec
 				break;
 			case PyUnicode_4BYTE_KIND:
 				if (state->unwiden_strings && pointless_is_ucs4_ascii((uint32_t*)python_buffer))
-					handle = pointless_create_unicode_ucs4(&state->c, (uint32_t*)python_buffer);
-				else
 					handle = pointless_create_string_ucs4(&state->c, (uint32_t*)python_buffer);
+				else
+					handle = pointless_create_unicode_ucs4(&state->c, (uint32_t*)python_buffer);
 				break;
 			// will happen for PyUnicode_WCHAR_KIND on python versions < 3.12
 			default:
-- 
2.43.0


From db4933d931a9b2d3ab7ecb0e3bbcfb1490c7fd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 02/82] fix: select the comparison of the second operand by its
 own type when creating hash tables

---
 src/pointless_cmp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointless_cmp.c b/src/pointless_cmp.c
index 8c39b66..8284c32 100644
--- a/src/pointless_cmp.c
+++ b/src/pointless_cmp.c
@@ -523,7 +523,7 @@ static int32_t pointless_cmp_create_rec_priv(pointless_create_t* c, pointless_co
 
 	// find the comparison func for these two
 	pointless_cmp_create_cb cmp_a = pointless_cmp_create_func(v_a->header.type_29);
-	pointless_cmp_create_cb cmp_b = pointless_cmp_create_func(v_a->header.type_29);
+	pointless_cmp_create_cb cmp_b = pointless_cmp_create_func(v_b->header.type_29);
 
 	// different type groups, just cmp on type ID
 	if (cmp_a != cmp_b)
-- 
2.43.0


From 61e11e63be348f650e3d336570ba49e92645c94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:03 +0000
Subject: [PATCH 03/82] fix: refuse set/map keys which are not equal to
 themselves, such files could not be opened

---
 src/pointless_hash_table.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pointless_hash_table.c b/src/pointless_hash_table.c
index ddad488..98e8681 100644
--- a/src/pointless_hash_table.c
+++ b/src/pointless_hash_table.c
@@ -143,6 +143,17 @@ int pointless_hash_table_populate(pointless_create_t* c, uint32_t* hash_vector,
 	uint32_t value_hash, perturb, bucket, i, mask = n_buckets - 1;
 
 	for (j = 0; j < n_keys; j++) {
+		// a key which is not equal to itself (NaN) could never be found
+		cmp = pointless_cmp_create(c, keys_vector[j], keys_vector[j], error);
+
+		if (*error)
+			return 0;
+
+		if (cmp != 0) {
+			*error = "key in set/map is not equal to itself";
+			return 0;
+		}
+
 		// NOTE: basically same code as above
 		value_hash = hash_vector[j];
 		perturb = value_hash;
-- 
2.43.0


From c83e8c6f4cd69fd7ab493e94c0ad1a165392c1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:51 +0000
Subject: [PATCH 04/82] fix: compare 64-bit items of keys while creating hash
 tables

---
 src/pointless_cmp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pointless_cmp.c b/src/pointless_cmp.c
index 8284c32..eccc731 100644
--- a/src/pointless_cmp.c
+++ b/src/pointless_cmp.c
@@ -456,6 +456,8 @@ static pointless_cmp_create_cb pointless_cmp_create_func(uint32_t t)
 			return pointless_cmp_create_string_unicode;
 		case POINTLESS_I32:
 		case POINTLESS_U32:
+		case POINTLESS_I64:
+		case POINTLESS_U64:
 		case POINTLESS_BOOLEAN:
 		case POINTLESS_FLOAT:
 			return pointless_cmp_create_int_float;
-- 
2.43.0


From d354c8c4dea9f754e326ab30088159a09de68a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:43 +0000
Subject: [PATCH 05/82] fix: number nodes in visiting order when marking
 cycles, numbers by depth are not unique

---
 src/pointless_cycle_marker.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/pointless_cycle_marker.c b/src/pointless_cycle_marker.c
index 1823c1a..481de21 100644
--- a/src/pointless_cycle_marker.c
+++ b/src/pointless_cycle_marker.c
@@ -54,10 +54,13 @@ typedef struct {
 	Pvoid_t component_judy;
 	Pvoid_t root_judy;
 
+	// next pre-order number
+	Word_t next_count;
+
 	pointless_dynarray_t stack;
 } pointless_cycle_marker_state_t;
 
-static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state, uint64_t v, Word_t count, uint32_t depth);
+static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state, uint64_t v, uint32_t depth);
 
 //static void print_depth(uint32_t depth)
 //{
@@ -66,7 +69,7 @@ static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state,
 //		printf("   ");
 //}
 
-static void process_child(pointless_cycle_marker_state_t* state, uint32_t v_id, uint64_t w, Word_t count, uint32_t depth)
+static void process_child(pointless_cycle_marker_state_t* state, uint32_t v_id, uint64_t w, uint32_t depth)
 {
 	if (!(*state->cb_info->fn_is_container)(state->cb_info->user, w))
 		return;
@@ -80,7 +83,7 @@ static void process_child(pointless_cycle_marker_state_t* state, uint32_t v_id,
 	if (PValue == 0) {
 		//print_depth(depth); printf(" w is not in visited, so visit(w = %u, count = %llu)\n", (unsigned int)w_id, (unsigned long long)count);
 
-		pointless_cycle_marker_visit(state, w, count, depth + 1);
+		pointless_cycle_marker_visit(state, w, depth + 1);
 
 		if (state->error)
 			return;
@@ -137,7 +140,7 @@ static void _unpack_map_and_vector(uint64_t v, uint32_t* owner, uint32_t* value)
 //	return buffer;
 //}
 
-static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state, uint64_t v, Word_t count, uint32_t depth)
+static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state, uint64_t v, uint32_t depth)
 {
 	assert((*state->cb_info->fn_is_container)(state->cb_info->user, v));
 
@@ -146,6 +149,9 @@ static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state,
 		return;
 	}
 
+	// the number of each node must be unique, also among nodes at the same depth
+	Word_t count = state->next_count++;
+
 	if (count >= (Word_t)((*state->cb_info->fn_n_nodes)(state->cb_info->user))) {
 		//printf("B depth %u, count %u\n", depth, (unsigned int)count);
 		state->error = "internal error: pre-order count exceeds number of containers";
@@ -212,7 +218,7 @@ static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state,
 			}
 		}
 
-		process_child(state, v_id, child, count + 1, depth + 1);
+		process_child(state, v_id, child, depth + 1);
 
 		if (state->error)
 			return;
@@ -292,6 +298,7 @@ void* pointless_cycle_marker(cycle_marker_info_t* info, const char** error)
 	state.visited_judy = 0;
 	state.component_judy = 0;
 	state.root_judy = 0;
+	state.next_count = 0;
 	pointless_dynarray_init(&state.stack, sizeof(uint32_t));
 
 	if (state.cycle_marker == 0) {
@@ -302,7 +309,7 @@ void* pointless_cycle_marker(cycle_marker_info_t* info, const char** error)
 	root = (*info->fn_get_root)(state.cb_info->user);
 
 	if ((*info->fn_is_container)(state.cb_info->user, root))
-		pointless_cycle_marker_visit(&state, root, 0, 0);
+		pointless_cycle_marker_visit(&state, root, 0);
 
 	if (state.error)
 		goto error_cleanup;
-- 
2.43.0


From 9661a4440d06c54d7200b98af7ffe3bb0cf05d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:43 +0000
Subject: [PATCH 06/82] fix: refuse keys which hold unhashable items, instead
 of crashing while hashing them

---
 include/pointless/pointless_defs.h  |  5 +++
 src/pointless_create.c              |  2 +-
 src/pointless_hash.c                | 56 +++++++++++++++++++++++++++++
 src/pointless_validate_hash_table.c |  2 +-
 4 files changed, 63 insertions(+), 2 deletions(-)

diff --git a/include/pointless/pointless_defs.h b/include/pointless/pointless_defs.h
index 8168f68..f9eef5c 100644
--- a/include/pointless/pointless_defs.h
+++ b/include/pointless/pointless_defs.h
@@ -380,6 +380,11 @@ uint32_t pointless_vector_hash_end_32(pointless_vector_hash_state_32_t* state);
 
 uint32_t pointless_is_hashable(uint32_t type);
 
+// as above, but these look inside vectors as well
+uint32_t pointless_is_hashable_reader(pointless_t* p, pointless_value_t* v);
+uint32_t pointless_is_hashable_reader_vector(pointless_t* p, pointless_value_t* v, uint32_t i, uint32_t n);
+uint32_t pointless_is_hashable_create(pointless_create_t* c, pointless_create_value_t* v);
+
 uint32_t pointless_hash_unicode_ucs4_v1_32(uint32_t* s);
 uint32_t pointless_hash_unicode_ucs2_v1_32(uint16_t* s);
 uint32_t pointless_hash_string_v1_32(uint8_t* s);
diff --git a/src/pointless_create.c b/src/pointless_create.c
index 4096504..08aeef8 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -114,7 +114,7 @@ static int pointless_hash_table_create(pointless_create_t* c, uint32_t hash_tabl
 
 	// compute all the key hashes
 	for (i = 0; i < n_keys; i++) {
-		if (!pointless_is_hashable(cv_value_type(keys_vector_ptr[i]))) {
+		if (!pointless_is_hashable_create(c, cv_value_at(keys_vector_ptr[i]))) {
 			*error = "pointless_hash_table_create(): internal error: key not hashable";
 			goto cleanup;
 		}
diff --git a/src/pointless_hash.c b/src/pointless_hash.c
index 6ae3caf..3e97d1c 100644
--- a/src/pointless_hash.c
+++ b/src/pointless_hash.c
@@ -469,6 +469,62 @@ uint32_t pointless_is_hashable(uint32_t type)
 	return (pointless_hash_reader_func_32(type) != 0);
 }
 
+// an acyclic vector is only hashable if all of its items are
+static uint32_t pointless_is_hashable_reader_rec(pointless_t* p, pointless_value_t* v, uint32_t i, uint32_t n_items, uint32_t depth)
+{
+	if (v->type != POINTLESS_VECTOR_VALUE_HASHABLE)
+		return pointless_is_hashable(v->type);
+
+	if (depth >= POINTLESS_MAX_DEPTH)
+		return 0;
+
+	pointless_value_t* items = pointless_reader_vector_value(p, v) + i;
+
+	for (i = 0; i < n_items; i++) {
+		uint32_t n_child_items = (items[i].type == POINTLESS_VECTOR_VALUE_HASHABLE) ? pointless_reader_vector_n_items(p, &items[i]) : 0;
+
+		if (!pointless_is_hashable_reader_rec(p, &items[i], 0, n_child_items, depth + 1))
+			return 0;
+	}
+
+	return 1;
+}
+
+static uint32_t pointless_is_hashable_create_rec(pointless_create_t* c, pointless_create_value_t* v, uint32_t depth)
+{
+	if (v->header.type_29 != POINTLESS_VECTOR_VALUE_HASHABLE || v->header.is_outside_vector)
+		return pointless_is_hashable(v->header.type_29);
+
+	if (depth >= POINTLESS_MAX_DEPTH)
+		return 0;
+
+	uint32_t i, n_items = pointless_dynarray_n_items(&cv_get_priv_vector(v)->vector);
+
+	for (i = 0; i < n_items; i++) {
+		uint32_t item = pointless_dynarray_ITEM_AT(uint32_t, &cv_get_priv_vector(v)->vector, i);
+
+		if (!pointless_is_hashable_create_rec(c, cv_value_at(item), depth + 1))
+			return 0;
+	}
+
+	return 1;
+}
+
+uint32_t pointless_is_hashable_reader(pointless_t* p, pointless_value_t* v)
+{
+	return pointless_is_hashable_reader_rec(p, v, 0, (v->type == POINTLESS_VECTOR_VALUE_HASHABLE) ? pointless_reader_vector_n_items(p, v) : 0, 0);
+}
+
+uint32_t pointless_is_hashable_reader_vector(pointless_t* p, pointless_value_t* v, uint32_t i, uint32_t n)
+{
+	return pointless_is_hashable_reader_rec(p, v, i, n, 0);
+}
+
+uint32_t pointless_is_hashable_create(pointless_create_t* c, pointless_create_value_t* v)
+{
+	return pointless_is_hashable_create_rec(c, v, 0);
+}
+
 uint32_t pointless_hash_reader_32(pointless_t* p, pointless_value_t* v)
 {
 	assert(pointless_is_hashable(v->type));
diff --git a/src/pointless_validate_hash_table.c b/src/pointless_validate_hash_table.c
index 9b3c5b6..286ff81 100644
--- a/src/pointless_validate_hash_table.c
+++ b/src/pointless_validate_hash_table.c
@@ -36,7 +36,7 @@ int32_t pointless_hash_table_validate(pointless_t* p, uint32_t n_items, uint32_t
 	// make sure hashes match the given object
 	for (i = 0; i < n_buckets; i++) {
 		// make sure it is hashable
-		if (!pointless_is_hashable(key_vector[i].type)) {
+		if (!pointless_is_hashable_reader(p, &key_vector[i])) {
 			*error = "key in set/map is not hashable";
 			return 0;
 		}
-- 
2.43.0


From 97591bc8af61c58ef2a099906d7996f9c657231c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:37 +0000
Subject: [PATCH 07/82] fix: empty vectors within keys do not refer to the
 first vector of the file

---
 src/pointless_cmp.c  | 16 ++++++++++++++--
 src/pointless_hash.c |  6 +++++-
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/pointless_cmp.c b/src/pointless_cmp.c
index eccc731..1977d5e 100644
--- a/src/pointless_cmp.c
+++ b/src/pointless_cmp.c
@@ -368,13 +368,25 @@ static int32_t pointless_cmp_reader_vector(pointless_t* p_a, pointless_complete_
 	return SIMPLE_CMP(n_items_a, n_items_b);
 }
 
+static uint32_t pointless_cmp_vector_n_items_create(pointless_create_t* c, pointless_create_value_t* v)
+{
+	// empty vectors do not refer to any vector
+	if (v->header.type_29 == POINTLESS_VECTOR_EMPTY)
+		return 0;
+
+	if (v->header.is_outside_vector)
+		return cv_get_outside_vector(v)->n_items;
+
+	return pointless_dynarray_n_items(&cv_get_priv_vector(v)->vector);
+}
+
 static int32_t pointless_cmp_create_vector(pointless_create_t* c, pointless_complete_create_value_t* a, pointless_complete_create_value_t* b, uint32_t depth, const char** error)
 {
 	pointless_create_value_t _a = pointless_create_value_from_complete(a);
 	pointless_create_value_t _b = pointless_create_value_from_complete(b);
 
-	uint32_t n_items_a = a->header.is_outside_vector ? cv_get_outside_vector(&_a)->n_items : pointless_dynarray_n_items(&cv_get_priv_vector(&_a)->vector);
-	uint32_t n_items_b = b->header.is_outside_vector ? cv_get_outside_vector(&_b)->n_items : pointless_dynarray_n_items(&cv_get_priv_vector(&_b)->vector);
+	uint32_t n_items_a = pointless_cmp_vector_n_items_create(c, &_a);
+	uint32_t n_items_b = pointless_cmp_vector_n_items_create(c, &_b);
 	uint32_t i, n_items = (n_items_a < n_items_b ? n_items_a : n_items_b);
 	int32_t cc;
 
diff --git a/src/pointless_hash.c b/src/pointless_hash.c
index 3e97d1c..5b6b8a3 100644
--- a/src/pointless_hash.c
+++ b/src/pointless_hash.c
@@ -282,7 +282,11 @@ static uint32_t pointless_hash_create_vector_32(pointless_create_t* c, pointless
 	void* items;
 	pointless_create_value_t* vv;
 
-	if (v->header.is_outside_vector) {
+	// empty vectors do not refer to any vector
+	if (v->header.type_29 == POINTLESS_VECTOR_EMPTY) {
+		items = 0;
+		n_items = 0;
+	} else if (v->header.is_outside_vector) {
 		items = cv_get_outside_vector(v)->items;
 		n_items = cv_get_outside_vector(v)->n_items;
 	} else {
-- 
2.43.0


From 131f6b2ff2633e3915059d9352ee87f8d2ebb222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:23 +0000
Subject: [PATCH 08/82] fix: integer vectors which fit no single type keep
 their hashability

---
 src/pointless_create.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pointless_create.c b/src/pointless_create.c
index 08aeef8..78213d6 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -676,9 +676,8 @@ static uint32_t pointless_create_vector_compression(pointless_create_t* c, uint3
 	else if (INT32_MIN <= min_int && max_int <= INT32_MAX)
 		return POINTLESS_VECTOR_I32;
 
-	// we must have hit something here already
-	assert(0);
-	return 0;
+	// negative numbers and numbers above INT32_MAX, there is no type for both
+	return compression;
 }
 
 static int pointless_create_output_and_end_(pointless_create_t* c, pointless_create_cb_t* cb, const char** error)
-- 
2.43.0


From 33791cf305e1f314848f1a35680592a87db2485e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:36 +0000
Subject: [PATCH 09/82] fix: mark every vector of a cycle, also the one the
 cycle was entered through

---
 src/pointless_cycle_marker.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pointless_cycle_marker.c b/src/pointless_cycle_marker.c
index 481de21..0ac31d2 100644
--- a/src/pointless_cycle_marker.c
+++ b/src/pointless_cycle_marker.c
@@ -265,6 +265,9 @@ static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state,
 			//printf("B marking %u\n", w_id);
 			bm_set_(state->cycle_marker, w_id);
 
+			// v is on the same cycle
+			bm_set_(state->cycle_marker, v_id);
+
 			// component[w] = root[v]
 			Word_t* PValue = (Word_t*)(Pvoid_t)JudyLIns(&state->component_judy, (Word_t)w_id, 0);
 
-- 
2.43.0


From 6baadb145b464dca1c6a5b15c48ac772b8a6bef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:29 +0000
Subject: [PATCH 10/82] fix: compare bitvectors of different stored forms by
 the second operand's own form

---
 src/pointless_bitvector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointless_bitvector.c b/src/pointless_bitvector.c
index ad263cb..607ce02 100644
--- a/src/pointless_bitvector.c
+++ b/src/pointless_bitvector.c
@@ -163,7 +163,7 @@ int32_t pointless_bitvector_cmp_buffer_buffer(uint32_t t_a, pointless_value_data
 
 	for (i = 0; i < n_bits; i++) {
 		ba = pointless_bitvector_is_set(t_a, v_a, buffer_a, i);
-		bb = pointless_bitvector_is_set(t_a, v_b, buffer_b, i);
+		bb = pointless_bitvector_is_set(t_b, v_b, buffer_b, i);
 
 		if (ba != bb)
 			return SIMPLE_CMP(ba, bb);
-- 
2.43.0


From 87f5a1759993bfbd7b890d35c3d36e4281cbdaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:29 +0000
Subject: [PATCH 11/82] fix: do not count the length of a stored bitvector
 among its bits in the any-set test

---
 src/pointless_bitvector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointless_bitvector.c b/src/pointless_bitvector.c
index 607ce02..ac536ff 100644
--- a/src/pointless_bitvector.c
+++ b/src/pointless_bitvector.c
@@ -41,7 +41,7 @@ uint32_t pointless_bitvector_is_any_set(uint32_t t, pointless_value_data_t* v, v
 	uint32_t n = pointless_bitvector_n_bits(t, v, bits);
 
 	for (i = 0; i < n; i++) {
-		if (pointless_bitvector_is_set_bits(t, v, bits, i))
+		if (pointless_bitvector_is_set(t, v, bits, i))
 			return 1;
 	}
 
-- 
2.43.0


From ee11e0f86829fc064822751311425e8ed41ac6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:29 +0000
Subject: [PATCH 12/82] fix: unsigned integers are greater than negative ones

---
 src/pointless_cmp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointless_cmp.c b/src/pointless_cmp.c
index 1977d5e..5107b76 100644
--- a/src/pointless_cmp.c
+++ b/src/pointless_cmp.c
@@ -201,7 +201,7 @@ static int32_t pointless_cmp_int_float(uint32_t t_a, pointless_complete_value_da
 			int64_t _b = pointless_int_value_signed(t_b, v_b);
 
 			if (_b < 0)
-				return -1;
+				return +1;
 
 			return SIMPLE_CMP(_a, (uint64_t)_b);
 		}
-- 
2.43.0


From e1b5a2947426f2f2cb3408bafa296cc1c1525fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:29 +0000
Subject: [PATCH 13/82] fix: compare integers and floats exactly, integers
 beyond 2^24 were rounded to floats

---
 src/pointless_cmp.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pointless_cmp.c b/src/pointless_cmp.c
index 5107b76..857d059 100644
--- a/src/pointless_cmp.c
+++ b/src/pointless_cmp.c
@@ -165,15 +165,15 @@ static int32_t pointless_cmp_int_float(uint32_t t_a, pointless_complete_value_da
 	// float, int
 	} else if (t_a == POINTLESS_FLOAT) {
 		if (pointless_is_signed(t_b))
-			return SIMPLE_CMP(v_a->data_f, (float)pointless_int_value_signed(t_b, v_b));
+			return SIMPLE_CMP((long double)v_a->data_f, (long double)pointless_int_value_signed(t_b, v_b));
 		else
-			return SIMPLE_CMP(v_a->data_f, (float)pointless_int_value_unsigned(t_b, v_b));
+			return SIMPLE_CMP((long double)v_a->data_f, (long double)pointless_int_value_unsigned(t_b, v_b));
 	// int, float
 	} else if (t_b == POINTLESS_FLOAT) {
 		if (pointless_is_signed(t_a))
-			return SIMPLE_CMP((float)pointless_int_value_signed(t_a, v_a), v_b->data_f);
+			return SIMPLE_CMP((long double)pointless_int_value_signed(t_a, v_a), (long double)v_b->data_f);
 		else
-			return SIMPLE_CMP((float)pointless_int_value_unsigned(t_a, v_a), v_b->data_f);
+			return SIMPLE_CMP((long double)pointless_int_value_unsigned(t_a, v_a), (long double)v_b->data_f);
 	// int, int
 	} else {
 		// ss
-- 
2.43.0


From 1891fd5118188919fbc995428e4c3e470fcdea43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:29 +0000
Subject: [PATCH 14/82] fix: hash 64-bit integers as 32-bit integers of the
 same value, also those below zero and at UINT32_MAX

---
 src/pointless_hash.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pointless_hash.c b/src/pointless_hash.c
index 5b6b8a3..ea7167c 100644
--- a/src/pointless_hash.c
+++ b/src/pointless_hash.c
@@ -84,12 +84,13 @@ uint32_t pointless_hash_i64_32(int64_t v)
 	} h;
 
 	h.i = v;
-	return (uint32_t)(h.u % UINT32_MAX);
+	// must match that of 32-bit integers
+	return (uint32_t)h.u;
 }
 
 uint32_t pointless_hash_u64_32(uint64_t v)
 {
-	return (uint32_t)(v % UINT32_MAX);
+	return (uint32_t)v;
 }
 
 uint32_t pointless_hash_bool_true_32()
-- 
2.43.0


From 0a34fad8bf2f4da41a82c88b1fc2aaf6446a7720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:29 +0000
Subject: [PATCH 15/82] fix: refuse to hash strings with zeros and read vectors
 with unhashable items, instead of crashing or finding another key

---
 python/pointless_pyobject_hash.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/python/pointless_pyobject_hash.c b/python/pointless_pyobject_hash.c
index e5083d4..e0a68e1 100644
--- a/python/pointless_pyobject_hash.c
+++ b/python/pointless_pyobject_hash.c
@@ -90,12 +90,20 @@ static uint32_t pyobject_hash_primvector_32(PyPointlessPrimVector* v, pyobject_h
 static uint32_t pyobject_hash_unicode_32(PyObject* py_object, pyobject_hash_state_t* state)
 {
 	if (PyUnicode_READY(py_object) != 0) {
-		state->error = "PyUnicode_READY failed";
+		*state->error = "PyUnicode_READY failed";
 		PyErr_Clear();
 		return 0;
 
 	}
 
+	// strings end at the first zero, so these could be mistaken for another string
+	Py_ssize_t len = PyUnicode_GET_LENGTH(py_object);
+
+	if (PyUnicode_FindChar(py_object, 0, 0, len, 1) >= 0) {
+		*state->error = "hashing of strings containing zeros not supported";
+		return 0;
+	}
+
 	uint32_t hash = 0;
 
 	switch (state->version) {
@@ -113,7 +121,7 @@ static uint32_t pyobject_hash_unicode_32(PyObject* py_object, pyobject_hash_stat
 					break;
 				// will happen for PyUnicode_WCHAR_KIND on python versions < 3.12
 				default:
-					state->error = "hash statement fallthrough";
+					*state->error = "hash statement fallthrough";
 					break;
 			}
 	}
@@ -198,7 +206,7 @@ static uint32_t pyobject_hash_rec_32(PyObject* py_object, pyobject_hash_state_t*
 		p = &((PyPointlessVector*)py_object)->pp->p;
 		v = ((PyPointlessVector*)py_object)->v;
 
-		if (!pointless_is_hashable(v.type)) {
+		if (!pointless_is_hashable_reader_vector(p, &v, ((PyPointlessVector*)py_object)->slice_i, ((PyPointlessVector*)py_object)->slice_n)) {
 			*state->error = "pointless type is not hashable";
 			return 0;
 		}
-- 
2.43.0


From d9add118cbb7494531faeb086084db5f82989040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:29 +0000
Subject: [PATCH 16/82] fix: looking up a key whose hash collides with a key of
 another type is not an error

---
 python/pointless_pyobject_cmp.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/pointless_pyobject_cmp.c b/python/pointless_pyobject_cmp.c
index 37ae63f..392b7cc 100644
--- a/python/pointless_pyobject_cmp.c
+++ b/python/pointless_pyobject_cmp.c
@@ -21,6 +21,7 @@ typedef struct {
 	pointless_t* pointless;
 	const char* error;
 	uint32_t depth;
+	int32_t is_eq; // only equality matters, so values of different types are simply different
 } pypointless_cmp_state_t;
 
 // number values
@@ -561,7 +562,9 @@ static int32_t pypointless_cmp_rec(pypointless_cmp_value_t* a, pypointless_cmp_v
 	// we're going one deep
 	state->depth += 1;
 
-	if (cmp_a == 0 || cmp_b == 0 || cmp_a != cmp_b) {
+	if (state->is_eq && state->error == 0 && cmp_a != cmp_b) {
+		c = 1;
+	} else if (cmp_a == 0 || cmp_b == 0 || cmp_a != cmp_b) {
 		state->error = "comparison not supported between these types";
 		state->depth -= 1;
 		return 0;
@@ -587,6 +590,7 @@ uint32_t pypointless_cmp_eq(pointless_t* p, pointless_complete_value_t* v, PyObj
 
 	state.error = 0;
 	state.depth = 0;
+	state.is_eq = 1;
 
 	c = pypointless_cmp_rec(&v_a, &v_b, &state);
 
@@ -623,6 +627,7 @@ PyObject* pointless_cmp(PyObject* self, PyObject* args)
 
 	state.error = 0;
 	state.depth = 0;
+	state.is_eq = 0;
 
 	c = pypointless_cmp_rec(&v_a, &v_b, &state);
 
@@ -659,6 +664,7 @@ PyObject* pointless_is_eq(PyObject* self, PyObject* args)
 
 	state.error = 0;
 	state.depth = 0;
+	state.is_eq = 0;
 
 	c = pypointless_cmp_rec(&v_a, &v_b, &state);
 
-- 
2.43.0


From 6c4ac698a63f8aacc335851813f16012032ae082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:29 +0000
Subject: [PATCH 17/82] fix: compare primitive vectors and vectors of 64-bit
 integers, such keys could not be found

---
 python/pointless_pyobject_cmp.c | 46 +++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/python/pointless_pyobject_cmp.c b/python/pointless_pyobject_cmp.c
index 392b7cc..e7ac332 100644
--- a/python/pointless_pyobject_cmp.c
+++ b/python/pointless_pyobject_cmp.c
@@ -127,6 +127,8 @@ static pypointless_cmp_cb pypointless_cmp_func(pypointless_cmp_value_t* v, uint3
 		switch (*type) {
 			case POINTLESS_I32:
 			case POINTLESS_U32:
+			case POINTLESS_I64:
+			case POINTLESS_U64:
 			case POINTLESS_FLOAT:
 			case POINTLESS_BOOLEAN:
 				return pypointless_cmp_int_float_bool;
@@ -210,6 +212,11 @@ static pypointless_cmp_cb pypointless_cmp_func(pypointless_cmp_value_t* v, uint3
 			return pypointless_cmp_bitvector;
 		}
 
+		if (PyPointlessPrimVector_Check(py_object)) {
+			*type = POINTLESS_VECTOR_VALUE;
+			return pypointless_cmp_vector;
+		}
+
 		// no known type
 		state->error = "comparison not supported for Python type";
 		*type = UINT32_MAX;
@@ -426,6 +433,9 @@ static uint32_t pypointless_cmp_vector_n_items(pypointless_cmp_value_t* a)
 		return a->value.pointless.vector_slice_n;
 	}
 
+	if (PyPointlessPrimVector_Check(a->value.py_object))
+		return (uint32_t)pointless_dynarray_n_items(&((PyPointlessPrimVector*)a->value.py_object)->array);
+
 	assert(PyList_Check(a->value.py_object) || PyTuple_Check(a->value.py_object));
 
 	if (PyList_Check(a->value.py_object)) {
@@ -435,6 +445,35 @@ static uint32_t pypointless_cmp_vector_n_items(pypointless_cmp_value_t* a)
 	return (uint32_t)PyTuple_GET_SIZE(a->value.py_object);
 }
 
+static pointless_complete_value_t pypointless_cmp_primvector_item_at(PyPointlessPrimVector* v, uint32_t i)
+{
+	void* item = pointless_dynarray_item_at(&v->array, i);
+
+	switch (v->type) {
+		case POINTLESS_PRIM_VECTOR_TYPE_I8:
+			return pointless_complete_value_create_as_read_i32(*((int8_t*)item));
+		case POINTLESS_PRIM_VECTOR_TYPE_U8:
+			return pointless_complete_value_create_as_read_u32(*((uint8_t*)item));
+		case POINTLESS_PRIM_VECTOR_TYPE_I16:
+			return pointless_complete_value_create_as_read_i32(*((int16_t*)item));
+		case POINTLESS_PRIM_VECTOR_TYPE_U16:
+			return pointless_complete_value_create_as_read_u32(*((uint16_t*)item));
+		case POINTLESS_PRIM_VECTOR_TYPE_I32:
+			return pointless_complete_value_create_as_read_i32(*((int32_t*)item));
+		case POINTLESS_PRIM_VECTOR_TYPE_U32:
+			return pointless_complete_value_create_as_read_u32(*((uint32_t*)item));
+		case POINTLESS_PRIM_VECTOR_TYPE_I64:
+			return pointless_complete_value_create_as_read_i64(*((int64_t*)item));
+		case POINTLESS_PRIM_VECTOR_TYPE_U64:
+			return pointless_complete_value_create_as_read_u64(*((uint64_t*)item));
+		case POINTLESS_PRIM_VECTOR_TYPE_FLOAT:
+			return pointless_complete_value_create_as_read_float(*((float*)item));
+	}
+
+	assert(0);
+	return pointless_complete_value_create_as_read_null();
+}
+
 static pypointless_cmp_value_t pypointless_cmp_vector_item_at(pypointless_cmp_value_t* v, uint32_t i)
 {
 	// our return value
@@ -454,6 +493,13 @@ static pypointless_cmp_value_t pypointless_cmp_vector_item_at(pypointless_cmp_va
 			r.value.pointless.vector_slice_i = 0;
 			r.value.pointless.vector_slice_n = pointless_reader_vector_n_items(v->value.pointless.p, &_v);
 		}
+	// primitive vectors hold plain numbers
+	} else if (PyPointlessPrimVector_Check(v->value.py_object)) {
+		r.is_pointless = 1;
+		r.value.pointless.p = 0;
+		r.value.pointless.v = pypointless_cmp_primvector_item_at((PyPointlessPrimVector*)v->value.py_object, i);
+		r.value.pointless.vector_slice_i = 0;
+		r.value.pointless.vector_slice_n = 0;
 	// PyObject
 	} else {
 		r.is_pointless = 0;
-- 
2.43.0


From 95113e00b810593719e5d82bdbd156e303bfd800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:48 +0000
Subject: [PATCH 18/82] fix: refuse to compare strings with zeros, instead of
 ignoring what follows the zero

---
 python/pointless_pyobject_cmp.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/pointless_pyobject_cmp.c b/python/pointless_pyobject_cmp.c
index e7ac332..02f9580 100644
--- a/python/pointless_pyobject_cmp.c
+++ b/python/pointless_pyobject_cmp.c
@@ -250,6 +250,12 @@ static _var_string_t pypointless_cmp_extract_string(pypointless_cmp_value_t* v,
 	} else {
 		assert(PyUnicode_Check(v->value.py_object));
 
+		// strings end at the first zero, the rest would be ignored
+		if (PyUnicode_FindChar(v->value.py_object, 0, 0, PyUnicode_GET_LENGTH(v->value.py_object), 1) >= 0) {
+			state->error = "comparison of strings containing zeros not supported";
+			return s;
+		}
+
 		switch (PyUnicode_KIND(v->value.py_object)) {
 			case PyUnicode_1BYTE_KIND:
 				s.n_bits = 8;
-- 
2.43.0


From 6815bb58d4a38e54bea1866dcc9623d6ddcc5a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 19/82] fix: comparing vectors without an error pointer does
 not write to it

---
 src/pointless_cmp.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pointless_cmp.c b/src/pointless_cmp.c
index 857d059..22b18dc 100644
--- a/src/pointless_cmp.c
+++ b/src/pointless_cmp.c
@@ -361,7 +361,7 @@ static int32_t pointless_cmp_reader_vector(pointless_t* p_a, pointless_complete_
 
 		cc = pointless_cmp_reader_rec(p_a, &c_a, p_b, &c_b, depth + 1, error);
 
-		if (cc != 0 || *error != 0)
+		if (cc != 0 || (error && *error != 0))
 			return cc;
 	}
 
@@ -405,9 +405,9 @@ static int32_t pointless_cmp_create_vector(pointless_create_t* c, pointless_comp
 
 // map/set not implemented yet
 static int32_t pointless_cmp_reader_set(pointless_t* p_a, pointless_complete_value_t* a, pointless_t* p_b, pointless_complete_value_t* b, uint32_t depth, const char** error)
-	{ *error = "set comparison not implemented yet"; return 0; }
+	{ if (error) *error = "set comparison not implemented yet"; return 0; }
 static int32_t pointless_cmp_reader_map(pointless_t* p_a, pointless_complete_value_t* a, pointless_t* p_b, pointless_complete_value_t* b, uint32_t depth, const char** error)
-	{ *error = "map comparison not implemented yet"; return 0; }
+	{ if (error) *error = "map comparison not implemented yet"; return 0; }
 static int32_t pointless_cmp_create_set(pointless_create_t* c, pointless_complete_create_value_t* a, pointless_complete_create_value_t* b, uint32_t depth, const char** error)
 	{ *error = "set comparison not implemented yet"; return 0; }
 static int32_t pointless_cmp_create_map(pointless_create_t* c, pointless_complete_create_value_t* a, pointless_complete_create_value_t* b, uint32_t depth, const char** error)
-- 
2.43.0


From e47bda2b59195910a86d012f2e66868eeed3249f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:37 +0000
Subject: [PATCH 20/82] fix: order values of different types by type group,
 string and vector types did not compare transitively to others

---
 src/pointless_cmp.c | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/pointless_cmp.c b/src/pointless_cmp.c
index 22b18dc..fbf2fe9 100644
--- a/src/pointless_cmp.c
+++ b/src/pointless_cmp.c
@@ -507,6 +507,26 @@ static pointless_cmp_create_cb pointless_cmp_create_func(uint32_t t)
 	return 0;
 }
 
+// all types of a group must compare the same way to types of other groups
+static uint32_t pointless_cmp_type_group(uint32_t type)
+{
+	if (pointless_is_vector_type(type))
+		return POINTLESS_VECTOR_VALUE;
+
+	switch (type) {
+		case POINTLESS_STRING_:
+			return POINTLESS_UNICODE_;
+		case POINTLESS_U32:
+		case POINTLESS_I64:
+		case POINTLESS_U64:
+		case POINTLESS_FLOAT:
+		case POINTLESS_BOOLEAN:
+			return POINTLESS_I32;
+	}
+
+	return type;
+}
+
 static int32_t pointless_cmp_reader_rec(pointless_t* p_a, pointless_complete_value_t* a, pointless_t* p_b, pointless_complete_value_t* b, uint32_t depth, const char** error)
 {
 	// check for maximum depth, but only if values could be cyclic
@@ -519,9 +539,9 @@ static int32_t pointless_cmp_reader_rec(pointless_t* p_a, pointless_complete_val
 	pointless_cmp_reader_cb cmp_a = pointless_cmp_reader_func(a->type);
 	pointless_cmp_reader_cb cmp_b = pointless_cmp_reader_func(b->type);
 
-	// different type groups, just cmp on type ID
+	// different type groups, just cmp on group
 	if (cmp_a != cmp_b)
-		return SIMPLE_CMP(a->type, b->type);
+		return SIMPLE_CMP(pointless_cmp_type_group(a->type), pointless_cmp_type_group(b->type));
 
 	// otherwise, run the cmp for next depth
 	return (*cmp_a)(p_a, a, p_b, b, depth + 1, error);
@@ -539,9 +559,9 @@ static int32_t pointless_cmp_create_rec_priv(pointless_create_t* c, pointless_co
 	pointless_cmp_create_cb cmp_a = pointless_cmp_create_func(v_a->header.type_29);
 	pointless_cmp_create_cb cmp_b = pointless_cmp_create_func(v_b->header.type_29);
 
-	// different type groups, just cmp on type ID
+	// different type groups, just cmp on group
 	if (cmp_a != cmp_b)
-		return SIMPLE_CMP(v_a->header.type_29, v_b->header.type_29);
+		return SIMPLE_CMP(pointless_cmp_type_group(v_a->header.type_29), pointless_cmp_type_group(v_b->header.type_29));
 
 	// otherwise, run the cmp for next depth
 	return (*cmp_a)(c, v_a, v_b, depth + 1, error);
-- 
2.43.0


From fff7fccdfa1e2d93ec73d67371d6d224231841c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:37 +0000
Subject: [PATCH 21/82] fix: stop comparing vectors at the first error, cyclic
 ones took exponential time

---
 python/pointless_pyobject_cmp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/pointless_pyobject_cmp.c b/python/pointless_pyobject_cmp.c
index 02f9580..89e842d 100644
--- a/python/pointless_pyobject_cmp.c
+++ b/python/pointless_pyobject_cmp.c
@@ -535,7 +535,8 @@ static int32_t pypointless_cmp_vector(pypointless_cmp_value_t* a, pypointless_cm
 		v_b = pypointless_cmp_vector_item_at(b, i);
 		c = pypointless_cmp_rec(&v_a, &v_b, state);
 
-		if (c != 0)
+		// after an error, going on could take exponential time in cyclic vectors
+		if (c != 0 || state->error != 0)
 			return c;
 	}
 
-- 
2.43.0


From ef10f60fbc2e839dfe526eee1140a8638bcc9c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:58 +0000
Subject: [PATCH 22/82] fix: compare typed vectors under creation as numbers,
 they were read as value handles

---
 src/pointless_cmp.c | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/pointless_cmp.c b/src/pointless_cmp.c
index fbf2fe9..03e2a1c 100644
--- a/src/pointless_cmp.c
+++ b/src/pointless_cmp.c
@@ -293,8 +293,12 @@ static pointless_complete_create_value_t pointless_cmp_vector_value_create(point
 	pointless_complete_create_value_t vi;
 	pointless_create_value_t _v = pointless_create_value_from_complete(v);
 
-	// outside vectors are the hardest
-	if (v->header.is_outside_vector) {
+	// vectors of numbers, as opposed to value handles, are the hardest
+	int is_value_vector = (v->header.type_29 == POINTLESS_VECTOR_VALUE || v->header.type_29 == POINTLESS_VECTOR_VALUE_HASHABLE || v->header.is_compressed_vector);
+
+	if (v->header.is_outside_vector || !is_value_vector) {
+		void* items = v->header.is_outside_vector ? cv_get_outside_vector(&_v)->items : cv_get_priv_vector(&_v)->vector._data;
+
 		// reset the value
 		vi.header.type_29 = POINTLESS_NULL;
 		vi.header.is_outside_vector = v->header.is_outside_vector;
@@ -305,31 +309,31 @@ static pointless_complete_create_value_t pointless_cmp_vector_value_create(point
 
 		switch (v->header.type_29) {
 			case POINTLESS_VECTOR_I8:
-				vi = pointless_complete_value_create_i32(((int8_t*)cv_get_outside_vector(&_v)->items)[i]);
+				vi = pointless_complete_value_create_i32(((int8_t*)items)[i]);
 				break;
 			case POINTLESS_VECTOR_U8:
-				vi = pointless_complete_value_create_u32(((uint8_t*)cv_get_outside_vector(&_v)->items)[i]);
+				vi = pointless_complete_value_create_u32(((uint8_t*)items)[i]);
 				break;
 			case POINTLESS_VECTOR_I16:
-				vi = pointless_complete_value_create_i32(((int16_t*)cv_get_outside_vector(&_v)->items)[i]);
+				vi = pointless_complete_value_create_i32(((int16_t*)items)[i]);
 				break;
 			case POINTLESS_VECTOR_U16:
-				vi = pointless_complete_value_create_u32(((uint16_t*)cv_get_outside_vector(&_v)->items)[i]);
+				vi = pointless_complete_value_create_u32(((uint16_t*)items)[i]);
 				break;
 			case POINTLESS_VECTOR_I32:
-				vi = pointless_complete_value_create_i32(((int32_t*)cv_get_outside_vector(&_v)->items)[i]);
+				vi = pointless_complete_value_create_i32(((int32_t*)items)[i]);
 				break;
 			case POINTLESS_VECTOR_U32:
-				vi = pointless_complete_value_create_u32(((uint32_t*)cv_get_outside_vector(&_v)->items)[i]);
+				vi = pointless_complete_value_create_u32(((uint32_t*)items)[i]);
 				break;
 			case POINTLESS_VECTOR_I64:
-				vi = pointless_complete_value_create_i64(((int64_t*)cv_get_outside_vector(&_v)->items)[i]);
+				vi = pointless_complete_value_create_i64(((int64_t*)items)[i]);
 				break;
 			case POINTLESS_VECTOR_U64:
-				vi = pointless_complete_value_create_u64(((uint64_t*)cv_get_outside_vector(&_v)->items)[i]);
+				vi = pointless_complete_value_create_u64(((uint64_t*)items)[i]);
 				break;
 			case POINTLESS_VECTOR_FLOAT:
-				vi = pointless_complete_value_create_float(((float*)cv_get_outside_vector(&_v)->items)[i]);
+				vi = pointless_complete_value_create_float(((float*)items)[i]);
 				break;
 			default:
 				assert(0);
-- 
2.43.0


From 0297a9431e24cda58c951d78ad83aa5ba0934962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:58 +0000
Subject: [PATCH 23/82] fix: compare lists and tuples which hold read values,
 such keys could not be found

---
 python/pointless_pyobject_cmp.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/python/pointless_pyobject_cmp.c b/python/pointless_pyobject_cmp.c
index 89e842d..0e33245 100644
--- a/python/pointless_pyobject_cmp.c
+++ b/python/pointless_pyobject_cmp.c
@@ -508,14 +508,13 @@ static pypointless_cmp_value_t pypointless_cmp_vector_item_at(pypointless_cmp_va
 		r.value.pointless.vector_slice_n = 0;
 	// PyObject
 	} else {
-		r.is_pointless = 0;
-
 		assert(PyList_Check(v->value.py_object) || PyTuple_Check(v->value.py_object));
 
+		// items may be pointless values
 		if (PyList_Check(v->value.py_object))
-			r.value.py_object = PyList_GET_ITEM(v->value.py_object, i);
+			pypointless_cmp_value_init_python(&r, PyList_GET_ITEM(v->value.py_object, i));
 		else
-			r.value.py_object = PyTuple_GET_ITEM(v->value.py_object, i);
+			pypointless_cmp_value_init_python(&r, PyTuple_GET_ITEM(v->value.py_object, i));
 	}
 
 	return r;
-- 
2.43.0


From b6c857382b7a4d828493cb381340d6f40600b19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:21 +0000
Subject: [PATCH 24/82] fix: buffers of read vectors are read-only, writing to
 them crashed or changed the file's bytes

---
 python/pointless_vector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/pointless_vector.c b/python/pointless_vector.c
index a81c4a7..a20f66a 100644
--- a/python/pointless_vector.c
+++ b/python/pointless_vector.c
@@ -499,7 +499,7 @@ static int PyPointlessVector_getbuffer(PyPointlessVector* self, Py_buffer* view,
 		return 0;
 
 	void* ptr = pointless_prim_vector_base_ptr(self);
-	return PyBuffer_FillInfo(view, (PyObject*)self, ptr, pointless_vector_n_bytes(self), 0, flags);
+	return PyBuffer_FillInfo(view, (PyObject*)self, ptr, pointless_vector_n_bytes(self), 1, flags);
 }
 
 static void PyPointlessVector_releasebuffer(PyPointlessVector* obj, Py_buffer *view)
-- 
2.43.0


From 4a57116c352ae6cf7da82b0a056a36df3ae7cfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:21 +0000
Subject: [PATCH 25/82] fix: refuse buffers of value vectors, instead of
 handing out empty ones

---
 python/pointless_vector.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/pointless_vector.c b/python/pointless_vector.c
index a20f66a..79e6198 100644
--- a/python/pointless_vector.c
+++ b/python/pointless_vector.c
@@ -498,6 +498,12 @@ static int PyPointlessVector_getbuffer(PyPointlessVector* self, Py_buffer* view,
 	if (view == 0)
 		return 0;
 
+	if (!pointless_is_prim_vector(&self->v)) {
+		view->obj = 0;
+		PyErr_SetString(PyExc_BufferError, "only primitive vectors support the buffer interface");
+		return -1;
+	}
+
 	void* ptr = pointless_prim_vector_base_ptr(self);
 	return PyBuffer_FillInfo(view, (PyObject*)self, ptr, pointless_vector_n_bytes(self), 1, flags);
 }
-- 
2.43.0


From dfc563b4dea6fbf478fcf4807735fde38c279e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:55 +0000
Subject: [PATCH 26/82] fix: min, max and range of read vectors returned the
 first item

---
 python/pointless_vector.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/pointless_vector.c b/python/pointless_vector.c
index 79e6198..e5024e1 100644
--- a/python/pointless_vector.c
+++ b/python/pointless_vector.c
@@ -579,6 +579,9 @@ static int PyPointlessVector_min_max(PyPointlessVector* self, size_t* min_i_out,
 			return 0;
 	}
 
+	*min_i_out = min_i;
+	*max_i_out = max_i;
+
 	return 1;
 }
 
-- 
2.43.0


From e5c94e70c148c517a8d666c9a0d999f4ace825a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:55 +0000
Subject: [PATCH 27/82] fix: min, max and range of primitive vectors returned
 the first item

---
 python/pointless_prim_vector.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 0d5ccfc..42667ca 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -1915,6 +1915,9 @@ static int PyPointlessPrimVector_min_max(PyPointlessPrimVector* self, size_t* mi
 			return 0;
 	}
 
+	*min_i_out = min_i;
+	*max_i_out = max_i;
+
 	return 1;
 }
 
-- 
2.43.0


From 17686065be63ed2bf4154cf2332d7eee79fe69c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:01 +0000
Subject: [PATCH 28/82] fix: appending a bitvector to itself wrote beyond its
 memory

---
 python/pointless_bitvector.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/pointless_bitvector.c b/python/pointless_bitvector.c
index c1bda51..7eea444 100644
--- a/python/pointless_bitvector.c
+++ b/python/pointless_bitvector.c
@@ -644,11 +644,13 @@ static PyObject* PyPointlessBitvector_append_bulk(PyPointlessBitvector* self, Py
 	}
 
 	size_t n_before = self->primitive_n_bits;
+	// the other one may be this one
+	size_t n_other = PyPointlessBitvector_n_items(other);
 
-	if (!PyPointlessBitvector_extend_by(self, PyPointlessBitvector_length(other), 0))
+	if (!PyPointlessBitvector_extend_by(self, n_other, 0))
 		return 0;
 
-	for (size_t i = 0; i < PyPointlessBitvector_length(other); i++) {
+	for (size_t i = 0; i < n_other; i++) {
 		if (PyPointlessBitvector_is_set(other, i))
 			bm_set_(self->primitive_bits, n_before + i);
 	}
-- 
2.43.0


From 3489ca4e8c8d7b9f22357e6763c7e54056000a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:01 +0000
Subject: [PATCH 29/82] fix: keep the count of set bits through append_bulk and
 pop, IsAnySet was wrong after them

---
 python/pointless_bitvector.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/pointless_bitvector.c b/python/pointless_bitvector.c
index 7eea444..8999113 100644
--- a/python/pointless_bitvector.c
+++ b/python/pointless_bitvector.c
@@ -651,8 +651,10 @@ static PyObject* PyPointlessBitvector_append_bulk(PyPointlessBitvector* self, Py
 		return 0;
 
 	for (size_t i = 0; i < n_other; i++) {
-		if (PyPointlessBitvector_is_set(other, i))
+		if (PyPointlessBitvector_is_set(other, i)) {
 			bm_set_(self->primitive_bits, n_before + i);
+			self->primitive_n_one += 1;
+		}
 	}
 
 	Py_INCREF(Py_None);
@@ -697,6 +699,7 @@ static PyObject* PyPointlessBitvector_pop(PyPointlessBitvector* self)
 	self->primitive_n_bits -= 1;
 
 	if (is_set) {
+		self->primitive_n_one -= 1;
 		Py_RETURN_TRUE;
 	} else {
 		Py_RETURN_FALSE;
-- 
2.43.0


From 1d987c0e98e86c1aab81a6569efab7b564cc6672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:01 +0000
Subject: [PATCH 30/82] fix: deleting an item of a bitvector crashed

---
 python/pointless_bitvector.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/pointless_bitvector.c b/python/pointless_bitvector.c
index 8999113..72bd950 100644
--- a/python/pointless_bitvector.c
+++ b/python/pointless_bitvector.c
@@ -258,6 +258,11 @@ static int PyPointlessBitvector_ass_subscript(PyPointlessBitvector* self, PyObje
 		return -1;
 	}
 
+	if (value == 0) {
+		PyErr_SetString(PyExc_TypeError, "BitVector items can not be deleted");
+		return -1;
+	}
+
 	// get the index
 	Py_ssize_t i;
 
-- 
2.43.0


From cb66c3aa9e42b23a603442c356feb9b3eaf14ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:02 +0000
Subject: [PATCH 31/82] fix: bitvectors whose hash is -1 raised SystemError in
 hash()

---
 python/pointless_bitvector.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/python/pointless_bitvector.c b/python/pointless_bitvector.c
index 72bd950..2106be7 100644
--- a/python/pointless_bitvector.c
+++ b/python/pointless_bitvector.c
@@ -801,19 +801,21 @@ static PyMappingMethods PyPointlessBitvector_as_mapping = {
 static long PyPointlessBitVector_hash(PyPointlessBitvector* self)
 {
 	// this is a Python hash, so we go for the 64-bit version
+	long hash = 0;
+
 	if (self->is_pointless) {
 		void* buffer = 0;
 
 		if (self->v.type == POINTLESS_BITVECTOR)
 			buffer = pointless_reader_bitvector_buffer(&self->pp->p, &self->v);
 
-		return (long)pointless_bitvector_hash_64(self->v.type, &self->v.data, buffer);
+		hash = (long)pointless_bitvector_hash_64(self->v.type, &self->v.data, buffer);
+	} else {
+		hash = (long)pointless_bitvector_hash_n_bits_bits_64(self->primitive_n_bits, self->primitive_bits);
 	}
 
-	uint32_t n_bits = self->primitive_n_bits;
-	void* bits = self->primitive_bits;
-
-	return (long)pointless_bitvector_hash_n_bits_bits_64(n_bits, bits);
+	// -1 means error
+	return (hash == -1) ? -2 : hash;
 }
 
 PyObject* PyBitvector_repr(PyPointlessBitvector* self)
-- 
2.43.0


From a45989a76e7e79368ee1e30442f3975d66f14b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:02 +0000
Subject: [PATCH 32/82] fix: bitvectors from sequences leaked the items, and
 ignored errors of the sequence

---
 python/pointless_bitvector.c | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/python/pointless_bitvector.c b/python/pointless_bitvector.c
index 2106be7..e80661b 100644
--- a/python/pointless_bitvector.c
+++ b/python/pointless_bitvector.c
@@ -145,20 +145,21 @@ static int PyPointlessBitvector_init(PyPointlessBitvector* self, PyObject* args,
 	if (sequence_iterator != 0) {
 		// for each object
 		PyObject* obj = 0;
-		size_t i = 0;
+		int i_value = 0;
+
+		while (1) {
+			obj = PyIter_Next(sequence_iterator);
+			i_value = 0;
+
+			// 0) end of sequence, or PyIter_Next() failure
+			if (obj == 0) {
+				if (!PyErr_Occurred())
+					break;
 
-		while ((obj = PyIter_Next(sequence_iterator)) != 0) {
-			if (!PyPointlessBitvector_extend_by(self, 1, 0)) {
-				is_error = 1;
-			// 0) PyIter_Next() failure
-			} else if (obj == 0) {
 				is_error = 1;
 			// 1) boolean
 			} else if (PyBool_Check(obj)) {
-				if (obj == Py_True) {
-					bm_set_(self->primitive_bits, i);
-					self->primitive_n_one += 1;
-				}
+				i_value = (obj == Py_True);
 			// 3) long (must be 0 or 1)
 			} else if (PyLong_Check(obj) || PyLong_CheckExact(obj)) {
 				PY_LONG_LONG v = PyLong_AsLongLong(obj);
@@ -167,15 +168,20 @@ static int PyPointlessBitvector_init(PyPointlessBitvector* self, PyObject* args,
 					PyErr_Clear();
 					is_error = 1;
 				} else if (v == 1) {
-					bm_set_(self->primitive_bits, i);
-					self->primitive_n_one += 1;
+					i_value = 1;
 				}
 			// 4) nothong else allowed
 			} else {
 				is_error = 1;
 			}
 
+			Py_XDECREF(obj);
+
+			if (!is_error && !PyPointlessBitvector_extend_by(self, 1, i_value))
+				is_error = 1;
+
 			if (is_error) {
+				Py_DECREF(sequence_iterator);
 				pointless_free(self->primitive_bits);
 				self->primitive_n_bits = 0;
 				self->primitive_bits = 0;
@@ -187,9 +193,9 @@ static int PyPointlessBitvector_init(PyPointlessBitvector* self, PyObject* args,
 
 				return -1;
 			}
-
-			i += 1;
 		}
+
+		Py_DECREF(sequence_iterator);
 	}
 
 	return 0;
-- 
2.43.0


From ee9300db7701b07901030968fd0955334c0f2c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:09 +0000
Subject: [PATCH 33/82] fix: copied and read bitvectors printed or not at
 random, the setting was left uninitialised

---
 python/pointless_bitvector.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/pointless_bitvector.c b/python/pointless_bitvector.c
index e80661b..3b11e5d 100644
--- a/python/pointless_bitvector.c
+++ b/python/pointless_bitvector.c
@@ -758,6 +758,7 @@ static PyObject* PyPointlessBitvector_copy(PyPointlessBitvector* self)
 	}
 
 	pv->is_pointless = 0;
+	pv->allow_print = self->allow_print;
 	pv->pp = 0;
 	pv->primitive_n_bytes_alloc = n_bytes;
 	pv->primitive_n_bits = n_bits;
@@ -962,10 +963,13 @@ PyPointlessBitvector* PyPointlessBitvector_New(PyPointless* pp, pointless_value_
 	pp->n_bitvector_refs += 1;
 
 	pv->is_pointless = 1;
+	pv->allow_print = pp->allow_print;
 	pv->pp = pp;
 	pv->v = *v;
+	pv->primitive_n_bytes_alloc = 0;
 	pv->primitive_n_bits = 0;
 	pv->primitive_bits = 0;
+	pv->primitive_n_one = 0;
 
 	return pv;
 }
-- 
2.43.0


From f9ac12e707324f637fb3aa962022bb4a8c569b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:14 +0000
Subject: [PATCH 34/82] fix: appending a primitive vector to itself did not
 end, and read freed memory

---
 python/pointless_prim_vector.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 42667ca..44ca100 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -764,9 +764,13 @@ static PyObject* PyPointlessPrimVector_append_bulk(PyPointlessPrimVector* self,
 		PyPointlessPrimVector* p_obj = (PyPointlessPrimVector*)obj;
 
 		if (p_obj->type == self->type) {
-			for (i = 0; i < pointless_dynarray_n_items(&p_obj->array); i++) {
-				void* v = pointless_dynarray_item_at(&p_obj->array, i);
-				if (!pointless_dynarray_push(&self->array, v)) {
+			// the vector may be appended to itself
+			size_t n_obj = pointless_dynarray_n_items(&p_obj->array);
+			pypointless_number_t number;
+
+			for (i = 0; i < n_obj; i++) {
+				memcpy(&number, pointless_dynarray_item_at(&p_obj->array, i), p_obj->array.item_size);
+				if (!pointless_dynarray_push(&self->array, &number)) {
 					for (j = 0; j < n_append; j++)
 						pointless_dynarray_pop(&self->array);
 
-- 
2.43.0


From 0a93ef265b1aeae59b84f36ddd0fd27a032926ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:14 +0000
Subject: [PATCH 35/82] fix: deleting an item of a primitive vector crashed

---
 python/pointless_prim_vector.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 44ca100..c259654 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -606,6 +606,11 @@ static int PyPointlessPrimVector_ass_item(PyPointlessPrimVector* self, Py_ssize_
 
 static int PyPointlessPrimVector_ass_subscript(PyPointlessPrimVector* self, PyObject* item, PyObject* value)
 {
+	if (value == 0) {
+		PyErr_SetString(PyExc_TypeError, "items of a vector cannot be deleted");
+		return -1;
+	}
+
 	if (PyIndex_Check(item)) {
 		Py_ssize_t i = PyNumber_AsSsize_t(item, PyExc_IndexError);
 
-- 
2.43.0


From e4328a26b038fb44d32f20acbf6e4046906a2b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:14 +0000
Subject: [PATCH 36/82] fix: assigning to a negative index of a primitive
 vector used a length from other memory

---
 python/pointless_prim_vector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index c259654..5df1a15 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -618,7 +618,7 @@ static int PyPointlessPrimVector_ass_subscript(PyPointlessPrimVector* self, PyOb
 			return -1;
 
 		if (i < 0)
-			i += PyList_GET_SIZE(self);
+			i += PyPointlessPrimVector_length(self);
 
 		return PyPointlessPrimVector_ass_item(self, i, value);
 	} else {
-- 
2.43.0


From 3f61e0c9820e4c4230b6131e5be7e1148b776b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:14 +0000
Subject: [PATCH 37/82] fix: release the items collected by FromRemap when it
 refuses an index

---
 python/pointless_prim_vector.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 5df1a15..22bbd7d 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -1838,17 +1838,20 @@ static PyObject* PyPointlessPrimVector_from_remap(PyTypeObject* type, PyObject*
 
 		if (PyPointlessPrimVector_Check(v_) && !PyPointlessPrimVector_from_remap_index_vector_prim((PyPointlessPrimVector*)v_, i, &index)) {
 			PyErr_SetString(PyExc_ValueError, "index vector negative or of the wrong type");
+			pointless_dynarray_destroy(&a_);
 			return 0;
 		}
 
 		if (PyPointlessVector_Check(v_) && !PyPointlessPrimVector_from_remap_index_vector_pointless((PyPointlessVector*)v_, i, &index)) {
 			PyErr_SetString(PyExc_ValueError, "index vector negative or of the wrong type");
+			pointless_dynarray_destroy(&a_);
 			return 0;
 		}
 
 		// check for bounds
 		if (index >= n_source) {
 			PyErr_SetString(PyExc_ValueError, "index vector out of bounds");
+			pointless_dynarray_destroy(&a_);
 			return 0;
 		}
 
-- 
2.43.0


From de55eff9541e614ffcacf5d2d936fe230e268e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:14 +0000
Subject: [PATCH 38/82] fix: pop_bulk shrank a primitive vector whose buffer
 was exported

---
 python/pointless_prim_vector.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 22bbd7d..e5414aa 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -926,6 +926,9 @@ static PyObject* PyPointlessPrimVector_pop_bulk(PyPointlessPrimVector* self, PyO
 		return 0;
 	}
 
+	if (n > 0 && !PyPointlessPrimVector_can_resize(self))
+		return 0;
+
 	for (i = 0; i < n; i++)
 		pointless_dynarray_pop(&self->array);
 
-- 
2.43.0


From ccd061b52695f74d6d1b85cd56028d3b5c07a9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:14 +0000
Subject: [PATCH 39/82] fix: slices and remaps of primitive vectors printed or
 not at random, the setting was left uninitialised

---
 python/pointless_prim_vector.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index e5414aa..2aa60a7 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -1869,7 +1869,12 @@ static PyObject* PyPointlessPrimVector_from_remap(PyTypeObject* type, PyObject*
 		}
 	}
 
-	return (PyObject*)PyPointlessPrimVector_from_T_vector(&a_, r_->type);
+	PyPointlessPrimVector* remap = PyPointlessPrimVector_from_T_vector(&a_, r_->type);
+
+	if (remap)
+		remap->allow_print = r_->allow_print;
+
+	return (PyObject*)remap;
 }
 
 #define POINTLESS_PRIMVECTOR_MIN_MAX_LOOP(T, v, n) \
@@ -2027,6 +2032,7 @@ static PyObject* PyPointlessPrimVector_slice(PyPointlessPrimVector* self, Py_ssi
 	if (pv == 0)
 		return 0;
 
+	pv->allow_print = self->allow_print;
 	pv->ob_exports = 0;
 	pv->type = self->type;
 	pointless_dynarray_init(&pv->array, self->array.item_size);
@@ -2203,6 +2209,7 @@ PyPointlessPrimVector* PyPointlessPrimVector_from_T_vector(pointless_dynarray_t*
 		return 0;
 	}
 
+	pv->allow_print = 1;
 	pv->ob_exports = 0;
 	pv->type = t;
 	pv->array = *v;
-- 
2.43.0


From 513dc1a511cda89144c8d7d485fcb23ca46a0ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:27 +0000
Subject: [PATCH 40/82] fix: filling a primitive vector from a sequence leaked,
 and lost or kept the wrong items when the sequence failed, changed or
 exported the vector; buffers of unknown types were accepted

---
 python/pointless_prim_vector.c | 152 ++++++++++++++++++---------------
 1 file changed, 81 insertions(+), 71 deletions(-)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 2aa60a7..20fb64f 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -156,6 +156,35 @@ static int pypointless_parse_number(PyObject* n, pypointless_number_t* v, uint32
 	return 1;
 }
 
+// collect the items of a sequence, the caller releases the array
+static int pypointless_collect_numbers(PyObject* sequence, pointless_dynarray_t* array, uint32_t type)
+{
+	PyObject* iterator = PyObject_GetIter(sequence);
+	PyObject* item = 0;
+
+	if (iterator == 0)
+		return 0;
+
+	while ((item = PyIter_Next(iterator)) != 0) {
+		pypointless_number_t number;
+		int parsed = pypointless_parse_number(item, &number, type);
+
+		Py_DECREF(item);
+
+		if (!parsed)
+			break;
+
+		if (!pointless_dynarray_push(array, &number)) {
+			PyErr_NoMemory();
+			break;
+		}
+	}
+
+	Py_DECREF(iterator);
+
+	return (PyErr_Occurred() == 0);
+}
+
 static void PyPointlessPrimVector_dealloc(PyPointlessPrimVector* self)
 {
 	if (self->ob_exports > 0) {
@@ -314,14 +343,6 @@ static int PyPointlessPrimVector_init(PyPointlessPrimVector* self, PyObject* arg
 	if (!PyPointlessPrimVector_can_resize(self))
 		return -1;
 
-	// printing enabled by default
-	self->allow_print = 1;
-	self->ob_exports = 0;
-
-	// clear previous contents
-	pointless_dynarray_clear(&self->array);
-	self->type = 0;
-
 	// parse input
 	const char* type = 0;
 	Py_buffer buffer;
@@ -330,6 +351,12 @@ static int PyPointlessPrimVector_init(PyPointlessPrimVector* self, PyObject* arg
 	uint32_t i;
 	int retval = -1;
 
+	// new contents, which replace the previous ones once they are complete
+	pointless_dynarray_t array;
+	uint32_t vector_type = 0;
+
+	pointless_dynarray_init(&array, 1);
+
 	buffer.buf = 0;
 	buffer.len = 0;
 	buffer.obj = 0;
@@ -349,15 +376,12 @@ static int PyPointlessPrimVector_init(PyPointlessPrimVector* self, PyObject* arg
 		goto cleanup;
 	}
 
-	if (allow_print == Py_False)
-		self->allow_print = 0;
-
 	// typecode and (sequence)
 	if (type != 0) {
 		for (i = 0; i < POINTLESS_PRIM_VECTOR_N_TYPES; i++) {
 			if (strcmp(type, pointless_prim_vector_type_map[i].s) == 0) {
-				pointless_dynarray_init(&self->array, pointless_prim_vector_type_map[i].typesize);
-				self->type = pointless_prim_vector_type_map[i].type;
+				pointless_dynarray_init(&array, pointless_prim_vector_type_map[i].typesize);
+				vector_type = pointless_prim_vector_type_map[i].type;
 				break;
 			}
 		}
@@ -368,30 +392,8 @@ static int PyPointlessPrimVector_init(PyPointlessPrimVector* self, PyObject* arg
 		}
 
 		// if we have an iterator, construct the vector from it
-		if (sequence_obj) {
-			PyObject* iterator = PyObject_GetIter(sequence_obj);
-
-			if (iterator == 0)
-				goto cleanup;
-
-			PyObject* item = 0;
-
-			while ((item = PyIter_Next(iterator)) != 0) {
-				if (!PyPointlessPrimVector_append_item(self, item))
-					break;
-
-				Py_DECREF(item);
-				item = 0;
-			}
-
-			Py_DECREF(iterator);
-			iterator = 0;
-
-			if (PyErr_Occurred()) {
-				pointless_dynarray_destroy(&self->array);
-				goto cleanup;
-			}
-		}
+		if (sequence_obj && !pypointless_collect_numbers(sequence_obj, &array, vector_type))
+			goto cleanup;
 
 		retval = 0;
 	// else a single buffer
@@ -402,14 +404,14 @@ static int PyPointlessPrimVector_init(PyPointlessPrimVector* self, PyObject* arg
 			goto cleanup;
 		}
 
-		self->type = ((uint32_t*)buffer.buf)[0];
+		vector_type = ((uint32_t*)buffer.buf)[0];
 		uint32_t buffer_n_items = ((uint32_t*)buffer.buf)[1];
 		uint64_t expected_buffer_size = 0;
 
 		for (i = 0; i < POINTLESS_PRIM_VECTOR_N_TYPES; i++) {
-			if (pointless_prim_vector_type_map[i].type == self->type) {
+			if (pointless_prim_vector_type_map[i].type == vector_type) {
 				expected_buffer_size += (uint64_t)pointless_prim_vector_type_map[i].typesize * (uint64_t)buffer_n_items;
-				pointless_dynarray_init(&self->array, pointless_prim_vector_type_map[i].typesize);
+				pointless_dynarray_init(&array, pointless_prim_vector_type_map[i].typesize);
 				break;
 			}
 		}
@@ -430,33 +432,33 @@ static int PyPointlessPrimVector_init(PyPointlessPrimVector* self, PyObject* arg
 			void* data_buffer = (uint32_t*)buffer.buf + 2;
 			int added = 0;
 
-			switch (self->type) {
+			switch (vector_type) {
 				case POINTLESS_PRIM_VECTOR_TYPE_I8:
-					added = pointless_dynarray_push(&self->array, (int8_t*)data_buffer + i);
+					added = pointless_dynarray_push(&array, (int8_t*)data_buffer + i);
 					break;
 				case POINTLESS_PRIM_VECTOR_TYPE_U8:
-					added = pointless_dynarray_push(&self->array, (uint8_t*)data_buffer + i);
+					added = pointless_dynarray_push(&array, (uint8_t*)data_buffer + i);
 					break;
 				case POINTLESS_PRIM_VECTOR_TYPE_I16:
-					added = pointless_dynarray_push(&self->array, (int16_t*)data_buffer + i);
+					added = pointless_dynarray_push(&array, (int16_t*)data_buffer + i);
 					break;
 				case POINTLESS_PRIM_VECTOR_TYPE_U16:
-					added = pointless_dynarray_push(&self->array, (uint16_t*)data_buffer + i);
+					added = pointless_dynarray_push(&array, (uint16_t*)data_buffer + i);
 					break;
 				case POINTLESS_PRIM_VECTOR_TYPE_I32:
-					added = pointless_dynarray_push(&self->array, (int32_t*)data_buffer + i);
+					added = pointless_dynarray_push(&array, (int32_t*)data_buffer + i);
 					break;
 				case POINTLESS_PRIM_VECTOR_TYPE_U32:
-					added = pointless_dynarray_push(&self->array, (uint32_t*)data_buffer + i);
+					added = pointless_dynarray_push(&array, (uint32_t*)data_buffer + i);
 					break;
 				case POINTLESS_PRIM_VECTOR_TYPE_I64:
-					added = pointless_dynarray_push(&self->array, (int64_t*)data_buffer + i);
+					added = pointless_dynarray_push(&array, (int64_t*)data_buffer + i);
 					break;
 				case POINTLESS_PRIM_VECTOR_TYPE_U64:
-					added = pointless_dynarray_push(&self->array, (uint64_t*)data_buffer + i);
+					added = pointless_dynarray_push(&array, (uint64_t*)data_buffer + i);
 					break;
 				case POINTLESS_PRIM_VECTOR_TYPE_FLOAT:
-					added = pointless_dynarray_push(&self->array, (float*)data_buffer + i);
+					added = pointless_dynarray_push(&array, (float*)data_buffer + i);
 					break;
 				default:
 					PyErr_SetString(PyExc_Exception, "internal error");
@@ -474,8 +476,18 @@ static int PyPointlessPrimVector_init(PyPointlessPrimVector* self, PyObject* arg
 
 cleanup:
 
-	if (retval == -1)
-		pointless_dynarray_clear(&self->array);
+	if (retval == 0 && !PyPointlessPrimVector_can_resize(self))
+		retval = -1;
+
+	if (retval == -1) {
+		pointless_dynarray_destroy(&array);
+	} else {
+		pointless_dynarray_destroy(&self->array);
+		self->array = array;
+		self->type = vector_type;
+		// printing enabled by default
+		self->allow_print = (allow_print != Py_False);
+	}
 
 	if (buffer.obj)
 		PyBuffer_Release(&buffer);
@@ -752,8 +764,6 @@ static PyObject* PyPointlessPrimVector_append(PyPointlessPrimVector* self, PyObj
 static PyObject* PyPointlessPrimVector_append_bulk(PyPointlessPrimVector* self, PyObject* args)
 {
 	PyObject* obj = 0;
-	PyObject* iterator = 0;
-	PyObject* item = 0;
 	size_t n_append = 0;
 	size_t i = 0;
 	size_t j = 0;
@@ -865,30 +875,30 @@ static PyObject* PyPointlessPrimVector_append_bulk(PyPointlessPrimVector* self,
 		}
 	}
 
-	iterator = PyObject_GetIter(obj);
+	// collect the items first, the iterator may fail, or change or export this vector
+	pointless_dynarray_t items;
+	uint32_t type = self->type;
+	int added = 0;
 
-	if (iterator == 0)
-		return 0;
+	pointless_dynarray_init(&items, self->array.item_size);
 
-	while ((item = PyIter_Next(iterator)) != 0) {
-		if (!PyPointlessPrimVector_append_item(self, item))
-			break;
-
-		n_append += 1;
-		Py_DECREF(item);
-		item = 0;
+	if (!pypointless_collect_numbers(obj, &items, type) || !PyPointlessPrimVector_can_resize(self)) {
+		pointless_dynarray_destroy(&items);
+		return 0;
 	}
 
-	Py_DECREF(iterator);
-	iterator = 0;
-
-	if (PyErr_Occurred()) {
-		for (i = 0; i < n_append; i++)
-			pointless_dynarray_pop(&self->array);
-
+	if (type != self->type) {
+		pointless_dynarray_destroy(&items);
+		PyErr_SetString(PyExc_ValueError, "vector type changed during append");
 		return 0;
 	}
 
+	added = (pointless_dynarray_n_items(&items) == 0) || pointless_dynarray_push_bulk(&self->array, pointless_dynarray_buffer(&items), pointless_dynarray_n_items(&items));
+	pointless_dynarray_destroy(&items);
+
+	if (!added)
+		return PyErr_NoMemory();
+
 	Py_INCREF(Py_None);
 	return Py_None;
 }
-- 
2.43.0


From c0be7b1c68262488c861a44dd1b14d15f1794d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:27 +0000
Subject: [PATCH 41/82] fix: primitive vectors which were never initialised had
 items of size zero and read foreign memory

---
 python/pointless_prim_vector.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 20fb64f..80520ca 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -196,6 +196,20 @@ static void PyPointlessPrimVector_dealloc(PyPointlessPrimVector* self)
 	Py_TYPE(self)->tp_free(self);
 }
 
+static PyObject* PyPointlessPrimVector_new(PyTypeObject* type, PyObject* args, PyObject* kwds)
+{
+	PyPointlessPrimVector* self = (PyPointlessPrimVector*)type->tp_alloc(type, 0);
+
+	if (self) {
+		self->allow_print = 1;
+		self->ob_exports = 0;
+		self->type = POINTLESS_PRIM_VECTOR_TYPE_I8;
+		pointless_dynarray_init(&self->array, sizeof(int8_t));
+	}
+
+	return (PyObject*)self;
+}
+
 static void PyPointlessPrimVectorIter_dealloc(PyPointlessPrimVectorIter* self)
 {
 	Py_XDECREF(self->vector);
@@ -2116,7 +2130,7 @@ PyTypeObject PyPointlessPrimVectorType = {
 	0,                                              /*tp_dictoffset */
 	(initproc)PyPointlessPrimVector_init,           /*tp_init */
 	PyType_GenericAlloc,                            /*tp_alloc */
-	PyType_GenericNew,                              /*tp_new */
+	PyPointlessPrimVector_new,                      /*tp_new */
 	PyObject_Del,                                   /* tp_free */
 };
 
-- 
2.43.0


From 505b9d570727f7dd0c4613e353186191141d4c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:47 +0000
Subject: [PATCH 42/82] fix: sort_proj did not check the upper bound of signed
 projections, and read beyond the value vectors

---
 python/pointless_prim_vector.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 80520ca..3826842 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -1623,6 +1623,10 @@ static PyObject* PyPointlessPrimVector_sort_proj(PyPointlessPrimVector* self, Py
 				case POINTLESS_PRIM_VECTOR_TYPE_U64: v_b = ((uint64_t*)state.p_b)[i]; break;
 			}
 
+			// signed values are limited on both sides
+			if (v_a > 0)
+				v_b = (uint64_t)v_a;
+
 			if (i == 0 || v_a < p_min)
 				p_min = v_a;
 
-- 
2.43.0


From f22df09ed6e6ff256514aade9d12929aee18b4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:55 +0000
Subject: [PATCH 43/82] fix: report errors of the sort comparison whatever it
 returned with them

---
 src/custom_sort.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/custom_sort.c b/src/custom_sort.c
index da54f81..0e5fe54 100644
--- a/src/custom_sort.c
+++ b/src/custom_sort.c
@@ -40,6 +40,9 @@ loop:
 
 				(*swap)(pl, pl - 1, user);
 			}
+
+			if (is_error)
+				return 0;
 		}
 
 		return 1;
@@ -57,6 +60,9 @@ loop:
 		}
 	}
 
+	if (is_error)
+		return 0;
+
 	if (presorted)
 		return 1;
 
@@ -100,6 +106,9 @@ loop:
 			pb += 1;
 		}
 
+		if (is_error)
+			return 0;
+
 		while (pb <= pc && (r = cmp_adapter(pc, a, cmp, user, &is_error)) >= 0) {
 			if (is_error)
 				return 0;
@@ -112,6 +121,9 @@ loop:
 			pc -= 1;
 		}
 
+		if (is_error)
+			return 0;
+
 		if (pb > pc)
 			break;
 
-- 
2.43.0


From cbdb3a52fd706da3055057f9f430f114e1d9903c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:55 +0000
Subject: [PATCH 44/82] fix: refuse to sort a projection by itself, its values
 moved while they were compared

---
 python/pointless_prim_vector.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 3826842..4e7d8f6 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -1507,6 +1507,11 @@ static PyObject* PyPointlessPrimVector_sort_proj(PyPointlessPrimVector* self, Py
 	for (state.n = 0; state.n < 16 && state.v_p[state.n]; state.n++) {
 		if (PyPointlessPrimVector_Check(state.v_p[state.n])) {
 			PyPointlessPrimVector* ppv = (PyPointlessPrimVector*)state.v_p[state.n];
+
+			if (ppv == self) {
+				PyErr_SetString(PyExc_ValueError, "projection vector can not be one of the value vectors");
+				goto cleanup;
+			}
 			state.v_b[state.n] = ppv->array._data;
 			state.v_n[state.n] = pointless_dynarray_n_items(&ppv->array);
 			state.v_t[state.n] = ppv->type;
-- 
2.43.0


From 9314eacfb0b5a70fcfd6bbfea6dc2c5a8b3924e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:24 +0000
Subject: [PATCH 45/82] fix: a failed write left its temporary file behind, its
 name was freed before it was unlinked

---
 src/pointless_create.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/pointless_create.c b/src/pointless_create.c
index 78213d6..06d135e 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -1320,9 +1320,6 @@ int pointless_create_output_and_end_f(pointless_create_t* c, const char* fname,
 
 cleanup:
 
-	pointless_free(temp_fname);
-	temp_fname = 0;
-
 	pointless_create_end(c);
 
 	if (f) {
-- 
2.43.0


From ea25b686a886f742a397d88dda79e8581c8a0b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:26 +0000
Subject: [PATCH 46/82] fix: an item count of 2^31 or more in a set or map made
 the search for the number of buckets endless

---
 src/pointless_create.c     | 5 +++++
 src/pointless_hash_table.c | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/pointless_create.c b/src/pointless_create.c
index 06d135e..f30714c 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -75,6 +75,11 @@ static int pointless_hash_table_create(pointless_create_t* c, uint32_t hash_tabl
 	// number of buckets
 	n_buckets = pointless_hash_compute_n_buckets(n_keys);
 
+	if (n_buckets == 0) {
+		*error = "set/map has too many items";
+		goto cleanup;
+	}
+
 	// allocate output vectors
 	hash_serialize = (uint32_t*)pointless_malloc(sizeof(uint32_t) * n_buckets);
 	keys_serialize = (uint32_t*)pointless_malloc(sizeof(uint32_t) * n_buckets);
diff --git a/src/pointless_hash_table.c b/src/pointless_hash_table.c
index 98e8681..d5f1c06 100644
--- a/src/pointless_hash_table.c
+++ b/src/pointless_hash_table.c
@@ -17,6 +17,10 @@ uint32_t pointless_hash_compute_n_buckets(uint32_t n_items)
 	if (n_items == 1)
 		return 2;
 
+	// the number of buckets is at most 2^31, zero means that no number of buckets is large enough
+	if ((uint64_t)n_items + n_items / 2 > ((uint64_t)1 << 31))
+		return 0;
+
 	return next_power_of_2(n_items + n_items / 2);
 }
 
-- 
2.43.0


From 44be714d0c611e413ed305cbafc2c404e4ba1236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:26 +0000
Subject: [PATCH 47/82] fix: validation printed to standard output when
 refusing a set or map with a wrong key vector

---
 src/pointless_validate_heap.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/pointless_validate_heap.c b/src/pointless_validate_heap.c
index 4059f68..01ba5c9 100644
--- a/src/pointless_validate_heap.c
+++ b/src/pointless_validate_heap.c
@@ -189,7 +189,6 @@ static int32_t pointless_validate_set_heap(pointless_validate_context_t* context
 
 	if (header->key_vector.type != POINTLESS_VECTOR_VALUE_HASHABLE) {
 		*error = "set key vector not of type POINTLESS_VECTOR_VALUE_HASHABLE";
-		printf("but rather %i\n", (int)header->key_vector.type);
 		return 0;
 	}
 
@@ -218,7 +217,6 @@ static int32_t pointless_validate_map_heap(pointless_validate_context_t* context
 
 	if (header->key_vector.type != POINTLESS_VECTOR_VALUE_HASHABLE) {
 		*error = "map key vector not of type POINTLESS_VECTOR_VALUE_HASHABLE";
-		printf("but rather %i\n", (int)header->key_vector.type);
 		return 0;
 	}
 
-- 
2.43.0


From 4f78ba1219abdef91e94fea26859a86e13c4e877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:26 +0000
Subject: [PATCH 48/82] fix: a file of the version with 32-bit offsets was
 opened, read with 64-bit offsets, instead of refused

---
 src/pointless_reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointless_reader.c b/src/pointless_reader.c
index 1c0bec6..4612536 100644
--- a/src/pointless_reader.c
+++ b/src/pointless_reader.c
@@ -17,7 +17,7 @@ static int pointless_init(pointless_t* p, void* buf, uint64_t buflen, int do_val
 			return 0;
 		case POINTLESS_FF_VERSION_OFFSET_32_NEWHASH:
 			*error = "32-bit offset files no longer supported";
-			break;
+			return 0;
 		case POINTLESS_FF_VERSION_OFFSET_64_NEWHASH:
 			break;
 		default:
-- 
2.43.0


From 9bee889d9a62db05e704b4f7908c60dc8d949b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 49/82] fix: iterating over the map or set entries of one hash
 returned some of them repeatedly

---
 include/pointless/pointless_hash_table.h |  2 ++
 src/pointless_hash_table.c               | 46 ++++++++++++++++++------
 2 files changed, 38 insertions(+), 10 deletions(-)

diff --git a/include/pointless/pointless_hash_table.h b/include/pointless/pointless_hash_table.h
index d3b97bd..d515738 100644
--- a/include/pointless/pointless_hash_table.h
+++ b/include/pointless/pointless_hash_table.h
@@ -19,6 +19,8 @@ typedef struct {
 	uint32_t perturb;
 	uint32_t i;
 	uint32_t mask;
+	uint32_t hash;
+	uint32_t n_probes;
 } pointless_hash_iter_state_t;
 
 uint32_t pointless_hash_compute_n_buckets(uint32_t n_items);
diff --git a/src/pointless_hash_table.c b/src/pointless_hash_table.c
index d5f1c06..3712b96 100644
--- a/src/pointless_hash_table.c
+++ b/src/pointless_hash_table.c
@@ -79,23 +79,49 @@ void pointless_hash_table_probe_hash_init(pointless_t* p, uint32_t value_hash, u
 	state->perturb = value_hash;
 	state->i = value_hash;
 	state->mask = n_buckets - 1;
+	state->hash = value_hash;
+	state->n_probes = 0;
+}
+
+// the recurrence may come by the same bucket more than once, before it reaches an empty one
+static uint32_t pointless_hash_table_was_probed(pointless_hash_iter_state_t* state, uint32_t bucket)
+{
+	uint32_t i = state->hash, perturb = state->hash, n;
+
+	for (n = 0; n < state->n_probes; n++) {
+		if ((i & state->mask) == bucket)
+			return 1;
+
+		i = (i << 2) + i + perturb + 1;
+		perturb >>= 5;
+	}
+
+	return 0;
 }
 
 uint32_t pointless_hash_table_probe_hash(pointless_t* p, uint32_t* hash_vector, pointless_value_t* key_vector, pointless_hash_iter_state_t* state, uint32_t* bucket_out)
 {
-	uint32_t bucket = state->i & state->mask;
+	while (1) {
+		uint32_t bucket = state->i & state->mask;
 
-	// we're at an empty bucket
-	if (key_vector[bucket].type == POINTLESS_EMPTY_SLOT)
-		return 0;
+		// we're at an empty bucket
+		if (key_vector[bucket].type == POINTLESS_EMPTY_SLOT)
+			return 0;
 
-	// compute recurrence
-	state->i = (state->i << 2) + state->i + state->perturb + 1;
-	state->perturb >>= 5;
+		// matching buckets are only returned once
+		uint32_t is_again = (hash_vector[bucket] == state->hash && pointless_hash_table_was_probed(state, bucket));
 
-	// return bucket
-	*bucket_out = bucket;
-	return 1;
+		// compute recurrence
+		state->i = (state->i << 2) + state->i + state->perturb + 1;
+		state->perturb >>= 5;
+		state->n_probes += 1;
+
+		// return bucket
+		if (!is_again) {
+			*bucket_out = bucket;
+			return 1;
+		}
+	}
 }
 
 uint32_t pointless_hash_table_probe(pointless_t* p, uint32_t value_hash, pointless_value_t* value, uint32_t n_buckets, uint32_t* hash_vector, pointless_value_t* key_vector, const char** error)
-- 
2.43.0


From 78d19354c5891828bdeebdac83d252649fea0ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:52 +0000
Subject: [PATCH 50/82] fix: looking up a stored tuple with unhashable items
 crashed, its hash was computed without a check of the items

---
 src/pointless_reader.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pointless_reader.c b/src/pointless_reader.c
index 4612536..0f2c21d 100644
--- a/src/pointless_reader.c
+++ b/src/pointless_reader.c
@@ -419,7 +419,7 @@ uint32_t pointless_reader_set_iter(pointless_t* p, pointless_value_t* s, pointle
 void pointless_reader_set_lookup(pointless_t* p, pointless_value_t* s, pointless_value_t* k, pointless_value_t** kk, const char** error)
 {
 	// value must be hashable
-	if (!pointless_is_hashable(k->type)) {
+	if (!pointless_is_hashable_reader(p, k)) {
 		*error = "value is not hashable";
 		return;
 	}
@@ -607,7 +607,7 @@ uint32_t pointless_reader_set_iter_hash(pointless_t* p, pointless_value_t* s, ui
 void pointless_reader_map_lookup(pointless_t* p, pointless_value_t* m, pointless_value_t* k, pointless_value_t** kk, pointless_value_t** vv, const char** error)
 {
 	// value must be hashable
-	if (!pointless_is_hashable(k->type)) {
+	if (!pointless_is_hashable_reader(p, k)) {
 		*error = "value is not hashable";
 		return;
 	}
-- 
2.43.0


From 4630293d41cc0778bf7da99912dc57aa171ea955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:47 +0000
Subject: [PATCH 51/82] fix: a value refused by serialisation left all values
 created before it in memory

---
 python/pointless_create.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/pointless_create.c b/python/pointless_create.c
index f21540c..6109888 100644
--- a/python/pointless_create.c
+++ b/python/pointless_create.c
@@ -529,6 +529,7 @@ PyObject* pointless_write_object(PyObject* self, PyObject* args, PyObject* kwds)
 	state.normalize_bitvector = (normalize_bitvector == Py_True);
 
 	pointless_create_begin_64(&state.c);
+	create_end = 1;
 
 	pointless_export_py(&state, object);
 
@@ -594,6 +595,7 @@ static PyObject* pointless_write_object_to(int buffer_type, PyObject* self, PyOb
 	state.normalize_bitvector = (normalize_bitvector == Py_True);
 
 	pointless_create_begin_64(&state.c);
+	create_end = 1;
 
 	pointless_export_py(&state, object);
 
-- 
2.43.0


From e61b1c8e3b8c9b77fa72b13815c40d5dab470196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:47 +0000
Subject: [PATCH 52/82] fix: serialising to a bytearray leaked the output
 buffer

---
 python/pointless_create.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/pointless_create.c b/python/pointless_create.c
index 6109888..383a3f4 100644
--- a/python/pointless_create.c
+++ b/python/pointless_create.c
@@ -611,8 +611,10 @@ static PyObject* pointless_write_object_to(int buffer_type, PyObject* self, PyOb
 
 	if (buffer_type == 0)
 		retval = (PyObject*)PyPointlessPrimVector_from_buffer(buf, buflen);
-	else
+	else {
 		retval = (PyObject*)PyByteArray_FromStringAndSize(buf, buflen);
+		pointless_free(buf);
+	}
 
 cleanup:
 
-- 
2.43.0


From 94ae2ae377856bda2fd0ee9195ed091180589e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:29 +0000
Subject: [PATCH 53/82] fix: intop_u32_mult was declared but not defined, it
 was defined as uintop_32_mult

---
 src/pointless_int_ops.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointless_int_ops.c b/src/pointless_int_ops.c
index 90a77bd..2d1ffec 100644
--- a/src/pointless_int_ops.c
+++ b/src/pointless_int_ops.c
@@ -32,7 +32,7 @@ intop_u64_t intop_u64_mult(intop_u64_t a, intop_u64_t b)
 	return c;
 }
 
-intop_u32_t uintop_32_mult(intop_u32_t a, intop_u32_t b)
+intop_u32_t intop_u32_mult(intop_u32_t a, intop_u32_t b)
 {
 	intop_u32_t c;
 
-- 
2.43.0


From f02f5ec839ff189bf37d16eda6e1cdf1c833c043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:29 +0000
Subject: [PATCH 54/82] fix: the expression compiler read beyond the tokens of
 its expression, those of an earlier expression or of uninitialised memory

---
 src/pointless_int_ops.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointless_int_ops.c b/src/pointless_int_ops.c
index 2d1ffec..3d978f8 100644
--- a/src/pointless_int_ops.c
+++ b/src/pointless_int_ops.c
@@ -200,7 +200,7 @@ static int intop_check_error(intop_eval_context_t* c)
 
 static int intop_eval_check_bounds(intop_eval_context_t* c)
 {
-	return (c->i < INTOP_EVAL_MAX_N);
+	return (c->i < c->n);
 }
 
 static void intop_eval_push(intop_eval_context_t* c, intop_eval_token_t* token)
-- 
2.43.0


From 57d07d770036d0ea3dfed142de6fac107f263c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:29 +0000
Subject: [PATCH 55/82] fix: operators of the same precedence in an expression
 were applied from right to left

---
 src/pointless_int_ops.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pointless_int_ops.c b/src/pointless_int_ops.c
index 3d978f8..6630cf4 100644
--- a/src/pointless_int_ops.c
+++ b/src/pointless_int_ops.c
@@ -234,9 +234,9 @@ static void intop_eval_Em(intop_eval_context_t* c)
 		int i = c->i;
 		c->i += 1;
 		intop_eval_T(c);
-		intop_eval_Em(c);
-
 		intop_eval_push(c, &c->tokens[i]);
+
+		intop_eval_Em(c);
 	}
 }
 
@@ -260,9 +260,9 @@ static void intop_eval_Tm(intop_eval_context_t* c)
 		int i = c->i;
 		c->i += 1;
 		intop_eval_F(c);
-		intop_eval_Tm(c);
-
 		intop_eval_push(c, &c->tokens[i]);
+
+		intop_eval_Tm(c);
 	}
 }
 
-- 
2.43.0


From 0afe7cfef0a6382f0bd5a1afb280cb580d59949c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:29 +0000
Subject: [PATCH 56/82] fix: the operands of subtractions and divisions in an
 expression were swapped

---
 src/pointless_int_ops.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pointless_int_ops.c b/src/pointless_int_ops.c
index 6630cf4..d3647d2 100644
--- a/src/pointless_int_ops.c
+++ b/src/pointless_int_ops.c
@@ -476,8 +476,8 @@ int intop_eval_eval(intop_eval_context_t* c, uint64_t* r, const char** error, ..
 				assert(c->e_n >= 2);
 				assert(c->eval[c->e_n - 1].type == INTOP_EVAL_NUMBER);
 				assert(c->eval[c->e_n - 2].type == INTOP_EVAL_NUMBER);
-				a = c->eval[c->e_n - 1].number;
-				b = c->eval[c->e_n - 2].number;
+				a = c->eval[c->e_n - 2].number;
+				b = c->eval[c->e_n - 1].number;
 				c->eval[c->e_n - 2].type = INTOP_EVAL_NUMBER;
 
 				if (c->stack[i].type == INTOP_EVAL_SUB) {
-- 
2.43.0


From 7a05323399068dfffb180b4a86bad1fb055cd2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:33 +0000
Subject: [PATCH 57/82] fix: looking up an empty string by its length read the
 byte behind it, and did not find it

---
 src/pointless_hash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointless_hash.c b/src/pointless_hash.c
index ea7167c..806526c 100644
--- a/src/pointless_hash.c
+++ b/src/pointless_hash.c
@@ -6,7 +6,7 @@
 #include <pointless/pointless_bitvector.h>
 
 #define PYTHON_STRING_HASH_32(s, T)     { T* p = (s); size_t len = 0; uint32_t x = (uint32_t)(*p) << 7; while (*p)        {x = (1000003 * x) ^ (uint32_t)(*p++); len++;} return x ^ len;}
-#define PYTHON_STRING_HASH_32_(s, n, T) { T* p = (s); size_t len = 0; uint32_t x = (uint32_t)(*p) << 7; while (len < (n)) {x = (1000003 * x) ^ (uint32_t)(*p++); len++;} return x ^ len;}
+#define PYTHON_STRING_HASH_32_(s, n, T) { T* p = (s); size_t len = 0; uint32_t x = (n) ? (uint32_t)(*p) << 7 : 0; while (len < (n)) {x = (1000003 * x) ^ (uint32_t)(*p++); len++;} return x ^ len;}
 
 uint32_t pointless_hash_string_v1_32(uint8_t* s)
 {
-- 
2.43.0


From 802d6df8a234d6daa98ecdfc5bfdb75af6faaa15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:33 +0000
Subject: [PATCH 58/82] fix: map lookups by a wide string hashed the bytes of
 its first character only

---
 src/pointless_reader_helpers.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pointless_reader_helpers.c b/src/pointless_reader_helpers.c
index f70553b..38651a4 100644
--- a/src/pointless_reader_helpers.c
+++ b/src/pointless_reader_helpers.c
@@ -290,13 +290,13 @@ int pointless_get_mapping_string_n_to_value(pointless_t* p, pointless_value_t* m
 
 int pointless_get_mapping_unicode_to_value(pointless_t* p, pointless_value_t* map, uint32_t* key, pointless_value_t* value)
 {
-	uint32_t hash = pointless_hash_string_v1_32((uint8_t*)key);
+	uint32_t hash = pointless_hash_unicode_ucs4_v1_32(key);
 	return pointless_get_map_(p, map, hash, check_unicode, (void*)key, get_value, 0, (void*)value);
 }
 
 int pointless_get_mapping_unicode_to_u32(pointless_t* p, pointless_value_t* map, uint32_t* key, uint32_t* value)
 {
-	uint32_t hash = pointless_hash_string_v1_32((uint8_t*)key);
+	uint32_t hash = pointless_hash_unicode_ucs4_v1_32(key);
 	return pointless_get_map_(p, map, hash, check_unicode, (void*)key, check_and_get_u32, 0, (void*)value);
 }
 
-- 
2.43.0


From 5a0848faa18deeb4e4330aee7f396fb1c569862f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:48 +0000
Subject: [PATCH 59/82] fix: integers with a sign were refused in path
 expressions

---
 src/pointless_eval.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pointless_eval.c b/src/pointless_eval.c
index d3406a5..c45a614 100644
--- a/src/pointless_eval.c
+++ b/src/pointless_eval.c
@@ -61,13 +61,12 @@ static const char* pointless_eval_get_single(pointless_t* p, pointless_value_t*
 
 		// integer
 		case '-':
-			is_neg = 1;
-			break;
 		case '+':
+			is_neg = (*e == '-');
 			e += 1;
 			if (!('0' <= *e && *e  <= '9'))
 				return 0;
-			break;
+			// fall through
 		case '0':
 		case '1':
 		case '2':
-- 
2.43.0


From 649a4ead5e15eaa197da9cb7b9a1c260eaea35e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:48 +0000
Subject: [PATCH 60/82] fix: path expressions returned items of 64-bit vectors
 truncated, and of a type the value cannot have

---
 src/pointless_eval.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/pointless_eval.c b/src/pointless_eval.c
index c45a614..59c38ce 100644
--- a/src/pointless_eval.c
+++ b/src/pointless_eval.c
@@ -162,6 +162,23 @@ static const char* pointless_eval_get_single(pointless_t* p, pointless_value_t*
 
 		if (pointless_is_vector_type(root->type)) {
 			pointless_complete_value_t v = pointless_reader_vector_value_case(p, root, is_unsigned ? (uint32_t)v_u : (uint32_t)v_i);
+
+			// there is no room for integers beyond 32 bits
+			if (v.type == POINTLESS_I64) {
+				if (!(INT32_MIN <= v.complete_data.data_i64 && v.complete_data.data_i64 <= UINT32_MAX))
+					return 0;
+
+				if (v.complete_data.data_i64 <= INT32_MAX)
+					v = pointless_complete_value_create_as_read_i32((int32_t)v.complete_data.data_i64);
+				else
+					v = pointless_complete_value_create_as_read_u32((uint32_t)v.complete_data.data_i64);
+			} else if (v.type == POINTLESS_U64) {
+				if (v.complete_data.data_u64 > UINT32_MAX)
+					return 0;
+
+				v = pointless_complete_value_create_as_read_u32((uint32_t)v.complete_data.data_u64);
+			}
+
 			*root = pointless_value_from_complete(&v);
 		} else {
 			if (pointless_reader_bitvector_is_set(p, root, is_unsigned ? (uint32_t)v_u : (uint32_t)v_i))
-- 
2.43.0


From 4ea7410d25c23efd4257993194a5fc65a6ffbabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:07 +0000
Subject: [PATCH 61/82] fix: output to a buffer ends the creation on every
 failure

An unsupported version returned before the cleanup, so everything created
was leaked; output to a file does end it.
---
 src/pointless_create.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pointless_create.c b/src/pointless_create.c
index f30714c..2128dc5 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -1388,6 +1388,7 @@ int pointless_create_output_and_end_b(pointless_create_t* c, void** buf, size_t*
 	cb.user = (void*)&a;
 
 	if (!pointless_create_output_and_end_(c, &cb, error)) {
+		pointless_create_end(c);
 		pointless_dynarray_destroy(&a);
 		return 0;
 	}
-- 
2.43.0


From eb8ece39806b42146591be322e0196eb87ea36c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:07 +0000
Subject: [PATCH 62/82] fix: an empty vector given a buffer leaked it at output

---
 src/pointless_create.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pointless_create.c b/src/pointless_create.c
index 2128dc5..16e6602 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -751,6 +751,8 @@ static int pointless_create_output_and_end_(pointless_create_t* c, pointless_cre
 				}
 				// set/map vectors can not be emptied
 				if (pointless_dynarray_n_items(&cv_priv_vector_at(i)->vector) == 0 && cv_is_set_map_vector(i) == 0) {
+					// it may own a buffer all the same, and nothing refers to it from here on
+					pointless_dynarray_destroy(&cv_priv_vector_at(i)->vector);
 					cv_value_at(i)->header.type_29 = POINTLESS_VECTOR_EMPTY;
 					cv_value_at(i)->data.data_u32 = 0;
 				} else {
-- 
2.43.0


From 32ee9044313b9f316d788a14926fff873dabd32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:07 +0000
Subject: [PATCH 63/82] fix: failed handles in set_add and map_add are refused,
 as in vector append

They were stored and read out of bounds at output.
---
 src/pointless_create.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pointless_create.c b/src/pointless_create.c
index 16e6602..d7a18e0 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -2317,6 +2317,9 @@ uint32_t pointless_create_set_add(pointless_create_t* c, uint32_t s, uint32_t k)
 {
 	assert(cv_value_type(s) == POINTLESS_SET_VALUE);
 
+	if (k >= pointless_dynarray_n_items(&c->values))
+		return POINTLESS_CREATE_VALUE_FAIL;
+
 	if (!pointless_dynarray_push(&cv_set_at(s)->keys, &k))
 		return POINTLESS_CREATE_VALUE_FAIL;
 
@@ -2386,6 +2389,8 @@ uint32_t pointless_create_map_add(pointless_create_t* c, uint32_t m, uint32_t k,
 
 //	printf("adding k/v: %u/%u to %u\n", k, v, m);
 //	printf("types %i/%i\n", (int)cv_value_type(k), (int)cv_value_type(v));
+	if (k >= pointless_dynarray_n_items(&c->values) || v >= pointless_dynarray_n_items(&c->values))
+		return POINTLESS_CREATE_VALUE_FAIL;
 
 	if (!pointless_dynarray_push(&cv_map_at(m)->keys, &k))
 		return POINTLESS_CREATE_VALUE_FAIL;
-- 
2.43.0


From cda6041fe41a8f8a69b5b6d1180dc453bd133de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:39 +0000
Subject: [PATCH 64/82] fix: running out of memory inside Judy arrays was not
 noticed, it wrote through an invalid pointer or exited the process

---
 python/pointless_create.c    |  6 +++---
 src/pointless_create.c       |  6 +++---
 src/pointless_cycle_marker.c | 10 +++++-----
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/python/pointless_create.c b/python/pointless_create.c
index 383a3f4..965c9fc 100644
--- a/python/pointless_create.c
+++ b/python/pointless_create.c
@@ -18,10 +18,10 @@ static uint32_t pointless_export_get_seen(pointless_export_state_t* state, PyObj
 
 static int pointless_export_set_seen(pointless_export_state_t* state, PyObject* py_object, uint32_t handle)
 {
-	PWord_t value = 0;
-	JLI(value, state->objects_used, (Word_t)py_object);
+	// not JLI(), it exits the process when out of memory
+	PWord_t value = (PWord_t)JudyLIns(&state->objects_used, (Word_t)py_object, PJE0);
 
-	if (value == 0)
+	if (value == 0 || value == PJERR)
 		return 0;
 
 	*value = (Word_t)handle;
diff --git a/src/pointless_create.c b/src/pointless_create.c
index d7a18e0..5a1dd84 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -1589,7 +1589,7 @@ uint32_t pointless_create_unicode_ucs4(pointless_create_t* c, uint32_t* v)
 	// add to mapping
 	PValue = (Pvoid_t)JudyHSIns(&c->string_unicode_map_judy, unicode_buffer, buffer_len, 0);
 
-	if (PValue == 0)
+	if (PValue == 0 || PValue == PJERR)
 		goto cleanup;
 
 	*((Word_t*)PValue) = (Word_t)(pointless_dynarray_n_items(&c->values) - 1);
@@ -1669,7 +1669,7 @@ uint32_t pointless_create_string_ascii(pointless_create_t* c, uint8_t* v)
 	// add to mapping
 	PValue = JudyHSIns(&c->string_unicode_map_judy, string_buffer, buffer_len, PJE0);
 
-	if (PValue == 0)
+	if (PValue == 0 || PValue == PJERR)
 		goto cleanup;
 
 	*((Word_t*)PValue) = (Word_t)(pointless_dynarray_n_items(&c->values) - 1);
@@ -1946,7 +1946,7 @@ static uint32_t pointless_create_bitvector_(pointless_create_t* c, void* v, uint
 	if (normalize) {
 		Pvoid_t PValue = (Pvoid_t)JudyHSIns(&c->bitvector_map_judy, buffer, buffer_len, 0);
 
-		if (PValue == 0)
+		if (PValue == 0 || PValue == PJERR)
 			goto cleanup;
 
 		*((Word_t*)PValue) = (Word_t)(pointless_dynarray_n_items(&c->values) - 1);
diff --git a/src/pointless_cycle_marker.c b/src/pointless_cycle_marker.c
index 0ac31d2..2d4b19e 100644
--- a/src/pointless_cycle_marker.c
+++ b/src/pointless_cycle_marker.c
@@ -112,7 +112,7 @@ static void process_child(pointless_cycle_marker_state_t* state, uint32_t v_id,
 			//print_depth(depth); printf("root[v] = min(%u, %u)\n", *(unsigned int*)root_v, *(unsigned int*)root_w);
 			PValue = (Word_t*)(Pvoid_t)JudyLIns(&state->root_judy, (Word_t)v_id, 0);
 
-			if (PValue == 0) {
+			if (PValue == 0 || PValue == PJERR) {
 				state->error = "out of memory";
 				return;
 			}
@@ -165,7 +165,7 @@ static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state,
 	// root[v] = count
 	Word_t* PValue = (Word_t*)(Pvoid_t)JudyLIns(&state->root_judy, (Word_t)v_id, 0);
 
-	if (PValue == 0) {
+	if (PValue == 0 || PValue == PJERR) {
 		state->error = "out of memory";
 		return;
 	}
@@ -176,7 +176,7 @@ static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state,
 	// visited[v] = count
 	PValue = (Word_t*)(Pvoid_t)JudyLIns(&state->visited_judy, (Word_t)v_id, 0);
 
-	if (PValue == 0) {
+	if (PValue == 0 || PValue == PJERR) {
 		state->error = "out of memory";
 		return;
 	}
@@ -239,7 +239,7 @@ static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state,
 		// component[v] = root[v]
 		Word_t* PValue = (Word_t*)(Pvoid_t)JudyLIns(&state->component_judy, (Word_t)v_id, 0);
 
-		if (PValue == 0) {
+		if (PValue == 0 || PValue == PJERR) {
 			state->error = "out of memory";
 			return;
 		}
@@ -271,7 +271,7 @@ static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state,
 			// component[w] = root[v]
 			Word_t* PValue = (Word_t*)(Pvoid_t)JudyLIns(&state->component_judy, (Word_t)w_id, 0);
 
-			if (PValue == 0) {
+			if (PValue == 0 || PValue == PJERR) {
 				state->error = "out of memory";
 				return;
 			}
-- 
2.43.0


From f2b86e4e80464e855e761bbe6a10cf0ced070455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:55 +0000
Subject: [PATCH 65/82] fix: running out of memory at the start of an output
 lost vectors, they were renumbered against the old array

---
 src/pointless_create.c | 25 ++++---------------------
 1 file changed, 4 insertions(+), 21 deletions(-)

diff --git a/src/pointless_create.c b/src/pointless_create.c
index 5a1dd84..93ba239 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -708,16 +708,9 @@ static int pointless_create_output_and_end_(pointless_create_t* c, pointless_cre
 
 	uint64_t current_offset_64;
 
-	pointless_dynarray_t temp;
-
 	// bitmask for each container, used in cycle-detection
 	void* cycle_marker = 0;
 
-	// since we're removing some vectors from c->priv_vector_values, references to it change, so we need
-	// a new c->priv_vector_values
-	pointless_dynarray_t new_priv_vector_values;
-	pointless_dynarray_init(&new_priv_vector_values, sizeof(pointless_create_vector_priv_t));
-
 	// we must have a root
 	if (c->root == UINT32_MAX) {
 		*error = "root has not been set";
@@ -756,12 +749,11 @@ static int pointless_create_output_and_end_(pointless_create_t* c, pointless_cre
 					cv_value_at(i)->header.type_29 = POINTLESS_VECTOR_EMPTY;
 					cv_value_at(i)->data.data_u32 = 0;
 				} else {
-					if (!pointless_dynarray_push(&new_priv_vector_values, cv_priv_vector_at(i))) {
-						*error = "out of memory I";
-						goto error_cleanup;
-					}
-
+					// close the gaps of the vectors we removed, each vector moves towards
+					// the front, or stays, since they are in the order of their values
+					pointless_create_vector_priv_t* priv_vector = cv_priv_vector_at(i);
 					cv_value_at(i)->data.data_u32 = n_priv_vectors++;
+					*cv_priv_vector_at(i) = *priv_vector;
 				}
 
 				break;
@@ -777,14 +769,6 @@ static int pointless_create_output_and_end_(pointless_create_t* c, pointless_cre
 		}
 	}
 
-	// now, c->priv_vector_values should become new_priv_vector_values, but we must not forget to
-	// cleanup c->priv_vector_values, so we just swap them, and c->priv_vector_values will be
-	// cleaned up as new_priv_vector_values, later on
-	temp = new_priv_vector_values;
-	new_priv_vector_values = c->priv_vector_values;
-	c->priv_vector_values = temp;
-
-
 	// check which vectors are hashable
 	cycle_marker = pointless_cycle_marker_create(c, error);
 
@@ -1184,7 +1168,6 @@ error_cleanup:
 
 success_cleanup:
 
-	pointless_dynarray_destroy(&new_priv_vector_values);
 	pointless_free(cycle_marker);
 
 	pointless_create_end(c);
-- 
2.43.0


From 2c80030ba84b9064d64295c165279a3d23f06ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:15 +0000
Subject: [PATCH 66/82] fix: the items of exported sets were never released

The iterator was also lost when memory ran out before the first item.  Items
are tracked by address, so they have to be those the set itself holds.
---
 python/pointless_create.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/python/pointless_create.c b/python/pointless_create.c
index 965c9fc..60f571f 100644
--- a/python/pointless_create.c
+++ b/python/pointless_create.c
@@ -363,15 +363,9 @@ static uint32_t pointless_export_py_rec(pointless_export_state_t* state, PyObjec
 
 	// set object
 	} else if (PySet_Check(py_object) || PyFrozenSet_Check(py_object)) {
-		PyObject* iterator = PyObject_GetIter(py_object);
+		PyObject* iterator = 0;
 		PyObject* item = 0;
 
-		if (iterator == 0) {
-			state->is_error = 1;
-			state->error_line = __LINE__;
-			return POINTLESS_CREATE_VALUE_FAIL;
-		}
-
 		// get a handle
 		handle = pointless_create_set(&state->c);
 		RETURN_OOM_IF_FAIL(handle, state);
@@ -381,10 +375,22 @@ static uint32_t pointless_export_py_rec(pointless_export_state_t* state, PyObjec
 			RETURN_OOM(state);
 		}
 
+		// the items must be those the set itself keeps alive, since we track them by address,
+		// so we can't use an iterator of a subclass
+		iterator = PySet_Type.tp_iter(py_object);
+
+		if (iterator == 0) {
+			state->is_error = 1;
+			state->error_line = __LINE__;
+			return POINTLESS_CREATE_VALUE_FAIL;
+		}
+
 		// iterate over it
 		while ((item = PyIter_Next(iterator)) != 0) {
 			uint32_t item_handle = pointless_export_py_rec(state, item, depth + 1);
 
+			Py_DECREF(item);
+
 			if (item_handle == POINTLESS_CREATE_VALUE_FAIL)
 				break;
 
-- 
2.43.0


From b492110f3ae5846fe5397576877d33388bad3119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:46 +0000
Subject: [PATCH 67/82] fix: a Judy array which ran out of memory when
 outgrowing its first leaf leaked its header

---
 judy-1.0.5/src/JudyCommon/JudyIns.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/judy-1.0.5/src/JudyCommon/JudyIns.c b/judy-1.0.5/src/JudyCommon/JudyIns.c
index f96df41..1dd6ea4 100644
--- a/judy-1.0.5/src/JudyCommon/JudyIns.c
+++ b/judy-1.0.5/src/JudyCommon/JudyIns.c
@@ -1825,6 +1825,7 @@ FUNCTION PPvoid_t JudyLIns
             if (j__udyCascadeL(&(Pjpm->jpm_JP), Pjpm) == -1)
             {
                 JU_COPY_ERRNO(PJError, Pjpm);
+                j__udyFreeJPM(Pjpm, NULL);      // the array keeps its leaf.
                 JUDY1CODE(return(JERRI );)
                 JUDYLCODE(return(PPJERR);)
             }
-- 
2.43.0


From 7b2a59aeb0e00b06fd4251e686e9c534f93bbb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:46 +0000
Subject: [PATCH 68/82] fix: the value of a map key which could not be exported
 was exported nevertheless, with an exception set

---
 python/pointless_create.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/pointless_create.c b/python/pointless_create.c
index 60f571f..e6fc143 100644
--- a/python/pointless_create.c
+++ b/python/pointless_create.c
@@ -344,7 +344,11 @@ static uint32_t pointless_export_py_rec(pointless_export_state_t* state, PyObjec
 
 		while (PyDict_Next(py_object, &pos, &key, &value)) {
 			uint32_t key_handle = pointless_export_py_rec(state, key, depth + 1);
-			uint32_t value_handle = pointless_export_py_rec(state, value, depth + 1);
+			uint32_t value_handle = POINTLESS_CREATE_VALUE_FAIL;
+
+			// no further with an exception set, it would be taken for one of the value
+			if (key_handle != POINTLESS_CREATE_VALUE_FAIL)
+				value_handle = pointless_export_py_rec(state, value, depth + 1);
 
 			if (key_handle == POINTLESS_CREATE_VALUE_FAIL || value_handle == POINTLESS_CREATE_VALUE_FAIL)
 				break;
-- 
2.43.0


From affbf73d1f9dc4726fad79365f09d0fc6195d87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:59 +0000
Subject: [PATCH 69/82] fix: leaves made while a Judy array outgrew its first
 leaf were leaked when memory ran out

---
 judy-1.0.5/src/JudyCommon/JudyCascade.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/judy-1.0.5/src/JudyCommon/JudyCascade.c b/judy-1.0.5/src/JudyCommon/JudyCascade.c
index 6b52ddf..7243948 100644
--- a/judy-1.0.5/src/JudyCommon/JudyCascade.c
+++ b/judy-1.0.5/src/JudyCommon/JudyCascade.c
@@ -1793,7 +1793,7 @@ JUDYLCODE(Pjv_t	   Pjv;)	// value area of leaf.
 #endif  // 32BIT
 //		Create a 1 element Linear branch
 		if (j__udyCreateBranchL(Pjp, StageJP, StageExp, 1, Pjpm) == -1)
-		    return(-1);
+		    FREEALLEXIT(1, StageJP, Pjpm);
 
 //		Change the type of callers JP
 		Pjp->jp_Type = cJU_JPBRANCH_L;
@@ -1880,7 +1880,7 @@ JUDYLCODE(Pjv_t	   Pjv;)	// value area of leaf.
 		      JUDYLCODE(Pjv_t  Pjvnew;)	 // value area of new leaf.
 #ifdef JU_64BIT
 				PjllRaw = j__udyAllocJLL7(Pop1, Pjpm);
-				if (PjllRaw == (Pjll_t) NULL) return(-1);
+				if (PjllRaw == (Pjll_t) NULL) FREEALLEXIT(ExpCnt, StageJP, Pjpm);
 				Pjll = P_JLL(PjllRaw);
 
 				j__udyCopyWto7((uint8_t *) Pjll, Pjlw + Start,
@@ -1892,7 +1892,7 @@ JUDYLCODE(Pjv_t	   Pjv;)	// value area of leaf.
 				DBGCODE(JudyCheckSorted(Pjll, Pop1, 7);)
 #else // JU_64BIT - 32 Bit
 				PjllRaw = j__udyAllocJLL3(Pop1, Pjpm);
-				if (PjllRaw == (Pjll_t) NULL) return(-1);
+				if (PjllRaw == (Pjll_t) NULL) FREEALLEXIT(ExpCnt, StageJP, Pjpm);
 				Pjll = P_JLL(PjllRaw);
 
 				j__udyCopyWto3((uint8_t *) Pjll, Pjlw + Start,
-- 
2.43.0


From 1909b519de879c432e99dde6396d886dc4cde9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:08 +0000
Subject: [PATCH 70/82] fix: a slice of a read value vector was serialised as
 the whole vector

---
 include/pointless/pointless_recreate.h |  3 ++
 python/pointless_create.c              |  5 +++-
 src/pointless_recreate.c               | 40 ++++++++++++++++++++++++--
 3 files changed, 45 insertions(+), 3 deletions(-)

diff --git a/include/pointless/pointless_recreate.h b/include/pointless/pointless_recreate.h
index 53a3c59..4d4cf95 100644
--- a/include/pointless/pointless_recreate.h
+++ b/include/pointless/pointless_recreate.h
@@ -8,6 +8,9 @@
 
 uint32_t pointless_recreate_value(pointless_t* p_in, pointless_value_t* v_in, pointless_create_t* c_out, const char** error);
 
+// items [slice_i, slice_i + slice_n[ of a value vector
+uint32_t pointless_recreate_vector_slice(pointless_t* p_in, pointless_value_t* v_in, uint32_t slice_i, uint32_t slice_n, pointless_create_t* c_out, const char** error);
+
 int pointless_recreate_64(const char* fname_in, const char* fname_out, const char** error);
 
 #endif
diff --git a/python/pointless_create.c b/python/pointless_create.c
index e6fc143..fd3db7b 100644
--- a/python/pointless_create.c
+++ b/python/pointless_create.c
@@ -147,7 +147,10 @@ static uint32_t pointless_export_py_rec(pointless_export_state_t* state, PyObjec
 		switch(v->v.type) {
 			case POINTLESS_VECTOR_VALUE:
 			case POINTLESS_VECTOR_VALUE_HASHABLE:
-				handle = pointless_recreate_value(&v->pp->p, &v->v, &state->c, &error);
+				if (v->slice_i == 0 && v->slice_n == pointless_reader_vector_n_items(&v->pp->p, &v->v))
+					handle = pointless_recreate_value(&v->pp->p, &v->v, &state->c, &error);
+				else
+					handle = pointless_recreate_vector_slice(&v->pp->p, &v->v, v->slice_i, v->slice_n, &state->c, &error);
 
 				if (handle == POINTLESS_CREATE_VALUE_FAIL) {
 					state->is_error = 1;
diff --git a/src/pointless_recreate.c b/src/pointless_recreate.c
index 977d0b9..26ebfa9 100644
--- a/src/pointless_recreate.c
+++ b/src/pointless_recreate.c
@@ -289,7 +289,30 @@ static uint32_t pointless_recreate_convert_rec(pointless_recreate_state_t* state
 	return POINTLESS_CREATE_VALUE_FAIL;
 }
 
-uint32_t pointless_recreate_value(pointless_t* p_in, pointless_value_t* v_in, pointless_create_t* c_out, const char** error)
+// re-create items [i, i + n[ of a value vector, as a vector of their own
+static uint32_t pointless_recreate_convert_slice(pointless_recreate_state_t* state, pointless_value_t* v, uint32_t i, uint32_t n)
+{
+	uint32_t handle = UINT32_MAX, child_handle = UINT32_MAX;
+	pointless_value_t* child_v = pointless_reader_vector_value(state->p, v) + i;
+
+	POINTLESS_RECREATE_FUNC_1(pointless_create_vector_value, state->c);
+
+	for (i = 0; i < n; i++) {
+		child_handle = pointless_recreate_convert_rec(state, &child_v[i], 1);
+
+		if (child_handle == POINTLESS_CREATE_VALUE_FAIL)
+			return POINTLESS_CREATE_VALUE_FAIL;
+
+		if (pointless_create_vector_value_append(state->c, handle, child_handle) == POINTLESS_CREATE_VALUE_FAIL) {
+			*state->error = "pointless_create_vector_value_append() failure";
+			return POINTLESS_CREATE_VALUE_FAIL;
+		}
+	}
+
+	return handle;
+}
+
+static uint32_t pointless_recreate_value_(pointless_t* p_in, pointless_value_t* v_in, int is_slice, uint32_t slice_i, uint32_t slice_n, pointless_create_t* c_out, const char** error)
 {
 	pointless_recreate_state_t state;
 	uint32_t handle = POINTLESS_CREATE_VALUE_FAIL;
@@ -316,7 +339,10 @@ uint32_t pointless_recreate_value(pointless_t* p_in, pointless_value_t* v_in, po
 		goto error;
 	}
 
-	handle = pointless_recreate_convert_rec(&state, v_in, 0);
+	if (is_slice)
+		handle = pointless_recreate_convert_slice(&state, v_in, slice_i, slice_n);
+	else
+		handle = pointless_recreate_convert_rec(&state, v_in, 0);
 
 error:
 
@@ -329,6 +355,16 @@ error:
 	return handle;
 }
 
+uint32_t pointless_recreate_value(pointless_t* p_in, pointless_value_t* v_in, pointless_create_t* c_out, const char** error)
+{
+	return pointless_recreate_value_(p_in, v_in, 0, 0, 0, c_out, error);
+}
+
+uint32_t pointless_recreate_vector_slice(pointless_t* p_in, pointless_value_t* v_in, uint32_t slice_i, uint32_t slice_n, pointless_create_t* c_out, const char** error)
+{
+	return pointless_recreate_value_(p_in, v_in, 1, slice_i, slice_n, c_out, error);
+}
+
 int pointless_recreate_64(const char* fname_in, const char* fname_out, const char** error)
 {
 	// open source
-- 
2.43.0


From f76592fa457ae89562bdcafc1e2d38f639231473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:08 +0000
Subject: [PATCH 71/82] fix: a slice of a cyclic vector was printed as if it
 contained itself

---
 python/pointless_print.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/pointless_print.c b/python/pointless_print.c
index 77aae7e..9bbf577 100644
--- a/python/pointless_print.c
+++ b/python/pointless_print.c
@@ -209,6 +209,10 @@ static int _pypointless_vector_str(pointless_t* p, pointless_value_t* v, _pypoin
 {
 	uint32_t container_id = pointless_container_id(p, v);
 
+	// a slice is not the vector it was taken from, which may be one of its items
+	if (slice_n != pointless_reader_vector_n_items(p, v))
+		container_id = UINT32_MAX;
+
 	if (print_state_has_container(state, container_id))
 		return _pypointless_print_append_8_(state, "[...]");
 
-- 
2.43.0


From c907ad66cfa9927718999bd4f17a3b7ae201e648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:08 +0000
Subject: [PATCH 72/82] fix: values listed in a map against its hash order were
 written to files too deep to be opened

---
 src/pointless_create.c                |  9 +++++++++
 src/pointless_cycle_marker_wrappers.c | 10 ++++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/pointless_create.c b/src/pointless_create.c
index 93ba239..538ea87 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -865,6 +865,15 @@ static int pointless_create_output_and_end_(pointless_create_t* c, pointless_cre
 		}
 	}
 
+	// hash tables have an order of their own, the file must also be within the depth limit in that order
+	if (n_sets + n_maps > 0) {
+		pointless_free(cycle_marker);
+		cycle_marker = pointless_cycle_marker_create(c, error);
+
+		if (cycle_marker == 0)
+			goto error_cleanup;
+	}
+
 	// header
 	pointless_header_t header;
 	header.root = pointless_create_to_read_value(c, c->root, n_priv_vectors);
diff --git a/src/pointless_cycle_marker_wrappers.c b/src/pointless_cycle_marker_wrappers.c
index c6a54bb..eebf059 100644
--- a/src/pointless_cycle_marker_wrappers.c
+++ b/src/pointless_cycle_marker_wrappers.c
@@ -190,6 +190,10 @@ static uint32_t _create_pointless_n_children(void* user_, uint64_t v_)
 		return pointless_dynarray_n_items(&cv_priv_vector_at(value)->vector);
 	}
 
+	// once they are populated, the vectors of sets and maps have the order of the file
+	if (pointless_dynarray_n_items(&cv_priv_vector_at(value)->vector) > 0)
+		return pointless_dynarray_n_items(&cv_priv_vector_at(value)->vector);
+
 	switch (cv_value_type(owner)) {
 		case POINTLESS_SET_VALUE:
 			assert(value == cv_set_at(owner)->serialize_keys);
@@ -238,6 +242,12 @@ static uint64_t _create_pointless_child_at(void* user_, uint64_t v_, uint32_t i)
 		return _pack_owner_and_value(UINT32_MAX, child);
 	}
 
+	// populated vector for set/map
+	if (pointless_dynarray_n_items(&cv_priv_vector_at(value)->vector) > 0) {
+		child = pointless_dynarray_ITEM_AT(uint32_t, &cv_priv_vector_at(value)->vector, i);
+		return _pack_owner_and_value(UINT32_MAX, child);
+	}
+
 	// vector for set/map
 	switch (cv_value_type(owner)) {
 		case POINTLESS_SET_VALUE:
-- 
2.43.0


From 413589603ba19d9b9a5aea8279d8795a70e8766c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:08 +0000
Subject: [PATCH 73/82] fix: re-creating a value overflowed the stack when it
 was nested too deep

---
 src/pointless_recreate.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pointless_recreate.c b/src/pointless_recreate.c
index 26ebfa9..bf9288d 100644
--- a/src/pointless_recreate.c
+++ b/src/pointless_recreate.c
@@ -56,6 +56,11 @@ static uint32_t pointless_recreate_convert_rec(pointless_recreate_state_t* state
 	// in case of cycles, return the previously created create-time handle
 	uint32_t handle = UINT32_MAX, child_handle = UINT32_MAX, key_handle = UINT32_MAX, value_handle = UINT32_MAX;
 
+	if (depth >= POINTLESS_MAX_DEPTH) {
+		*state->error = "maximum recursion depth reached";
+		return POINTLESS_CREATE_VALUE_FAIL;
+	}
+
 	switch (v->type) {
 		case POINTLESS_VECTOR_VALUE:
 		case POINTLESS_VECTOR_VALUE_HASHABLE:
-- 
2.43.0


From d8f05e7d6625e8cd3d4de17fa758abaf01599269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:31 +0000
Subject: [PATCH 74/82] fix: opening a buffer read it while other threads could
 change or free it

---
 include/pointless/pointless_reader.h |  5 +++++
 python/pointless_object.c            | 17 ++++++++++++--
 src/pointless_reader.c               | 33 +++++++++++++++++++++-------
 3 files changed, 45 insertions(+), 10 deletions(-)

diff --git a/include/pointless/pointless_reader.h b/include/pointless/pointless_reader.h
index 6539034..82359d3 100644
--- a/include/pointless/pointless_reader.h
+++ b/include/pointless/pointless_reader.h
@@ -33,6 +33,11 @@ int pointless_open_b(pointless_t* p, const void* buffer, size_t n_buffer, const
 int pointless_open_f_skip_validate(pointless_t* p, const char* fname, const char** error);
 int pointless_open_b_skip_validate(pointless_t* p, const void* buffer, size_t n_buffer, const char** error);
 
+// as above, but the buffer is not copied: it must be from pointless_malloc(), and is freed
+// when the object is closed, or right away when it can not be opened
+int pointless_open_b_owner(pointless_t* p, void* buffer, size_t n_buffer, const char** error);
+int pointless_open_b_owner_skip_validate(pointless_t* p, void* buffer, size_t n_buffer, const char** error);
+
 void pointless_close(pointless_t* p);
 
 #endif
diff --git a/python/pointless_object.c b/python/pointless_object.c
index 3e64719..42ecabb 100644
--- a/python/pointless_object.c
+++ b/python/pointless_object.c
@@ -198,18 +198,31 @@ static int PyPointless_init(PyPointless* self, PyObject* args, PyObject* kwds)
 		return -1;
 	}
 
+	// other threads may change the buffer once we release the lock, so copy it first
+	if (fname_ == 0) {
+		void* copy = pointless_malloc(buflen);
+
+		if (copy == 0) {
+			PyErr_NoMemory();
+			return -1;
+		}
+
+		memcpy(copy, buf, buflen);
+		buf = copy;
+	}
+
 	Py_BEGIN_ALLOW_THREADS
 
 	if (do_validate) {
 		if (fname_)
 			i = pointless_open_f(&self->p, fname_, &error);
 		else
-			i = pointless_open_b(&self->p, buf, buflen, &error);
+			i = pointless_open_b_owner(&self->p, buf, buflen, &error);
 	} else {
 		if (fname_)
 			i = pointless_open_f_skip_validate(&self->p, fname_, &error);
 		else
-			i = pointless_open_b_skip_validate(&self->p, buf, buflen, &error);
+			i = pointless_open_b_owner_skip_validate(&self->p, buf, buflen, &error);
 	}
 
 	Py_END_ALLOW_THREADS
diff --git a/src/pointless_reader.c b/src/pointless_reader.c
index 0f2c21d..e81a27a 100644
--- a/src/pointless_reader.c
+++ b/src/pointless_reader.c
@@ -148,28 +148,45 @@ void pointless_close(pointless_t* p)
 	pointless_free(p->buf);
 }
 
-static int _pointless_open_b(pointless_t* p, const void* buffer, size_t n_buffer, int do_validate, const char** error)
+static int _pointless_open_b_owner(pointless_t* p, void* buffer, size_t n_buffer, int do_validate, const char** error)
 {
 	p->fd = 0;
 	p->fd_len = 0;
 	p->fd_ptr = 0;
 
-	p->buf = pointless_malloc(n_buffer);
+	p->buf = buffer;
 	p->buflen = n_buffer;
 
-	if (p->buf == 0) {
-		*error = "out of memory";
+	if (!pointless_init(p, p->buf, p->buflen, do_validate, error)) {
+		pointless_close(p);
 		return 0;
 	}
 
-	memcpy(p->buf, buffer, n_buffer);
+	return 1;
+}
 
-	if (!pointless_init(p, p->buf, p->buflen, do_validate, error)) {
-		pointless_close(p);
+static int _pointless_open_b(pointless_t* p, const void* buffer, size_t n_buffer, int do_validate, const char** error)
+{
+	void* copy = pointless_malloc(n_buffer);
+
+	if (copy == 0) {
+		*error = "out of memory";
 		return 0;
 	}
 
-	return 1;
+	memcpy(copy, buffer, n_buffer);
+
+	return _pointless_open_b_owner(p, copy, n_buffer, do_validate, error);
+}
+
+int pointless_open_b_owner(pointless_t* p, void* buffer, size_t n_buffer, const char** error)
+{
+	return _pointless_open_b_owner(p, buffer, n_buffer, 1, error);
+}
+
+int pointless_open_b_owner_skip_validate(pointless_t* p, void* buffer, size_t n_buffer, const char** error)
+{
+	return _pointless_open_b_owner(p, buffer, n_buffer, 0, error);
 }
 
 int pointless_open_b(pointless_t* p, const void* buffer, size_t n_buffer, const char** error)
-- 
2.43.0


From 0cb6042c0f47e01c545d1eb8d91b3d567691d7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:31 +0000
Subject: [PATCH 75/82] fix: initialising an opened handle again unmapped the
 data of its values

---
 python/pointless_object.c | 65 +++++++++++++++++++--------------------
 1 file changed, 31 insertions(+), 34 deletions(-)

diff --git a/python/pointless_object.c b/python/pointless_object.c
index 42ecabb..189e8e6 100644
--- a/python/pointless_object.c
+++ b/python/pointless_object.c
@@ -132,33 +132,7 @@ static int PyPointless_init(PyPointless* self, PyObject* args, PyObject* kwds)
 	const char* fname_ = 0;
 	const char* error = 0;
 	int i = 0;
-
-	if (self->is_open) {
-		Py_BEGIN_ALLOW_THREADS
-		pointless_close(&self->p);
-		Py_END_ALLOW_THREADS
-		self->is_open = 0;
-	}
-
-	self->allow_print = 1;
-
-	if (self->n_root_refs != 0 ||
-		self->n_vector_refs != 0 ||
-		self->n_bitvector_refs != 0 ||
-		self->n_map_refs != 0 ||
-		self->n_set_refs != 0) {
-		printf("_WTF A: %zu\n", self->n_root_refs);
-		printf("_WTF B: %zu\n", self->n_vector_refs);
-		printf("_WTF C: %zu\n", self->n_bitvector_refs);
-		printf("_WTF D: %zu\n", self->n_map_refs);
-		printf("_WTF E: %zu\n", self->n_set_refs);
-	}
-
-	self->n_root_refs = 0;
-	self->n_vector_refs = 0;
-	self->n_bitvector_refs = 0;
-	self->n_map_refs = 0;
-	self->n_set_refs = 0;
+	pointless_t p, old_p;
 
 	PyObject* allow_print = Py_True;
 	PyObject* validate = Py_True;
@@ -167,9 +141,6 @@ static int PyPointless_init(PyPointless* self, PyObject* args, PyObject* kwds)
 	if (!PyArg_ParseTupleAndKeywords(args, kwds, "O|O!O!", kwargs, &fname_or_buffer, &PyBool_Type, &allow_print, &PyBool_Type, &validate))
 		return -1;
 
-	if (allow_print == Py_False)
-		self->allow_print = 0;
-
 	int do_validate = (validate == Py_True);
 
 	if (PyUnicode_Check(fname_or_buffer)) {
@@ -215,14 +186,14 @@ static int PyPointless_init(PyPointless* self, PyObject* args, PyObject* kwds)
 
 	if (do_validate) {
 		if (fname_)
-			i = pointless_open_f(&self->p, fname_, &error);
+			i = pointless_open_f(&p, fname_, &error);
 		else
-			i = pointless_open_b_owner(&self->p, buf, buflen, &error);
+			i = pointless_open_b_owner(&p, buf, buflen, &error);
 	} else {
 		if (fname_)
-			i = pointless_open_f_skip_validate(&self->p, fname_, &error);
+			i = pointless_open_f_skip_validate(&p, fname_, &error);
 		else
-			i = pointless_open_b_owner_skip_validate(&self->p, buf, buflen, &error);
+			i = pointless_open_b_owner_skip_validate(&p, buf, buflen, &error);
 	}
 
 	Py_END_ALLOW_THREADS
@@ -240,7 +211,33 @@ static int PyPointless_init(PyPointless* self, PyObject* args, PyObject* kwds)
 
 	Py_XDECREF(string_of_unicode);
 
+	// the values of what was open before refer to it
+	if (self->n_root_refs != 0 ||
+		self->n_vector_refs != 0 ||
+		self->n_bitvector_refs != 0 ||
+		self->n_map_refs != 0 ||
+		self->n_set_refs != 0) {
+		Py_BEGIN_ALLOW_THREADS
+		pointless_close(&p);
+		Py_END_ALLOW_THREADS
+
+		PyErr_SetString(PyExc_ValueError, "pointless object is in use, it can not be opened again");
+		return -1;
+	}
+
+	i = self->is_open;
+	old_p = self->p;
+
+	self->p = p;
 	self->is_open = 1;
+	self->allow_print = (allow_print != Py_False);
+
+	if (i) {
+		Py_BEGIN_ALLOW_THREADS
+		pointless_close(&old_p);
+		Py_END_ALLOW_THREADS
+	}
+
 	return 0;
 }
 
-- 
2.43.0


From 4a0f677ccad0d513078f930b9e05661d3ac92b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:31 +0000
Subject: [PATCH 76/82] fix: a handle which was never opened crashed when it
 was read

---
 python/pointless_object.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/python/pointless_object.c b/python/pointless_object.c
index 189e8e6..85f3c84 100644
--- a/python/pointless_object.c
+++ b/python/pointless_object.c
@@ -51,13 +51,29 @@ static PyObject* PyPointless_new(PyTypeObject* type, PyObject* args, PyObject* k
 	return (PyObject*)self;
 }
 
+static int PyPointless_check_open(PyPointless* self)
+{
+	if (!self->is_open) {
+		PyErr_SetString(PyExc_ValueError, "pointless object has not been opened");
+		return 0;
+	}
+
+	return 1;
+}
+
 static PyObject* PyPointless_GetRoot(PyPointless* self)
 {
+	if (!PyPointless_check_open(self))
+		return 0;
+
 	return pypointless_value(self, &self->p.header->root);
 }
 
 static PyObject* PyPointless_GetINode(PyPointless* self)
 {
+	if (!PyPointless_check_open(self))
+		return 0;
+
 	if (self->p.fd == 0) {
 		PyErr_Format(PyExc_ValueError, "pointless object is buffer-based");
 		return 0;
@@ -79,6 +95,9 @@ static PyObject* PyPointless_GetINode(PyPointless* self)
 
 static PyObject* PyPointless_GetFileNo(PyPointless* self)
 {
+	if (!PyPointless_check_open(self))
+		return 0;
+
 	if (self->p.fd == 0) {
 		PyErr_Format(PyExc_ValueError, "pointless object is buffer-based");
 		return 0;
-- 
2.43.0


From 95ebf0ddeb43b1f3d65a504b824f977f2a423b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:31 +0000
Subject: [PATCH 77/82] fix: vectors, sets and maps created without a file
 crashed

---
 python/pointless_map.c    | 14 +-------------
 python/pointless_set.c    | 14 +-------------
 python/pointless_vector.c | 16 ----------------
 3 files changed, 2 insertions(+), 42 deletions(-)

diff --git a/python/pointless_map.c b/python/pointless_map.c
index 88b6e85..2046230 100644
--- a/python/pointless_map.c
+++ b/python/pointless_map.c
@@ -36,18 +36,6 @@ static void PyPointlessMapItemIter_dealloc(PyPointlessMapItemIter* self)
 	Py_TYPE(self)->tp_free(self);
 }
 
-PyObject* PyPointlessMap_new(PyTypeObject* type, PyObject* args, PyObject* kwds)
-{
-	PyPointlessMap* self = (PyPointlessMap*)type->tp_alloc(type, 0);
-
-	if (self) {
-		self->pp = 0;
-		self->container_id = 0;
-	}
-
-	return (PyObject*)self;
-}
-
 PyObject* PyPointlessMapKeyIter_new(PyTypeObject* type, PyObject* args, PyObject* kwds)
 {
 	PyPointlessMapKeyIter* self = (PyPointlessMapKeyIter*)type->tp_alloc(type, 0);
@@ -407,7 +395,7 @@ PyTypeObject PyPointlessMapType = {
 	0,                                   /*tp_dictoffset */
 	(initproc)PyPointlessMap_init,       /*tp_init */
 	0,                                   /*tp_alloc */
-	PyPointlessMap_new,                  /*tp_new */
+	0,                                   /*tp_new */
 };
 
 PyTypeObject PyPointlessMapKeyIterType = {
diff --git a/python/pointless_set.c b/python/pointless_set.c
index ed590db..5351720 100644
--- a/python/pointless_set.c
+++ b/python/pointless_set.c
@@ -20,18 +20,6 @@ static void PyPointlessSetIter_dealloc(PyPointlessSetIter* self)
 	Py_TYPE(self)->tp_free(self);
 }
 
-PyObject* PyPointlessSet_new(PyTypeObject* type, PyObject* args, PyObject* kwds)
-{
-	PyPointlessSet* self = (PyPointlessSet*)type->tp_alloc(type, 0);
-
-	if (self) {
-		self->pp = 0;
-		self->container_id = 0;
-	}
-
-	return (PyObject*)self;
-}
-
 PyObject* PyPointlessSetIter_new(PyTypeObject* type, PyObject* args, PyObject* kwds)
 {
 	PyPointlessSetIter* self = (PyPointlessSetIter*)type->tp_alloc(type, 0);
@@ -171,7 +159,7 @@ PyTypeObject PyPointlessSetType = {
 	0,                                   /*tp_dictoffset */
 	0,       /*tp_init */
 	0,                                   /*tp_alloc */
-	PyPointlessSet_new,                  /*tp_new */
+	0,                                   /*tp_new */
 };
 
 PyTypeObject PyPointlessSetIterType = {
diff --git a/python/pointless_vector.c b/python/pointless_vector.c
index e5024e1..9f27502 100644
--- a/python/pointless_vector.c
+++ b/python/pointless_vector.c
@@ -24,21 +24,6 @@ static void PyPointlessVectorRevIter_dealloc(PyPointlessVectorRevIter* self)
     Py_TYPE(self)->tp_free((PyObject*) self);
 }
 
-static PyObject* PyPointlessVector_new(PyTypeObject* type, PyObject* args, PyObject* kwds)
-{
-	PyPointlessVector* self = (PyPointlessVector*)type->tp_alloc(type, 0);
-
-	if (self) {
-		self->pp = 0;
-		self->container_id = 0;
-		self->is_hashable = 0;
-		self->slice_i = 0;
-		self->slice_n = 0;
-	}
-
-	return (PyObject*)self;
-}
-
 
 static PyObject* PyPointlessVectorIter_new(PyTypeObject* type, PyObject* args, PyObject* kwds)
 {
@@ -793,7 +778,6 @@ PyTypeObject PyPointlessVectorType = {
 	.tp_iter = PyPointlessVector_iter,
 	.tp_methods = PyPointlessVector_methods,
 	.tp_alloc = PyType_GenericAlloc,
-	.tp_new = PyPointlessVector_new,
 	.tp_free = PyObject_Del,
 
 	.tp_dealloc = (destructor)PyPointlessVector_dealloc,
-- 
2.43.0


From f86c23b9fdbd44d7cd631a6d5343de061c3be53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:31 +0000
Subject: [PATCH 78/82] fix: an exhausted iterator released its container twice
 when another thread advanced it

---
 python/pointless_bitvector.c   | 3 +--
 python/pointless_map.c         | 9 +++------
 python/pointless_prim_vector.c | 6 ++----
 python/pointless_set.c         | 3 +--
 python/pointless_vector.c      | 6 ++----
 5 files changed, 9 insertions(+), 18 deletions(-)

diff --git a/python/pointless_bitvector.c b/python/pointless_bitvector.c
index 3b11e5d..630a969 100644
--- a/python/pointless_bitvector.c
+++ b/python/pointless_bitvector.c
@@ -904,8 +904,7 @@ static PyObject* PyPointlessBitvectorIter_iternext(PyPointlessBitvectorIter* ite
 	}
 
 	// we reached end
-	Py_DECREF(iter->bitvector);
-	iter->bitvector = 0;
+	Py_CLEAR(iter->bitvector);
 	return 0;
 }
 
diff --git a/python/pointless_map.c b/python/pointless_map.c
index 2046230..6afd55a 100644
--- a/python/pointless_map.c
+++ b/python/pointless_map.c
@@ -133,8 +133,7 @@ static PyObject* PyPointlessMapKeyIter_iternext(PyPointlessMapKeyIter* iter)
 	if (pointless_reader_map_iter(&iter->map->pp->p, &iter->map->v, &k, &v, &iter->iter_state))
 		return pypointless_value(iter->map->pp, k);
 
-	Py_DECREF(iter->map);
-	iter->map = 0;
+	Py_CLEAR(iter->map);
 	return 0;
 }
 
@@ -150,8 +149,7 @@ static PyObject* PyPointlessMapValueIter_iternext(PyPointlessMapValueIter* iter)
 	if (pointless_reader_map_iter(&iter->map->pp->p, &iter->map->v, &k, &v, &iter->iter_state))
 		return pypointless_value(iter->map->pp, v);
 
-	Py_DECREF(iter->map);
-	iter->map = 0;
+	Py_CLEAR(iter->map);
 	return 0;
 }
 
@@ -177,8 +175,7 @@ static PyObject* PyPointlessMapItemIter_iternext(PyPointlessMapItemIter* iter)
 		return Py_BuildValue("(NN)", kk, vv);
 	}
 
-	Py_DECREF(iter->map);
-	iter->map = 0;
+	Py_CLEAR(iter->map);
 	return 0;
 }
 
diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 4e7d8f6..1404671 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -711,8 +711,7 @@ static PyObject* PyPointlessPrimVectorIter_iternext(PyPointlessPrimVectorIter* i
 	}
 
 	// we reached end
-	Py_DECREF(iter->vector);
-	iter->vector = 0;
+	Py_CLEAR(iter->vector);
 	return 0;
 }
 
@@ -735,8 +734,7 @@ static PyObject* PyPointlessPrimVectorRevIter_iternext(PyPointlessPrimVectorRevI
 	}
 
 	// we reached end
-	Py_DECREF(iter->vector);
-	iter->vector = 0;
+	Py_CLEAR(iter->vector);
 	return 0;
 }
 
diff --git a/python/pointless_set.c b/python/pointless_set.c
index 5351720..13ceb63 100644
--- a/python/pointless_set.c
+++ b/python/pointless_set.c
@@ -68,8 +68,7 @@ static PyObject* PyPointlessSetIter_iternext(PyPointlessSetIter* iter)
 	if (pointless_reader_set_iter(&iter->set->pp->p, &iter->set->v, &v, &iter->iter_state))
 		return pypointless_value(iter->set->pp, v);
 
-	Py_DECREF(iter->set);
-	iter->set = 0;
+	Py_CLEAR(iter->set);
 	return 0;
 }
 
diff --git a/python/pointless_vector.c b/python/pointless_vector.c
index 9f27502..4b04cf2 100644
--- a/python/pointless_vector.c
+++ b/python/pointless_vector.c
@@ -254,8 +254,7 @@ static PyObject* PyPointlessVectorIter_iternext(PyPointlessVectorIter* iter)
 	}
 
 	// we reached end
-	Py_DECREF(iter->vector);
-	iter->vector = 0;
+	Py_CLEAR(iter->vector);
 	return 0;
 }
 
@@ -279,8 +278,7 @@ static PyObject* PyPointlessVectorRevIter_iternext(PyPointlessVectorIter* iter)
 	}
 
 	// we reached end
-	Py_DECREF(iter->vector);
-	iter->vector = 0;
+	Py_CLEAR(iter->vector);
 	return 0;
 }
 
-- 
2.43.0


From e056530fca193f7f17b1a657b9eab42f155eab5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:09 +0000
Subject: [PATCH 79/82] fix: a file name with other than ASCII letters meant
 different files for writing and opening

---
 python/pointless_create.c | 8 +++++---
 python/pointless_object.c | 5 ++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/python/pointless_create.c b/python/pointless_create.c
index fd3db7b..bd8efb9 100644
--- a/python/pointless_create.c
+++ b/python/pointless_create.c
@@ -517,7 +517,7 @@ const char pointless_write_object_doc[] =
 ;
 PyObject* pointless_write_object(PyObject* self, PyObject* args, PyObject* kwds)
 {
-	const char* fname = 0;
+	PyObject* fname = 0;
 	PyObject* object = 0;
 	PyObject* retval = 0;
 	PyObject* normalize_bitvector = Py_True;
@@ -535,7 +535,7 @@ PyObject* pointless_write_object(PyObject* self, PyObject* args, PyObject* kwds)
 
 	static char* kwargs[] = {"object", "filename", "unwiden_strings", "normalize_bitvector", 0};
 
-	if (!PyArg_ParseTupleAndKeywords(args, kwds, "Os|O!O!:serialize", kwargs, &object, &fname, &PyBool_Type, &unwiden_strings, &PyBool_Type, &normalize_bitvector))
+	if (!PyArg_ParseTupleAndKeywords(args, kwds, "OO&|O!O!:serialize", kwargs, &object, PyUnicode_FSConverter, &fname, &PyBool_Type, &unwiden_strings, &PyBool_Type, &normalize_bitvector))
 		return 0;
 
 	state.unwiden_strings = (unwiden_strings == Py_True);
@@ -551,7 +551,7 @@ PyObject* pointless_write_object(PyObject* self, PyObject* args, PyObject* kwds)
 
 	create_end = 0;
 
-	if (!pointless_create_output_and_end_f(&state.c, fname, &error)) {
+	if (!pointless_create_output_and_end_f(&state.c, PyBytes_AS_STRING(fname), &error)) {
 		PyErr_Format(PyExc_IOError, "pointless_create_output: %s", error);
 		goto cleanup;
 	}
@@ -565,6 +565,8 @@ cleanup:
 
 	JudyLFreeArray(&state.objects_used, 0);
 
+	Py_DECREF(fname);
+
 	Py_XINCREF(retval);
 	return retval;
 }
diff --git a/python/pointless_object.c b/python/pointless_object.c
index 85f3c84..fe886db 100644
--- a/python/pointless_object.c
+++ b/python/pointless_object.c
@@ -163,9 +163,8 @@ static int PyPointless_init(PyPointless* self, PyObject* args, PyObject* kwds)
 	int do_validate = (validate == Py_True);
 
 	if (PyUnicode_Check(fname_or_buffer)) {
-		string_of_unicode = PyUnicode_AsLatin1String(fname_or_buffer);
-
-		if (string_of_unicode == 0)
+		// the encoding which is used for writing files, and by Python
+		if (!PyUnicode_FSConverter(fname_or_buffer, &string_of_unicode))
 			return -1;
 
 		fname_ = PyBytes_AS_STRING(string_of_unicode);
-- 
2.43.0


From c9fc34a8dd71d1dd776080f6046d06b6c831e512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:02 +0000
Subject: [PATCH 80/82] fix: vectors of 4 GiB or more gave the values after
 them wrong offsets

---
 src/pointless_create.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pointless_create.c b/src/pointless_create.c
index 538ea87..bfa448b 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -933,7 +933,7 @@ static int pointless_create_output_and_end_(pointless_create_t* c, pointless_cre
 		if (cv_value_type(i) == POINTLESS_VECTOR_EMPTY)
 			continue;
 
-		uint32_t vector_heap_size = 0;
+		uint64_t vector_heap_size = 0;
 		uint32_t n_items = pointless_dynarray_n_items(&cv_priv_vector_at(i)->vector);
 
 		switch (cv_value_type(i)) {
@@ -994,7 +994,7 @@ static int pointless_create_output_and_end_(pointless_create_t* c, pointless_cre
 		if (cv_value_type(i) == POINTLESS_VECTOR_EMPTY)
 			continue;
 
-		uint32_t vector_heap_size = 0;
+		uint64_t vector_heap_size = 0;
 		uint32_t n_items = cv_outside_vector_at(i)->n_items;
 
 		switch (cv_value_type(i)) {
-- 
2.43.0


From 72d14a5ff776d51e026780fe37c5bdf0d2b46bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:02 +0000
Subject: [PATCH 81/82] fix: strings and primitive vectors of more items than
 the format counts were stored altered

---
 python/pointless_create.c | 17 ++++++++++++++++-
 src/pointless_create.c    | 10 ++++++++++
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/python/pointless_create.c b/python/pointless_create.c
index bd8efb9..20ef39d 100644
--- a/python/pointless_create.c
+++ b/python/pointless_create.c
@@ -226,9 +226,17 @@ static uint32_t pointless_export_py_rec(pointless_export_state_t* state, PyObjec
 	} else if (PyPointlessPrimVector_Check(py_object)) {
 		// we just hand over the memory
 		PyPointlessPrimVector* prim_vector = (PyPointlessPrimVector*)py_object;
-		uint32_t n_items = pointless_dynarray_n_items(&prim_vector->array);
 		void* data = prim_vector->array._data;
 
+		if (pointless_dynarray_n_items(&prim_vector->array) > UINT32_MAX) {
+			PyErr_SetString(PyExc_ValueError, "primvector has too many items");
+			state->error_line = __LINE__;
+			state->is_error = 1;
+			return POINTLESS_CREATE_VALUE_FAIL;
+		}
+
+		uint32_t n_items = (uint32_t)pointless_dynarray_n_items(&prim_vector->array);
+
 		switch (prim_vector->type) {
 			case POINTLESS_PRIM_VECTOR_TYPE_I8:
 				handle = pointless_create_vector_i8_owner(&state->c, (int8_t*)data, n_items);
@@ -300,6 +308,13 @@ static uint32_t pointless_export_py_rec(pointless_export_state_t* state, PyObjec
 			return POINTLESS_CREATE_VALUE_FAIL;
 		}
 
+		if (s_len_pointless >= UINT32_MAX) {
+			PyErr_SetString(PyExc_ValueError, "unicode string is too long");
+			state->error_line = __LINE__;
+			state->is_error = 1;
+			return POINTLESS_CREATE_VALUE_FAIL;
+		}
+
 		void* python_buffer = (void*)PyUnicode_DATA(py_object);
 
 		switch (PyUnicode_KIND(py_object)) {
diff --git a/src/pointless_create.c b/src/pointless_create.c
index bfa448b..d51dc9a 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -1540,6 +1540,11 @@ uint32_t pointless_create_unicode_ucs4(pointless_create_t* c, uint32_t* v)
 
 	// create buffer to hold [uint32 + v]
 	size_t unicode_len = pointless_ucs4_len(v);
+
+	// the length and the zero at the end are counted in 32 bits
+	if (unicode_len >= UINT32_MAX)
+		return POINTLESS_CREATE_VALUE_FAIL;
+
 	size_t buffer_len = sizeof(uint32_t) + sizeof(pointless_unicode_char_t) * (unicode_len + 1);
 	void* unicode_buffer = pointless_malloc(buffer_len);
 
@@ -1620,6 +1625,11 @@ uint32_t pointless_create_string_ascii(pointless_create_t* c, uint8_t* v)
 
 	// create buffer to hold [uint32 + v]
 	size_t string_len = pointless_ascii_len(v);
+
+	// the length and the zero at the end are counted in 32 bits
+	if (string_len >= UINT32_MAX)
+		return POINTLESS_CREATE_VALUE_FAIL;
+
 	size_t buffer_len = sizeof(uint32_t) + sizeof(uint8_t) * (string_len + 1);
 	void* string_buffer = pointless_malloc(buffer_len);
 
-- 
2.43.0


From c582fd115c9f5880b7a3f79036854789c8cc41aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:02 +0000
Subject: [PATCH 82/82] fix: primitive vectors of more than 2^32 items were
 indexed modulo 2^32

---
 pointless_ext.h                |  4 +--
 python/pointless_prim_vector.c | 49 +++++++++++++++++++++-------------
 2 files changed, 32 insertions(+), 21 deletions(-)

diff --git a/pointless_ext.h b/pointless_ext.h
index 19b185e..0e9a218 100644
--- a/pointless_ext.h
+++ b/pointless_ext.h
@@ -134,13 +134,13 @@ typedef struct {
 typedef struct {
 	PyObject_HEAD
 	PyPointlessPrimVector* vector;
-	uint32_t iter_state;
+	size_t iter_state;
 } PyPointlessPrimVectorIter;
 
 typedef struct {
 	PyObject_HEAD
 	PyPointlessPrimVector* vector;
-	uint32_t iter_state;
+	size_t iter_state;
 } PyPointlessPrimVectorRevIter;
 
 PyPointlessVector* PyPointlessVector_New(PyPointless* pp, pointless_value_t* v, uint32_t slice_i, uint32_t slice_n);
diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 1404671..563d6ae 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -237,7 +237,7 @@ PyObject* PyPointlessPrimVector_str(PyPointlessPrimVector* self)
 	uint8_t bracket_right = ']';
 	uint8_t terminating_zero = 0;
 
-	uint32_t i, n = pointless_dynarray_n_items(&self->array);
+	size_t i, n = pointless_dynarray_n_items(&self->array);
 	char buffer[1024];
 
 	if (!pointless_dynarray_push(&string, &bracket_left)) {
@@ -541,7 +541,7 @@ static int PyPointlessPrimVector_check_index(PyPointlessPrimVector* self, PyObje
 	return 1;
 }
 
-static PyObject* PyPointlessPrimVector_subscript_priv(PyPointlessPrimVector* self, uint32_t i)
+static PyObject* PyPointlessPrimVector_subscript_priv(PyPointlessPrimVector* self, size_t i)
 {
 	void* base_value = pointless_dynarray_item_at(&self->array, i);
 
@@ -595,7 +595,7 @@ static PyObject* PyPointlessPrimVector_subscript(PyPointlessPrimVector* self, Py
 	if (!PyPointlessPrimVector_check_index(self, item, &i))
 		return 0;
 
-	return PyPointlessPrimVector_subscript_priv(self, (uint32_t)i);
+	return PyPointlessPrimVector_subscript_priv(self, (size_t)i);
 }
 
 static PyObject* PyPointlessPrimVector_item(PyPointlessPrimVector* self, Py_ssize_t i)
@@ -610,7 +610,7 @@ static PyObject* PyPointlessPrimVector_item(PyPointlessPrimVector* self, Py_ssiz
 		return 0;
 	}
 
-	return PyPointlessPrimVector_subscript_priv(self, (uint32_t)i);
+	return PyPointlessPrimVector_subscript_priv(self, (size_t)i);
 }
 
 
@@ -700,7 +700,7 @@ static PyObject* PyPointlessPrimVectorIter_iternext(PyPointlessPrimVectorIter* i
 		return 0;
 
 	// see if we have any items left
-	uint32_t n_items = (uint32_t)PyPointlessPrimVector_length(iter->vector);
+	size_t n_items = (size_t)PyPointlessPrimVector_length(iter->vector);
 
 	if (iter->iter_state < n_items) {
 		PyObject* item = PyPointlessPrimVector_subscript_priv(iter->vector, iter->iter_state);
@@ -723,7 +723,7 @@ static PyObject* PyPointlessPrimVectorRevIter_iternext(PyPointlessPrimVectorRevI
 		return 0;
 
 	// see if we have any items left
-	uint32_t n_items = (uint32_t)PyPointlessPrimVector_length(iter->vector);
+	size_t n_items = (size_t)PyPointlessPrimVector_length(iter->vector);
 
 	if (iter->iter_state < n_items) {
 		PyObject* item = PyPointlessPrimVector_subscript_priv(iter->vector, n_items - iter->iter_state - 1);
@@ -960,7 +960,7 @@ static PyObject* PyPointlessPrimVector_pop_bulk(PyPointlessPrimVector* self, PyO
 
 static size_t PyPointlessPrimVector_index_f(PyPointlessPrimVector* self, float v)
 {
-	uint32_t i, n = pointless_dynarray_n_items(&self->array);
+	size_t i, n = pointless_dynarray_n_items(&self->array);
 	float* a = (float*)(self->array._data);
 
 	for (i = 0; i < n; i++) {
@@ -974,7 +974,7 @@ static size_t PyPointlessPrimVector_index_f(PyPointlessPrimVector* self, float v
 
 static size_t PyPointlessPrimVector_index_i_i(PyPointlessPrimVector* self, int64_t v)
 {
-	uint32_t i, n = pointless_dynarray_n_items(&self->array);
+	size_t i, n = pointless_dynarray_n_items(&self->array);
 	void* a = self->array._data;
 
 	for (i = 0; i < n; i++) {
@@ -1003,7 +1003,7 @@ static size_t PyPointlessPrimVector_index_i_i(PyPointlessPrimVector* self, int64
 
 static size_t PyPointlessPrimVector_index_i_u(PyPointlessPrimVector* self, uint64_t v)
 {
-	uint32_t i, n = pointless_dynarray_n_items(&self->array);
+	size_t i, n = pointless_dynarray_n_items(&self->array);
 	void* a = (float*)(self->array._data);
 
 	for (i = 0; i < n; i++) {
@@ -1208,10 +1208,10 @@ static PyObject* PyPointlessPrimVector_serialize(PyPointlessPrimVector* self)
 
 	// create a buffer
 	size_t n_bytes = PyPointlessPrimVector_n_bytes(self);
-	uint32_t n_items = PyPointlessPrimVector_n_items(self);
+	size_t n_items = PyPointlessPrimVector_n_items(self);
 	uint64_t n_buffer = sizeof(uint32_t) + sizeof(uint32_t) + (uint64_t)n_bytes;
 
-	if (n_buffer > PY_SSIZE_T_MAX || n_buffer > SIZE_MAX) {
+	if (n_items > UINT32_MAX || n_buffer > PY_SSIZE_T_MAX || n_buffer > SIZE_MAX) {
 		PyErr_SetString(PyExc_Exception, "vector too large for serialization");
 		return 0;
 	}
@@ -1224,7 +1224,7 @@ static PyObject* PyPointlessPrimVector_serialize(PyPointlessPrimVector* self)
 
 	// serialize it
 	((uint32_t*)buffer)[0] = self->type;
-	((uint32_t*)buffer)[1] = n_items;
+	((uint32_t*)buffer)[1] = (uint32_t)n_items;
 	memcpy((void*)((uint32_t*)buffer + 2), pointless_dynarray_buffer(&self->array), n_bytes);
 
 	n_bytes += sizeof(uint32_t);
@@ -1328,6 +1328,11 @@ static PyObject* PyPointlessPrimVector_sort(PyPointlessPrimVector* self)
 {
 	int bad = 0;
 
+	if (pointless_dynarray_n_items(&self->array) > INT_MAX) {
+		PyErr_SetString(PyExc_ValueError, "vector has too many items to sort");
+		return 0;
+	}
+
 	{
 		int n = (int)pointless_dynarray_n_items(&self->array);
 
@@ -1362,7 +1367,7 @@ typedef int (*prim_sort_proj_cmp_cmp_t)(uint64_t a, uint64_t b, void* v_b);
 typedef struct {
 	// the projection
 	void* p_b;     // base pointer
-	uint32_t p_n;  // number of items
+	size_t p_n;    // number of items
 	uint32_t p_t;  // item type
 
 	// sort value vectors
@@ -1370,7 +1375,7 @@ typedef struct {
 
 	PyObject* v_p[16]; // Python objects
 	void* v_b[16];     // base pointers
-	uint32_t v_n[16];  // number of items
+	size_t v_n[16];    // number of items
 	uint32_t v_t[16];  // item types
 
 	// comparison info
@@ -1590,7 +1595,7 @@ static PyObject* PyPointlessPrimVector_sort_proj(PyPointlessPrimVector* self, Py
 	}
 
 	// all value vectors must have the same number of items
-	uint32_t i;
+	size_t i;
 
 	for (i = 1; i < state.n; i++) {
 		if (state.v_n[0] != state.v_n[i]) {
@@ -1599,6 +1604,12 @@ static PyObject* PyPointlessPrimVector_sort_proj(PyPointlessPrimVector* self, Py
 		}
 	}
 
+	// the sort counts items in ints
+	if (state.p_n > INT_MAX) {
+		PyErr_SetString(PyExc_ValueError, "projection vector has too many items to sort");
+		goto cleanup;
+	}
+
 	// if there are no items in the projection, we're done
 	if (state.p_n == 0)
 		goto cleanup;
@@ -2043,7 +2054,7 @@ static PyMethodDef PyPointlessPrimVector_methods[] = {
 static PyObject* PyPointlessPrimVector_slice(PyPointlessPrimVector* self, Py_ssize_t ilow, Py_ssize_t ihigh)
 {
 	// clamp the limits
-	uint32_t n_items = pointless_dynarray_n_items(&self->array), i;
+	size_t n_items = pointless_dynarray_n_items(&self->array), i;
 
 	if (ilow < 0)
 		ilow = 0;
@@ -2052,11 +2063,11 @@ static PyObject* PyPointlessPrimVector_slice(PyPointlessPrimVector* self, Py_ssi
 
 	if (ihigh < ilow)
 		ihigh = ilow;
-	else if (ihigh > n_items)
+	else if (ihigh > (Py_ssize_t)n_items)
 		ihigh = (Py_ssize_t)n_items;
 
-	uint32_t slice_i = (uint32_t)ilow;
-	uint32_t slice_n = (uint32_t)(ihigh - ilow);
+	size_t slice_i = (size_t)ilow;
+	size_t slice_n = (size_t)(ihigh - ilow);
 
 	PyPointlessPrimVector* pv = PyObject_New(PyPointlessPrimVector, &PyPointlessPrimVectorType);
 
-- 
2.43.0

