/* C18: every lookup and iteration helper of the C interface against the model,
   over all small sets and maps of a pool of keys with equal, prefix, sign and
   hash-collision variants, all kinds of values, and all pairs of containers. */
#include "val.h"
#include <pointless/pointless_reader_helpers.h>
#include <pointless/pointless_hash_table.h>

static const char* base[] = {
	"0", "1", "-1", "2", "4294967295u", "2147483647", "2147483648u", "-2147483648", "7u", "-7",
	"''", "'a'", "'ab'", "'abc'", "'b'", "\"ab\"", "\"b\"", "\"\\u100;\"", "\"a\\u100;\"", "'\\xe9;'", "\"\\xe9;a\"", "\"\\U1f600;\"",
	"~", "F", "1.5f", "3f", "-0f", "[]", "[1 2]", "#u8[1 2 3]", "['a']", "<>", "<01>", "<11111111111111111111111111111111111110>", 0
};
/* probes which are not stored by themselves */
static const char* extra[] = { "'c'", "'ac'", "'aba'", "\"abcd\"", "\"\\u101;\"", "\"\\x100;b\"", "\"\\u200;\"", "T", "2.5f", "[1]", "[2 1]", "<0>", "<10>", "5", "2147483646", "4294967294u", 0 };

static V* pool[200];
static int n_pool, n_stored;   /* the first n_stored may be stored */
static int64_t ints[300];
static int n_ints;

static void add_int(int64_t i)
{
	for (int k = 0; k < n_ints; k++) if (ints[k] == i) return;
	ints[n_ints++] = i;
}

static uint32_t hash_of(V* v)
{
	/* of a stored copy */
	pointless_t p;
	void* buf = 0;
	const char* e = 0;
	V* box = v_new('v');
	v_push(box, v_copy(v), 0);
	v_push(box, v_new('n'), 0);
	if (!v_open(box, 0, &p, &buf, &e)) mc_die("hash_of");
	uint32_t h = pointless_hash_reader_32(&p, &pointless_reader_vector_value(&p, pointless_root(&p))[0]);
	pointless_close(&p);
	pointless_free(buf);
	v_free(box);
	return h;
}

struct hs { uint32_t h, i; };
static int cmp_hs(const void* a, const void* b) { uint32_t x = ((struct hs*)a)->h, y = ((struct hs*)b)->h; return x < y ? -1 : x > y; }

static void make_pool(void)
{
	for (int i = 0; base[i]; i++) pool[n_pool++] = v_parse(base[i]);
	/* two pairs of strings of one hash */
	uint32_t n = 400000, found = 0;
	struct hs* a = malloc(n * sizeof(*a));
	char s[32];
	for (uint32_t i = 0; i < n; i++) { sprintf(s, "k%u", i * 2654435761u); a[i].h = pointless_hash_string_v1_32((uint8_t*)s); a[i].i = i; }
	qsort(a, n, sizeof(*a), cmp_hs);
	for (uint32_t i = 0; i + 1 < n && found < 2; i++) if (a[i].h == a[i + 1].h && (i == 0 || a[i - 1].h != a[i].h)) {
		for (int k = 0; k < 2; k++) { sprintf(s, "k%u", a[i + k].i * 2654435761u); pool[n_pool] = v_str8(s); pool[n_pool++]->wide = found & k; }
		found++;
	}
	free(a);
	if (found < 1) mc_die("no two strings of one hash");
	/* integers with the hashes of other keys */
	static const char* like[] = {"'a'", "''", "[1 2]", "<01>", "~", "1.5f", "\"\\u100;\"", 0};
	for (int i = 0; like[i]; i++) {
		V* v = v_parse(like[i]);
		uint32_t h = hash_of(v);
		V* u = v_int(h);
		int dup = 0;
		for (int k = 0; k < n_pool; k++) dup |= v_keyeq(pool[k], u);
		if (!dup) { u->wide = h > INT32_MAX; pool[n_pool++] = u; }
		if (h > INT32_MAX) pool[n_pool++] = v_int((int32_t)h);
	}
	n_stored = n_pool;
	for (int i = 0; extra[i]; i++) pool[n_pool++] = v_parse(extra[i]);
	for (int i = 0; i < n_pool; i++) {
		int64_t c = pool[i]->k == 'i' ? (int64_t)pool[i]->i : pool[i]->k == 'f' ? (int64_t)pool[i]->f : pool[i]->k == 'b' ? pool[i]->i : hash_of(pool[i]);
		add_int(c); add_int(-c); add_int(c + 1); add_int(c - 1);
		add_int(c + (1ll << 32)); add_int(c - (1ll << 32)); add_int(~c);
	}
	add_int(INT64_MAX); add_int(INT64_MIN); add_int(INT64_MIN + 1); add_int(1ll << 53);
}

/* ------------------------------------------------------------------------ */
static pointless_t P;
static pointless_value_t* C;     /* the container under test */
static V* W;                     /* its model */
static char d_buf[1600];
static void descr(char* o, size_t n) { snprintf(o, n, "%s", d_buf); }
static uint64_t lookups;

static int model_find(V* c, V* k) { for (uint32_t i = 0; i < c->n; i++) if (v_keyeq(c->v[i], k)) return i; return -1; }
/* entries of integer type; 2 where only a boolean or float equals it */
static int model_int(V* c, int64_t i, int* at)
{
	for (uint32_t k = 0; k < c->n; k++) {
		V* x = c->v[k];
		if (x->k == 'i' && x->i == i) { *at = k; return 1; }
		if (v_isnum(x) && x->k != 'i') { V* y = v_int(i); int e = v_keyeq(x, y); v_free(y); if (e) { *at = k; return 2; } }
	}
	return 0;
}

static int same_value(pointless_value_t* v, V* w)
{
	V* r = v_read(&P, v);
	int ok = v_same(r, w);
	v_free(r);
	return ok;
}

static char* exact(V* k, int nul)
{
	char* b = malloc(k->n + nul);
	for (uint32_t i = 0; i < k->n; i++) b[i] = (char)k->s[i];
	if (nul) b[k->n] = 0;
	return b;
}

static void bad(const char* what, const char* fn, V* k) { mc_violation(what, "%s of %s", fn, v_show(k)); }
#define FOUND(fn, ok, at) do { lookups++; if (!!(ok) != ((at) >= 0)) bad((at) >= 0 ? "a stored key is not found" : "a key which is not stored is found", fn, k); } while (0)

/* all helpers taking a string */
static void probe_string(V* k)
{
	int at = model_find(W, k);
	V* w = at >= 0 ? W->w[at] : 0;
	int narrow = 1;
	for (uint32_t i = 0; i < k->n; i++) if (k->s[i] > 255) narrow = 0;
	pointless_value_t v;
	if (narrow) {
		char* z = exact(k, 1);
		int ok = pointless_get_mapping_string_to_value(&P, C, z, &v);
		FOUND("string_to_value", ok, at);
		if (ok && at >= 0 && !same_value(&v, w)) bad("wrong value", "string_to_value", k);
		/* by length, out of an exact and out of a longer buffer */
		char* x = exact(k, 0);
		ok = pointless_get_mapping_string_n_to_value(&P, C, x, k->n, &v);
		FOUND("string_n_to_value", ok, at);
		if (ok && at >= 0 && !same_value(&v, w)) bad("wrong value", "string_n_to_value", k);
		free(x);
		x = malloc(k->n + 2);
		memcpy(x, z, k->n); x[k->n] = 'z'; x[k->n + 1] = 0;
		ok = pointless_get_mapping_string_n_to_value(&P, C, x, k->n, &v);
		FOUND("string_n_to_value (longer text)", ok, at);
		/* no stored string holds a zero */
		for (int z = 0; z < 3; z++) {
			x = realloc(x, k->n + 1 + z);
			x[k->n] = 0;
			if (z) x[k->n + z] = "\0a"[z - 1];
			ok = pointless_get_mapping_string_n_to_value(&P, C, x, k->n + 1 + z, &v);
			lookups++;
			if (ok) bad("a text with a zero is found", "string_n_to_value", k);
		}
		free(x);
		uint32_t u = 0;
		int64_t i = 0;
		ok = pointless_get_mapping_string_to_u32(&P, C, z, &u);
		int fits = w && w->k == 'i' && w->i >= 0 && w->i <= UINT32_MAX;
		FOUND("string_to_u32", ok, fits ? at : -1);
		if (ok && fits && u != (uint32_t)w->i) bad("wrong value", "string_to_u32", k);
		ok = pointless_get_mapping_string_to_i64(&P, C, z, &i);
		fits = w && w->k == 'i';
		FOUND("string_to_i64", ok, fits ? at : -1);
		if (ok && fits && i != (int64_t)w->i) bad("wrong value", "string_to_i64", k);
		ok = pointless_get_mapping_string_to_set(&P, C, z, &v);
		FOUND("string_to_set", ok, w && w->k == 'S' ? at : -1);
		if (ok && w && !same_value(&v, w)) bad("wrong value", "string_to_set", k);
		ok = pointless_get_mapping_string_to_map(&P, C, z, &v);
		FOUND("string_to_map", ok, w && w->k == 'M' ? at : -1);
		if (ok && w && !same_value(&v, w)) bad("wrong value", "string_to_map", k);
		free(z);
	}
	uint32_t* wide = malloc(4 * (k->n + 1));
	memcpy(wide, k->s, 4 * k->n);
	wide[k->n] = 0;
	int ok = pointless_get_mapping_unicode_to_value(&P, C, wide, &v);
	FOUND("unicode_to_value", ok, at);
	if (ok && at >= 0 && !same_value(&v, w)) bad("wrong value", "unicode_to_value", k);
	uint32_t u = 0;
	ok = pointless_get_mapping_unicode_to_u32(&P, C, wide, &u);
	int fits = w && w->k == 'i' && w->i >= 0 && w->i <= UINT32_MAX;
	FOUND("unicode_to_u32", ok, fits ? at : -1);
	if (ok && fits && u != (uint32_t)w->i) bad("wrong value", "unicode_to_u32", k);
	free(wide);
}

static void probe_vectors(V* k)
{
	int at = model_find(W, k);
	V* w = at >= 0 ? W->w[at] : 0;
	char* z = exact(k, 1);
	uint32_t n = 99;
	pointless_value_t v;
	pointless_value_t stored;
	/* the type chosen when it was stored */
	uint32_t type = 0;
	int have = pointless_get_mapping_string_to_value(&P, C, z, &stored);
	if (have) type = stored.type;
	int isv = have && w && v_isvec(w), empty = type == POINTLESS_VECTOR_EMPTY && isv;
#define VEC(name, T, ctype, read) do { \
	ctype* q = 0; n = 99; \
	int ok = pointless_get_mapping_string_to_vector_##name(&P, C, z, &q, &n); \
	FOUND("string_to_vector_" #name, ok, isv && (type == T || empty) ? at : -1); \
	if (ok && isv) { \
		int good = n == w->n; \
		for (uint32_t i = 0; good && i < n; i++) good = read; \
		if (!good) bad("wrong items", "string_to_vector_" #name, k); \
	} } while (0)
	VEC(i8, POINTLESS_VECTOR_I8, int8_t, q[i] == w->v[i]->i);
	VEC(u8, POINTLESS_VECTOR_U8, uint8_t, q[i] == w->v[i]->i);
	VEC(i16, POINTLESS_VECTOR_I16, int16_t, q[i] == w->v[i]->i);
	VEC(u16, POINTLESS_VECTOR_U16, uint16_t, q[i] == w->v[i]->i);
	VEC(i32, POINTLESS_VECTOR_I32, int32_t, q[i] == w->v[i]->i);
	VEC(u32, POINTLESS_VECTOR_U32, uint32_t, q[i] == w->v[i]->i);
	VEC(i64, POINTLESS_VECTOR_I64, int64_t, q[i] == w->v[i]->i);
	VEC(u64, POINTLESS_VECTOR_U64, uint64_t, q[i] == (uint64_t)w->v[i]->i);
	VEC(float, POINTLESS_VECTOR_FLOAT, float, q[i] == w->v[i]->f);
	{
		pointless_value_t* q = 0;
		n = 99;
		int ok = pointless_get_mapping_string_to_vector_value(&P, C, z, &q, &n);
		FOUND("string_to_vector_value", ok, isv && (type == POINTLESS_VECTOR_VALUE || type == POINTLESS_VECTOR_VALUE_HASHABLE || empty) ? at : -1);
		if (ok && isv) {
			int good = n == w->n;
			for (uint32_t i = 0; good && i < n; i++) good = same_value(&q[i], w->v[i]);
			if (!good) bad("wrong items", "string_to_vector_value", k);
		}
	}
	n = 99;
	int ok = pointless_get_mapping_string_to_vector(&P, C, z, &v, &n);
	lookups++;
	/* whether vectors of values are included is not said */
	if (!(isv && (type == POINTLESS_VECTOR_VALUE || type == POINTLESS_VECTOR_VALUE_HASHABLE))) FOUND("string_to_vector", ok, isv ? at : -1);
	if (ok && isv && (n != w->n || !same_value(&v, w))) bad("wrong value", "string_to_vector", k);
	free(z);
}

static V* eq_key;
static uint32_t eq_cb(pointless_t* p, pointless_complete_value_t* v, void* user, const char** error)
{
	(void)user; (void)error;
	pointless_value_t x = pointless_value_from_complete(v);
	V* r = v_read(p, &x);
	int ok = v_keyeq(r, eq_key);
	v_free(r);
	return ok;
}

/* all helpers taking a stored value as the key; k itself lies in the file at kv */
static void probe_value(V* k, pointless_value_t* kv)
{
	int at = model_find(W, k), map = W->k == 'M', ok;
	V* w = at >= 0 && map ? W->w[at] : 0;
	const char* error = 0;
	pointless_value_t *kk = (void*)1, *vv = (void*)1;
	if (map) pointless_reader_map_lookup(&P, C, kv, &kk, &vv, &error);
	else pointless_reader_set_lookup(&P, C, kv, &kk, &error);
	if (error) { bad("an error", "lookup", k); return; }
	FOUND("lookup", kk != 0, at);
	if (kk && at >= 0 && !same_value(kk, W->v[at])) bad("wrong key", "lookup", k);
	if (kk && at >= 0 && map && !same_value(vv, w)) bad("wrong value", "lookup", k);
	eq_key = k;
	kk = vv = (void*)1;
	uint32_t h = pointless_hash_reader_32(&P, kv);
	if (map) pointless_reader_map_lookup_ext(&P, C, h, eq_cb, 0, &kk, &vv, &error);
	else pointless_reader_set_lookup_ext(&P, C, h, eq_cb, 0, &kk, &error);
	if (error) { bad("an error", "lookup_ext", k); return; }
	FOUND("lookup_ext", kk != 0, at);
	if (kk && at >= 0 && !same_value(kk, W->v[at])) bad("wrong key", "lookup_ext", k);
	if (kk && at >= 0 && map && !same_value(vv, w)) bad("wrong value", "lookup_ext", k);
	ok = map ? pointless_is_in_map_acyclic(&P, C, kv) : pointless_is_in_set_acyclic(&P, C, kv);
	FOUND(map ? "is_in_map_acyclic" : "is_in_set_acyclic", ok, at);
	/* entries of this hash */
	pointless_hash_iter_state_t st;
	char seen[4096] = {0};
	int n = 0, want = 0;
	if (map) pointless_reader_map_iter_hash_init(&P, C, h, &st);
	else pointless_reader_set_iter_hash_init(&P, C, h, &st);
	while (map ? pointless_reader_map_iter_hash(&P, C, h, &kk, &vv, &st) : pointless_reader_set_iter_hash(&P, C, h, &kk, &st)) {
		V* r = v_read(&P, kk);
		int a = model_find(W, r);
		v_free(r);
		if (++n > (int)W->n) { bad("iteration over a hash does not end", "iter_hash", k); break; }
		if (a < 0 || seen[a]++) { bad(a < 0 ? "a foreign entry" : "an entry is repeated", "iter_hash", k); continue; }
		if (pointless_hash_reader_32(&P, kk) != h) bad("an entry of another hash", "iter_hash", k);
		if (map && !same_value(vv, W->w[a])) bad("wrong value", "iter_hash", k);
	}
	pointless_value_t* keys = 0;
	(void)keys;
	uint32_t it = 0;
	while (map ? pointless_reader_map_iter(&P, C, &kk, &vv, &it) : pointless_reader_set_iter(&P, C, &kk, &it)) want += pointless_hash_reader_32(&P, kk) == h;
	if (n != want) bad("entries of the hash are missing", "iter_hash", k);
}

static void probe_int(int64_t i)
{
	int at = -1, e = model_int(W, i, &at);
	int map = W->k == 'M';
	static V kk;
	V* k = &kk;
	kk.k = 'i'; kk.i = i;
	pointless_value_t v;
	int ok = map ? pointless_is_int_in_map(&P, C, i) : pointless_is_int_in_set(&P, C, i);
	if (e != 2) FOUND(map ? "is_int_in_map" : "is_int_in_set", ok, at);
	if (map) {
		ok = pointless_get_mapping_int_to_value(&P, C, i, &v);
		if (e != 2) FOUND("int_to_value", ok, at);
		if (ok && at >= 0 && !same_value(&v, W->w[at])) bad("wrong value", "int_to_value", k);
	}
}

static void iterate(void)
{
	int map = W->k == 'M';
	char* seen = calloc(W->n + 1, 1);
	pointless_value_t *kk, *vv;
	uint32_t st = 0, n = 0;
	while (map ? pointless_reader_map_iter(&P, C, &kk, &vv, &st) : pointless_reader_set_iter(&P, C, &kk, &st)) {
		V* r = v_read(&P, kk);
		int a = model_find(W, r);
		if (++n > W->n) { mc_violation("more entries than stored", "-"); break; }
		if (a < 0 || seen[a]++) bad(a < 0 ? "a foreign entry" : "an entry is repeated", "iter", r);
		else if (!v_same(r, W->v[a])) bad("wrong key", "iter", r);
		else if (map && !same_value(vv, W->w[a])) bad("wrong value", "iter", r);
		v_free(r);
	}
	if (n < W->n) mc_violation("entries are missing from the iteration", "%u of %u", n, W->n);
	uint32_t m = map ? pointless_reader_map_n_items(&P, C) : pointless_reader_set_n_items(&P, C);
	uint32_t b = map ? pointless_reader_map_n_buckets(&P, C) : pointless_reader_set_n_buckets(&P, C);
	if (m != W->n) mc_violation("wrong number of items", "%u of %u", m, W->n);
	if (b < m || (b & (b - 1)) || b == 0) mc_violation("wrong number of buckets", "%u for %u", b, m);
	free(seen);
}

/* one container among the probes, in one file */
static void test(V* c, int style, int nprobe)
{
	void* buf = 0;
	const char* e = 0;
	V* root = v_new('v');
	v_push(root, c, 0);
	V* probes = v_new('v');
	for (int i = 0; i < nprobe; i++) v_push(probes, v_copy(pool[i]), 0);
	v_push(root, probes, 0);
	if (!v_open(root, style, &P, &buf, &e)) { mc_violation("a file cannot be made", "%s", e); v_free(probes); free(root->v); free(root); return; }
	pointless_value_t* r = pointless_reader_vector_value(&P, pointless_root(&P));
	C = &r[0];
	W = c;
	iterate();
	for (int i = 0; i < nprobe; i++) {
		pointless_complete_value_t cv = pointless_reader_vector_value_case(&P, &r[1], i);
		pointless_value_t kv = pointless_value_from_complete(&cv);
		probe_value(pool[i], &kv);
		if (c->k == 'M' && pool[i]->k == 's') probe_string(pool[i]);
	}
	for (int i = 0; i < n_ints; i++) probe_int(ints[i]);
	mc_count("lookups", lookups);
	lookups = 0;
	mc_nontrivial();
	pointless_close(&P);
	pointless_free(buf);
	v_free(probes);
	free(root->v);
	free(root);
}

static V* value_for(int i)
{
	static const char* vals[] = {"11", "-3", "4294967295u", "'v'", "[1 2 3]", "{1}", "{1:2}", "~", "T", "2.5f", "[]", "<01>", "['x' 1]", "2147483648u", "-2147483648", 0};
	return v_parse(vals[i % 15]);
}

static int conflict(V* c, V* k) { return model_find(c, k) >= 0; }
static void subsets(int size, int part, int parts)
{
	static const int styles[] = {0, VS_WIDE | VS_SRC, VS_RAWBITS | VS_TRANSFER};
	int idx[8];
	uint64_t no = 0;
	for (int k = 0; k <= size; k++) {
		for (int i = 0; i < k; i++) idx[i] = i;
		for (;;) {
			int use = (int)(no++ % parts) == part;
			if (use)
				for (int map = 0; map < 2; map++) {
					V* c = v_new(map ? 'M' : 'S');
					int dup = 0;
					for (int i = 0; i < k; i++) {
						if (conflict(c, pool[idx[i]])) dup = 1;
						v_push(c, v_copy(pool[idx[i]]), map ? value_for(idx[i] + i) : 0);
					}
					int style = styles[no % 3];
					snprintf(d_buf, sizeof d_buf, "%s in style %d, all probes", v_show(c), style);
					if (!dup && mc_begin_cb(descr)) test(c, style, n_pool);
					v_free(c);
				}
			int i = k - 1;
			while (i >= 0 && idx[i] == n_stored - k + i) i--;
			if (i < 0) break;
			idx[i]++;
			for (int j = i + 1; j < k; j++) idx[j] = idx[j - 1] + 1;
		}
	}
}

/* tables of every size: the pool and a run of integers, and of one hash */
static void sizes(int full)
{
	for (int n = 0; n <= (full ? 400 : 130); n++)
		for (int map = 0; map < 2; map++)
			for (int rot = 0; rot < 4; rot++) {
				V* c = v_new(map ? 'M' : 'S');
				for (int i = 0; c->n < (uint32_t)n; i++) {
					V* k;
					if (rot == 0) k = i < n_stored ? v_copy(pool[i]) : v_int(1000 + i);
					else if (rot == 1) k = v_int(i * 1024);                 /* one bucket */
					else if (rot == 2) k = v_int(i % 2 ? -1 - i : i);
					else { char s[20]; sprintf(s, "a%d", i); k = i % 3 ? v_str8(s) : v_int(pointless_hash_string_v1_32((uint8_t*)s)); }
					if (conflict(c, k)) { v_free(k); continue; }
					v_push(c, k, map ? value_for(i) : 0);
				}
				snprintf(d_buf, sizeof d_buf, "%s of %d entries, kind %d", map ? "map" : "set", n, rot);
				if (mc_begin_cb(descr)) {
					test(c, 0, n_pool);
					if (map && n && rot == 3) {
						/* the strings themselves */
						void* buf = 0;
						const char* e = 0;
						if (!v_open(c, 0, &P, &buf, &e)) mc_die("open");
						C = pointless_root(&P);
						W = c;
						for (int i = 0; i < n; i++) if (c->v[i]->k == 's') probe_string(c->v[i]); else probe_int(c->v[i]->i);
						pointless_close(&P);
						pointless_free(buf);
					}
				}
				v_free(c);
			}
}

/* every kind of value under every string helper */
static void values(void)
{
	static const char* vals[] = {
		"~", "T", "F", "0", "1", "-1", "2147483647", "-2147483648", "2147483648u", "4294967295u", "7u", "0u", "1f", "-1f", "1.5f", "4294967296f",
		"''", "'1'", "\"w\"", "<>", "<1>", "<0110>", "<11111111111111111111111111111111111110>",
		"[]", "#i8[]", "#f[]", "#u64[]", "['a']", "[{1}]", "['a' [1] 2.5f]", "[~]", "[[]]", "[1 2]", "[-1 1]", "[300]", "[70000]", "[-70000]", "[-300 5]", "[4294967295u]", "[1.5f 2f]", "[1 2.5f]", "[T]",
		"#i8[-128 127]", "#u8[255]", "#i16[-32768]", "#u16[65535 1]", "#i32[-2147483648]", "#u32[4294967295]", "#i64[-9223372036854775808]", "#u64[18446744073709551615]", "#f[1f -2.5f]",
		"#i64[1 2]", "#u64[3]", "#i32[4 5]", "#u32[1]", "#i16[1]", "#u16[2]", "#u8[9 8 7]", "#i8[1]",
		"{}", "{1 'a'}", "{:}", "{'a':1}", "{[1 2]:{3}}", 0};
	static const char* keys[] = {"'k'", "\"k\"", "''", "'kk'", 0};
	for (int i = 0; vals[i]; i++)
		for (int k = 0; keys[k]; k++)
			for (int more = 0; more < 3; more++) {
				V* c = v_new('M');
				V* key = v_parse(keys[k]);
				v_push(c, key, v_parse(vals[i]));
				if (more) v_push(c, v_parse("'other'"), v_parse(vals[(i + 1) % 5 + more]));
				if (more > 1) v_push(c, v_int(pointless_hash_string_v1_32((uint8_t*)"k")), v_parse("[9 9]"));
				snprintf(d_buf, sizeof d_buf, "%s, typed lookups", v_show(c));
				if (mc_begin_cb(descr)) {
					for (int style = 0; style < 2; style++) {
						void* buf = 0;
						const char* e = 0;
						if (!v_open(c, style ? VS_OWNER | VS_TRANSFER : 0, &P, &buf, &e)) { mc_violation("a file cannot be made", "%s", e); continue; }
						C = pointless_root(&P);
						W = c;
						static const char* probes[] = {"'k'", "''", "'kk'", "'other'", "'x'", "'kkk'", 0};
						for (int q = 0; probes[q]; q++) { V* x = v_parse(probes[q]); probe_string(x); probe_vectors(x); v_free(x); }
						mc_nontrivial();
						mc_count("lookups", lookups);
						lookups = 0;
						pointless_close(&P);
						pointless_free(buf);
					}
				}
				v_free(c);
			}
}

/* all pairs of small containers: the same keys? and identities of containers */
static void pairs(int part, int parts)
{
	static const int pick[] = {0, 1, 2, 4, 10, 11, 15, 16, 17, 22, 23, 25, 28, 29, 32};
	int np = sizeof pick / sizeof pick[0];
	static V* cs[2][200];
	int n = 0;
	for (int i = -1; i < np; i++)
		for (int j = i; j < np; j++) {
			if (j == i && i >= 0) continue;
			if (i >= 0 && v_keyeq(pool[pick[i]], pool[pick[j]])) continue;
			for (int map = 0; map < 2; map++) {
				V* c = v_new(map ? 'M' : 'S');
				if (i >= 0) v_push(c, v_copy(pool[pick[i]]), map ? value_for(i) : 0);
				if (j >= 0) v_push(c, v_copy(pool[pick[j]]), map ? value_for(j + 3) : 0);
				cs[map][n] = c;
			}
			n++;
		}
	/* equal keys of other types */
	static const char* eqs[] = {"{1f:1}", "{T:1}", "{0f:1}", "{\"a\":1}", "{'b':1 \"ab\":2}", "{#u32[1 2 3]:4}", "{#i64[1 2]:4}", "{[1f 2f]:1}", "{1 :1 2:2 3:3}", "{3:1 2:2 1:3}", 0};
	for (int i = 0; eqs[i]; i++) {
		cs[1][n] = v_parse(eqs[i]);
		cs[0][n] = v_new('S');
		for (uint32_t j = 0; j < cs[1][n]->n; j++) v_push(cs[0][n], v_copy(cs[1][n]->v[j]), 0);
		n++;
	}
	for (int i = 0; i < n; i++) {
		if (i % parts != part) continue;
		snprintf(d_buf, sizeof d_buf, "keys of %s against those of %d others", v_show(cs[0][i]), n);
		if (!mc_begin_cb(descr)) continue;
		mc_nontrivial();
		for (int j = 0; j < n; j++) {
			V* root = v_new('v');
			v_push(root, cs[0][i], 0); v_push(root, cs[1][i], 0); v_push(root, cs[1][j], 0);
			void* buf = 0;
			const char* e = 0;
			if (!v_open(root, 0, &P, &buf, &e)) { mc_violation("a file cannot be made", "%s", e); continue; }
			pointless_value_t* r = pointless_reader_vector_value(&P, pointless_root(&P));
			int want = cs[0][i]->n == cs[1][j]->n;
			for (uint32_t k = 0; k < cs[0][i]->n; k++) want = want && model_find(cs[1][j], cs[0][i]->v[k]) >= 0;
			int a = pointless_has_same_keys_set_map(&P, &r[0], &r[2]), b = pointless_has_same_keys_map_map(&P, &r[1], &r[2]), c = pointless_has_same_keys_map_map(&P, &r[2], &r[1]);
			mc_count("lookups", 3);
			if (!!a != want || !!b != want || !!c != want) mc_violation("has_same_keys is wrong", "%s, %s: set-map %d, map-map %d, swapped %d, expected %d", v_show(cs[0][i]), v_show(cs[1][j]), a, b, c, want);
			/* identities */
			uint32_t nc = pointless_n_containers(&P), id[3];
			for (int k = 0; k < 3; k++) {
				id[k] = pointless_container_id(&P, &r[k]);
				if (id[k] >= nc) mc_violation("the identity of a container is out of range", "%u of %u", id[k], nc);
			}
			uint32_t rid = pointless_container_id(&P, pointless_root(&P));
			if (id[0] == id[1] || id[1] == id[2] || id[0] == id[2] || rid == id[0] || rid == id[1] || rid == id[2]) mc_violation("two containers have one identity", "%u %u %u %u", rid, id[0], id[1], id[2]);
			pointless_close(&P);
			pointless_free(buf);
			free(root->v);
			free(root);
		}
	}
}

int main(int argc, char** argv)
{
	mc_init(argc, argv);
	make_pool();
	const char* t = mc_task();
	if (!strcmp(t, "subsets")) subsets(mc_arg(0, 2), mc_arg(1, 0), mc_arg(2, 1));
	else if (!strcmp(t, "sizes")) sizes(mc_arg(0, 0));
	else if (!strcmp(t, "values")) values();
	else if (!strcmp(t, "pairs")) pairs(mc_arg(0, 0), mc_arg(1, 1));
	else mc_die("unknown task");
	mc_finish();
	return 0;
}
