/* C13, C side: every file of several bounded families is opened with
   validation; what is accepted is read with every function of the public
   reader interface. Oracle: ASan, the live allocation count, nothing printed,
   and the engine's time limit per case. */
#include "val.h"
#include <pointless/pointless_create.h>
#include <pointless/pointless_debug.h>
#include <pointless/pointless_eval.h>
#include <pointless/pointless_recreate.h>
#include <pointless/pointless_reader_helpers.h>
#include <math.h>

/* -- allocation accounting ------------------------------------------------ */
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
static volatile long live;   /* volatile: the compiler takes malloc to leave it alone */
#define CAP ((size_t)1 << 30)
void* __wrap_malloc(size_t n) { if (n > CAP) return 0; void* p = __real_malloc(n); if (p) live++; return p; }
void* __wrap_calloc(size_t a, size_t b) { if (a && b > CAP / a) return 0; void* p = __real_calloc(a, b); if (p) live++; return p; }
void* __wrap_realloc(void* q, size_t n) { if (n > CAP) return 0; void* p = __real_realloc(q, n); if (p && !q) live++; return p; }
void __wrap_free(void* p) { if (p) live--; __real_free(p); }

/* -- the reader ------------------------------------------------------------ */
static const char* seeds[] = {
	"~", "5", "1.5f", "'abc'", "\"a\\u100;\"", "<0110>", "<000000000000000000000000000000000000000000000000000000000000000000001>", "[]",
	"[1 2]", "[1.5f 'a' ~]", "#i8[1 2 3]", "#u16[1 2]", "#i64[1 2]", "#u64[1]", "#f[1f 2f]",
	"[[1] ['a' [~]]]", "{}", "{1}", "{'a' 2}", "{[1 'a'] [[~]]}", "{:}", "{1:2}", "{'a':[1 'b'] 'bc':{1:2}}", "{[1 ['k']]:{~}}", "{<0110>:1 <1>:2}", "{1.5f:~ \"\\u100;\":[~]}",
	"['a' \"\\u100;b\" <0101010101010101010101010101010101> {1 2 3} {1:~ 2:'a'} [~ [T]] #u8[7]]",
	0
};
static FILE *cap_f, *devnull;
static char* cap_b;
static size_t cap_n;

static void walk_string(pointless_t* p, pointless_value_t* v)
{
	uint32_t n, i;
	uint64_t s = 0;
	if (v->type == POINTLESS_STRING_) {
		n = pointless_reader_string_len(p, v);
		uint8_t* b = pointless_reader_string_value_ascii(p, v);
		for (i = 0; i <= n; i++) s += b[i];
		if (b[n] != 0) mc_violation("accepted string without end mark", "%u", n);
		for (i = 0; i < n; i++) if (!b[i]) { mc_violation("accepted string with an early end mark", "%u of %u", i, n); break; }
	} else {
		n = pointless_reader_unicode_len(p, v);
		uint32_t* b = pointless_reader_unicode_value_ucs4(p, v);
		for (i = 0; i <= n; i++) s += b[i];
		if (b[n] != 0) mc_violation("accepted string without end mark", "%u", n);
		for (i = 0; i < n; i++) if (!b[i]) { mc_violation("accepted string with an early end mark", "%u of %u", i, n); break; }
	}
	static volatile uint64_t sink;
	sink += s;
}
/* hashing and comparing take time by the number of bits, which an uncompressed
   bitvector of equal bits states in four bytes */
static int heavy;
static int is_heavy(uint8_t* b, size_t n)
{
	for (size_t i = 0; i + 8 <= n; i += 4) {
		uint32_t t, d;
		memcpy(&t, b + i, 4);
		memcpy(&d, b + i + 4, 4);
		if ((t == POINTLESS_BITVECTOR_0 || t == POINTLESS_BITVECTOR_1) && d > 1000000) return 1;
	}
	return 0;
}
static int has_tables;

static uint32_t eq_cb(pointless_t* p, pointless_complete_value_t* v, void* user, const char** error)
{
	pointless_complete_value_t k = pointless_value_to_complete(user);
	return pointless_cmp_reader(p, &k, p, v, error) == 0;
}

#define MAXV 4096
static pointless_value_t* seen[MAXV];
static int nseen;
static int seen_slot[MAXV * 4];
static int dedupe(pointless_value_t* v)
{
	uint64_t h = (v->type * 2654435761u) ^ (v->data.data_u32 * 40503u);
	for (h %= MAXV * 4; seen_slot[h]; h = (h + 1) % (MAXV * 4)) {
		pointless_value_t* w = seen[seen_slot[h] - 1];
		if (w->type == v->type && w->data.data_u32 == v->data.data_u32) return 0;
	}
	if (nseen >= MAXV) return 0;
	seen[nseen++] = v;
	seen_slot[h] = nseen;
	return 1;
}

static int light;       /* very large inputs: skip the quadratic part */
static void exercise(pointless_t* p)
{
	int i, j;
	uint32_t k, n, st;
	const char* error;
	pointless_value_t *a, *b, out;
	char keybuf[300];
	memset(seen_slot, 0, sizeof(seen_slot));
	nseen = 0;
	dedupe(pointless_root(p));
	for (i = 0; i < nseen; i++) {
		pointless_value_t* v = seen[i];
		uint32_t nc = pointless_n_containers(p);
		switch (v->type) {
		case POINTLESS_STRING_: case POINTLESS_UNICODE_: walk_string(p, v); break;
		case POINTLESS_SET_VALUE:
			n = 0; st = 0;
			while (pointless_reader_set_iter(p, v, &a, &st)) { n++; dedupe(a); }
			if (n != pointless_reader_set_n_items(p, v)) mc_violation("iteration of an accepted set misses items", "%u of %u", n, pointless_reader_set_n_items(p, v));
			if (n > pointless_reader_set_n_buckets(p, v)) mc_violation("more items than buckets", "%u", n);
			pointless_set_hash_vector(p, v);
			pointless_set_key_vector(p, v);
			break;
		case POINTLESS_MAP_VALUE_VALUE:
			n = 0; st = 0;
			while (pointless_reader_map_iter(p, v, &a, &b, &st)) { n++; dedupe(a); dedupe(b); }
			if (n != pointless_reader_map_n_items(p, v)) mc_violation("iteration of an accepted map misses items", "%u of %u", n, pointless_reader_map_n_items(p, v));
			if (n > pointless_reader_map_n_buckets(p, v)) mc_violation("more items than buckets", "%u", n);
			break;
		default:
			if (pointless_is_vector_type(v->type)) {
				n = pointless_reader_vector_n_items(p, v);
				for (k = 0; k < n; k++) {
					pointless_complete_value_t cv = pointless_reader_vector_value_case(p, v, k);
					(void)cv;
					if (v->type == POINTLESS_VECTOR_VALUE || v->type == POINTLESS_VECTOR_VALUE_HASHABLE) dedupe(&pointless_reader_vector_value(p, v)[k]);
				}
			} else if (pointless_is_bitvector_type(v->type)) {
				n = pointless_reader_bitvector_n_bits(p, v);
				uint32_t s = 0;
				for (k = 0; k < n && k < 4096; k++) s += pointless_reader_bitvector_is_set(p, v, k);
				for (k = n > 64 ? n - 64 : 0; k < n; k++) s += pointless_reader_bitvector_is_set(p, v, k);
			}
		}
		if (v->type == POINTLESS_VECTOR_VALUE || v->type == POINTLESS_VECTOR_VALUE_HASHABLE || v->type == POINTLESS_SET_VALUE || v->type == POINTLESS_MAP_VALUE_VALUE)
			if (pointless_container_id(p, v) >= nc) mc_violation("container id out of range", "%u of %u", pointless_container_id(p, v), nc);
		if (!heavy && pointless_is_hashable_reader(p, v)) {
			mc_count("hashes", 1);
			pointless_hash_reader_32(p, v);
		}
	}
	mc_count("values", nseen);
	/* keys against maps and sets */
	for (i = 0; i < nseen; i++) {
		pointless_value_t* m = seen[i];
		if (m->type != POINTLESS_SET_VALUE && m->type != POINTLESS_MAP_VALUE_VALUE) continue;
		int is_map = m->type == POINTLESS_MAP_VALUE_VALUE;
		for (j = 0; j < nseen && j < 24; j++) {
			pointless_value_t* q = seen[j];
			pointless_value_t *kk = 0, *vv = 0;
			if (heavy) continue;
			error = 0;
			if (is_map) pointless_reader_map_lookup(p, m, q, &kk, &vv, &error); else pointless_reader_set_lookup(p, m, q, &kk, &error);
			if (!pointless_is_hashable_reader(p, q)) {
				if (!error) mc_violation("lookup of an unhashable value reports no error", "type %u", q->type);
				continue;
			}
			uint32_t h = pointless_hash_reader_32(p, q);
			error = 0;
			if (is_map) pointless_reader_map_lookup_ext(p, m, h, eq_cb, q, &kk, &vv, &error); else pointless_reader_set_lookup_ext(p, m, h, eq_cb, q, &kk, &error);
			if (is_map) pointless_is_in_map_acyclic(p, m, q); else pointless_is_in_set_acyclic(p, m, q);
			pointless_hash_iter_state_t it;
			n = 0;
			if (is_map) { pointless_reader_map_iter_hash_init(p, m, h, &it); while (pointless_reader_map_iter_hash(p, m, h, &kk, &vv, &it)) if (++n > pointless_reader_map_n_buckets(p, m)) { mc_violation("iteration by hash does not end", "%u", n); break; } }
			else { pointless_reader_set_iter_hash_init(p, m, h, &it); while (pointless_reader_set_iter_hash(p, m, h, &kk, &it)) if (++n > pointless_reader_set_n_buckets(p, m)) { mc_violation("iteration by hash does not end", "%u", n); break; } }
			mc_count("lookups", 1);
			if (q->type == POINTLESS_STRING_ && pointless_reader_string_len(p, q) < 256) {
				strcpy(keybuf, (char*)pointless_reader_string_value_ascii(p, q));
				if (is_map) { pointless_get_mapping_string_to_value(p, m, keybuf, &out); pointless_get_mapping_string_n_to_value(p, m, keybuf, strlen(keybuf), &out); }
			}
			if (q->type == POINTLESS_UNICODE_ && is_map) pointless_get_mapping_unicode_to_value(p, m, pointless_reader_unicode_value_ucs4(p, q), &out);
		}
		static const int64_t ints[] = {0, 1, 2, -1, 255, INT32_MAX, INT32_MIN, UINT32_MAX, INT64_MAX};
		for (j = 0; j < 9; j++) {
			if (is_map) { pointless_is_int_in_map(p, m, ints[j]); pointless_get_mapping_int_to_value(p, m, ints[j], &out); }
			else pointless_is_int_in_set(p, m, ints[j]);
		}
		if (is_map) {
			uint32_t u;
			void* x;
			static char* names[] = {"", "a", "bc", "k"};
			for (j = 0; j < 4; j++) {
				pointless_get_mapping_string_to_u32(p, m, names[j], &u);
				pointless_get_mapping_string_to_vector_u8(p, m, names[j], (void*)&x, &u);
				if (pointless_get_mapping_string_to_vector_value(p, m, names[j], (void*)&x, &u) && u) { static volatile uint32_t sink; sink += ((pointless_value_t*)x)[u - 1].type; }
				pointless_get_mapping_string_to_map(p, m, names[j], &out);
				pointless_eval_get(p, m, &out, "[%s]", names[j]);
			}
		}
		for (j = 0; j < nseen && j < 24; j++) {
			pointless_value_t* o = seen[j];
			if (o->type != POINTLESS_MAP_VALUE_VALUE) continue;
			if (is_map) pointless_has_same_keys_map_map(p, m, o); else pointless_has_same_keys_set_map(p, m, o);
		}
	}
	/* comparison */
	int lim = light ? 3 : nseen < 14 ? nseen : 14;
	for (i = 0; i < lim; i++) for (j = 0; j < lim; j++) {
		if (heavy) continue;
		pointless_complete_value_t x = pointless_value_to_complete(seen[i]), y = pointless_value_to_complete(seen[j]);
		error = 0;
		pointless_cmp_reader(p, &x, p, &y, &error);
		mc_count("comparisons", 1);
	}
	/* expressions */
	static const char* ex[] = {"[0]", "[1]", "[0][0]", "[1][1]", "['a']", "['a'][1]", "[2][1][0]", "[0][0][0]", "[4294967295]"};
	for (i = 0; i < 9; i++) pointless_eval_get(p, pointless_root(p), &out, ex[i]);
	if (!heavy) {
		error = 0;
		/* printing expands shared parts: only the first long chain */
		if (light) pointless_debug_print_value(p, nseen > 1 ? seen[1] : seen[0], devnull, &error);
		else pointless_debug_print(p, devnull, &error);
		/* copy into a new file, and open that */
		pointless_create_t c;
		pointless_create_begin_64(&c);
		error = 0;
		uint32_t h = pointless_recreate_value(p, pointless_root(p), &c, &error);
		if (h == POINTLESS_CREATE_VALUE_FAIL) pointless_create_end(&c);
		else {
			void* buf = 0;
			size_t nb = 0;
			pointless_create_set_root(&c, h);
			error = 0;
			if (pointless_create_output_and_end_b(&c, &buf, &nb, &error)) {
				pointless_t q;
				error = 0;
				if (!pointless_open_b(&q, buf, nb, &error)) mc_violation("re-created file is refused", "%s", error ? error : "?");
				else { mc_count("recreated", 1); pointless_close(&q); }
				pointless_free(buf);
			}
		}
	}
}

static uint8_t *base, *cur;
static size_t base_n, cur_n;
static FILE* dump;      /* accepted files are written out, for the Python side */
static void try_file(void)
{
	pointless_t p;
	const char* error = 0;
	if (dump) {
		if ((is_heavy(cur, cur_n) && has_tables) || !pointless_open_b(&p, cur, cur_n, &error)) return;
		uint32_t n = cur_n;
		if (is_heavy(cur, cur_n)) n |= 1u << 31;
		fwrite(&n, 4, 1, dump);
		n &= ~(1u << 31);
		fwrite(cur, n, 1, dump);
		fflush(dump);
		pointless_close(&p);
		return;
	}
	long before = live;
	heavy = is_heavy(cur, cur_n);
	if (heavy && has_tables) { mc_count("too long to validate", 1); return; }
	memset(&p, 0x5a, sizeof(p));
	uint8_t* exact = malloc(cur_n ? cur_n : 1);
	memcpy(exact, cur, cur_n);
	long at = live;
	if (pointless_open_b(&p, exact, cur_n, &error)) {
		mc_count("accepted", 1);
		mc_nontrivial();
		exercise(&p);
		pointless_close(&p);
	} else {
		if (!error) mc_violation("refused without an error message", "-");
		mc_count("refused", 1);
	}
	if (live != at) mc_violation("memory left behind", "%ld allocations", live - at);
	free(exact);
	if (live != before) live = before;
	fflush(stdout);
	if (!mc_describing && ftell(stdout) > 0) {
		mc_violation("something was printed", "%.60s", cap_b);
		rewind(stdout);
	}
}

/* -- mutations ------------------------------------------------------------- */
static int m_seed;
static const char* m_what;
static long m_a, m_b, m_c, m_d;
static void d_mut(char* o, size_t n) { snprintf(o, n, "file of %s, %s %ld %ld %ld %ld", seeds[m_seed], m_what, m_a, m_b, m_c, m_d); }

static void make_base(const char* text)
{
	pointless_create_t c;
	void* buf;
	const char* error = 0;
	pointless_create_begin_64(&c);
	V* v = v_parse(text);
	uint32_t h = v_create(&c, v, 0);
	pointless_create_set_root(&c, h);
	if (!pointless_create_output_and_end_b(&c, &buf, &base_n, &error)) mc_die(error);
	base = buf;
	cur = realloc(cur, base_n + 64);
	memcpy(cur, base, base_n);
	memset(cur + base_n, 0, 64);
	cur_n = base_n;
}
static uint32_t rd(uint8_t* b) { uint32_t x; memcpy(&x, b, 4); return x; }
static void wr(uint8_t* b, uint32_t x) { memcpy(b, &x, 4); }
static void restore(void) { memcpy(cur, base, base_n); cur_n = base_n; }

static void fam_trunc(void)
{
	static const uint8_t fill[] = {0, 0xff, 1};
	for (m_a = 0; m_a < (long)base_n; m_a++) { m_what = "truncated to"; if (!mc_begin_cb(d_mut)) continue; cur_n = m_a; try_file(); restore(); }
	for (m_a = 1; m_a <= 16; m_a++) for (m_b = 0; m_b < 3; m_b++) { m_what = "extended by"; if (!mc_begin_cb(d_mut)) continue; memset(cur + base_n, fill[m_b], m_a); cur_n = base_n + m_a; try_file(); restore(); }
}
static void fam_byte(void)
{
	m_what = "byte set";
	for (m_a = 0; m_a < (long)base_n; m_a++) for (m_b = 0; m_b < 256; m_b++) {
		if (!mc_begin_cb(d_mut)) continue;
		cur[m_a] = m_b;
		try_file();
		cur[m_a] = base[m_a];
	}
}
static uint32_t iv[80];
static int niv;
static void interesting(void)
{
	static const uint32_t x[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 64, 255, 256, 0x1fffffff, 0x20000000, 0x20000001, 0x3fffffff, 0x40000000, 0x55555555, 0x55555556, 0x7fc00000, 0x7fffffff, 0x80000000, 0xaaaaaaaa, 0xaaaaaaab, 0xfffffff8, 0xfffffffc, 0xfffffffe, 0xffffffff};
	for (niv = 0; niv < (int)(sizeof(x) / 4); niv++) iv[niv] = x[niv];
}
static void fam_word(void)
{
	m_what = "word set";
	for (m_a = 0; m_a + 4 <= (long)base_n; m_a += 4) for (m_b = 0; m_b < niv + 4; m_b++) {
		if (!mc_begin_cb(d_mut)) continue;
		uint32_t o = rd(base + m_a);
		wr(cur + m_a, m_b < niv ? iv[m_b] : m_b == niv ? o + 1 : m_b == niv + 1 ? o - 1 : m_b == niv + 2 ? o * 2 : ~o);
		try_file();
		wr(cur + m_a, o);
	}
}
static void fam_value(void)
{
	static const uint32_t data[] = {0, 1, 2, 3, 5, 27, 28, 0x1b, 0x1f, 0x3ff, 0x7fc00000, 0x80000000, 0xffffffff};
	m_what = "value set";
	for (m_a = 0; m_a + 8 <= (long)base_n; m_a += 4) for (m_b = 0; m_b < 32; m_b++) for (m_c = 0; m_c < 13; m_c++) {
		if (!mc_begin_cb(d_mut)) continue;
		wr(cur + m_a, m_b);
		wr(cur + m_a + 4, data[m_c]);
		try_file();
		memcpy(cur + m_a, base + m_a, 8);
	}
}
static void fam_off(void)
{
	static const uint64_t big[] = {UINT64_MAX, UINT64_MAX - 3, UINT64_MAX - 7, (uint64_t)1 << 63, (uint64_t)1 << 32, ((uint64_t)1 << 32) - 1, (uint64_t)INT64_MAX - 31, (uint64_t)-32, (uint64_t)-64};
	m_what = "64-bit offset set";
	for (m_a = 32; m_a + 8 <= (long)base_n && m_a < 32 + 8 * 12; m_a += 8) for (m_b = 0; m_b < (long)base_n + 12 + 9; m_b++) {
		if (!mc_begin_cb(d_mut)) continue;
		uint64_t x = m_b < (long)base_n + 12 ? (uint64_t)m_b : big[m_b - base_n - 12];
		memcpy(cur + m_a, &x, 8);
		try_file();
		memcpy(cur + m_a, base + m_a, 8);
	}
}
static void fam_pair(int full)
{
	static const uint32_t few[] = {0, 1, 2, 3, 9, 16, 19, 0xffffffff, 0x80000000, 0x55555556};
	static const uint32_t many[] = {0, 1, 2, 3, 4, 7, 9, 10, 11, 12, 16, 17, 18, 19, 20, 22, 29, 64, 0x7fc00000, 0x55555556, 0x80000000, 0xaaaaaaab, 0xfffffffc, 0xffffffff};
	const uint32_t* w = full ? many : few;
	int nw = full ? 24 : 10;
	m_what = "two words set";
	for (m_a = 0; m_a + 4 <= (long)base_n; m_a += 4) for (m_c = m_a + 4; m_c + 4 <= (long)base_n; m_c += 4)
		for (m_b = 0; m_b < nw; m_b++) for (m_d = 0; m_d < nw; m_d++) {
			if (!mc_begin_cb(d_mut)) continue;
			wr(cur + m_a, w[m_b]);
			wr(cur + m_c, w[m_d]);
			try_file();
			memcpy(cur + m_a, base + m_a, 4);
			memcpy(cur + m_c, base + m_c, 4);
		}
}

/* -- built files ----------------------------------------------------------- */
typedef struct { uint32_t t, d; } R;
#define MAXB 400000
static R root;
static struct { int typed; uint32_t n, cnt; R* r; } vec[MAXB];   /* cnt: the count written */
static struct { uint32_t n; R h, k, v; } sets[4], maps[MAXB];
static int nvec, nset, nmap, use_str, use_bv;

static void put(const void* x, size_t n) { memcpy(cur + cur_n, x, n); cur_n += n; }
static void put32(uint32_t x) { put(&x, 4); }
static void putr(R r) { put32(r.t); put32(r.d); }
static size_t cur_cap;
static void build(void)
{
	int i;
	uint32_t j;
	size_t need = 4096;
	for (i = 0; i < nvec; i++) need += 32 + 8 * (size_t)vec[i].n;
	need += 64 * (size_t)(nmap + nset);
	if (need > cur_cap) { cur = realloc(cur, need); cur_cap = need; }
	cur_n = 0;
	putr(root);
	put32(use_str ? 2 : 0); put32(nvec); put32(use_bv); put32(nset); put32(nmap); put32(2);
	size_t off = cur_n, heap = cur_n + 8 * ((use_str ? 2 : 0) + nvec + use_bv + nset + nmap);
	uint64_t x;
	cur_n = heap;
#define OFF() (x = cur_n - heap, memcpy(cur + off, &x, 8), off += 8)
	if (use_str) {
		/* readable both as 8-bit and as 32-bit characters */
		OFF(); put32(1); put32('a'); put32(0);
		OFF(); put32(2); put("ab\0\0", 4);
	}
	for (i = 0; i < nvec; i++) {
		OFF();
		put32(vec[i].cnt);
		if (vec[i].typed) for (j = 0; j < vec[i].n; j++) put32(vec[i].r[j].d);
		else for (j = 0; j < vec[i].n; j++) putr(vec[i].r[j]);
	}
	if (use_bv) { OFF(); put32(40); put("\1\2\3\4\5\0\0", 8); }
	for (i = 0; i < nset; i++) { OFF(); put32(sets[i].n); put32(0); putr(sets[i].h); putr(sets[i].k); }
	for (i = 0; i < nmap; i++) { OFF(); put32(maps[i].n); put32(0); putr(maps[i].h); putr(maps[i].k); putr(maps[i].v); }
}
static char g_descr[900];
static void show_r(char* o, R r)
{
	static const char* nm[] = {"V", "H", "i8-", "u8-", "i16-", "u16-", "i32-", "u32-", "f-", "EMPTYVEC", "uni", "bits", "bits0-", "bits1-", "bits01-", "bits10-", "packed-", "set", "map", "FREE", "i", "u", "float", "bool", "null", "i64-", "u64-", "?27-", "?28-", "str"};
	sprintf(o + strlen(o), "%s%u ", r.t < 30 ? nm[r.t] : "?", r.d);
}
static void d_graph(char* o, size_t n)
{
	g_descr[0] = 0;
	strcat(g_descr, "root ");
	show_r(g_descr, root);
	for (int i = 0; i < nvec && i < 8; i++) {
		sprintf(g_descr + strlen(g_descr), "| vec%d(%u) ", i, vec[i].cnt);
		for (uint32_t j = 0; j < vec[i].n && j < 6; j++) show_r(g_descr, vec[i].r[j]);
	}
	for (int i = 0; i < nset && i < 3; i++) { sprintf(g_descr + strlen(g_descr), "| set%d n=%u ", i, sets[i].n); show_r(g_descr, sets[i].h); show_r(g_descr, sets[i].k); }
	for (int i = 0; i < nmap && i < 3; i++) { sprintf(g_descr + strlen(g_descr), "| map%d n=%u ", i, maps[i].n); show_r(g_descr, maps[i].h); show_r(g_descr, maps[i].k); show_r(g_descr, maps[i].v); }
	snprintf(o, n, "%s", g_descr);
}

/* hash of a reference in the file being built, as the library computes it;
   0 when it would not come to an end */
static int acyclic(R r, int depth)
{
	if (r.t != POINTLESS_VECTOR_VALUE_HASHABLE) return 1;
	if (depth > 12 || r.d >= (uint32_t)nvec || vec[r.d].typed || vec[r.d].cnt != vec[r.d].n) return 0;
	for (uint32_t i = 0; i < vec[r.d].n; i++) if (!acyclic(vec[r.d].r[i], depth + 1)) return 0;
	return 1;
}
static int sane(R r, int depth)   /* can the library read it without validation */
{
	switch (r.t) {
	case POINTLESS_STRING_: case POINTLESS_UNICODE_: return use_str && r.d < 2 && !(r.t == POINTLESS_UNICODE_ && r.d == 1);
	case POINTLESS_BITVECTOR: return use_bv && r.d == 0;
	case POINTLESS_BITVECTOR_0: case POINTLESS_BITVECTOR_1: return r.d < 1000;
	case POINTLESS_BITVECTOR_PACKED: return (r.d & 31) <= 27;
	case POINTLESS_VECTOR_EMPTY: return r.d == 0;
	case POINTLESS_VECTOR_VALUE_HASHABLE:
		if (!acyclic(r, 0)) return 0;
		for (uint32_t i = 0; i < vec[r.d].n; i++) if (!sane(vec[r.d].r[i], depth + 1)) return 0;
		return 1;
	case POINTLESS_VECTOR_U32: return r.d < (uint32_t)nvec && vec[r.d].typed && vec[r.d].cnt == vec[r.d].n;
	case POINTLESS_I32: case POINTLESS_U32: case POINTLESS_FLOAT: case POINTLESS_BOOLEAN: case POINTLESS_NULL: case POINTLESS_EMPTY_SLOT: return 1;
	}
	return 0;
}
static void repair(int hv, int kv)   /* hash vector hv from key vector kv */
{
	pointless_t p;
	const char* e = 0;
	build();
	if (!pointless_open_b_skip_validate(&p, cur, cur_n, &e)) return;
	for (uint32_t i = 0; i < vec[hv].n && i < vec[kv].n; i++) {
		R r = vec[kv].r[i];
		vec[hv].r[i].d = 0;
		if (!sane(r, 0)) continue;
		pointless_value_t v;
		v.type = r.t;
		v.data.data_u32 = r.d;
		if (pointless_is_hashable_reader(&p, &v)) vec[hv].r[i].d = pointless_hash_reader_32(&p, &v);
	}
	pointless_close(&p);
	build();
}
static R mk(uint32_t t, uint32_t d) { R r = {t, d}; return r; }
#define VV(i) mk(POINTLESS_VECTOR_VALUE, i)
#define VH(i) mk(POINTLESS_VECTOR_VALUE_HASHABLE, i)
#define ST(i) mk(POINTLESS_SET_VALUE, i)
#define MP(i) mk(POINTLESS_MAP_VALUE_VALUE, i)
#define I(i) mk(POINTLESS_I32, i)
#define EMPTYSLOT mk(POINTLESS_EMPTY_SLOT, 0)
static R pool[8][8];

/* vectors only: all files with three (or two) vectors of up to two items */
static void fam_vectors(int nvecs, int ref_kinds, int part, int parts)
{
	R u[16];
	int nu = 0, total, code[3], i;
	for (i = 0; i < nvecs; i++) { u[nu++] = VV(i); u[nu++] = VH(i); }
	u[nu++] = I(7);
	if (ref_kinds) { u[nu++] = EMPTYSLOT; u[nu++] = VV(nvecs); }
	total = 1 + nu + nu * nu;
	nvec = nvecs; nset = nmap = use_str = use_bv = 0;
	for (i = 0; i < 3; i++) { vec[i].typed = 0; vec[i].r = pool[i]; }
	for (code[0] = 0; code[0] < total; code[0]++) {
		if (code[0] % parts != part) continue;
		for (code[1] = 0; code[1] < total; code[1]++) for (code[2] = 0; code[2] < (nvecs > 2 ? total : 1); code[2]++) for (int rt = 0; rt < 2; rt++) {
			if (!mc_begin_cb(d_graph)) continue;
			root = rt ? VH(0) : VV(0);
			for (i = 0; i < 3; i++) {
				int c = code[i];
				if (c == 0) vec[i].n = 0;
				else if (c <= nu) { vec[i].n = 1; pool[i][0] = u[c - 1]; }
				else { vec[i].n = 2; pool[i][0] = u[(c - 1 - nu) / nu]; pool[i][1] = u[(c - 1 - nu) % nu]; }
				vec[i].cnt = vec[i].n;
			}
			build();
			try_file();
		}
	}
}

/* one set (and optionally one map): headers, buckets and keys */
static const uint32_t counts[] = {0, 1, 2, 3, 4, 0x2aaaaaab, 0x55555555, 0x55555556, 0x7fffffff, 0x80000000, 0xaaaaaaaa, 0xaaaaaaab, 0xffffffff};
static R keys[40];
static int nkeys;
static void key_universe(int all)
{
	float nan = NAN;
	uint32_t nb;
	memcpy(&nb, &nan, 4);
	nkeys = 0;
	use_str = 1;
	use_bv = 1;
	keys[nkeys++] = EMPTYSLOT;
	keys[nkeys++] = I(0);
	keys[nkeys++] = I(2);
	keys[nkeys++] = VH(0);
	keys[nkeys++] = VV(0);
	keys[nkeys++] = ST(0);
	keys[nkeys++] = MP(0);
	keys[nkeys++] = mk(POINTLESS_FLOAT, nb);
	keys[nkeys++] = mk(POINTLESS_STRING_, 0);
	keys[nkeys++] = mk(POINTLESS_UNICODE_, 0);
	keys[nkeys++] = VH(1);
	if (!all) return;
	keys[nkeys++] = mk(POINTLESS_UNICODE_, 1);
	keys[nkeys++] = mk(POINTLESS_NULL, 0);
	keys[nkeys++] = mk(POINTLESS_BOOLEAN, 1);
	keys[nkeys++] = mk(POINTLESS_VECTOR_EMPTY, 0);
	keys[nkeys++] = mk(POINTLESS_VECTOR_U32, 2);
	keys[nkeys++] = mk(POINTLESS_BITVECTOR, 0);
	keys[nkeys++] = mk(POINTLESS_BITVECTOR_PACKED, (5 << 5) | 3);
	keys[nkeys++] = mk(POINTLESS_BITVECTOR_PACKED, 31);
	keys[nkeys++] = mk(POINTLESS_EMPTY_SLOT, 1);
	keys[nkeys++] = mk(27, 0);
	keys[nkeys++] = mk(99, 0);
	keys[nkeys++] = VH(9);
}
/* vec0: a vector which can be a key; vec1: the keys; vec2: the hashes; vec3: the values */
static void fam_set(int map, int all, int part, int parts)
{
	int a, b, c0, i, hk;
	uint32_t nb;
	key_universe(all);
	nvec = map ? 4 : 3;
	nset = 1; nmap = 1;
	vec[0].typed = 0; vec[0].r = pool[0];
	vec[1].typed = 0; vec[1].r = pool[1];
	vec[2].typed = 1; vec[2].r = pool[2];
	vec[3].typed = 0; vec[3].r = pool[3];
	sets[0].n = maps[0].n = 0;
	/* shape of vec0: none, one item of each kind */
	for (c0 = 0; c0 <= nkeys; c0++) {
		if (c0 % parts != part) continue;
		vec[0].n = vec[0].cnt = c0 ? 1 : 0;
		if (c0) pool[0][0] = keys[c0 - 1];
		for (nb = 1; nb <= 4; nb <<= 1) for (a = 0; a < nkeys; a++) for (b = 0; b < (nb > 1 ? nkeys : 1); b++) for (int pos = 0; pos < (nb == 4 ? 4 : 1); pos++)
		for (int sh = 0; sh < 13; sh++) for (hk = 0; hk < 7; hk++) {
			/* header variants only with the basic contents */
			if (sh > 3 && hk) continue;
			if (c0 > 1 && (sh > 2 || hk)) continue;
			for (i = 0; i < (map ? 4 : 1); i++) {
				if (c0 > 1 && i > 1) continue;
				if (!mc_begin_cb(d_graph)) continue;
				vec[1].n = vec[1].cnt = vec[2].n = vec[2].cnt = vec[3].n = vec[3].cnt = nb;
				for (uint32_t j = 0; j < 4; j++) { pool[1][j] = EMPTYSLOT; pool[2][j] = mk(0, 0); pool[3][j] = EMPTYSLOT; }
				if (nb == 4) { pool[1][pos] = keys[a]; pool[1][(pos + 1 + (pos & 1)) & 3] = keys[b]; }
				else { pool[1][0] = keys[a]; pool[1][1] = keys[b]; }
				R hv = mk(POINTLESS_VECTOR_U32, 2), kv = VH(1), vals = VV(3);
				if (hk == 1) kv = VV(1);
				if (hk == 2) kv = VH(0);
				if (hk == 3) hv = VH(1);
				if (hk == 4) hv = mk(POINTLESS_VECTOR_EMPTY, 0);
				if (hk == 5) kv = mk(POINTLESS_VECTOR_EMPTY, 0);
				if (hk == 6) hv = mk(POINTLESS_VECTOR_U32, 1);
				if (map) {
					maps[0].n = counts[sh]; maps[0].h = hv; maps[0].k = kv;
					/* the values mirror the keys' empty slots, with variants */
					for (uint32_t j = 0; j < nb; j++) if (pool[1][j].t != POINTLESS_EMPTY_SLOT) pool[3][j] = i == 0 ? I(5) : i == 1 ? MP(0) : i == 2 ? EMPTYSLOT : VH(3);
					if (i == 3) vals = VH(3);
					maps[0].v = vals;
					root = MP(0);
					sets[0].n = 0; sets[0].h = mk(POINTLESS_VECTOR_EMPTY, 0); sets[0].k = VH(0);
				} else {
					sets[0].n = counts[sh]; sets[0].h = hv; sets[0].k = kv;
					root = ST(0);
					maps[0].n = 0; maps[0].h = mk(POINTLESS_VECTOR_U32, 2); maps[0].k = VH(1); maps[0].v = VV(1);
				}
				repair(2, 1);
				try_file();
			}
		}
	}
}

/* ordinary values of every kind at every place where one may stand */
static void fam_places(void)
{
	key_universe(1);
	for (int a = 0; a < nkeys; a++) for (int b = 0; b < nkeys; b++) for (int place = 0; place < 4; place++) {
		if (!mc_begin_cb(d_graph)) continue;
		nvec = 4; nset = 1; nmap = 1;
		for (int j = 0; j < 4; j++) { vec[j].typed = 0; vec[j].r = pool[j]; vec[j].n = vec[j].cnt = 2; pool[j][0] = pool[j][1] = I(1); }
		vec[2].typed = 1;
		sets[0].n = 0; sets[0].h = mk(POINTLESS_VECTOR_EMPTY, 0); sets[0].k = VH(0);
		maps[0].n = 1; maps[0].h = mk(POINTLESS_VECTOR_U32, 2); maps[0].k = VH(1); maps[0].v = VV(3);
		pool[1][0] = EMPTYSLOT; pool[1][1] = I(1); pool[3][0] = EMPTYSLOT;
		pool[0][0] = keys[a]; pool[0][1] = keys[b];
		if (place == 0) root = VV(0);
		if (place == 1) root = VH(0);
		if (place == 2) { root = MP(0); pool[3][1] = keys[a]; }
		if (place == 3) { root = keys[a]; pool[0][0] = keys[b]; }
		repair(2, 1);
		try_file();
	}
}

/* long chains; the order of the items decides in which order a depth-first walk sees them */
static const int depths[] = {1, 2, 3, 100, 126, 127, 128, 129, 170, 171, 254, 255, 256, 257, 340, 341, 342, 510, 511, 512, 513, 514, 1000, 1023, 1024, 1025, 5000, 20000, 100000, 300000};
static R* big;
static int c_kind, c_order, c_depth;
static void d_chain(char* o, size_t n)
{
	static const char* kn[] = {"vectors", "hashable vectors", "maps by value", "hashable vectors under a set key", "maps and vectors", "hashable vectors in a value vector"};
	static const char* on[] = {"top first", "every one listed in the root, bottom first", "every one listed in the root, top first"};
	snprintf(o, n, "chain of %d %s, %s", c_depth, kn[c_kind], on[c_order]);
}
static void fam_chain(int only)
{
	big = realloc(big, sizeof(R) * (size_t)(MAXB * 2));
	for (c_kind = 0; c_kind < 6; c_kind++) for (c_order = 0; c_order < 3; c_order++) for (unsigned di = 0; di < sizeof(depths) / sizeof(depths[0]); di++) {
		c_depth = depths[di];
		if ((int)((c_kind * 3 + c_order) * 30 + di) % 24 != only) continue;
		if (!mc_begin_cb(d_chain)) continue;
		int n = c_depth, i, hashable = c_kind == 1 || c_kind == 3 || c_kind == 5;
		light = n > 600;
		nset = nmap = use_str = use_bv = 0;
		if (c_kind == 2 || c_kind == 4) {
			/* map i -> value vector i -> map i+1; one shared key and hash vector */
			nmap = n; nvec = n + 3;
			for (i = 0; i < n; i++) {
				maps[i].n = 1; maps[i].h = mk(POINTLESS_VECTOR_U32, n); maps[i].k = VH(n + 1); maps[i].v = VV(i);
				vec[i].typed = 0; vec[i].n = vec[i].cnt = 2; vec[i].r = big + 2 * i;
				big[2 * i] = i + 1 < n ? MP(i + 1) : I(1);
				big[2 * i + 1] = EMPTYSLOT;
			}
			vec[n].typed = 1; vec[n].n = vec[n].cnt = 2; vec[n].r = pool[0]; pool[0][0] = I(0); pool[0][1] = I(0);
			vec[n + 1].typed = 0; vec[n + 1].n = vec[n + 1].cnt = 2; vec[n + 1].r = pool[1]; pool[1][0] = I(0); pool[1][1] = EMPTYSLOT;
		} else {
			nvec = n + 3;
			for (i = 0; i < n; i++) {
				vec[i].typed = 0; vec[i].n = vec[i].cnt = 1; vec[i].r = big + i;
				big[i] = i + 1 < n ? (hashable ? VH(i + 1) : VV(i + 1)) : I(1);
			}
			vec[n].typed = 0; vec[n].n = vec[n].cnt = 0;
			vec[n + 1].typed = 0; vec[n + 1].n = vec[n + 1].cnt = 0;
		}
		R top = c_kind == 2 || c_kind == 4 ? MP(0) : hashable ? VH(0) : VV(0);
		int lv = n + 2;    /* the list of everything */
		static R* list;
		vec[lv].typed = 0; vec[lv].n = vec[lv].cnt = 0;
		root = top;
		if (c_order) {
			list = realloc(list, sizeof(R) * (size_t)n);
			for (i = 0; i < n; i++) {
				int q = c_order == 1 ? n - 1 - i : i;
				list[i] = c_kind == 2 || c_kind == 4 ? MP(q) : hashable ? VH(q) : VV(q);
			}
			vec[lv].n = vec[lv].cnt = n; vec[lv].r = list;
			root = VV(lv);
		}
		if (c_kind == 5) { if (!c_order) { static R one; one = VH(0); vec[lv].n = vec[lv].cnt = 1; vec[lv].r = &one; } root = VV(lv); }
		if (c_kind == 3) {
			/* a set with the chain as its key, after the list */
			nset = 1;
			vec[n].typed = 1; vec[n].n = vec[n].cnt = 2; vec[n].r = pool[2]; pool[2][0] = pool[2][1] = mk(0, 0);
			vec[n + 1].n = vec[n + 1].cnt = 2; vec[n + 1].r = pool[3]; pool[3][0] = pool[3][1] = EMPTYSLOT;
			/* hash of nested one-item vectors */
			uint32_t h = pointless_hash_i32_32(1);
			for (i = 0; i < n; i++) {
				pointless_vector_hash_state_32_t s;
				pointless_vector_hash_init_32(&s, 1);
				pointless_vector_hash_next_32(&s, h);
				h = pointless_vector_hash_end_32(&s);
			}
			pool[3][h & 1] = VH(0);
			pool[2][h & 1].d = h;
			sets[0].n = 1; sets[0].h = mk(POINTLESS_VECTOR_U32, n); sets[0].k = VH(n + 1);
			if (c_order) { list = realloc(list, sizeof(R) * (size_t)(n + 1)); list[n] = ST(0); vec[lv].n = vec[lv].cnt = n + 1; vec[lv].r = list; }
			else root = ST(0);
		}
		build();
		try_file();
		light = 0;
	}
}

int main(int argc, char** argv)
{
	mc_init(argc, argv);
	const char* t = mc_task();
	cap_f = stderr;
	if (!mc_describing) stdout = stderr = cap_f = open_memstream(&cap_b, &cap_n);
	devnull = fopen("/dev/null", "w");
	if (getenv("MC_DUMP")) dump = fopen(getenv("MC_DUMP"), "wb");
	interesting();
	char fam[64];
	snprintf(fam, sizeof fam, "%s", t);
	fam[strcspn(fam, " :")] = 0;
	for (m_seed = 0; seeds[m_seed] && m_seed < mc_arg(0, 0); m_seed++) {}
	long full = mc_arg(1, 0), part = mc_arg(0, 0);
	if (!strcmp(fam, "vectors")) fam_vectors(3, full, part, mc_arg(2, 1));
	else if (!strcmp(fam, "two")) fam_vectors(2, 1, part, mc_arg(2, 1));
	else if (!strcmp(fam, "set")) fam_set(0, full, part, mc_arg(2, 1));
	else if (!strcmp(fam, "map")) fam_set(1, full, part, mc_arg(2, 1));
	else if (!strcmp(fam, "places")) fam_places();
	else if (!strcmp(fam, "chain")) fam_chain(part);
	else {
		if (!seeds[m_seed]) mc_finish();
		make_base(seeds[m_seed]);
		has_tables = strchr(seeds[m_seed], '{') != 0;
		live = 0;
		if (!strcmp(fam, "trunc")) fam_trunc();
		else if (!strcmp(fam, "byte")) fam_byte();
		else if (!strcmp(fam, "word")) fam_word();
		else if (!strcmp(fam, "value")) fam_value();
		else if (!strcmp(fam, "off")) fam_off();
		else if (!strcmp(fam, "pair")) fam_pair(full);
		else { fprintf(cap_f, "unknown family %s\n", fam); mc_die("family"); }
	}
	mc_finish();
	return 0;
}
