/* C23: programs of creation calls, executed and compared with what they
   describe. All programs up to a length over several call alphabets. */
#include "val.h"
#include <pointless/pointless_reader_helpers.h>
extern size_t __sanitizer_get_current_allocated_bytes(void);

/* -- the model: one node per handle ---------------------------------------- */
#define MAXN 64
struct node {
	char k;             /* L leaf, v value vector, S set, M map */
	V* leaf;
	uint32_t n, it[40], va[40];
	uint32_t h;
};
static struct node nd[MAXN];
static int nn;

static int seen_at[MAXN];
/* 1: free of cycles, sets and maps */
static int hashable(int i, int depth)
{
	if (nd[i].k == 'L') return 1;
	if (nd[i].k != 'v' || depth > 60) return 0;
	for (uint32_t j = 0; j < nd[i].n; j++) if (!hashable(nd[i].it[j], depth + 1)) return 0;
	return 1;
}
static V* unfold(int i)
{
	if (nd[i].k == 'L') return v_copy(nd[i].leaf);
	V* v = v_new('v');
	for (uint32_t j = 0; j < nd[i].n; j++) v_push(v, unfold(nd[i].it[j]), 0);
	return v;
}
static void reach(int i)
{
	if (seen_at[i]) return;
	seen_at[i] = 1;
	if (nd[i].k == 'L') return;
	for (uint32_t j = 0; j < nd[i].n; j++) {
		reach(nd[i].it[j]);
		if (nd[i].k == 'M') reach(nd[i].va[j]);
	}
}
/* 1: the keys of this set or map cannot be honoured */
static int bad_keys(int i)
{
	if (nd[i].k != 'S' && nd[i].k != 'M') return 0;
	int bad = 0;
	V* ks[40];
	uint32_t j, l, n = nd[i].n;
	for (j = 0; j < n; j++) if (!hashable(nd[i].it[j], 0)) return 1;
	for (j = 0; j < n; j++) ks[j] = unfold(nd[i].it[j]);
	for (j = 0; j < n && !bad; j++) for (l = 0; l < j && !bad; l++) bad = v_keyeq(ks[j], ks[l]);
	for (j = 0; j < n; j++) v_free(ks[j]);
	return bad;
}
/* 0 must succeed, 1 must fail, 2 either (a bad container outside the root) */
static int expect(int root)
{
	int r = 0;
	memset(seen_at, 0, sizeof seen_at);
	reach(root);
	for (int i = 0; i < nn; i++) if (bad_keys(i)) { if (seen_at[i]) return 1; r = 2; }
	return r;
}

/* -- comparing a stored value with a node ---------------------------------- */
static pointless_t P;
static struct { int set; uint32_t type, data; } memo[MAXN];
static const char* why;
static char whyb[600];
static int differ(const char* w) { why = w; return 0; }

static int identity(int i, pointless_value_t* v)
{
	if (v->type == POINTLESS_VECTOR_EMPTY) return 1;
	for (int j = 0; j < nn; j++) if (memo[j].set && (memo[j].type == v->type && memo[j].data == v->data.data_u32) != (j == i))
		return differ(j == i ? "one container became two" : "two containers became one");
	return 1;
}
static int same(int i, pointless_value_t* v)
{
	struct node* d = &nd[i];
	if (d->k == 'L') {
		V* r = v_read(&P, v);
		int ok = v_same(d->leaf, r);
		if (!ok) { snprintf(whyb, sizeof whyb, "%s was stored as %s", v_show(d->leaf), v_show(r)); why = whyb; }
		v_free(r);
		if (ok && d->leaf->k == 't' && d->leaf->n) {
			if (v->type != d->leaf->t) return differ("a typed vector changed its type");
			int first = !memo[i].set;
			if (!identity(i, v)) return 0;
			if (first) { memo[i].set = 1; memo[i].type = v->type; memo[i].data = v->data.data_u32; }
		}
		return ok;
	}
	int known = memo[i].set;
	uint32_t n = 0, st = 0, j;
	pointless_value_t *k = 0, *w = 0;
	if (d->k == 'v') {
		if (!pointless_is_vector_type(v->type)) return differ("not a vector");
		n = pointless_reader_vector_n_items(&P, v);
		if (n != d->n) return differ("wrong length of a vector");
		if (!identity(i, v)) return 0;
		if (known) return 1;
		if (n) { memo[i].set = 1; memo[i].type = v->type; memo[i].data = v->data.data_u32; }
		if (v->type == POINTLESS_VECTOR_VALUE || v->type == POINTLESS_VECTOR_VALUE_HASHABLE) {
			for (j = 0; j < n; j++) if (!same(d->it[j], &pointless_reader_vector_value(&P, v)[j])) return 0;
			return 1;
		}
		V* r = v_read(&P, v);
		int ok = r->n == n;
		for (j = 0; j < n && ok; j++) ok = nd[d->it[j]].k == 'L' && v_same(nd[d->it[j]].leaf, r->v[j]);
		if (!ok) { snprintf(whyb, sizeof whyb, "compressed vector %s", v_show(r)); why = whyb; }
		v_free(r);
		return ok;
	}
	if (v->type != (d->k == 'S' ? POINTLESS_SET_VALUE : POINTLESS_MAP_VALUE_VALUE)) return differ("not a set/map");
	if (!identity(i, v)) return 0;
	if (known) return 1;
	memo[i].set = 1; memo[i].type = v->type; memo[i].data = v->data.data_u32;
	if ((d->k == 'S' ? pointless_reader_set_n_items(&P, v) : pointless_reader_map_n_items(&P, v)) != d->n) return differ("wrong number of entries");
	while (d->k == 'S' ? pointless_reader_set_iter(&P, v, &k, &st) : pointless_reader_map_iter(&P, v, &k, &w, &st)) {
		V* r = v_read(&P, k);
		int at = -1;
		for (j = 0; j < d->n && at < 0; j++) {
			V* m = unfold(d->it[j]);
			if (v_same(m, r)) at = j;
			v_free(m);
		}
		if (at < 0) snprintf(whyb, sizeof whyb, "key %s was not added", v_show(r));
		v_free(r);
		if (at < 0) return differ(whyb);
		if (!same(d->it[at], k)) return 0;
		const char* e = 0;
		pointless_value_t *fk = 0, *fv = 0;
		if (d->k == 'S') pointless_reader_set_lookup(&P, v, k, &fk, &e); else pointless_reader_map_lookup(&P, v, k, &fk, &fv, &e);
		if (e || fk != k || (d->k == 'M' && fv != w)) return differ("a stored key is not found");
		if (d->k == 'M' && !same(d->va[at], w)) return 0;
		if (++n > d->n) break;
	}
	if (n != d->n) return differ("iteration gives another number of entries");
	return 1;
}

/* -- programs -------------------------------------------------------------- */
struct op { int c; uint32_t a, b, d; };   /* call, operands */
enum { VEC, SET, MAP, APPEND, ADD, PUT, STORE, LEAF, TRANSFER };
static struct op prog[64];
static int np;
static V* leaves[256];     /* leaf alphabet */
static int lstyle[256];
static int nl;
static char extra_d[200];

static void show_prog(char* o, size_t n)
{
	size_t l = 0;
	int h = 0;
	o[0] = 0;
	for (int i = 0; i < np && l + 120 < n; i++) {
		struct op* p = &prog[i];
		switch (p->c) {
		case VEC: l += snprintf(o + l, n - l, "#%d=vector; ", h++); break;
		case SET: l += snprintf(o + l, n - l, "#%d=set; ", h++); break;
		case MAP: l += snprintf(o + l, n - l, "#%d=map; ", h++); break;
		case LEAF: l += snprintf(o + l, n - l, "#%d=%s%s; ", h, v_show(leaves[p->a]), lstyle[p->a] ? "'" : ""); h++; break;
		case APPEND: l += snprintf(o + l, n - l, "append(#%u,#%u); ", p->a, p->b); break;
		case ADD: l += snprintf(o + l, n - l, "add(#%u,#%u); ", p->a, p->b); break;
		case PUT: l += snprintf(o + l, n - l, "put(#%u,#%u,#%u); ", p->a, p->b, p->d); break;
		case STORE: l += snprintf(o + l, n - l, "#%u[%u]=#%u; ", p->a, p->b, p->d); break;
		case TRANSFER: l += snprintf(o + l, n - l, "#%d=transfer(#%u,#%u); ", h++, p->a, p->b); break;
		}
	}
	snprintf(o + l, n - l, "%s", extra_d);
}

static int apply(pointless_create_t* c, struct op* p)
{
	struct node* d = &nd[nn];
	uint32_t h, *t;
	switch (p->c) {
	case VEC: case SET: case MAP:
		memset(d, 0, sizeof *d);
		d->k = p->c == VEC ? 'v' : p->c == SET ? 'S' : 'M';
		d->h = p->c == VEC ? pointless_create_vector_value(c) : p->c == SET ? pointless_create_set(c) : pointless_create_map(c);
		nn++;
		return d->h != POINTLESS_CREATE_VALUE_FAIL;
	case LEAF:
		memset(d, 0, sizeof *d);
		d->k = 'L';
		d->leaf = leaves[p->a];
		d->h = v_create(c, d->leaf, lstyle[p->a]);
		nn++;
		return d->h != POINTLESS_CREATE_VALUE_FAIL;
	case TRANSFER:
		memset(d, 0, sizeof *d);
		d->k = 'v';
		d->n = 2;
		d->it[0] = p->a; d->it[1] = p->b;
		d->h = pointless_create_vector_value(c);
		nn++;
		if (d->h == POINTLESS_CREATE_VALUE_FAIL) return 0;
		t = pointless_malloc(8);
		t[0] = nd[p->a].h; t[1] = nd[p->b].h;
		return pointless_create_vector_value_transfer(c, d->h, t, 2) == d->h;
	case APPEND:
		h = pointless_create_vector_value_append(c, nd[p->a].h, nd[p->b].h);
		nd[p->a].it[nd[p->a].n++] = p->b;
		return h == nd[p->a].h;
	case ADD:
		h = pointless_create_set_add(c, nd[p->a].h, nd[p->b].h);
		nd[p->a].it[nd[p->a].n++] = p->b;
		return h == nd[p->a].h;
	case PUT:
		h = pointless_create_map_add(c, nd[p->a].h, nd[p->b].h, nd[p->d].h);
		nd[p->a].it[nd[p->a].n] = p->b;
		nd[p->a].va[nd[p->a].n++] = p->d;
		return h == nd[p->a].h;
	case STORE:
		pointless_create_vector_value_set(c, nd[p->a].h, p->b, nd[p->d].h);
		nd[p->a].it[p->b] = p->d;
		return 1;
	}
	return 0;
}

static char tmpname[200];
static int to_file;
static void check_root(void* buf, size_t len, int root)
{
	const char* e = 0;
	if (!pointless_open_b(&P, buf, len, &e)) { mc_violation("the result cannot be opened", "%s", e); return; }
	memset(memo, 0, sizeof memo);
	why = 0;
	if (!same(root, pointless_root(&P))) mc_violation("the file does not hold what was described", "%s", why);
	pointless_close(&P);
}
/* run the program with this root; the model is left as the program built it */
static void run(int root)
{
	pointless_create_t c;
	void* buf = 0;
	size_t len = 0;
	const char* error = 0;
	int mark = v_nkeep;
	size_t before = __sanitizer_get_current_allocated_bytes();
	nn = 0;
	pointless_create_begin_64(&c);
	for (int i = 0; i < np; i++) if (!apply(&c, &prog[i])) { mc_violation("a creation call failed", "call %d", i); pointless_create_end(&c); v_release(mark); return; }
	pointless_create_set_root(&c, nd[root].h);
	int want = expect(root);
	int ok = pointless_create_output_and_end_b(&c, &buf, &len, &error);
	v_release(mark);
	mc_count("executions", 1);
	if (ok) {
		if (want == 1) mc_violation("keys which are equal or not hashable were accepted", "root #%d", root);
		else check_root(buf, len, root);
	} else {
		if (want == 0) mc_violation("a sound program was refused", "root #%d: %s", root, error);
		if (!error) mc_violation("failure without an error", "root #%d", root);
		mc_count("refused", 1);
	}
	if (ok && to_file) {
		/* the same calls again, into a file */
		nn = 0;
		error = 0;
		pointless_create_begin_64(&c);
		for (int i = 0; i < np; i++) apply(&c, &prog[i]);
		pointless_create_set_root(&c, nd[root].h);
		if (!pointless_create_output_and_end_f(&c, tmpname, &error)) mc_violation("writing to a file failed", "%s", error);
		else {
			FILE* f = fopen(tmpname, "rb");
			char* b = malloc(len + 16);
			size_t n = fread(b, 1, len + 16, f);
			fclose(f);
			if (n != len || memcmp(b, buf, n) != 0) mc_violation("the file differs from the buffer", "%zu and %zu bytes", n, len);
			free(b);
			unlink(tmpname);
			mc_count("files", 1);
		}
		v_release(mark);
	}
	if (ok) pointless_free(buf);
	size_t after = __sanitizer_get_current_allocated_bytes();
	if (after != before) mc_violation(ok ? "memory is left behind" : "memory is left behind by a refused output", "%zd bytes", (ssize_t)(after - before));
}

static void descr(char* o, size_t n) { show_prog(o, n); }

/* containers: all programs of container calls over a few leaves */
static int depth_max, part, parts;
static uint64_t seq;
static void walk(int depth, int nv, char* kinds, uint32_t* sizes)
{
	/* execute: every container as the root */
	if (depth > 1 || (depth == 1 && part == 0)) {
		if (mc_begin_cb(descr)) {
			mc_nontrivial();
			mc_count("states", 1);
			mc_count("transitions", 1);
			mc_count("traces", 1);
			for (int r = 0; r < nv; r++) if (kinds[r] != 'L') run(r);
		}
	}
	if (depth >= depth_max) return;
	struct op* p = &prog[np++];
#define STEP(...) do { *p = (struct op){ __VA_ARGS__ }; if (depth != 1 || (int)(seq++ % parts) == part) walk(depth + 1, nv, kinds, sizes); } while (0)
	int nc = 0;
	for (int i = 0; i < nv; i++) nc += kinds[i] != 'L';
	if (nc < 3) for (int k = VEC; k <= MAP; k++) {
		kinds[nv] = k == VEC ? 'v' : k == SET ? 'S' : 'M';
		sizes[nv] = 0;
		nv++;
		STEP(k, 0, 0, 0);
		nv--;
	}
	for (int a = 0; a < nv; a++) {
		sizes[a]++;
		if (kinds[a] == 'v') for (int b = 0; b < nv; b++) STEP(APPEND, a, b, 0);
		if (kinds[a] == 'S') for (int b = 0; b < nv; b++) STEP(ADD, a, b, 0);
		if (kinds[a] == 'M') for (int b = 0; b < nv; b++) for (int d = 0; d < nv; d++) STEP(PUT, a, b, d);
		sizes[a]--;
		if (kinds[a] == 'v') for (uint32_t i = 0; i < sizes[a]; i++) for (int d = 0; d < nv; d++) STEP(STORE, a, i, d);
	}
	np--;
}

static void leaf(const char* t, int style) { leaves[nl] = v_parse(t); lstyle[nl++] = style; }
#define L(x) (prog[np++] = (struct op){ LEAF, x, 0, 0 })
#define O(c, a, b, d) (prog[np++] = (struct op){ c, a, b, d })

static void all_leaves(void)
{
	static const char* t[] = { "~", "T", "F", "0", "1", "1u", "-1", "255", "256", "-128", "-129", "65535", "65536", "-32769", "2147483647", "2147483647u", "2147483648u", "4294967295u", "-2147483648",
		"0f", "-0f", "1f", "1.5f", "inff", "-inff", "4294967296f", "''", "'a'", "'ab'", "'\\xff;'", "\"\\u100;\"", "\"a\"", "\"\"", "\"\\U10ffff;\"", "\"\\xff;\\u100;\"",
		"<>", "<0>", "<1>", "<01>", "<10>", "<110>", "<000000000000000000000000001>", "<0000000000000000000000000001>", "<1111111111111111111111111110>", "<0101010101010101010101010101>", "<0111111111111111111111111111111111111110>", "<0111111111111111111111111111111111111101>",
		"#i8[]", "#i8[1]", "#u8[1]", "#u8[1 2 3]", "#i16[-1]", "#u16[65535]", "#i32[1]", "#u32[1]", "#i64[-1]", "#i64[-9223372036854775808]", "#u64[1]", "#u64[18446744073709551615]", "#f[1f]", "#f[]", 0 };
	for (int i = 0; t[i]; i++) leaf(t[i], 0);
	/* the same through other calls */
	for (int i = 0; t[i]; i++) {
		if (t[i][0] == '#') leaf(t[i], VS_OWNER);
		if (t[i][0] == '\'') { leaf(t[i], VS_SRC); leaf(t[i], VS_WIDE); leaf(t[i], VS_WIDE | VS_SRC); }
		if (t[i][0] == '"') leaf(t[i], VS_SRC);
		if (t[i][0] == '<' && strlen(t[i]) > 28) leaf(t[i], VS_RAWBITS);
	}
}

static void one(int root) { if (mc_begin_cb(descr)) { mc_nontrivial(); mc_count("states", 1); mc_count("transitions", np); mc_count("traces", 1); run(root); } np = 0; }

/* every pair (or triple) of leaf calls in every simple container */
static void do_pairs(void)
{
	for (int a = 0; a < nl; a++) for (int b = 0; b < nl; b++) {
		if ((a * nl + b) % parts != part) continue;
		np = 0;
		L(a); L(b);
		O(VEC, 0, 0, 0); O(APPEND, 2, 0, 0); O(APPEND, 2, 1, 0); O(APPEND, 2, 0, 0); one(2);
		L(a); L(b);
		O(VEC, 0, 0, 0); O(VEC, 0, 0, 0); O(APPEND, 2, 0, 0); O(APPEND, 3, 1, 0); O(APPEND, 2, 3, 0); O(APPEND, 2, 3, 0); one(2);
		L(a); L(b);
		O(SET, 0, 0, 0); O(ADD, 2, 0, 0); O(ADD, 2, 1, 0); one(2);
		L(a); L(b);
		O(MAP, 0, 0, 0); O(PUT, 2, 0, 1); O(MAP, 0, 0, 0); O(PUT, 3, 1, 2); one(3);
		L(a); L(b);
		O(TRANSFER, 0, 1, 0); O(TRANSFER, 1, 0, 0); O(SET, 0, 0, 0); O(ADD, 4, 2, 0); O(ADD, 4, 3, 0); O(ADD, 4, 0, 0); O(ADD, 4, 1, 0); one(4);
		L(a); L(b);
		O(VEC, 0, 0, 0); O(APPEND, 2, 0, 0); O(VEC, 0, 0, 0); O(APPEND, 3, 1, 0); O(MAP, 0, 0, 0); O(PUT, 4, 2, 3); O(PUT, 4, 3, 4); O(APPEND, 2, 0, 0); one(4);
		L(a); L(b); one(1);
	}
}
static void do_triples(int sub)
{
	int n = nl < sub ? nl : sub;
	for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) for (int c = 0; c < n; c++) {
		if ((a * n + b) % parts != part) continue;
		np = 0;
		L(a); L(b); L(c);
		O(VEC, 0, 0, 0); O(APPEND, 3, 0, 0); O(APPEND, 3, 1, 0); O(APPEND, 3, 2, 0); one(3);
		L(a); L(b); L(c);
		O(SET, 0, 0, 0); O(ADD, 3, 0, 0); O(ADD, 3, 1, 0); O(ADD, 3, 2, 0); one(3);
	}
}
/* neighbours of every size: typed vectors, strings and bitvectors next to each other */
static void do_sizes(int max)
{
	char b[3000];
	for (int t = 0; t < V_NTYPES + 3; t++) for (int n = 0; n <= max; n++) for (int style = 0; style < 2; style++) {
		int l0 = nl;
		size_t l = 0;
		if (t < V_NTYPES) {
			l += sprintf(b, "#%s[", v_types[t].name);
			for (int i = 0; i < n; i++) l += sprintf(b + l, t == 8 ? "%d.5f " : i % 5 == 4 && t % 2 == 0 ? "-%d " : "%d ", i % 100);
			sprintf(b + l, "]");
			leaf(b, style ? VS_OWNER : 0);
		} else {
			char q = t == V_NTYPES ? '\'' : t == V_NTYPES + 1 ? '"' : '<';
			b[l++] = q;
			for (int i = 0; i < n; i++) b[l++] = q == '<' ? "0110100110010110"[i % 16] : 'a' + i % 26;
			b[l++] = q == '<' ? '>' : q; b[l] = 0;
			leaf(b, style ? (q == '<' ? VS_RAWBITS : VS_SRC) : 0);
		}
		leaf("'x'", 0); leaf("#u8[7]", VS_OWNER); leaf("#i16[7]", 0); leaf("<0101010101010101010101010101010>", 0);
		np = 0;
		L(l0); L(l0 + 1); L(l0 + 2); L(l0 + 3); L(l0 + 4); L(l0);
		O(SET, 0, 0, 0); O(ADD, 6, 0, 0); O(ADD, 6, 1, 0);
		O(MAP, 0, 0, 0); O(PUT, 7, 0, 0);
		O(VEC, 0, 0, 0); for (int i = 0; i < 8; i++) O(APPEND, 8, i, 0);
		one(8);
		while (nl > l0) v_free(leaves[--nl]);
	}
}
/* integers through the cached range and around it, in one file */
static void do_ints(void)
{
	for (int kind = 0; kind < 4; kind++) {
		snprintf(extra_d, sizeof extra_d, "all integers -700 to 5000, twice, form %d", kind);
		if (!mc_begin_cb(descr)) continue;
		mc_nontrivial();
		pointless_create_t c;
		pointless_create_begin_64(&c);
		uint32_t root = pointless_create_vector_value(&c), s = pointless_create_set(&c);
		pointless_create_vector_value_append(&c, root, s);
		int n = 1;
		for (int rep = 0; rep < 2; rep++) for (int i = kind == 1 ? 0 : -700; i <= 5000; i++) {
			uint32_t h = kind == 0 || (kind > 1 && (i < 0 || (i + rep) % 2)) ? pointless_create_i32(&c, i) : pointless_create_u32(&c, i);
			pointless_create_vector_value_append(&c, root, h);
			n++;
			if (rep == 0 || kind == 3) pointless_create_set_add(&c, s, h);
		}
		pointless_create_set_root(&c, root);
		void* buf = 0; size_t len = 0; const char* e = 0;
		int ok = pointless_create_output_and_end_b(&c, &buf, &len, &e);
		if (ok != (kind != 3)) { mc_violation("integers", "%s", e ? e : "accepted"); continue; }
		if (!ok) continue;
		if (!pointless_open_b(&P, buf, len, &e)) { mc_violation("the result cannot be opened", "%s", e); continue; }
		pointless_value_t* r = pointless_root(&P);
		if ((int)pointless_reader_vector_n_items(&P, r) != n) mc_violation("wrong length", "%u", pointless_reader_vector_n_items(&P, r));
		int at = 1;
		for (int rep = 0; rep < 2; rep++) for (int i = kind == 1 ? 0 : -700; i <= 5000; i++, at++) {
			pointless_value_t* v = &pointless_reader_vector_value(&P, r)[at], *k = 0;
			if (pointless_get_int_as_int64(v->type, &v->data) != i) { mc_violation("wrong integer", "%d", i); break; }
			pointless_reader_set_lookup(&P, &pointless_reader_vector_value(&P, r)[0], v, &k, &e);
			if (!k || pointless_get_int_as_int64(k->type, &k->data) != i) { mc_violation("integer not in its set", "%d", i); break; }
		}
		pointless_close(&P);
		pointless_free(buf);
	}
	extra_d[0] = 0;
}

/* calls which cannot be honoured, and odd but sound ones */
static int xs_want; static const char* xs_e; static size_t xs_before;
static int begin_x(const char* d) { snprintf(extra_d, sizeof extra_d, "%s", d); np = 0; if (!mc_begin_cb(descr)) return 0; mc_nontrivial(); xs_before = __sanitizer_get_current_allocated_bytes(); return 1; }
static void end_x(void) { size_t a = __sanitizer_get_current_allocated_bytes(); if (a != xs_before) mc_violation("memory is left behind", "%zd bytes", (ssize_t)(a - xs_before)); }
static V* out(pointless_create_t* c)
{
	void* buf = 0; size_t len = 0; const char* e = 0;
	xs_e = 0;
	if (!pointless_create_output_and_end_b(c, &buf, &len, &e)) { xs_e = e ? e : "(none)"; return 0; }
	if (!pointless_open_b(&P, buf, len, &e)) { mc_violation("the result cannot be opened", "%s", e); pointless_free(buf); return 0; }
	V* r = v_read(&P, pointless_root(&P));
	pointless_close(&P);
	pointless_free(buf);
	return r;
}
static void want(V* r, const char* text)
{
	if (!text) { if (r) mc_violation("an output which cannot be honoured succeeded", "%s", v_show(r)); else if (!xs_e) mc_violation("failure without an error", "-"); }
	else {
		V* w = v_parse(text);
		if (!r) mc_violation("a sound program was refused", "%s", xs_e); else if (!v_same(r, w)) mc_violation("the file does not hold what was described", "%s", v_show(r));
		v_free(w);
	}
	if (r) v_free(r);
}
static void do_misuse(void)
{
	pointless_create_t c;
	uint32_t v, s, m, a, *t;
	const uint32_t F = POINTLESS_CREATE_VALUE_FAIL;
	const char* e = 0;
	if (begin_x("output without a root")) { pointless_create_begin_64(&c); v = pointless_create_vector_value(&c); pointless_create_vector_value_append(&c, v, v); want(out(&c), 0); end_x(); }
	if (begin_x("output without any value")) { pointless_create_begin_64(&c); want(out(&c), 0); end_x(); }
	if (begin_x("output to a file without a root")) { pointless_create_begin_64(&c); v = pointless_create_vector_value(&c); pointless_create_vector_value_append(&c, v, v); if (pointless_create_output_and_end_f(&c, tmpname, &e) || access(tmpname, F_OK) == 0) mc_violation("succeeded", "-"); end_x(); }
	if (begin_x("32-bit offsets to a buffer")) { pointless_create_begin_32(&c); v = pointless_create_vector_value(&c); pointless_create_vector_value_append(&c, v, pointless_create_i32(&c, 1)); pointless_create_set_root(&c, v); V* r = out(&c); if (r) want(r, "[1]"); end_x(); }
	if (begin_x("32-bit offsets to a file")) { pointless_create_begin_32(&c); v = pointless_create_vector_value(&c); pointless_create_vector_value_append(&c, v, pointless_create_i32(&c, 1)); pointless_create_set_root(&c, v); pointless_create_output_and_end_f(&c, tmpname, &e); unlink(tmpname); end_x(); }
	if (begin_x("begin and end")) { pointless_create_begin_64(&c); pointless_create_end(&c); end_x(); }
	if (begin_x("a program dropped without output")) {
		pointless_create_begin_64(&c);
		v = pointless_create_vector_value(&c); s = pointless_create_set(&c); m = pointless_create_map(&c);
		a = pointless_create_string_ascii(&c, (uint8_t*)"abc");
		pointless_create_unicode_ascii(&c, "abc", &e);
		pointless_create_bitvector(&c, "abcdefgh", 60); pointless_create_bitvector_no_normalize(&c, "abcdefgh", 60);
		pointless_create_vector_value_append(&c, v, a); pointless_create_set_add(&c, s, a); pointless_create_map_add(&c, m, a, v);
		pointless_create_vector_u64_append(&c, pointless_create_vector_u64(&c), 1);
		pointless_create_end(&c); end_x();
	}
	/* a failed handle passed on */
	if (begin_x("append of a failed handle")) { pointless_create_begin_64(&c); v = pointless_create_vector_value(&c); if (pointless_create_vector_value_append(&c, v, F) != F) mc_violation("accepted", "-"); pointless_create_set_root(&c, v); want(out(&c), "[]"); end_x(); }
	if (begin_x("transfer of a failed handle")) { pointless_create_begin_64(&c); v = pointless_create_vector_value(&c); t = pointless_malloc(4); t[0] = F; if (pointless_create_vector_value_transfer(&c, v, t, 1) != F) mc_violation("accepted", "-"); else pointless_free(t); pointless_create_set_root(&c, v); want(out(&c), "[]"); end_x(); }
	if (begin_x("a failed handle added to a set")) { pointless_create_begin_64(&c); s = pointless_create_set(&c); a = pointless_create_set_add(&c, s, F); pointless_create_set_root(&c, s); V* r = out(&c); if (a == F) want(r, "{}"); else want(r, 0); end_x(); }
	if (begin_x("a failed handle as a map key")) { pointless_create_begin_64(&c); m = pointless_create_map(&c); a = pointless_create_map_add(&c, m, F, m); pointless_create_set_root(&c, m); V* r = out(&c); if (a == F) want(r, "{:}"); else want(r, 0); end_x(); }
	if (begin_x("a failed handle as a map value")) { pointless_create_begin_64(&c); m = pointless_create_map(&c); a = pointless_create_map_add(&c, m, pointless_create_i32(&c, 1), F); pointless_create_set_root(&c, m); V* r = out(&c); if (a == F) want(r, "{:}"); else want(r, 0); end_x(); }
	/* empty slots are not values */
	if (begin_x("an empty slot as a key")) { pointless_create_begin_64(&c); s = pointless_create_set(&c); pointless_create_set_add(&c, s, pointless_create_empty_slot(&c)); pointless_create_set_root(&c, s); want(out(&c), 0); end_x(); }
	if (begin_x("an empty slot as a map key")) { pointless_create_begin_64(&c); s = pointless_create_map(&c); pointless_create_map_add(&c, s, pointless_create_empty_slot(&c), s); pointless_create_set_root(&c, s); want(out(&c), 0); end_x(); }
	/* transfers */
	for (int k = 0; k < 4; k++) for (int typed = 0; typed < 2; typed++) {
		char d[80];
		sprintf(d, "transfer %d, %s", k, typed ? "u32" : "values");
		if (!begin_x(d)) continue;
		pointless_create_begin_64(&c);
		uint32_t h[3];
		for (int i = 0; i < 3; i++) h[i] = typed ? (uint32_t)i + 5 : pointless_create_i32(&c, i + 5);
		v = typed ? pointless_create_vector_u32(&c) : pointless_create_vector_value(&c);
#define TR(n) (t = pointless_malloc(16), memcpy(t, h, 12), typed ? pointless_create_vector_u32_transfer(&c, v, t, n) : pointless_create_vector_value_transfer(&c, v, t, n))
#define AP(x) (typed ? pointless_create_vector_u32_append(&c, v, h[x]) : pointless_create_vector_value_append(&c, v, h[x]))
		const char* w = typed ? "#u32[5 6 7]" : "[5 6 7]";
		if (k == 0) { TR(3); }
		if (k == 1) { TR(2); AP(2); }                       /* the vector keeps growing */
		if (k == 2) { AP(0); AP(1); AP(2); if (TR(2) != F) mc_violation("transfer to a vector with items accepted", "-"); else pointless_free(t); }
		if (k == 3) { TR(0); w = "[]"; }                     /* nothing transferred */
		pointless_create_set_root(&c, v);
		want(out(&c), w);
		end_x();
	}
	/* bits beyond the end of a bitvector */
	for (uint32_t n = 0; n <= 64; n++) for (int fill = 0; fill < 4; fill++) for (int raw = 0; raw < 4; raw++) {
		char d[80];
		sprintf(d, "bitvector of %u bits with stray bits, pattern %d, forms %d", n, fill, raw);
		if (!begin_x(d)) continue;
		V* w = v_new('B');
		w->n = n; w->bits = calloc(n + 1, 1);
		for (uint32_t i = 0; i < n; i++) w->bits[i] = fill == 0 ? 0 : fill == 1 ? 1 : fill == 2 ? i >= n / 2 : (i * 7 % 5) & 1;
		uint32_t nb = (n + 7) / 8;
		uint8_t *x = malloc(nb + 1), *y = malloc(nb + 1);    /* exact, so that reading further is seen */
		x = realloc(x, nb ? nb : 1); y = realloc(y, nb ? nb : 1);
		memset(x, 0, nb); memset(y, 255, nb);
		for (uint32_t i = 0; i < n; i++) { if (w->bits[i]) x[i / 8] |= 1 << i % 8; else y[i / 8] &= ~(1 << i % 8); }
		pointless_create_begin_64(&c);
		a = raw & 1 ? pointless_create_bitvector_no_normalize(&c, x, n) : pointless_create_bitvector(&c, x, n);
		uint32_t b = raw & 2 ? pointless_create_bitvector_no_normalize(&c, y, n) : pointless_create_bitvector(&c, y, n);
		s = pointless_create_set(&c); m = pointless_create_set(&c);
		v = pointless_create_vector_value(&c);
		pointless_create_set_add(&c, s, a); pointless_create_set_add(&c, m, b);
		pointless_create_vector_value_append(&c, v, a); pointless_create_vector_value_append(&c, v, b); pointless_create_vector_value_append(&c, v, s); pointless_create_vector_value_append(&c, v, m);
		pointless_create_set_root(&c, v);
		V *r = v_new('v'), *ss = v_new('S'), *o = out(&c);
		v_push(ss, v_copy(w), 0);
		v_push(r, v_copy(w), 0); v_push(r, v_copy(w), 0); v_push(r, v_copy(ss), 0); v_push(r, ss, 0);
		if (!o) mc_violation("a sound program was refused", "%s", xs_e); else if (!v_same(o, r)) mc_violation("the file does not hold what was described", "%s", v_show(o));
		if (o) v_free(o);
		v_free(r);
		/* equal keys */
		pointless_create_begin_64(&c);
		s = pointless_create_set(&c);
		pointless_create_set_add(&c, s, raw & 1 ? pointless_create_bitvector_no_normalize(&c, x, n) : pointless_create_bitvector(&c, x, n));
		pointless_create_set_add(&c, s, raw & 2 ? pointless_create_bitvector_no_normalize(&c, y, n) : pointless_create_bitvector(&c, y, n));
		pointless_create_set_root(&c, s);
		want(out(&c), 0);
		free(x); free(y);
		v_free(w);
		end_x();
	}
	/* long runs: both counts of a 0..01..1 vector around the 16-bit limit; inline bitvectors copied as they are */
	static const uint32_t runs[] = { 1, 2, 14, 27, 28, 255, 256, 65534, 65535, 65536, 65537 };
	for (int i = 0; i < 11; i++) for (int j = 0; j < 11; j++) for (int one = 0; one < 2; one++) {
		char d[80];
		sprintf(d, "bitvector of %u %d and %u %d", runs[i], one, runs[j], !one);
		if (!begin_x(d)) continue;
		uint32_t n = runs[i] + runs[j];
		uint8_t* x = calloc(n / 8 + 1, 1);
		for (uint32_t k = 0; k < n; k++) if ((k < runs[i]) == one) x[k / 8] |= 1 << k % 8;
		pointless_create_begin_64(&c);
		v = pointless_create_vector_value(&c);
		pointless_create_vector_value_append(&c, v, pointless_create_bitvector(&c, x, n));
		pointless_create_set_root(&c, v);
		for (int gen = 0; gen < 2; gen++) {
			void* buf = 0; size_t len = 0;
			if (!pointless_create_output_and_end_b(&c, &buf, &len, &e)) { mc_violation("a sound program was refused", "%s", e); break; }
			if (!pointless_open_b(&P, buf, len, &e)) { mc_violation("the result cannot be opened", "%s", e); break; }
			pointless_value_t* b = &pointless_reader_vector_value(&P, pointless_root(&P))[0];
			if (pointless_reader_bitvector_n_bits(&P, b) != n) mc_violation("wrong number of bits", "%u", pointless_reader_bitvector_n_bits(&P, b));
			else for (uint32_t k = 0; k < n; k++) if (!pointless_reader_bitvector_is_set(&P, b, k) != !((k < runs[i]) == one)) { mc_violation("wrong bit", "%u of generation %d", k, gen); break; }
			if (gen == 0) {
				pointless_create_begin_64(&c);
				v = pointless_create_vector_value(&c);
				pointless_create_vector_value_append(&c, v, b->type == POINTLESS_BITVECTOR ? pointless_create_bitvector(&c, x, n) : pointless_create_bitvector_compressed(&c, b));
				pointless_create_set_root(&c, v);
			}
			pointless_close(&P);
			pointless_free(buf);
		}
		free(x);
		end_x();
	}
	extra_d[0] = 0;
}
/* how many entries: sets, maps and vectors of every size */
static void do_counts(int max)
{
	for (int n = 0; n <= max; n++) for (int order = 0; order < 3; order++) {
		snprintf(extra_d, sizeof extra_d, "set, map and vector of %d strings, order %d", n, order);
		np = 0;
		if (!mc_begin_cb(descr)) continue;
		mc_nontrivial();
		size_t before = __sanitizer_get_current_allocated_bytes();
		pointless_create_t c;
		pointless_create_begin_64(&c);
		uint32_t s = pointless_create_set(&c), m = pointless_create_map(&c), v = pointless_create_vector_value(&c);
		pointless_create_vector_value_append(&c, v, s); pointless_create_vector_value_append(&c, v, m);
		char b[40];
		for (int i = 0; i < n; i++) {
			int k = order == 0 ? i : order == 1 ? n - 1 - i : i % 2 ? i : n - 1 - i - (n % 2 ? 0 : 1);
			if (order == 2 && (n % 2 == 0) && i % 2 == 0) k = n - 2 - i;
			sprintf(b, "s%d", k);
			uint32_t h = order == 1 ? pointless_create_unicode_ascii(&c, b, (const char**)&why) : pointless_create_string_ascii(&c, (uint8_t*)b);
			pointless_create_set_add(&c, s, h);
			pointless_create_map_add(&c, m, h, pointless_create_i32(&c, k));
			pointless_create_vector_value_append(&c, v, h);
		}
		pointless_create_set_root(&c, v);
		void* buf = 0; size_t len = 0; const char* e = 0;
		if (!pointless_create_output_and_end_b(&c, &buf, &len, &e)) { mc_violation("a sound program was refused", "%s", e); continue; }
		if (!pointless_open_b(&P, buf, len, &e)) { mc_violation("the result cannot be opened", "%s", e); continue; }
		pointless_value_t *r = pointless_reader_vector_value(&P, pointless_root(&P)), *k, *w;
		if ((int)pointless_reader_vector_n_items(&P, pointless_root(&P)) != n + 2 || (int)pointless_reader_set_n_items(&P, &r[0]) != n || (int)pointless_reader_map_n_items(&P, &r[1]) != n) mc_violation("wrong number of entries", "-");
		else for (int i = 0; i < n; i++) {
			pointless_reader_set_lookup(&P, &r[0], &r[2 + i], &k, &e);
			if (!k || k->data.data_u32 != r[2 + i].data.data_u32) { mc_violation("a string is not in its set", "item %d", i); break; }
			pointless_reader_map_lookup(&P, &r[1], &r[2 + i], &k, &w, &e);
			V* x = v_read(&P, &r[2 + i]);
			for (uint32_t q = 0; q < x->n; q++) b[q] = x->s[q];
			b[x->n] = 0;
			v_free(x);
			if (!k || !w || w->type != POINTLESS_I32 || w->data.data_i32 != atoi(b + 1)) { mc_violation("a string has a wrong value in its map", "item %d", i); break; }
		}
		pointless_close(&P);
		pointless_free(buf);
		size_t after = __sanitizer_get_current_allocated_bytes();
		if (after != before) mc_violation("memory is left behind", "%zd bytes", (ssize_t)(after - before));
	}
	extra_d[0] = 0;
}

int main(int argc, char** argv)
{
	mc_init(argc, argv);
	const char* tmp = getenv("MC_TMP");
	snprintf(tmpname, sizeof tmpname, "%s/mc-create-%d", tmp ? tmp : "/tmp", (int)getpid());
	const char* t = mc_task();
	/* first use of stdio and of the printing buffers allocates */
	{ V* v = v_parse("[1 'a' {1}]"); v_show(v); v_free(v); }
	if (!strcmp(t, "programs")) {
		depth_max = mc_arg(0, 4); part = mc_arg(1, 0); parts = mc_arg(2, 1);
		int set = mc_arg(3, 0);
		static const char* ls[3][4] = { { "1", "1u", 0 }, { "'a'", "#u8[1 2]", 0 }, { "1f", "2", "1", 0 } };
		for (int i = 0; ls[set][i]; i++) leaf(ls[set][i], i == 1 ? VS_OWNER : 0);
		char kinds[MAXN];
		uint32_t sizes[MAXN] = {0};
		int n = nl;
		np = 0;
		for (int i = 0; i < n; i++) { L(i); kinds[i] = 'L'; }
		walk(0, n, kinds, sizes);
		if (mc_n == 0) mc_die("no programs");
	}
	if (!strcmp(t, "pairs")) { part = mc_arg(0, 0); parts = mc_arg(1, 1); all_leaves(); do_pairs(); }
	if (!strcmp(t, "triples")) { part = mc_arg(0, 0); parts = mc_arg(1, 1); all_leaves(); do_triples(mc_arg(2, 30)); }
	if (!strcmp(t, "files")) { part = mc_arg(0, 0); parts = mc_arg(1, 97); to_file = 1; all_leaves(); do_pairs(); }
	if (!strcmp(t, "sizes")) do_sizes(mc_arg(0, 20));
	if (!strcmp(t, "ints")) do_ints();
	if (!strcmp(t, "misuse")) do_misuse();
	if (!strcmp(t, "counts")) do_counts(mc_arg(0, 100));
	mc_finish();
}
