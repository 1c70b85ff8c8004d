/* C21, C side: chains built through the creation calls with their handles in
   either order, at every depth, then opened, walked, hashed, compared,
   re-created and printed. */
#include "mc.h"
#include <pointless/pointless.h>
#include <pointless/pointless_debug.h>
#include <pointless/pointless_recreate.h>

static const char* pats[] = {"v", "m", "vm", "vvm", "w", "wm", "k", "s", "ks", "kv", 0};
static const char* orders[] = {"inner handles first", "outer handles first", "all listed inner first", "all listed outer first", "mapped up", "mapped down", 0};
static const char* cur;
static int depth;
static const char* cur_order;
static void descr(char* o, size_t n) { snprintf(o, n, "pattern %s depth %d, %s", cur, depth, cur_order); }

static uint32_t ints(pointless_create_t* c, uint32_t i) { return pointless_create_u32(c, i); }
static uint32_t h_new(pointless_create_t* c, char k)
{
	switch (k) {
		case 'm': case 'k': return pointless_create_map(c);
		case 's': return pointless_create_set(c);
	}
	return pointless_create_vector_value(c);
}
/* v: [x], w: ['side', x, 1], m: {1: x}, k: {x: 1}, s: {x} */
static int put(pointless_create_t* c, char k, uint32_t h, uint32_t x)
{
	uint32_t a = 0, b = 0, F = POINTLESS_CREATE_VALUE_FAIL;
	switch (k) {
		case 'v': return pointless_create_vector_value_append(c, h, x) != F;
		case 'w':
			a = pointless_create_string_ascii(c, (uint8_t*)"side");
			b = ints(c, 1);
			return a != F && b != F && pointless_create_vector_value_append(c, h, a) != F && pointless_create_vector_value_append(c, h, x) != F && pointless_create_vector_value_append(c, h, b) != F;
		case 'm': a = ints(c, 1); return a != F && pointless_create_map_add(c, h, a, x) != F;
		case 'k': a = ints(c, 1); return a != F && pointless_create_map_add(c, h, x, a) != F;
		case 's': return pointless_create_set_add(c, h, x) != F;
	}
	return 0;
}
/* the kind of level i, counted from the innermost; k and s only hold vectors, which only hold vectors */
static char kind_at(const char* pat, int i, int n)
{
	if (strchr("ks", pat[0])) {
		if (i == n - 1) return pat[0];
		return 'v';
	}
	return pat[i % strlen(pat)];
}

/* the chain below r, level by level -> its depth or -1 */
static int measure(pointless_t* p, pointless_value_t* r, const char* pat, int n)
{
	for (int i = n - 1; i >= 0; i--) {
		pointless_value_t *x = 0, *y = 0;
		uint32_t it = 0;
		switch (kind_at(pat, i, n)) {
			case 'v': case 'w':
				if (r->type == POINTLESS_VECTOR_U8 && i == 0) return pointless_reader_vector_n_items(p, r) == 1 && pointless_reader_vector_u8(p, r)[0] == 7 ? n : -1;
				if (r->type != POINTLESS_VECTOR_VALUE && r->type != POINTLESS_VECTOR_VALUE_HASHABLE) return -1;
				x = pointless_reader_vector_value(p, r) + (kind_at(pat, i, n) == 'w');
				break;
			case 'm':
				if (r->type != POINTLESS_MAP_VALUE_VALUE || !pointless_reader_map_iter(p, r, &y, &x, &it)) return -1;
				break;
			case 'k':
				if (r->type != POINTLESS_MAP_VALUE_VALUE || !pointless_reader_map_iter(p, r, &x, &y, &it)) return -1;
				break;
			case 's':
				if (r->type != POINTLESS_SET_VALUE || !pointless_reader_set_iter(p, r, &x, &it)) return -1;
				break;
		}
		r = x;
	}
	return r->type == POINTLESS_U32 && pointless_value_get_u32(r->type, &r->data) == 7 ? n : r->type == POINTLESS_I32 && pointless_value_get_i32(r->type, &r->data) == 7 ? n : -1;
}

static FILE* null;
static void exercise(pointless_t* p, pointless_t* q, const char* pat, int n, int order)
{
	const char* error = 0;
	pointless_value_t* root = pointless_root(p);
	if (order < 2 && measure(p, root, pat, n) != n) mc_violation("content differs", "as written");
	pointless_complete_value_t a = pointless_value_to_complete(root), b = pointless_value_to_complete(pointless_root(q));
	int32_t c = pointless_cmp_reader(p, &a, q, &b, &error);
	if (!error && c != 0) mc_violation("equal values ordered", "%d", c);
	error = 0;
	if (pointless_is_hashable_reader(p, root)) {
		uint32_t h1 = pointless_hash_reader_32(p, root), h2 = pointless_hash_reader_32(q, pointless_root(q));
		if (h1 != h2) mc_violation("hashes of equal values differ", "%u %u", h1, h2);
	}
	error = 0;
	if (n < 700 && (order < 2 || n < 40)) {
		pointless_debug_print(p, null, &error);
		error = 0;
	}
	/* created again */
	for (int which = 0; which < 2; which++) {
		pointless_create_t k;
		pointless_create_begin_64(&k);
		pointless_value_t* from = root;
		if (which && order >= 2) {
			if (root->type != POINTLESS_VECTOR_VALUE && root->type != POINTLESS_VECTOR_VALUE_HASHABLE) { pointless_create_end(&k); break; }
			uint32_t m = pointless_reader_vector_n_items(p, root);
			from = pointless_reader_vector_value(p, root) + (order == 2 ? m - 1 : 0);
		} else if (which) { pointless_create_end(&k); break; }
		uint32_t r = pointless_recreate_value(p, from, &k, &error);
		if (r == POINTLESS_CREATE_VALUE_FAIL) {
			if (!error) mc_violation("refused without a reason", "recreate");
			pointless_create_end(&k);
			mc_count("refused", 1);
			continue;
		}
		pointless_create_set_root(&k, r);
		void* buf = 0;
		size_t len = 0;
		if (!pointless_create_output_and_end_b(&k, &buf, &len, &error)) { mc_count("refused", 1); continue; }
		pointless_t o;
		if (!pointless_open_b(&o, buf, len, &error)) mc_violation("what was created again cannot be opened", "%s", error);
		else {
			if (order < 2 && measure(&o, pointless_root(&o), pat, n) != n) mc_violation("content differs after creating again", "%s", "");
			pointless_close(&o);
		}
		free(buf);
		mc_count("recreated", 1);
	}
}

static void chain(const char* pat, int n, int order)
{
	pointless_create_t c;
	pointless_create_begin_64(&c);
	uint32_t* h = malloc(sizeof(*h) * (n + 1));
	uint32_t F = POINTLESS_CREATE_VALUE_FAIL, root;
	const char* error = 0;
	int good = 1;
	if (order == 1) for (int i = n - 1; i >= 0; i--) h[i] = h_new(&c, kind_at(pat, i, n));
	uint32_t x = ints(&c, 7);
	if (order != 1) for (int i = 0; i < n; i++) h[i] = h_new(&c, kind_at(pat, i, n));
	for (int i = 0; i < n; i++) {
		if (h[i] == F || !put(&c, kind_at(pat, i, n), h[i], x)) { good = 0; break; }
		x = h[i];
	}
	root = x;
	if (good && order >= 2) {
		root = order < 4 ? pointless_create_vector_value(&c) : pointless_create_map(&c);
		for (int i = 0; i < n && good; i++) {
			uint32_t y = h[order == 3 ? n - 1 - i : i];
			if (order < 4) good = pointless_create_vector_value_append(&c, root, y) != F;
			else {
				uint32_t k = ints(&c, order == 4 ? i : n - i);
				good = k != F && pointless_create_map_add(&c, root, k, y) != F;
			}
		}
	}
	free(h);
	if (!good) { pointless_create_end(&c); mc_count("refused", 1); return; }
	pointless_create_set_root(&c, root);
	void* buf = 0;
	size_t len = 0;
	if (!pointless_create_output_and_end_b(&c, &buf, &len, &error)) {
		if (!error) mc_violation("refused without a reason", "output");
		mc_count("refused", 1);
		return;
	}
	mc_count("written", 1);
	pointless_t p, q;
	if (!pointless_open_b(&p, buf, len, &error)) { mc_violation("what was written cannot be opened", "%s", error); free(buf); return; }
	if (!pointless_open_b_skip_validate(&q, buf, len, &error)) { mc_violation("what was written cannot be opened", "%s, without validation", error); pointless_close(&p); free(buf); return; }
	exercise(&p, &q, pat, n, order);
	pointless_close(&p);
	pointless_close(&q);
	free(buf);
}

int main(int argc, char** argv)
{
	mc_init(argc, argv);
	int part = mc_arg(0, 0);
	null = fopen("/dev/null", "w");
	static const int far[] = {1000, 1023, 1024, 1025, 5000, 100000, 0};
	for (int o = 0; orders[o]; o++)
		for (int k = 0; pats[k]; k++)
			for (int i = 1; i <= 540 + 6; i++) {
				int n = i <= 540 ? i : far[i - 541];
				if ((i + k) % 4 != part) continue;
				if (strchr("ks", pats[k][0]) && n > 5000) continue;
				cur = pats[k];
				cur_order = orders[o];
				depth = n;
				if (!mc_begin_cb(descr)) continue;
				chain(pats[k], n, o);
				if (n > 1) mc_nontrivial();
			}
	mc_finish();
	return 0;
}
