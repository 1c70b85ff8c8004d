/* C22: checked arithmetic at every overflow boundary, and the arithmetic
   expression evaluator on every short text, every small tree, after every
   short history, against a reference evaluator on 128-bit integers. */
#include "mc.h"
#include <pointless/pointless_int_ops.h>

typedef unsigned __int128 u128;

/* ---------------- checked operations ---------------- */
static uint64_t pts[4096];
static int n_pts;
static void pt(u128 v, uint64_t max)
{
	if (v > max) return;
	for (int i = 0; i < n_pts; i++) if (pts[i] == (uint64_t)v) return;
	pts[n_pts++] = (uint64_t)v;
}

static void points(int bits)
{
	uint64_t max = bits == 32 ? UINT32_MAX : UINT64_MAX;
	n_pts = 0;
	for (int i = 0; i < 20; i++) pt(i, max);
	for (int k = 0; k <= bits; k++)
		for (int d = -2; d <= 2; d++) {
			pt(((u128)1 << k) + d, max);
			pt(max / (((u128)1 << k)) + d, max);
			pt((u128)3 * (((u128)1 << k) / 2) + d, max);
		}
	for (int i = 1; i < 12; i++) for (int d = -1; d <= 1; d++) pt(max / i + d, max);
	/* around the square root */
	for (int d = -8; d <= 8; d++) pt(((u128)1 << (bits / 2)) + d, max);
}

#define CHECK(T, FN, OP, MAX) do { \
	intop_##T##_t x = {ao, (a)}, y = {bo, (b)}; \
	intop_##T##_t r = FN(x, y); \
	u128 e = (u128)(a) OP (u128)(b); \
	int eo = ao || bo || e > (MAX); \
	if (!!r.is_overflow != eo) { mc_violation(#FN ": wrong overflow mark", "%llu, %llu (marks %d %d): got %d, expected %d", (unsigned long long)(a), (unsigned long long)(b), ao, bo, r.is_overflow, eo); break; } \
	if (!eo && (u128)r.value != e) mc_violation(#FN ": wrong value", "%llu, %llu", (unsigned long long)(a), (unsigned long long)(b)); \
} while (0)

static void task_ops(void)
{
	for (int bits = 32; bits <= 64; bits += 32) {
		points(bits);
		for (int i = 0; i < n_pts; i++) {
			if (!mc_begin("operations on %d bits, first operand %llu, %d second operands, 4 combinations of marks", bits, (unsigned long long)pts[i], n_pts)) continue;
			mc_nontrivial();
			for (int j = 0; j < n_pts + 3; j++)
				for (int m = 0; m < 4; m++) {
					uint64_t a = pts[i], max = bits == 32 ? UINT32_MAX : UINT64_MAX, b = j < n_pts ? pts[j] : 0;
					int ao = m & 1, bo = m >> 1;
					if (j >= n_pts) {
						/* the boundaries of this operand */
						u128 q = a ? (u128)max / a + (j - n_pts) : 0;
						b = q > max ? max : (uint64_t)q;
					}
					mc_count("operations", 2);
					if (bits == 32) {
						CHECK(u32, intop_u32_mult, *, UINT32_MAX);
						CHECK(u32, intop_u32_add, +, UINT32_MAX);
					} else {
						CHECK(u64, intop_u64_mult, *, UINT64_MAX);
						CHECK(u64, intop_u64_add, +, UINT64_MAX);
						CHECK(sizet, intop_sizet_mult, *, SIZE_MAX);
						CHECK(sizet, intop_sizet_add, +, SIZE_MAX);
					}
					if (j >= n_pts) {
						uint64_t c = max - a;
						b = c + (j - n_pts);
						if (b < c) continue;
						if (bits == 32) { if (b > max) continue; CHECK(u32, intop_u32_add, +, UINT32_MAX); }
						else { CHECK(u64, intop_u64_add, +, UINT64_MAX); CHECK(sizet, intop_sizet_add, +, SIZE_MAX); }
					}
				}
		}
	}
	if (mc_begin("constructors and chains of operations")) {
		mc_nontrivial();
		for (int i = 0; i < n_pts; i++) {
			uint64_t a = pts[i];
			intop_u64_t x = intop_u64_init(a);
			intop_sizet_t z = intop_sizet_init(a);
			intop_u32_t y = intop_u32_init((uint32_t)a);
			if (x.is_overflow || x.value != a || z.is_overflow || z.value != a || y.is_overflow || y.value != (uint32_t)a)
				mc_violation("constructor", "%llu", (unsigned long long)a);
		}
		/* all chains of 4 operations on 6 operands: the mark stays */
		static const uint64_t v[] = {0, 1, 2, UINT64_MAX, 1ull << 63, 1ull << 32};
		for (int c = 0; c < 16; c++)
			for (int k = 0; k < 6 * 6 * 6 * 6 * 6; k++) {
				u128 e = v[k % 6];
				int over = 0, q = k / 6;
				intop_u64_t r = intop_u64_init(v[k % 6]);
				intop_sizet_t s = intop_sizet_init(v[k % 6]);
				for (int i = 0; i < 4; i++, q /= 6) {
					uint64_t o = v[q % 6];
					int mul = c >> i & 1;
					if (!over) { e = mul ? e * o : e + o; if (e > UINT64_MAX) over = 1; }
					r = mul ? intop_u64_mult(r, intop_u64_init(o)) : intop_u64_add(r, intop_u64_init(o));
					s = mul ? intop_sizet_mult(s, intop_sizet_init(o)) : intop_sizet_add(s, intop_sizet_init(o));
				}
				mc_count("chains", 1);
				if (!!r.is_overflow != over || !!s.is_overflow != over || (!over && ((u128)r.value != e || (u128)s.value != e)))
					mc_violation("a chain of operations is wrong", "operations %d operands %d", c, k);
			}
	}
}

/* every first operand of 32 bits, at its two boundaries */
static void task_sweep(uint64_t part, uint64_t parts)
{
	uint64_t lo = part * ((1ull << 32) / parts), hi = lo + (1ull << 32) / parts;
	int ao = 0, bo = 0;
	for (uint64_t blk = lo; blk < hi; blk += 1 << 20) {
		if (!mc_begin("32-bit operands %llx to %llx at their boundaries", (unsigned long long)blk, (unsigned long long)blk + (1 << 20))) continue;
		mc_nontrivial();
		mc_count("operations", 4ull << 20);
		for (uint64_t i = blk; i < blk + (1 << 20); i++) {
			uint32_t a = i, q = a ? UINT32_MAX / a : UINT32_MAX;
			intop_u32_t x = {0, a}, y = {0, q}, r = intop_u32_mult(x, y);
			int bad = r.is_overflow || r.value != (uint32_t)(a * q);
			y.value = UINT32_MAX - a;
			r = intop_u32_add(x, y);
			bad |= r.is_overflow || r.value != UINT32_MAX;
			if (a > 1) {
				y.value = q + 1;
				bad |= !intop_u32_mult(x, y).is_overflow;
			}
			if (a) {
				y.value = UINT32_MAX - a + 1;
				bad |= !intop_u32_add(x, y).is_overflow;
			}
			if (bad) {
				uint32_t b = q;
				CHECK(u32, intop_u32_mult, *, UINT32_MAX);
				b = q + 1;
				CHECK(u32, intop_u32_mult, *, UINT32_MAX);
				b = UINT32_MAX - a;
				CHECK(u32, intop_u32_add, +, UINT32_MAX);
				b++;
				CHECK(u32, intop_u32_add, +, UINT32_MAX);
				break;
			}
		}
	}
}

/* ---------------- the reference evaluator ---------------- */
enum { X_OK_, X_SYNTAX, X_RANGE, X_VARIABLE };
static const char* rp;
static int rdepth, rsyn, rrange, rvar;
static int r_tokens, r_digits;
static void rws(void) { while (*rp == ' ' || *rp == '\t') rp++; }

static u128 rexpr(void);
static u128 rfactor(void)
{
	rws();
	if (rsyn) return 0;
	if (*rp >= '0' && *rp <= '9') {
		u128 v = 0;
		int d = 0;
		r_tokens++;
		for (; *rp >= '0' && *rp <= '9'; rp++, d++) {
			if (v <= UINT64_MAX) v = v * 10 + (*rp - '0');
		}
		if (d > r_digits) r_digits = d;
		if (v > UINT64_MAX) { rrange = 1; v = 0; }
		return v;
	}
	if (*rp == 'x') { rp++; r_tokens++; rvar = 1; return 1; }
	if (*rp == '(') {
		rp++; r_tokens += 2;
		u128 v = rexpr();
		rws();
		if (rsyn || *rp != ')') { rsyn = 1; return 0; }
		rp++;
		return v;
	}
	rsyn = 1;
	return 0;
}

static u128 rterm(void)
{
	u128 v = rfactor();
	for (;;) {
		rws();
		if (rsyn || (*rp != '*' && *rp != '/')) return v;
		char op = *rp++;
		r_tokens++;
		u128 w = rfactor();
		if (rsyn || rrange) { v = 0; continue; }
		if (op == '*') { v *= w; if (v > UINT64_MAX) rrange = 1; }
		else if (w == 0) rrange = 1;
		else v /= w;
		if (rrange) v = 0;
	}
}

static u128 rexpr(void)
{
	u128 v = rterm();
	for (;;) {
		rws();
		if (rsyn || (*rp != '+' && *rp != '-')) return v;
		char op = *rp++;
		r_tokens++;
		u128 w = rterm();
		if (rsyn || rrange) { v = 0; continue; }
		if (op == '+') { v += w; if (v > UINT64_MAX) rrange = 1; }
		else if (w > v) rrange = 1;
		else v -= w;
		if (rrange) v = 0;
	}
}

static int ref(const char* s, uint64_t* v)
{
	rp = s; rsyn = rrange = rvar = r_tokens = r_digits = 0;
	u128 r = rexpr();
	rws();
	if (rsyn || *rp) return X_SYNTAX;
	if (rvar) return X_VARIABLE;
	if (rrange) return X_RANGE;
	*v = (uint64_t)r;
	return X_OK_;
}

/* ---------------- evaluation of one text ---------------- */
static intop_eval_context_t ctx;

static int evaluate(const char* s, uint64_t* v, const char** error)
{
	*error = 0;
	if (!intop_eval_compile(s, &ctx, error)) {
		if (!*error) *error = "(none)";
		return 0;
	}
	*error = 0;
	int ok = intop_eval_eval(&ctx, v, error);
	uint64_t v2 = 0;
	const char* e2 = 0;
	if (intop_eval_eval(&ctx, &v2, &e2) != ok || (ok && v2 != *v)) {
		mc_violation("evaluated twice, different results", "-");
	}
	if (!ok && !*error) *error = "(none)";
	return ok;
}

static const char* pre = "";
static void check(const char* s)
{
	uint64_t e = 0, v = 0;
	const char* error;
	int r = ref(s, &e);
	size_t n = strlen(s);
	/* exact allocation: reading beyond the text is seen */
	static char* buf[1024];
	if (n < 1024 && !buf[n]) buf[n] = malloc(n + 1);
	char* t = n < 1024 ? buf[n] : malloc(n + 1);
	memcpy(t, s, n + 1);
	int ok = evaluate(t, &v, &error);
	if (n >= 1024) free(t);
	if (r == X_OK_) mc_nontrivial();
	mc_count("expressions", 1);
	if (ok != (r == X_OK_)) {
		/* limits of the evaluator: tokens and digits */
		if (!ok && (r_tokens >= INTOP_EVAL_MAX_N || r_digits > 30)) { mc_count("refused by its limits", 1); return; }
		mc_violation(ok ? "accepted" : "refused", "%s%.200s: %s", pre, s, ok ? "expected an error" : error);
	} else if (ok && v != e)
		mc_violation("wrong value", "%s%.200s: got %llu, expected %llu", pre, s, (unsigned long long)v, (unsigned long long)e);
	else if (!ok && !strcmp(error, "(none)"))
		mc_violation("refused without an error message", "%s%.200s", pre, s);
}

static void d_text(char* out, size_t n);
static char text[8192];
static void d_text(char* out, size_t n) { snprintf(out, n, "%s", text); }

/* all token sequences */
static const char* toks[] = {"1", "2", "3", "+", "-", "*", "/", "(", ")", "0", "18446744073709551615", "4294967296", " ", "x", 0};
static void words(int n, int k)
{
	int w[16];
	for (int len = 0; len <= n; len++) {
		memset(w, 0, sizeof(w));
		for (;;) {
			char* o = text;
			*o = 0;
			for (int i = 0; i < len; i++) o = stpcpy(o, toks[w[i]]);
			if (mc_begin_cb(d_text)) check(text);
			int i = 0;
			while (i < len && ++w[i] == k) w[i++] = 0;
			if (i == len) break;
		}
	}
}

/* all flat chains of operands and operators, with and without blanks */
static const char* vals[] = {"0", "1", "2", "3", "7", "18446744073709551615", "9223372036854775808", "4294967296", "6", "10"};
static void flat(int ops, int nv, int blank)
{
	int w[32];
	memset(w, 0, sizeof(w));
	for (;;) {
		char* o = text;
		for (int i = 0; i <= ops; i++) {
			if (blank && i) *o++ = ' ';
			o = stpcpy(o, vals[w[i]]);
			if (blank) *o++ = '\t';
			if (i < ops) *o++ = "+-*/"[w[ops + 1 + i]];
		}
		*o = 0;
		if (mc_begin_cb(d_text)) check(text);
		int i = 0;
		while (i < 2 * ops + 1 && ++w[i] == (i <= ops ? nv : 4)) w[i++] = 0;
		if (i == 2 * ops + 1) break;
	}
}

/* all trees with k operators, parenthesised where needed or everywhere */
typedef struct node { int op; int l, r; int v; } node_t;
static node_t nodes[64];
static int n_nodes, tree_all, tree_vals;
static char* out_tree(char* o, int i, int prec, int right)
{
	node_t* d = &nodes[i];
	if (d->op < 0) return stpcpy(o, vals[d->v]);
	int p = d->op >= 2;
	int par = tree_all || p < prec || (p == prec && right);
	if (par) *o++ = '(';
	o = out_tree(o, d->l, p, 0);
	*o++ = "+-*/"[d->op];
	o = out_tree(o, d->r, p, 1);
	if (par) *o++ = ')';
	*o = 0;
	return o;
}

static void leaves(int i, int root)
{
	/* assign operators and values to the nodes in every way */
	if (i == n_nodes) {
		for (tree_all = 0; tree_all < 2; tree_all++) {
			out_tree(text, root, -1, 0);
			if (mc_begin_cb(d_text)) check(text);
		}
		return;
	}
	if (nodes[i].op < 0) {
		for (nodes[i].v = 0; nodes[i].v < tree_vals; nodes[i].v++) leaves(i + 1, root);
	} else {
		for (nodes[i].op = 0; nodes[i].op < 4; nodes[i].op++) leaves(i + 1, root);
		nodes[i].op = 0;
	}
}

static int shape(int code_len, const int* code, int* pos)
{
	(void)code_len;
	int me = n_nodes++;
	if (code[(*pos)++]) {
		nodes[me].op = 0;
		nodes[me].l = shape(code_len, code, pos);
		nodes[me].r = shape(code_len, code, pos);
	} else nodes[me].op = -1;
	return me;
}

static void trees(int k, int nv)
{
	tree_vals = nv;
	int n = 2 * k + 1;
	for (int m = 0; m < 1 << n; m++) {
		int code[32], need = 1, i;
		for (i = 0; i < n; i++) {
			code[i] = m >> i & 1;
			need += code[i] ? 1 : -1;
			if (need == 0) { i++; break; }
		}
		if (need || i != n) continue;
		int pos = 0;
		n_nodes = 0;
		int root = shape(n, code, &pos);
		leaves(0, root);
	}
}

/* after every short history, in contexts of every content */
static int n_short;
static char (*shorts)[64];
static void all_short(int n, int k)
{
	int w[8], cap = 1;
	for (int i = 0, q = 1; i < n; i++) { q *= k; cap += q; }
	shorts = malloc((size_t)cap * 64);
	for (int len = 0; len <= n; len++) {
		memset(w, 0, sizeof(w));
		for (;;) {
			char* o = shorts[n_short];
			*o = 0;
			for (int i = 0; i < len; i++) o = stpcpy(o, toks[w[i]]);
			n_short++;
			int i = 0;
			while (i < len && ++w[i] == k) w[i++] = 0;
			if (i == len) break;
		}
	}
}

static char prefix[200];
static void d_pre(char* out, size_t n) { snprintf(out, n, "%severy expression to 3 tokens", prefix); }
static void task_history(int n)
{
	all_short(n, 9);
	pre = prefix;
	for (int i = 0; i < n_short; i++)
		for (int how = 0; how < 2; how++) {
			snprintf(prefix, sizeof(prefix), "after %s %s: ", how ? "evaluating" : "compiling", shorts[i]);
			if (!mc_begin_cb(d_pre)) continue;
			for (int j = 0; j < n_short; j++) {
				const char* error;
				uint64_t v;
				if (intop_eval_compile(shorts[i], &ctx, &error) && how) intop_eval_eval(&ctx, &v, &error);
				check(shorts[j]);
			}
		}
	for (int b = 0; b < 256; b++) {
		snprintf(prefix, sizeof(prefix), "in a context of bytes %02x: ", b);
		if (!mc_begin_cb(d_pre)) continue;
		for (int j = 0; j < n_short; j++) { memset(&ctx, b, sizeof(ctx)); check(shorts[j]); }
	}
	for (int t = -1; t < 10; t++) {
		snprintf(prefix, sizeof(prefix), "in a context of tokens %d: ", t);
		if (!mc_begin_cb(d_pre)) continue;
		for (int j = 0; j < n_short; j++) {
			for (int k = 0; k < INTOP_EVAL_MAX_N; k++) { ctx.tokens[k].type = t; ctx.stack[k].type = t; ctx.eval[k].type = t; }
			check(shorts[j]);
		}
	}
}

/* texts at the limits: many tokens, deep, long numbers, every byte */
static void task_limits(void)
{
	static char big[20000];
	for (int shp = 0; shp < 9; shp++)
		for (int n = 1; n <= 700; n++) {
			char* o = big;
			int k = n;
			switch (shp) {
				case 0: for (int i = 0; i < k; i++) o = stpcpy(o, i ? "+1" : "1"); break;
				case 1: for (int i = 0; i < k; i++) o = stpcpy(o, i ? "*1" : "1"); break;
				case 2: for (int i = 0; i < k; i++) *o++ = '('; *o++ = '5'; for (int i = 0; i < k; i++) *o++ = ')'; break;
				case 3: for (int i = 0; i < k; i++) o = stpcpy(o, "(1+"); *o++ = '5'; for (int i = 0; i < k; i++) *o++ = ')'; break;
				case 4: for (int i = 0; i < k; i++) *o++ = '('; *o++ = '0'; for (int i = 0; i < k; i++) o = stpcpy(o, "+1)"); break;
				case 5: o = stpcpy(o, "1000"); for (int i = 0; i < k; i++) o = stpcpy(o, "-1"); break;
				case 6: for (int i = 0; i < k; i++) o = stpcpy(o, "(1*(2-"); *o++ = '1'; for (int i = 0; i < k; i++) o = stpcpy(o, "))"); break;
				case 7: for (int i = 0; i < k; i++) *o++ = '('; break;
				case 8: for (int i = 0; i < k; i++) o = stpcpy(o, "1+"); break;
			}
			*o = 0;
			if (!mc_begin("shape %d of length %d", shp, n)) continue;
			check(big);
			for (int cut = 1; cut < 3; cut++) { big[strlen(big) - 1] = 0; check(big); if (!*big) break; }
			strcat(big, "  ");
			check(big);
		}
	/* numbers */
	static const char* nums[] = {"18446744073709551614", "18446744073709551615", "18446744073709551616", "18446744073709551620", "99999999999999999999", "184467440737095516150", "36893488147419103232", "4294967296", "0", "1", 0};
	for (int z = 0; z < 40; z++)
		for (int i = 0; nums[i]; i++) {
			char* o = big;
			for (int k = 0; k < z; k++) *o++ = '0';
			stpcpy(o, nums[i]);
			if (mc_begin("number %s", big)) {
				check(big);
				strcat(big, "+0"); check(big);
				strcat(big, "-1"); check(big);
			}
		}
	for (int n = 1; n < 80; n++) {
		memset(big, '1', n); big[n] = 0;
		if (mc_begin("number of %d digits", n)) check(big);
	}
	/* every byte at every place of some texts */
	static const char* base[] = {"", "1", "1+2", "(3-1)*2", "12 / 4", "((7))", 0};
	for (int i = 0; base[i]; i++)
		for (size_t at = 0; at <= strlen(base[i]); at++)
			for (int ins = 0; ins < 2; ins++) {
				if (!ins && at == strlen(base[i])) continue;
				if (!mc_begin("every byte %s %s at %d", ins ? "into" : "over", base[i], (int)at)) continue;
				for (int b = 1; b < 256; b++) {
					strcpy(text, base[i]);
					if (ins) memmove(text + at + 1, base[i] + at, strlen(base[i]) - at + 1);
					text[at] = (char)b;
					check(text);
				}
			}
	for (int a = 1; a < 256; a++) {
		if (!mc_begin("every text of two bytes from %02x", a)) continue;
		for (int b = 0; b < 256; b++) { text[0] = a; text[1] = b; text[2] = 0; check(text); }
	}
}

int main(int argc, char** argv)
{
	mc_init(argc, argv);
	const char* t = mc_task();
	memset(&ctx, 0x5a, sizeof(ctx));
	if (!strcmp(t, "ops")) task_ops();
	else if (!strcmp(t, "sweep")) task_sweep(mc_arg(0, 0), mc_arg(1, 1));
	else if (!strcmp(t, "words")) words(mc_arg(0, 4), mc_arg(1, 9));
	else if (!strcmp(t, "flat")) flat(mc_arg(0, 3), mc_arg(1, 5), mc_arg(2, 0));
	else if (!strcmp(t, "trees")) trees(mc_arg(0, 3), mc_arg(1, 5));
	else if (!strcmp(t, "history")) task_history(mc_arg(0, 3));
	else if (!strcmp(t, "limits")) task_limits();
	else mc_die("unknown task");
	mc_finish();
	return 0;
}
