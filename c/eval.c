/* C17: the path evaluator: all short words over its tokens, all paths of
   every kind of index, every byte and every truncation, with placeholders and
   their arguments, over roots of every kind, against a reference. */
#include "val.h"
#include <pointless/pointless_eval.h>

static const char* root_texts[] = {
	"[10 -20 300]",
	"{'a':1 'b':[7 8 'x'] 'ab':{'a':{1:2}} 0:'zero' 1:[#u8[5 6] <011> #i64[-1 1099511627776]] -1:'minus' 4294967295u:'big' '':'empty'}",
	"[{'a':[1 2 {'b':T}] 0:5} <0110> [] 'str' #f[1.5f -2f] {1 2} #u64[18446744073709551615 7] 2.5f]",
	"<10>", "[]", "{:}", "'text'", "5",
	"{'\\xe9;':1 \"a\\u100;\":2 \"a\":3 '%s':4 '[0]':5 '\\x22;':6 2147483648u:7 -2147483648:8 2147483647:9}",
	"[#i8[-1] #u8[200] #i16[-300] #u16[60000] #i32[-70000] #u32[4000000000] #i64[5 -9223372036854775808] #u64[4294967295 4294967296] #f[0f] ~ T F]",
	"<11111111111111111111111111111111111110>",
	0};
static V* roots[20];
static pointless_t P[20];
static int n_roots;
static int cur_root;

static char text[4096], shown[1400];
static void descr(char* o, size_t n)
{
	char t[700];
	int k = 0;
	for (int i = 0; text[i] && k < 600; i++) k += sprintf(t + k, text[i] >= 32 && text[i] < 127 ? "%c" : "\\x%02x", (unsigned char)text[i]);
	t[k] = 0;
	snprintf(o, n, "%s on root %d%s", t, cur_root, shown);
}

/* ---------------- reference ---------------- */
typedef struct { char kind; __int128 i; const char* s; size_t n; int arg; } idx_t;   /* kind: i integer, s string, u U I placeholders (unsigned, signed), p string placeholder */
static idx_t path[64];
static int n_path, n_args;
static int unsaid;                 /* the expression uses a form which is not specified */

static int is_ws(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
static int parse_path(const char* e)
{
	n_path = n_args = unsaid = 0;
	for (;;) {
		while (is_ws(*e)) e++;
		if (!*e) return 1;
		if (*e++ != '[') return 0;
		if (is_ws(*e)) unsaid = 1;              /* blanks before the index */
		if (n_path == 64) return 0;
		idx_t* x = &path[n_path];
		memset(x, 0, sizeof(*x));
		if (*e == '\'') {
			x->kind = 's';
			x->s = ++e;
			while (*e && *e != '\'') e++;
			if (!*e) return 0;
			x->n = e++ - x->s;
		} else if (*e == '"') { unsaid = 1; return 0; }
		else if (*e == '+' || *e == '-' || (*e >= '0' && *e <= '9')) {
			int neg = *e == '-';
			if (*e == '+' || *e == '-') e++;
			if (!(*e >= '0' && *e <= '9')) return 0;
			x->kind = 'i';
			for (; *e >= '0' && *e <= '9'; e++) if (x->i < ((__int128)1 << 90)) x->i = x->i * 10 + (*e - '0');
			if (neg) x->i = -x->i;
		} else if (*e == '%') {
			e++;
			if (*e == 's') { x->kind = 'p'; e++; }
			else if (!strncmp(e, "u32", 3)) { x->kind = 'u'; e += 3; }
			else if (!strncmp(e, "u64", 3)) { x->kind = 'U'; e += 3; }
			else if (!strncmp(e, "i32", 3)) { x->kind = 'J'; e += 3; }
			else if (!strncmp(e, "i64", 3)) { x->kind = 'I'; e += 3; }
			else return 0;
			x->arg = n_args++;
		} else return 0;
		n_path++;
		while (is_ws(*e)) e++;
		if (*e++ != ']') return 0;
	}
}

static V* step(V* r, idx_t* x, uint64_t* args)
{
	static V one;
	__int128 i = x->i;
	int str = 0;
	const char* s = x->s;
	size_t n = x->n;
	switch (x->kind) {
	case 's': str = 1; break;
	case 'i': break;
	case 'p': str = 1; s = (const char*)args[x->arg]; n = strlen(s); break;
	case 'u': i = (uint32_t)args[x->arg]; break;
	case 'U': i = args[x->arg]; break;
	case 'J': i = (int32_t)args[x->arg]; break;
	case 'I': i = (int64_t)args[x->arg]; break;
	}
	if (r->k == 'v' || r->k == 't') {
		if (str || i < 0 || i >= r->n) return 0;
		r = r->v[i];
		if (r->k == 'i' && (r->i > UINT32_MAX || r->i < INT32_MIN)) return 0;   /* cannot be returned */
		return r;
	}
	if (r->k == 'B') {
		if (str || i < 0 || i >= r->n) return 0;
		one.k = 'b';
		one.i = r->bits[i];
		return &one;
	}
	if (r->k == 'M') {
		for (uint32_t k = 0; k < r->n; k++) {
			V* key = r->v[k];
			if (str) {
				if (key->k != 's' || key->n != n) continue;
				size_t q = 0;
				while (q < n && key->s[q] == (uint8_t)s[q]) q++;
				if (q == n) return r->w[k];
			} else if (key->k == 'i' && key->i == i) return r->w[k];
		}
	}
	return 0;
}

/* ---------------- the real one ---------------- */
#define A a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]
static void bad(const char* what, const char* fn) { mc_violation(what, "%s", fn); }

static void check_args(const char* e, uint64_t* a)
{
	pointless_t* p = &P[cur_root];
	pointless_value_t *root = pointless_root(p), before = *root, v;
	V* want = roots[cur_root];
	int syntax = parse_path(e), typed = 0;
	if (unsaid) { pointless_eval_get(p, root, &v, e, A); return; }
	for (int i = 0; syntax && want && i < n_path; i++) want = step(want, &path[i], a);
	if (!syntax) want = 0;
	mc_count("evaluations", 1);
	int ok = pointless_eval_get(p, root, &v, e, A);
	if (ok && !want) { bad("an expression which addresses nothing is accepted", "eval_get"); return; }
	if (!ok && want) { bad("a valid expression is refused", "eval_get"); return; }
	if (memcmp(&before, root, sizeof before)) bad("the root was changed", "eval_get");
	uint32_t type = 0;
	if (ok) {
		mc_nontrivial();
		V* r = v_read(p, &v);
		if (!v_same(r, want)) bad("the wrong value is returned", v_show(r));
		v_free(r);
		type = v.type;
	}
	/* typed variants */
	uint32_t n;
	int empty = ok && type == POINTLESS_VECTOR_EMPTY;
#define T(fn, cond, good) do { int ok2 = fn; if (!!ok2 != (cond)) bad((cond) ? "a value of the type is refused" : "a value of another type is accepted", #fn); else if (ok2 && want && !(good)) bad("the wrong content is returned", #fn); } while (0)
	uint8_t* s = 0;
	T(pointless_eval_get_as_string(p, root, &s, e, A), ok && type == POINTLESS_STRING_, strlen((char*)s) == want->n && (want->n == 0 || s[want->n - 1] == want->s[want->n - 1]) && s[0] == (want->n ? want->s[0] : 0));
	uint32_t u = 0;
	if (!(ok && type == POINTLESS_I32 && want->i >= 0))
		T(pointless_eval_get_as_u32(p, root, &u, e, A), ok && type == POINTLESS_U32, u == want->i);
	else if (pointless_eval_get_as_u32(p, root, &u, e, A) && u != want->i) bad("the wrong content is returned", "as_u32");
	T(pointless_eval_get_as_boolean(p, root, &u, e, A), ok && type == POINTLESS_BOOLEAN, u == want->i);
	pointless_value_t v2;
	T(pointless_eval_get_as_map(p, root, &v2, e, A), ok && type == POINTLESS_MAP_VALUE_VALUE, v2.data.data_u32 == v.data.data_u32);
	n = 99;
	T(pointless_eval_get_as_bitvector(p, root, &v2, &n, e, A), ok && want->k == 'B', n == want->n && v2.type == type);
#define TV(name, ctype, TT, cmp) do { ctype* q = 0; n = 99; int good = 1; \
	int ok2 = pointless_eval_get_as_vector_##name(p, root, &q, &n, e, A); \
	if (!!ok2 != (empty || (ok && type == TT))) bad(!ok2 ? "a value of the type is refused" : "a value of another type is accepted", "as_vector_" #name); \
	else if (ok2) { good = n == want->n; for (uint32_t i = 0; good && i < n; i++) good = cmp; if (!good) bad("the wrong items are returned", "as_vector_" #name); } } while (0)
	TV(u8, uint8_t, POINTLESS_VECTOR_U8, q[i] == want->v[i]->i);
	TV(u16, uint16_t, POINTLESS_VECTOR_U16, q[i] == want->v[i]->i);
	TV(u32, uint32_t, POINTLESS_VECTOR_U32, q[i] == want->v[i]->i);
	TV(u64, uint64_t, POINTLESS_VECTOR_U64, q[i] == (uint64_t)want->v[i]->i);
	TV(f, float, POINTLESS_VECTOR_FLOAT, q[i] == want->v[i]->f);
	{
		pointless_value_t* q = 0; n = 99;
		int ok2 = pointless_eval_get_as_vector_value(p, root, &q, &n, e, A);
		if (!!ok2 != (empty || (ok && (type == POINTLESS_VECTOR_VALUE || type == POINTLESS_VECTOR_VALUE_HASHABLE)))) bad(!ok2 ? "a value of the type is refused" : "a value of another type is accepted", "as_vector_value");
		else if (ok2 && n != want->n) bad("the wrong number of items", "as_vector_value");
		else if (ok2) for (uint32_t i = 0; i < n; i++) { V* r = v_read(p, &q[i]); if (!v_same(r, want->v[i])) bad("the wrong items are returned", "as_vector_value"); v_free(r); }
	}
	typed++;
}

static const char* arg_s[] = {"a", "", "b", "ab", "%s", "\xe9", "missing"};
static const uint64_t arg_i[] = {0, 1, (uint64_t)-1, 2, 4294967295u, 4294967296u, (uint64_t)-2147483648ll, 1ull << 63, 2147483648u};
/* all combinations of arguments for the placeholders, up to three; exact copy of the text */
static int full_args = 1;
static void check(const char* t)
{
	static char* copy[4097];
	size_t n = strlen(t);
	if (!copy[n]) copy[n] = malloc(n + 1);
	char* e = copy[n];
	memcpy(e, t, n + 1);
	static char dummy[] = "a";
	uint64_t a[8];
	for (int i = 0; i < 8; i++) a[i] = (uint64_t)dummy;
	shown[0] = 0;
	parse_path(e);
	if (n_args > 8) return;
	int k[8] = {0}, lim[8], m = n_args, kinds[8];
	for (int i = 0; i < n_path; i++) if (path[i].kind != 's' && path[i].kind != 'i') kinds[path[i].arg] = path[i].kind;
	/* the last placeholder may belong to an index that is not finished */
	int counted = 0;
	for (int i = 0; i < n_path; i++) if (path[i].kind != 's' && path[i].kind != 'i') counted++;
	m = counted;
	for (int i = 0; i < m; i++) lim[i] = full_args ? (kinds[i] == 'p' ? 7 : 9) : 3;
	for (;;) {
		char* o = shown;
		*o = 0;
		for (int i = 0; i < m; i++) {
			a[i] = kinds[i] == 'p' ? (uint64_t)arg_s[k[i]] : arg_i[k[i]];
			if (kinds[i] == 'p') o += sprintf(o, " '%s'", arg_s[k[i]]);
			else o += sprintf(o, " %lld", (long long)arg_i[k[i]]);
		}
		check_args(e, a);
		int i = 0;
		while (i < m && ++k[i] == lim[i]) k[i++] = 0;
		if (i == m) break;
	}
	shown[0] = 0;
}

/* ---------------- enumerations ---------------- */
static const char* toks[] = {"[", "]", "0", "1", "'a'", "-", "+", "'", "%u32", "%s", " ", "''", "%i64", "%", "a", "[0]", "['a']", "\"a\"", "4294967296", "18446744073709551616", "9", "%i32", "%u64", "-1]", "s", "u", "64", 0};
static void words(int len_max, int k, int root)
{
	int w[12];
	full_args = 0;
	cur_root = root;
		for (int len = 0; len <= len_max; len++) {
			memset(w, 0, sizeof w);
			for (;;) {
				char* o = text;
				*o = 0;
				for (int i = 0; i < len; i++) o = stpcpy(o, toks[w[i]]);
				shown[0] = 0;
				if (mc_begin_cb(descr)) check(text);
				int i = 0;
				while (i < len && ++w[i] == k) w[i++] = 0;
				if (i == len) break;
			}
		}
}

static const char* indices[] = {
	"0", "1", "2", "3", "5", "6", "7", "37", "38", "+0", "+1", "-0", "-1", "-2147483648", "-9223372036854775808", "-9223372036854775807", "-9223372036854775809", "-4294967295", "+4294967295", "4294967295", "4294967296", "4294967297", "2147483648", "2147483647", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073709551617", "99999999999999999999999", "-18446744073709551615", "-18446744073709551616", "-1844674407370955161499", "007", "00", "-01",
	"'a'", "'b'", "'ab'", "''", "'abc'", "'x'", "'%s'", "'[0]'", "'\"'", "'\xe9'", "'a ", "'", "%s", "%u32", "%i32", "%u64", "%i64", "%d", "%", "%u", "%i6", "%u16", "%u642", "%ss", "", "x", "-", "+", "--1", "+-1", "1-", "1.5", "1 ", "1 2", "0x1", "1]", "[1", "'a'b", "\t1", "1\n", 0};
static void paths(int depth, int root_lo, int root_hi)
{
	int n = 0, w[8];
	while (indices[n]) n++;
	static const char* joins[] = {"][", "] [", "]\t\n["};
	full_args = depth < 3;
	for (cur_root = root_lo; cur_root < root_hi && cur_root < n_roots; cur_root++)
		for (int d = 1; d <= depth; d++) {
			memset(w, 0, sizeof w);
			for (;;) {
				for (int j = 0; j < (d == 2 ? 3 : 1); j++) {
					char* o = stpcpy(text, d == 1 ? " [" : "[");
					for (int i = 0; i < d; i++) { if (i) o = stpcpy(o, joins[j]); o = stpcpy(o, indices[w[i]]); }
					o = stpcpy(o, "]");
					if (d == 1) o = stpcpy(o, " ");
					shown[0] = 0;
					if (mc_begin_cb(descr)) check(text);
				}
				int i = 0;
				while (i < d && ++w[i] == n) w[i++] = 0;
				if (i == d) break;
			}
		}
}

/* every byte over and into every place, every truncation */
static void bytes(void)
{
	static const char* base[] = {"", "[0]", "['a']", "['b'][2]", "[1] [0][ 1 ]", "[%s][%u32]", "[%i64]['b']", "['ab']['a'][1]", "[-1]", "['']", 0};
	full_args = 0;
	for (cur_root = 0; cur_root < n_roots; cur_root++)
		for (int i = 0; base[i]; i++) {
			size_t n = strlen(base[i]);
			for (size_t at = 0; at <= n; at++)
				for (int mode = 0; mode < 2; mode++)
					for (int b = 0; b < 256; b++) {
						if ((mode == 0 && at == n) || (mode == 1 && b == 0)) continue;
						strcpy(text, base[i]);
						if (mode) memmove(text + at + 1, base[i] + at, n - at + 1);
						text[at] = (char)b;
						shown[0] = 0;
						if (mc_begin_cb(descr)) check(text);
					}
		}
	/* many indices, long keys, long numbers */
	cur_root = 0;
	for (int n = 1; n < 60; n++) {
		char* o = text;
		for (int i = 0; i < n; i++) o = stpcpy(o, "[0]");
		if (mc_begin_cb(descr)) check(text);
		o = stpcpy(text, "['");
		for (int i = 0; i < n * 10; i++) *o++ = 'a';
		stpcpy(o, "']");
		for (cur_root = 0; cur_root < 2; cur_root++) if (mc_begin_cb(descr)) check(text);
		o = stpcpy(text, "[");
		for (int i = 0; i < n; i++) *o++ = '0';
		stpcpy(o, "1]");
		for (cur_root = 0; cur_root < 4; cur_root++) if (mc_begin_cb(descr)) check(text);
		cur_root = 0;
	}
}

/* eight placeholders of all kinds keep their order */
static void order(int dmax)
{
	static const char* kinds[] = {"%u32", "%i32", "%u64", "%i64", "%s"};
	V* deep = v_parse("{'a':'end' 0:'zero' 1:5}");
	for (int i = 0; i < 7; i++) { V* m = v_new('M'); v_push(m, v_str8("a"), v_copy(deep)); v_push(m, v_int(0), v_parse("[1]")); v_push(m, v_int(1), deep); deep = m; }
	const char* e = 0;
	void* buf;
	if (!v_open(deep, 0, &P[n_roots], &buf, &e)) mc_die("open");
	roots[n_roots] = deep;
	cur_root = n_roots++;
	int w[8];
	for (int d = 1; d <= dmax; d++) {
		memset(w, 0, sizeof w);
		for (;;) {
			char* o = text;
			uint64_t a[8];
			for (int i = 0; i < 8; i++) a[i] = (uint64_t)"a";
			for (int i = 0; i < d; i++) { o += sprintf(o, "[%s]", kinds[w[i]]); a[i] = w[i] == 4 ? (uint64_t)"a" : 1; }
			sprintf(shown, " following the first or only key");
			if (mc_begin_cb(descr)) {
				check_args(text, a);
				/* a missing key at each place */
				for (int i = 0; i < d; i++) { uint64_t k = a[i]; a[i] = w[i] == 4 ? (uint64_t)"zz" : 7; check_args(text, a); a[i] = k; }
			}
			int i = 0;
			while (i < d && ++w[i] == 5) w[i++] = 0;
			if (i == d) break;
		}
	}
}

int main(int argc, char** argv)
{
	mc_init(argc, argv);
	for (; root_texts[n_roots]; n_roots++) {
		const char* e = 0;
		void* buf;
		roots[n_roots] = v_parse(root_texts[n_roots]);
		if (!v_open(roots[n_roots], 0, &P[n_roots], &buf, &e)) { fprintf(stderr, "%s: %s\n", root_texts[n_roots], e); mc_die("open"); }
	}
	const char* t = mc_task();
	if (!strcmp(t, "words")) words(mc_arg(0, 4), mc_arg(1, 10), mc_arg(2, 0));
	else if (!strcmp(t, "paths")) paths(mc_arg(0, 2), mc_arg(1, 0), mc_arg(2, 100));
	else if (!strcmp(t, "bytes")) bytes();
	else if (!strcmp(t, "order")) order(mc_arg(0, 6));
	else mc_die("unknown task");
	mc_finish();
	return 0;
}
