/* C14, C library: every allocation of every scenario fails once, or together
   with all later ones. Allocations fail inside library calls only. */
#include <stddef.h>
#include <stdint.h>
static volatile int inlib, failing_off;
static volatile long count, fail_at = -1, failed;
static volatile int lasting;
/* one call of the library; a failed creation call is made again, once, with memory */
static uint32_t call_retry(uint32_t r);
static volatile long failed_before;
static int retry_mode;      /* 0: give up, 1: once more, with memory */
static void retry_bad(void);
#define V_CALL(e) __extension__ ({ \
	failed_before = failed; inlib = 1; uint32_t r_ = (e); inlib = 0; \
	if (r_ == UINT32_MAX && failed == failed_before) retry_bad(); \
	if (r_ == UINT32_MAX && retry_mode) { failing_off = 1; inlib = 1; r_ = (e); inlib = 0; failing_off = 0; if (r_ == UINT32_MAX) retry_bad(); } \
	r_; })
#include "val.h"
#include <pointless/pointless_debug.h>
#include <pointless/pointless_recreate.h>
#include <pointless/pointless_cycle_marker_wrappers.h>
#include <pointless/pointless_unicode_utils.h>
#include <pointless/pointless_reader_helpers.h>
#include <pointless/pointless_eval.h>
#include <pointless/pointless_walk.h>
extern size_t __sanitizer_get_current_allocated_bytes(void);
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);

static int fails(void)
{
	if (!inlib || failing_off) return 0;
	long i = count++;
	if (fail_at < 0 || i < fail_at || (i > fail_at && !lasting)) return 0;
	failed++;
	return 1;
}
void* __wrap_malloc(size_t n) { return fails() ? 0 : __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t b) { return fails() ? 0 : __real_calloc(a, b); }
void* __wrap_realloc(void* p, size_t n) { return fails() ? 0 : __real_realloc(p, n); }
void __wrap_free(void* p) { __real_free(p); }
static void retry_bad(void) { mc_violation("a creation call failed with memory available", "after allocation %ld", (long)fail_at); }

static const char* values[] = {
	"~", "T", "5", "4294967295u", "1.5f", "'abc'", "\"abc\"", "''", "<>", "<0110>", "<111111111111111111111111111111111111>", "<01100110011001100110011001100110011001100110011>",
	"[]", "[1 2 3]", "[1 'a' ~]", "['a' 'a' \"a\" 'b' 'bc' 'bcd' 'bcde' 'bcdef']", "[[] [[]] [[1] [2 'x']]]", "[#i8[] #u8[1 2] #i16[-1] #u16[60000] #i32[-100000] #u32[3000000000] #i64[-5000000000] #u64[5000000000] #f[1.5f]]",
	"[1.5f 2.5f]", "[(40*7)]", "[1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 (20*300)]", "[<01> <01> <10> <000000000000000000000000000000000000000000> <0101010101010101010101010101010101010101>]",
	"{}", "{:}", "{1}", "{1 2 3 4 5 6 7 8 9}", "{'a' 'b' 'c' \"d\"}", "{1.5f T F 7 ~ 'x' <01>}", "{[1 2] ['a' [1.5f]] []}", "{1:2}", "{'a':[1 2 'c'] 'b':{1 2}}", "{1:{2:{3:{4:5}}}}", "{[1 'a']:1 [2 'a']:2 [2 ['b']]:3}",
	"{#i64[1 2]:1 #f[1.5f]:2}", "[{1} {1} {:} {}]", "[{'a':1} {'a':1 'b':2 'c':3 'd':4 'e':5}]", "[[[[[[[[[[1 'deep']]]]]]]]]]", "['aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa' 'bbbbbbbbbbbbbbbbbbbbbbbbbb']",
	"{1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40}",
	"{'a':{'b':['c' {1:2}]} 'd':{[1 ['x']]} 'e':<0011> 'f':\"g\"}",
};
#define NVALUES (int)(sizeof(values) / sizeof(*values))
static const int styles[] = {0, VS_OWNER | VS_WIDE, VS_TRANSFER, VS_RAWBITS | VS_SRC, VS_BEFORE | VS_TRANSFER};

static char* slurp(const char* f, size_t* n)
{
	FILE* h = fopen(f, "rb");
	*n = 0;
	if (!h) return 0;
	fseek(h, 0, SEEK_END);
	*n = ftell(h);
	rewind(h);
	char* b = malloc(*n + 1);
	if (fread(b, 1, *n, h) != *n) mc_die("fread");
	fclose(h);
	return b;
}

/* content of a serialised buffer; 0: cannot be opened */
static int holds(V* v, const void* b, size_t n)
{
	pointless_t p;
	const char* error = 0;
	if (!pointless_open_b(&p, b, n, &error)) { mc_violation("the written bytes do not open", "%s", error); return 0; }
	V* r = v_read(&p, pointless_root(&p));
	int ok = v_same(v, r);
	if (!ok) mc_violation("the written content is wrong", "allocation %ld%s: %s, expected %s", (long)fail_at, lasting ? " and later" : "", v_show(r), v_show(v));
	v_free(r);
	pointless_close(&p);
	return ok;
}

static char tmpf[600], tmpf2[600], srcf[600];
static size_t fixed;          /* bytes in use before the scenario */
static void leak_check(const char* what)
{
	size_t now = __sanitizer_get_current_allocated_bytes();
	if (now != fixed) { mc_violation("memory is left behind", "%s, allocation %ld%s: %ld bytes", what, (long)fail_at, lasting ? " and later" : "", (long)(now - fixed)); fixed = now; }
}

/* creation and output: 0 the whole thing failed, 1 fine. mode: 0 give up at the
   first failed call, 1 make it again; file: output to a file */
static int create(V* v, int style, int mode, int file, const char** error)
{
	pointless_create_t c;
	void* buf = 0;
	size_t n = 0;
	int ok;
	retry_mode = mode;
	pointless_create_begin_64(&c);
	uint32_t h = v_create(&c, v, style);
	if (h == UINT32_MAX) {
		/* what was created so far goes, in any state */
		pointless_create_end(&c);
		v_release(0);
		return 0;
	}
	pointless_create_set_root(&c, h);
	inlib = 1;
	ok = file ? pointless_create_output_and_end_f(&c, tmpf, error) : pointless_create_output_and_end_b(&c, &buf, &n, error);
	inlib = 0;
	v_release(0);
	if (ok) {
		if (file) buf = slurp(tmpf, &n);
		if (buf) holds(v, buf, n); else mc_violation("output succeeded without a file", "allocation %ld", (long)fail_at);
		if (file) free(buf); else pointless_free(buf);
	} else if (!*error) mc_violation("a failed output gives no error", "allocation %ld", (long)fail_at);
	if (file) {
		if (!ok && access(tmpf, F_OK) == 0) mc_violation("a failed output leaves a file", "allocation %ld", (long)fail_at);
		unlink(tmpf);
	}
	return ok;
}

static void creations(int part, int parts, int full)
{
	int k = 0;
	for (int vi = 0; vi < NVALUES; vi++) for (int si = 0; si < 5; si++) for (int file = 0; file < 2; file++) for (int mode = 0; mode < 3; mode++) {
		if (file && si && !full) continue;
		if (k++ % parts != part) continue;
		if (!mc_begin("create %s, style %d, to a %s, %s", values[vi], styles[si], file ? "file" : "buffer", mode == 0 ? "one allocation fails" : mode == 1 ? "one allocation fails, the call is made again" : "all allocations from one on fail")) continue;
		V* v = v_parse(values[vi]);
		const char* error = 0;
		fail_at = -1; lasting = 0; count = 0;
		if (!create(v, styles[si], 0, file, &error)) mc_violation("creation fails by itself", "%s", error ? error : "-");
		long n = count;
		fixed = __sanitizer_get_current_allocated_bytes();
		for (long i = 0; i < n; i++) {
			error = 0;
			fail_at = i; lasting = mode == 2; failed = 0; count = 0;
			int ok = create(v, styles[si], mode == 1, file, &error);
			mc_count("faults", failed > 0);
			mc_count(ok ? "absorbed" : "refused", 1);
			if (failed) mc_nontrivial();
			leak_check("creating");
			fail_at = -1;
		}
		/* two faults */
		v_free(v);
	}
}

/* -- scenarios on an opened value ------------------------------------------ */
struct env { V* v; pointless_t p; void* buf; size_t n; FILE* null; };
/* each returns 1 and a malloced text, or 0 with the error, if it has one to give */
typedef int (*scen_t)(struct env* e, char** text, const char** error);

static int s_open_b_(struct env* e, char** text, const char** error, int skip)
{
	pointless_t p;
	inlib = 1;
	int ok = skip ? pointless_open_b_skip_validate(&p, e->buf, e->n, error) : pointless_open_b(&p, e->buf, e->n, error);
	inlib = 0;
	if (!ok) return 0;
	V* r = v_read(&p, pointless_root(&p));
	*text = strdup(v_show(r));
	v_free(r);
	inlib = 1; pointless_close(&p); inlib = 0;
	return 1;
}
static int s_open_b(struct env* e, char** text, const char** error) { return s_open_b_(e, text, error, 0); }
static int s_open_bs(struct env* e, char** text, const char** error) { return s_open_b_(e, text, error, 1); }
static int s_open_f_(struct env* e, char** text, const char** error, int skip)
{
	pointless_t p;
	inlib = 1;
	int ok = skip ? pointless_open_f_skip_validate(&p, srcf, error) : pointless_open_f(&p, srcf, error);
	inlib = 0;
	if (!ok) return 0;
	V* r = v_read(&p, pointless_root(&p));
	*text = strdup(v_show(r));
	v_free(r);
	inlib = 1; pointless_close(&p); inlib = 0;
	return 1;
}
static int s_open_f(struct env* e, char** text, const char** error) { return s_open_f_(e, text, error, 0); }
static int s_open_fs(struct env* e, char** text, const char** error) { return s_open_f_(e, text, error, 1); }
static int s_recreate(struct env* e, char** text, const char** error)
{
	size_t n;
	unlink(tmpf);
	inlib = 1;
	int ok = pointless_recreate_64(srcf, tmpf, error);
	inlib = 0;
	char* b = slurp(tmpf, &n);
	unlink(tmpf);
	if (!ok) { if (b) { mc_violation("a failed re-creation leaves a file", "allocation %ld", (long)fail_at); free(b); } return 0; }
	if (!b) { mc_violation("re-creation without a file", "allocation %ld", (long)fail_at); return 1; }
	*text = strdup(holds(e->v, b, n) ? "ok" : "bad");
	free(b);
	return 1;
}
static int s_recreate_value(struct env* e, char** text, const char** error)
{
	pointless_create_t c;
	void* b = 0;
	size_t n = 0;
	int ok = 0;
	pointless_create_begin_64(&c);
	inlib = 1;
	uint32_t h = pointless_recreate_value(&e->p, pointless_root(&e->p), &c, error);
	inlib = 0;
	if (h == POINTLESS_CREATE_VALUE_FAIL) { pointless_create_end(&c); return 0; }
	pointless_create_set_root(&c, h);
	inlib = 1;
	ok = pointless_create_output_and_end_b(&c, &b, &n, error);
	inlib = 0;
	if (!ok) return 0;
	*text = strdup(holds(e->v, b, n) ? "ok" : "bad");
	pointless_free(b);
	return 1;
}
static int s_cycles(struct env* e, char** text, const char** error)
{
	inlib = 1;
	uint8_t* m = pointless_cycle_marker_read(&e->p, error);
	inlib = 0;
	if (!m) return 0;
	*text = strdup("marked");
	pointless_free(m);
	return 1;
}
static int s_print_(struct env* e, char** text, const char** error, int value)
{
	char* s = 0;
	size_t n = 0;
	FILE* f = open_memstream(&s, &n);   /* its memory is the harness's: written outside the counting below */
	setvbuf(f, 0, _IOFBF, 1 << 16);
	failing_off = 0;
	inlib = 1;
	int ok = value ? pointless_debug_print_value(&e->p, pointless_root(&e->p), f, error) : pointless_debug_print(&e->p, f, error);
	inlib = 0;
	fclose(f);
	if (ok) *text = s; else free(s);
	return ok;
}
static int s_print(struct env* e, char** text, const char** error) { return s_print_(e, text, error, 0); }
static int s_print_value(struct env* e, char** text, const char** error) { return s_print_(e, text, error, 1); }
static uint32_t walk_cb(pointless_t* p, pointless_value_t* v, uint32_t d, void* user) { ++*(uint32_t*)user; return POINTLESS_WALK_VISIT_CHILDREN; }
static int s_walk(struct env* e, char** text, const char** error)
{
	uint32_t n = 0;
	char b[40];
	inlib = 1;
	pointless_walk(&e->p, walk_cb, &n);
	inlib = 0;
	sprintf(b, "%u", n);
	*text = strdup(b);
	return 1;
}
static int s_lookup(struct env* e, char** text, const char** error)
{
	pointless_value_t *r = pointless_root(&e->p), *k = 0, *w = 0, *fk = 0, *fv = 0;
	uint32_t st = 0, n = 0;
	char b[80];
	pointless_value_t out;
	uint32_t u = 0;
	const char* er = 0;
	inlib = 1;
	if (r->type == POINTLESS_SET_VALUE) while (pointless_reader_set_iter(&e->p, r, &k, &st)) { pointless_reader_set_lookup(&e->p, r, k, &fk, &er); n += fk == k; }
	if (r->type == POINTLESS_MAP_VALUE_VALUE) {
		while (pointless_reader_map_iter(&e->p, r, &k, &w, &st)) { pointless_reader_map_lookup(&e->p, r, k, &fk, &fv, &er); n += fk == k; }
		n = n * 10 + pointless_get_mapping_string_to_value(&e->p, r, "a", &out);
		n = n * 10 + pointless_get_mapping_string_to_u32(&e->p, r, "a", &u);
		n = n * 10 + pointless_eval_get(&e->p, r, &out, "[\"a\"]");
		n = n * 10 + pointless_eval_get_as_u32(&e->p, r, &u, "[%i32]", (int32_t)1);
	}
	inlib = 0;
	sprintf(b, "%u", n);
	*text = strdup(b);
	return 1;
}
static int s_strings(struct env* e, char** text, const char** error)
{
	uint32_t u4[] = {'a', 'b', 0}, bad4[] = {'a', 70000, 0};
	uint16_t u2[] = {'a', 'b', 0}, bad2[] = {'a', 500, 0};
	uint8_t u1[] = "ab";
	void* r[7];
	int ok = 1;
	inlib = 1;
	r[1] = pointless_ucs4_to_ascii(u4);
	r[2] = pointless_ucs2_to_ucs4(u2);
	r[3] = pointless_ucs2_to_ascii(u2);
	r[4] = pointless_ascii_to_ucs4(u1);
	inlib = 0;
	for (int i = 1; i < 5; i++) ok &= r[i] != 0;
	if (r[1] && memcmp(r[1], u1, 3)) mc_violation("wrong conversion", "1");
	if (r[2] && memcmp(r[2], u4, 12)) mc_violation("wrong conversion", "2");
	if (r[3] && memcmp(r[3], u1, 3)) mc_violation("wrong conversion", "3");
	if (r[4] && memcmp(r[4], u4, 12)) mc_violation("wrong conversion", "4");
	for (int i = 1; i < 5; i++) pointless_free(r[i]);
	if (ok) *text = strdup("ok"); else *error = "a conversion";
	return ok;
}
static struct { const char* name; scen_t f; int root; } scens[] = {
	{"open a buffer", s_open_b}, {"open a buffer without validation", s_open_bs}, {"open a file", s_open_f}, {"open a file without validation", s_open_fs},
	{"re-create a file", s_recreate}, {"re-create a value", s_recreate_value}, {"mark cycles", s_cycles}, {"print", s_print}, {"print a value", s_print_value},
	{"walk", s_walk}, {"look up", s_lookup}, {"convert strings", s_strings},
};
#define NSCENS (int)(sizeof(scens) / sizeof(*scens))

static void readings(int part, int parts, int full)
{
	int k = 0;
	for (int vi = 0; vi < NVALUES; vi++) for (int si = 0; si < NSCENS; si++) for (int l = 0; l < 2; l++) {
		if (k++ % parts != part) continue;
		if (scens[si].f == s_strings && vi) continue;
		if (!mc_begin("%s: %s, %s", scens[si].name, values[vi], l ? "all allocations from one on fail" : "one allocation fails")) continue;
		struct env e;
		const char* error = 0;
		fail_at = -1; lasting = l;
		memset(&e, 0, sizeof e);
		e.v = v_parse(values[vi]);
		pointless_create_t c;
		pointless_create_begin_64(&c);
		retry_mode = 0;
		pointless_create_set_root(&c, v_create(&c, e.v, 0));
		if (!pointless_create_output_and_end_b(&c, &e.buf, &e.n, &error)) mc_die(values[vi]);
		FILE* f = fopen(srcf, "wb");
		fwrite(e.buf, 1, e.n, f);
		fclose(f);
		if (!pointless_open_b(&e.p, e.buf, e.n, &error)) mc_die("open");
		char *want = 0, *text = 0;
		count = 0;
		if (!scens[si].f(&e, &want, &error)) { mc_violation("the scenario fails by itself", "%s", error ? error : "-"); continue; }
		if (!scens[si].f(&e, &text, &error) || strcmp(text, want)) mc_violation("the scenario is not deterministic", "%s", want);
		free(text);
		long n = count / 2;
		fixed = __sanitizer_get_current_allocated_bytes();
		for (long i = 0; i < n; i++) {
			error = 0; text = 0;
			fail_at = i; failed = 0; count = 0;
			int ok = scens[si].f(&e, &text, &error);
			mc_count("faults", failed > 0);
			mc_count(ok ? "absorbed" : "refused", 1);
			if (failed) mc_nontrivial();
			fail_at = -1;
			if (!ok && !error) mc_violation("a failure gives no error", "allocation %ld", i);
			if (ok && strcmp(text, want)) mc_violation("a failing allocation changes the result", "allocation %ld: %s, expected %s", i, text, want);
			free(text);
			leak_check(scens[si].name);
			text = 0;
			error = 0;
			if (!scens[si].f(&e, &text, &error)) mc_violation("the call fails afterwards", "allocation %ld: %s", i, error ? error : "-");
			else if (strcmp(text, want)) mc_violation("the call gives another result afterwards", "allocation %ld: %s, expected %s", i, text, want);
			free(text);
			V* r = v_read(&e.p, pointless_root(&e.p));
			if (!v_same(r, e.v)) mc_violation("the opened value changed", "allocation %ld: %s", i, v_show(r));
			v_free(r);
			leak_check("afterwards");
		}
		free(want);
		pointless_close(&e.p);
		pointless_free(e.buf);
		v_free(e.v);
	}
}

/* -- a failed call leaves the creation as it was: its output has all that was
   created by the calls that succeeded --------------------------------------- */
int main(int argc, char** argv)
{
	mc_init(argc, argv);
	const char* t = getenv("MC_TMP");
	if (!t) mc_die("MC_TMP");
	snprintf(tmpf, sizeof tmpf, "%s/oom-%d-out", t, getpid());
	snprintf(srcf, sizeof srcf, "%s/oom-%d-in", t, getpid());
	int part = mc_arg(0, 0), parts = mc_arg(1, 1), full = mc_arg(2, 0);
	creations(part, parts, full);
	readings(part, parts, full);
	unlink(tmpf);
	unlink(srcf);
	mc_finish();
	return 0;
}
