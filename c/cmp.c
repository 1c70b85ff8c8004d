/* C05, C side: the comparison of stored values and of values under creation,
   over all pairs and triples of a pool, in every representation. */
#include "val.h"
#include <pointless/pointless_create.h>

static const char* small[] = {
	"~", "T", "F", "0", "1", "2", "-1", "-2147483648", "2147483647", "2147483648u", "4294967295u", "16777217", "1.5f", "0f", "1f", "-1f", "16777216f", "4294967296f", "2147483648f", "inff", "-inff", "1e-45f", "-0f",
	"''", "'a'", "'ab'", "'b'", "'\\xff;'", "\"a\"", "\"\\u100;\"", "\"a\\u100;\"", "\"\\U10ffff;\"", "\"\\uffff;\"", "'\\xe9;'", "\"\\xe9;\"",
	"<>", "<0>", "<1>", "<00>", "<01>", "<10>", "<11>", "<101>", "<0110>", "<00000000000000000000000000000000000000001>", "<11111111111111111111111111111111111>", "<1111111111111111111111111111111111101>", "<00000000000000000000000000000000000>",
	"<0000000000000000000000000011>", "<00000000000000000000000000001>", "<111111111111111111111111110>", "<11111111111111111111111111111>",
	"[]", "[0]", "[1]", "[1 2]", "[1 3]", "[-1]", "[300]", "[70000 1]", "[-1 4294967295u]", "[1f]", "[1f 2f]", "[1 2f]", "[1.5f]", "['a']", "['a' 1]", "[1 'a']", "[~]", "[[]]", "[[1] 2]", "[[1 2]]", "[['a']]", "[<01>]", "[<0110>]", "[T]", "[F 1]",
	"#i8[1 2]", "#u8[1 2]", "#i16[1 2]", "#u16[1 2]", "#i32[1 2]", "#u32[1 2]", "#i64[1 2]", "#u64[1 2]", "#f[1f 2f]", "#u64[18446744073709551615]", "#i64[-1]", "#i64[-9223372036854775808]", "#u64[4294967296]", "#i8[-1]", "#u64[9223372036854775808]", "#i64[9223372036854775807]", "#f[4294967296f]", "#f[9.223372036854775807e18f]",
	"#u8[]", "#u32[1 3]", "#f[1f]", "[#u64[1]]", "[#i8[-1] #u8[1]]",
	0
};
static const char* unordered[] = { "{}", "{1}", "{1:2}", "{:}", "[{1}]", "[[1] {1:2}]", 0 };
#define NREP 6
static int styles[NREP] = {0, VS_OWNER, VS_WIDE | VS_SRC, VS_TRANSFER, VS_RAWBITS | VS_SRC, VS_BEFORE | VS_WIDE};

static V* val[512];
static int nv, nord;
static pointless_t rp[512][NREP];   /* a file holding [value] */
static pointless_value_t* rv[512][NREP];
static uint32_t ch[NREP][512];
static signed char M[512][512];
static int cur;
static void descr(char* o, size_t n) { snprintf(o, n, "%s against all", v_show(val[cur])); }
static void descr3(char* o, size_t n) { snprintf(o, n, "triples from %s", v_show(val[cur])); }
static int sgn(int x) { return x < 0 ? -1 : x > 0; }

static void add(const char* t, int copies)
{
	if (copies) { }
	val[nv++] = v_parse(t);
}

int main(int argc, char** argv)
{
	mc_init(argc, argv);
	for (int i = 0; small[i]; i++) add(small[i], 0);
	if (mc_arg(0, 0)) {
		/* all pairs of leaf items as two-item vectors */
		static const char* leaf[] = {"~", "T", "0", "-1", "1f", "4294967295u", "'a'", "\"\\u100;\"", "[]", "[1]", "<01>", "<>", "16777217", "16777216f", 0};
		char b[200];
		for (int i = 0; leaf[i]; i++) for (int j = 0; leaf[j]; j++) { snprintf(b, sizeof b, "[%s %s]", leaf[i], leaf[j]); add(b, 0); }
	}
	nord = nv;
	for (int i = 0; unordered[i]; i++) add(unordered[i], 0);
	pointless_create_t c[NREP];
	for (int r = 0; r < NREP; r++) {
		pointless_create_begin_64(&c[r]);
		for (int i = 0; i < nv; i++) {
			ch[r][i] = v_create(&c[r], val[i], styles[r]);
			if (ch[r][i] == POINTLESS_CREATE_VALUE_FAIL) mc_die("create");
			V* box = v_new('v');
			v_push(box, val[i], 0);
			v_push(box, v_new('n'), 0);
			void* buf = 0;
			const char* error = 0;
			if (!v_open(box, styles[r], &rp[i][r], &buf, &error)) { fprintf(stderr, "%s: %s\n", v_show(val[i]), error); mc_die("open"); }
			rv[i][r] = &pointless_reader_vector_value(&rp[i][r], pointless_root(&rp[i][r]))[0];
		}
	}
	for (cur = 0; cur < nv; cur++) {
		int i = cur;
		if (!mc_begin_cb(descr)) continue;
		for (int j = 0; j < nv; j++) {
			int want = v_cmp(val[i], val[j]), first = 99;
			for (int r = 0; r < NREP; r++) for (int q = 0; q < NREP; q++) {
				const char *e1 = 0, *e2 = 0;
				pointless_complete_value_t a = pointless_value_to_complete(rv[i][r]), b = pointless_value_to_complete(rv[j][q]);
				int x = sgn(pointless_cmp_reader(&rp[i][r], &a, &rp[j][q], &b, &e1));
				int y = sgn(pointless_cmp_reader(&rp[j][q], &b, &rp[i][r], &a, &e2));
				mc_count("pairs", 1);
				if (want != 2) mc_nontrivial();
				if ((e1 != 0) != (e2 != 0)) { mc_violation("an error in one direction only", "%s, %s: %s, %s", v_show(val[i]), v_show(val[j]), e1, e2); continue; }
				if (e1) {
					if (want != 2) mc_violation("comparable values are refused", "%s, %s: %s", v_show(val[i]), v_show(val[j]), e1);
					continue;
				}
				if (x != -y) mc_violation("comparison is not antisymmetric", "%s, %s (forms %d %d): %d, %d", v_show(val[i]), v_show(val[j]), r, q, x, y);
				if (want != 2 && x != want) mc_violation("comparison disagrees with the values", "%s, %s (forms %d %d): %d, expected %d", v_show(val[i]), v_show(val[j]), r, q, x, want);
				if (first == 99) { first = x; M[i][j] = x; }
				else if (x != first) mc_violation("comparison depends on the representation", "%s, %s: %d in form 0, %d in forms %d %d", v_show(val[i]), v_show(val[j]), first, x, r, q);
				int z = sgn(pointless_cmp_reader_acyclic(&rp[i][r], &a, &rp[j][q], &b));
				if (z != x) mc_violation("the acyclic comparison differs", "%s, %s: %d, %d", v_show(val[i]), v_show(val[j]), z, x);
				/* values in one and the same file */
			}
			for (int r = 0; r < NREP; r++) {
				const char* e1 = 0;
				int x = sgn(pointless_cmp_create(&c[r], ch[r][i], ch[r][j], &e1));
				mc_count("create_pairs", 1);
				if (e1) {
					if (want != 2) mc_violation("comparable values are refused while creating", "%s, %s: %s", v_show(val[i]), v_show(val[j]), e1);
					continue;
				}
				if (first != 99 && x != first) mc_violation("comparison while creating differs from the stored one", "%s, %s: %d, stored %d (style %d)", v_show(val[i]), v_show(val[j]), x, first, styles[r]);
			}
		}
	}
	/* transitivity, also across types; the matrix is recomputed so that a case stands alone */
	for (int i = 0; i < nord; i++) for (int j = 0; j < nord; j++) {
		const char* e = 0;
		pointless_complete_value_t a = pointless_value_to_complete(rv[i][0]), b = pointless_value_to_complete(rv[j][0]);
		M[i][j] = sgn(pointless_cmp_reader(&rp[i][0], &a, &rp[j][0], &b, &e));
	}
	for (cur = 0; cur < nord; cur++) {
		int i = cur;
		if (!mc_begin_cb(descr3)) continue;
		mc_nontrivial();
		for (int j = 0; j < nord; j++) for (int k = 0; k < nord; k++) {
			int want = 99;
			mc_count("triples", 1);
			if (M[i][j] == 0 && M[i][k] != M[j][k]) want = M[j][k];
			else if (M[i][j] < 0 && M[j][k] <= 0 && M[i][k] >= 0) want = -1;
			else if (M[i][j] > 0 && M[j][k] >= 0 && M[i][k] <= 0) want = 1;
			if (want != 99)
				mc_violation("comparison is not transitive", "%s, %s: %d; then %s: %d; but first to third: %d", v_show(val[i]), v_show(val[j]), M[i][j], v_show(val[k]), M[j][k], M[i][k]);
		}
	}
	mc_finish();
}
