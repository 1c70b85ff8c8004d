/* C10, the C sort: every small input, structured and adversarial large ones,
   a failing comparison at every call, comparisons that contradict themselves. */
#include "mc.h"
#include <sys/resource.h>
#include <pointless/custom_sort.h>

#define MAXN 200000
static int A[MAXN], W[MAXN], cnt[MAXN];
static int n_items;
static uint64_t calls, swaps, fail_at, flip_a, flip_b;
static int fail_c, flip_to_a, flip_to_b, bad_index, failed;
static uint64_t limit;
static char* stack_base;
static size_t stack_used;

static void touch(int a)
{
	if (a < 0 || a >= n_items) { bad_index = 1; }
	char here;
	size_t d = (size_t)(stack_base - &here);
	if (d < ((size_t)1 << 40) && d > stack_used) stack_used = d;
}

static void endless(void);
static int cmp_int(int a, int b, int* c, void* user)
{
	(void)user;
	touch(a); touch(b);
	calls++;
	if (bad_index) { *c = 0; return 0; }
	if (calls > limit) endless();
	int r = (A[a] > A[b]) - (A[a] < A[b]);
	if (calls == flip_a) r = flip_to_a;
	if (calls == flip_b) r = flip_to_b;
	*c = r;
	if (calls == fail_at) { *c = fail_c; failed = 1; return 0; }
	return 1;
}

static void swap_int(int a, int b, void* user)
{
	(void)user;
	touch(a); touch(b);
	swaps++;
	if (bad_index) return;
	int t = A[a]; A[a] = A[b]; A[b] = t;
}

/* McIlroy's adversary: values are decided while the sort asks for them */
static int val[MAXN], nsolid, candidate, gas, idx[MAXN];
static int cmp_adv(int a, int b, int* c, void* user)
{
	(void)user;
	touch(a); touch(b);
	calls++;
	if (bad_index) { *c = 0; return 0; }
	if (calls > limit) endless();
	int x = idx[a], y = idx[b];
	if (val[x] == gas && val[y] == gas) {
		if (x == candidate) val[x] = nsolid++;
		else val[y] = nsolid++;
	}
	if (val[x] == gas) candidate = x;
	else if (val[y] == gas) candidate = y;
	*c = (val[x] > val[y]) - (val[x] < val[y]);
	return 1;
}

static void swap_adv(int a, int b, void* user)
{
	(void)user;
	touch(a); touch(b);
	if (bad_index) return;
	int t = idx[a]; idx[a] = idx[b]; idx[b] = t;
}

static void show_base(char* d, size_t n)
{
	size_t k = 0;
	d[0] = 0;
	for (int i = 0; i < n_items && k + 16 < n && i < 64; i++)
		k += snprintf(d + k, n - k, "%d ", W[i]);
}
static const char* base_txt(void) { static char b[900]; show_base(b, sizeof(b)); return b; }

static void endless(void)
{
	mc_violation("the sort does not end", "n=%d: %s", n_items, base_txt());
	mc_finish();
}

static int permuted(void)
{
	int mx = 0;
	for (int i = 0; i < n_items; i++) { if (W[i] > mx) mx = W[i]; }
	if (mx < MAXN) {
		memset(cnt, 0, sizeof(int) * (mx + 1));
		for (int i = 0; i < n_items; i++) { cnt[W[i]]++; }
		for (int i = 0; i < n_items; i++) { if (A[i] < 0 || A[i] > mx || --cnt[A[i]] < 0) return 0; }
	}
	return 1;
}

static int go(void)
{
	char base;
	stack_base = &base;
	memcpy(A, W, sizeof(int) * n_items);
	calls = swaps = 0; bad_index = 0; failed = 0; stack_used = 0;
	return bentley_sort_(n_items, cmp_int, swap_int, 0);
}

static void check_sorted(int rc)
{
	mc_count("states", 1); mc_count("traces", 1); mc_count("transitions", calls + swaps);
	if (bad_index) { mc_violation("the sort reaches outside the array", "n=%d: %s", n_items, base_txt()); return; }
	if (rc != 1) mc_violation("the sort reports an error although no comparison failed", "n=%d: %s", n_items, base_txt());
	if (!permuted()) mc_violation("the sort loses or invents items", "n=%d: %s", n_items, base_txt());
	for (int i = 1; i < n_items; i++)
		if (A[i - 1] > A[i]) { mc_violation("the result is not in order", "n=%d: %s", n_items, base_txt()); break; }
	if (stack_used > 256 * 1024) mc_violation("the sort uses too much stack", "n=%d: %zu bytes", n_items, stack_used);
}

static int next_perm(int* a, int n)
{
	int i = n - 2;
	while (i >= 0 && a[i] >= a[i + 1]) i--;
	if (i < 0) return 0;
	int j = n - 1;
	while (a[j] <= a[i]) j--;
	int t = a[i]; a[i] = a[j]; a[j] = t;
	for (int l = i + 1, r = n - 1; l < r; l++, r--) { t = a[l]; a[l] = a[r]; a[r] = t; }
	return 1;
}

/* shape k of the structured inputs, 0 when there is none */
static int shape(int k, int n)
{
	n_items = n;
	for (int i = 0; i < n; i++) {
		switch (k) {
			case 0: W[i] = i; break;
			case 1: W[i] = n - 1 - i; break;
			case 2: W[i] = 7; break;
			case 3: W[i] = i < n / 2 ? i : n - 1 - i; break;
			case 4: W[i] = i < n / 2 ? n / 2 - i : i; break;
			case 5: W[i] = i % 2; break;
			case 6: W[i] = i % 3; break;
			case 7: W[i] = (i * 7) % (n > 1 ? n : 1); break;
			case 8: W[i] = i % 17; break;
			case 9: W[i] = i < n / 2 ? 1 : 0; break;
			case 10: W[i] = (int)(((uint64_t)i * 2654435761u) % 1000003u % (unsigned)(n + 1)); break;
			case 11: W[i] = i ^ 1; break;
			case 12: W[i] = (int)(((uint64_t)i * 40503u) & 0xff); break;
			case 13: W[i] = i == n - 1 ? 0 : i + 1; break;
			case 14: W[i] = i == 0 ? n : i; break;
			case 15: W[i] = i == n / 2 ? 0 : 5; break;
			default: return 0;
		}
	}
	return 1;
}

static void small(int deep)
{
	int part = mc_arg(0, 0), of = mc_arg(1, 1);
	int perm_n = deep ? 9 : 8;
	for (int n = 0; n <= perm_n; n++) {
		for (int i = 0; i < n; i++) W[i] = i;
		n_items = n;
		uint64_t k = 0;
		do {
			if (k++ % 1000 == 0) { if ((k / 1000) % of != (uint64_t)part || !mc_begin("permutations of %d from number %d", n, (int)(k - 1))) { int more = 1; for (int s = 0; s < 999 && more; s++) { more = next_perm(W, n); k += more; } if (!more) break; continue; } mc_nontrivial(); }
			int rc; static int keep[16]; memcpy(keep, W, sizeof(keep));
			rc = go();
			check_sorted(rc);
			memcpy(W, keep, sizeof(keep));
		} while (next_perm(W, n));
	}
	for (int base = 2; base <= 4; base++) {
		int max = base == 2 ? (deep ? 18 : 15) : base == 3 ? (deep ? 12 : 10) : (deep ? 9 : 8);
		for (int n = 0; n <= max; n++) {
			uint64_t total = 1;
			for (int i = 0; i < n; i++) total *= base;
			for (uint64_t lo = 0; lo < total; lo += 4096) {
				if ((lo / 4096) % of != (uint64_t)part) continue;
				if (!mc_begin("words of %d items over %d values from number %d", n, base, (int)lo)) continue;
				mc_nontrivial();
				for (uint64_t w = lo; w < total && w < lo + 4096; w++) {
					uint64_t x = w;
					n_items = n;
					for (int i = 0; i < n; i++) { W[i] = x % base; x /= base; }
					check_sorted(go());
				}
			}
		}
	}
}

static void large(int deep)
{
	static const int sizes[] = {0, 1, 2, 6, 7, 8, 9, 15, 16, 39, 40, 41, 42, 47, 48, 63, 64, 65, 100, 255, 256, 257, 1000, 4096, 20000};
	for (unsigned s = 0; s < sizeof(sizes) / sizeof(*sizes); s++) {
		int n = sizes[s];
		for (int k = 0; shape(k, n) && k < 16; k++) {
			if (!mc_begin("shape %d of %d items", k, n)) continue;
			if (n > 40) mc_nontrivial();
			shape(k, n);
			check_sorted(go());
		}
		if (n > (deep ? 257 : 65)) continue;
		for (int k = 0; k < n; k++) {
			if (!mc_begin("one item of %d out of place, or rotated by %d", n, k)) continue;
			mc_nontrivial();
			for (int j = 0; j < n; j++) {
				n_items = n;
				for (int i = 0; i < n; i++) W[i] = i;
				int t = W[k];
				if (k < j) memmove(W + k, W + k + 1, sizeof(int) * (j - k));
				else memmove(W + j + 1, W + j, sizeof(int) * (k - j));
				W[j] = t;
				check_sorted(go());
			}
			for (int d = 0; d < 2; d++) {
				for (int i = 0; i < n; i++) W[i] = d ? (n - 1 - (i + k) % n) : (i + k) % n;
				check_sorted(go());
			}
		}
	}
	static const int adv[] = {8, 41, 100, 1000, 5000, 20000, 60000};
	for (unsigned s = 0; s < sizeof(adv) / sizeof(*adv) - (deep ? 0 : 1); s++) {
		int n = adv[s];
		if (!mc_begin("adversary of %d items", n)) continue;
		mc_nontrivial();
		char base;
		stack_base = &base;
		n_items = n;
		for (int i = 0; i < n; i++) { idx[i] = i; val[i] = n; }
		gas = n; nsolid = 0; candidate = 0; calls = swaps = 0; bad_index = 0; stack_used = 0;
		limit = UINT64_MAX;
		int rc = bentley_sort_(n, cmp_adv, swap_adv, 0);
		mc_count("states", 1); mc_count("traces", 1); mc_count("transitions", calls);
		if (rc != 1 || bad_index) mc_violation("the sort fails against an adversary", "n=%d rc=%d", n, rc);
		for (int i = 1; i < n; i++)
			if (val[idx[i - 1]] > val[idx[i]]) { mc_violation("the result is not in order", "adversary n=%d", n); break; }
		if (stack_used > 256 * 1024) mc_violation("the sort uses too much stack", "n=%d: %zu bytes", n, stack_used);
		/* the input the adversary arrived at, once more from the start */
		for (int i = 0; i < n; i++) W[i] = val[i];
		check_sorted(go());
	}
}

static int base_input(int b)
{
	/* inputs under which comparisons fail or lie */
	static const int sizes[] = {2, 3, 5, 6, 7, 8, 9, 12, 20, 41, 45, 70};
	int ns = sizeof(sizes) / sizeof(*sizes);
	if (b >= ns * 16) return 0;
	shape(b % 16, sizes[b / 16]);
	return 1;
}

static void errors(int deep)
{
	(void)deep;
	for (int b = 0; base_input(b); b++) {
		if (!mc_begin("failing comparison, input %d", b)) continue;
		mc_nontrivial();
		base_input(b);
		fail_at = 0;
		go();
		uint64_t total = calls;
		for (uint64_t k = 1; k <= total; k++) for (int c = -1; c <= 1; c++) {
			fail_at = k; fail_c = c;
			int rc = go();
			mc_count("states", 1); mc_count("traces", 1); mc_count("transitions", calls + swaps);
			if (bad_index) mc_violation("the sort reaches outside the array", "n=%d %s: failure of call %d", n_items, base_txt(), (int)k);
			if (failed && rc != 0) mc_violation("a failed comparison is not reported", "n=%d %s: call %d, c=%d", n_items, base_txt(), (int)k, c);
			if (!permuted()) mc_violation("the sort loses or invents items", "n=%d %s: failure of call %d", n_items, base_txt(), (int)k);
		}
		fail_at = 0;
	}
	/* all words of up to 7 items, each call failing */
	for (int n = 2; n <= 7; n++) {
		uint64_t total = 1;
		for (int i = 0; i < n; i++) total *= 3;
		for (uint64_t lo = 0; lo < total; lo += 81) {
			if (!mc_begin("failing comparison, words of %d items from %d", n, (int)lo)) continue;
			mc_nontrivial();
			for (uint64_t w = lo; w < total && w < lo + 81; w++) {
				uint64_t x = w, k, t;
				n_items = n;
				for (int i = 0; i < n; i++) { W[i] = x % 3; x /= 3; }
				fail_at = 0; go(); t = calls;
				for (k = 1; k <= t; k++) for (int c = -1; c <= 1; c++) {
					fail_at = k; fail_c = c;
					int rc = go();
					mc_count("states", 1); mc_count("traces", 1); mc_count("transitions", calls + swaps);
					if (failed && rc != 0) mc_violation("a failed comparison is not reported", "n=%d %s: call %d, c=%d", n_items, base_txt(), (int)k, c);
					if (bad_index || !permuted()) mc_violation("the sort loses or invents items", "n=%d %s: failure of call %d", n_items, base_txt(), (int)k);
				}
				fail_at = 0;
			}
		}
	}
}

int const_cmp(int a, int b, int* c, void* user);
static void lies(int deep)
{
	for (int b = 0; base_input(b); b++) {
		if (!mc_begin("contradicting comparisons, input %d", b)) continue;
		mc_nontrivial();
		base_input(b);
		flip_a = flip_b = 0;
		go();
		uint64_t total = calls + 4;
		uint64_t second = n_items <= (deep ? 20 : 9) ? total : 0;
		for (uint64_t i = 1; i <= total; i++) for (int ci = -1; ci <= 1; ci++)
			for (uint64_t j = second ? i + 1 : 0; j <= (second ? total : 0); j++) for (int cj = -1; cj <= (second ? 1 : -1); cj++) {
				flip_a = i; flip_to_a = ci; flip_b = j; flip_to_b = cj;
				int rc = go();
				mc_count("states", 1); mc_count("traces", 1); mc_count("transitions", calls + swaps);
				if (bad_index) { mc_violation("the sort reaches outside the array", "n=%d %s: calls %d and %d answered %d, %d", n_items, base_txt(), (int)i, (int)j, ci, cj); continue; }
				if (rc != 1) mc_violation("the sort reports an error although no comparison failed", "n=%d %s", n_items, base_txt());
				if (!permuted()) mc_violation("the sort loses or invents items", "n=%d %s: calls %d and %d answered %d, %d", n_items, base_txt(), (int)i, (int)j, ci, cj);
			}
		flip_a = flip_b = 0;
	}
	/* one fixed answer, or answers in a cycle, whatever is asked */
	for (int n = 0; n <= 60; n++) for (int m = 0; m < 27; m++) {
		if (!mc_begin("constant answers %d for %d items", m, n)) continue;
		n_items = n;
		for (int i = 0; i < n; i++) W[i] = i;
				calls = swaps = 0; bad_index = 0;
		memcpy(A, W, sizeof(int) * n);
		int rc = bentley_sort_(n, const_cmp, swap_int, &m);
		mc_count("states", 1); mc_count("traces", 1); mc_count("transitions", calls + swaps);
		if (bad_index || rc != 1 || !permuted()) mc_violation("the sort misbehaves under contradicting comparisons", "n=%d answers %d", n, m);
	}
}

int const_cmp(int a, int b, int* c, void* user)
{
	int m = *(int*)user;
	touch(a); touch(b);
	if (++calls > limit) endless();
	int d[3] = {m % 3 - 1, m / 3 % 3 - 1, m / 9 - 1};
	*c = d[calls % 3];
	return !bad_index;
}

int main(int argc, char** argv)
{
	mc_init(argc, argv);
	limit = 400000000ull;
	int deep = mc_arg(2, 0);
	const char* t = mc_task();
	if (!strcmp(t, "small")) small(deep);
	if (!strcmp(t, "large")) large(deep);
	if (!strcmp(t, "errors")) errors(deep);
	if (!strcmp(t, "lies")) lies(deep);
	mc_finish();
}
