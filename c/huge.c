/* C01, C06: files beyond the 32-bit limits. The items of the large vectors
   live in one region of zero pages with a few marks; what the code under test
   writes out of it becomes a hole of the file, so that such files cost nothing. */
#include "mc.h"
#include <errno.h>
#include <sys/stat.h>
#include <pointless/pointless.h>
#include <pointless/pointless_reader_helpers.h>

#define REGION ((size_t)1 << 36)
#define MANY ((size_t)1 << 20)
static char* region;
static size_t marks[64];
static int n_marks;
size_t __real_fwrite(const void*, size_t, size_t, FILE*);
ssize_t __real_write(int, const void*, size_t);

static int inside(const void* p, size_t n) { return region && n > MANY && (const char*)p >= region && (const char*)p + n <= region + REGION; }

size_t __wrap_fwrite(const void* p, size_t size, size_t n, FILE* f)
{
	size_t all = size * n, at, end;
	off_t base;
	if (!inside(p, all)) return __real_fwrite(p, size, n, f);
	base = ftello(f);
	at = (const char*)p - region;
	end = at + all;
	for (int i = 0; i < n_marks; i++) {
		size_t a = marks[i] < at ? at : marks[i], b = marks[i] + 8 > end ? end : marks[i] + 8;
		if (a >= b) continue;
		if (fseeko(f, base + (a - at), SEEK_SET) || __real_fwrite(region + a, b - a, 1, f) != 1) return 0;
	}
	if (fseeko(f, base + all - 1, SEEK_SET) || __real_fwrite(region + end - 1, 1, 1, f) != 1) return 0;
	return n;
}

ssize_t __wrap_write(int fd, const void* p, size_t all)
{
	size_t at, end;
	off_t base;
	if (!inside(p, all)) return __real_write(fd, p, all);
	base = lseek(fd, 0, SEEK_CUR);
	at = (const char*)p - region;
	end = at + all;
	for (int i = 0; i < n_marks; i++) {
		size_t a = marks[i] < at ? at : marks[i], b = marks[i] + 8 > end ? end : marks[i] + 8;
		if (a < b && pwrite(fd, region + a, b - a, base + (a - at)) != (ssize_t)(b - a)) return -1;
	}
	if (pwrite(fd, region + end - 1, 1, base + all - 1) != 1) return -1;
	lseek(fd, base + all, SEEK_SET);
	return all;
}

static void setup(void)
{
	region = mmap(0, REGION, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (region == MAP_FAILED) { region = 0; mc_die("region"); }
}

/* a mark at this byte of the region: eight bytes, all their own */
static void mark(size_t at)
{
	if (at + 8 > REGION) return;
	marks[n_marks++] = at;
	for (int i = 0; i < 8; i++) region[at + i] = (char)(0x11 * (i + 1) + 3 * n_marks);
}
static void unmark(void)
{
	for (int i = 0; i < n_marks; i++) memset(region + marks[i], 0, 8);
	n_marks = 0;
}

static const char* names[9] = {"i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f"};
static const uint32_t widths[9] = {1, 1, 2, 2, 4, 4, 8, 8, 4};
static const uint32_t types[9] = {POINTLESS_VECTOR_I8, POINTLESS_VECTOR_U8, POINTLESS_VECTOR_I16, POINTLESS_VECTOR_U16, POINTLESS_VECTOR_I32, POINTLESS_VECTOR_U32, POINTLESS_VECTOR_I64, POINTLESS_VECTOR_U64, POINTLESS_VECTOR_FLOAT};

static uint32_t owner(pointless_create_t* c, int t, uint32_t n)
{
	switch (t) {
	case 0: return pointless_create_vector_i8_owner(c, (int8_t*)region, n);
	case 1: return pointless_create_vector_u8_owner(c, (uint8_t*)region, n);
	case 2: return pointless_create_vector_i16_owner(c, (int16_t*)region, n);
	case 3: return pointless_create_vector_u16_owner(c, (uint16_t*)region, n);
	case 4: return pointless_create_vector_i32_owner(c, (int32_t*)region, n);
	case 5: return pointless_create_vector_u32_owner(c, (uint32_t*)region, n);
	case 6: return pointless_create_vector_i64_owner(c, (int64_t*)region, n);
	case 7: return pointless_create_vector_u64_owner(c, (uint64_t*)region, n);
	default: return pointless_create_vector_float_owner(c, (float*)region, n);
	}
}
static void* items(pointless_t* p, pointless_value_t* v, int t)
{
	switch (t) {
	case 0: return pointless_reader_vector_i8(p, v);
	case 1: return pointless_reader_vector_u8(p, v);
	case 2: return pointless_reader_vector_i16(p, v);
	case 3: return pointless_reader_vector_u16(p, v);
	case 4: return pointless_reader_vector_i32(p, v);
	case 5: return pointless_reader_vector_u32(p, v);
	case 6: return pointless_reader_vector_i64(p, v);
	case 7: return pointless_reader_vector_u64(p, v);
	default: return pointless_reader_vector_float(p, v);
	}
}

/* [vector of n items, vector of m items, 'tail', bits, {7}, {8: 'v'}, vector of 3 items] */
static int build(pointless_create_t* c, int t, uint32_t n, int t2, uint32_t m)
{
	uint32_t r, h[7], s, k;
	pointless_create_begin_64(c);
	r = pointless_create_vector_value(c);
	h[0] = owner(c, t, n);
	h[1] = owner(c, t2, m);
	h[2] = pointless_create_string_ascii(c, (uint8_t*)"tail");
	h[3] = pointless_create_bitvector(c, "\x55\xaa\x01\x3c\xff", 37);
	h[4] = pointless_create_set(c);
	k = pointless_create_u32(c, 7);
	s = pointless_create_set_add(c, h[4], k);
	if (s == POINTLESS_CREATE_VALUE_FAIL) return 0;
	h[5] = pointless_create_map(c);
	k = pointless_create_u32(c, 8);
	s = pointless_create_map_add(c, h[5], k, pointless_create_string_ascii(c, (uint8_t*)"v"));
	if (s == POINTLESS_CREATE_VALUE_FAIL) return 0;
	h[6] = owner(c, t, 3);
	for (int i = 0; i < 7; i++) if (h[i] == POINTLESS_CREATE_VALUE_FAIL || pointless_create_vector_value_append(c, r, h[i]) == POINTLESS_CREATE_VALUE_FAIL) return 0;
	pointless_create_set_root(c, r);
	return 1;
}

static const char* vector_is(pointless_t* p, pointless_value_t* v, int t, uint32_t n)
{
	if (v->type != types[t]) return "a vector changed its type";
	if (pointless_reader_vector_n_items(p, v) != n) return "a vector changed its length";
	char* b = items(p, v, t);
	size_t end = (size_t)n * widths[t];
	for (int i = 0; i < n_marks; i++) {
		size_t e = marks[i] + 8 > end ? end : marks[i] + 8;
		if (marks[i] < end && memcmp(b + marks[i], region + marks[i], e - marks[i])) return "a vector changed its items";
		if (marks[i] + 16 < end && marks[i] >= 8 && memcmp(b + marks[i] - 8, region + marks[i] - 8, 8)) return "items next to a mark changed";
	}
	if (n > 100 && memcmp(b + end - 64, region + end - 64, 64)) return "the end of a vector changed";
	return 0;
}

static const char* check(pointless_t* p, int t, uint32_t n, int t2, uint32_t m)
{
	pointless_value_t* r = pointless_root(p);
	const char* e;
	if (r->type != POINTLESS_VECTOR_VALUE && r->type != POINTLESS_VECTOR_VALUE_HASHABLE) return "the root changed its type";
	if (pointless_reader_vector_n_items(p, r) != 7) return "the root changed its length";
	pointless_value_t* v = pointless_reader_vector_value(p, r);
	if ((e = vector_is(p, v, t, n)) || (e = vector_is(p, v + 1, t2, m)) || (e = vector_is(p, v + 6, t, 3))) return e;
	if (v[2].type != POINTLESS_STRING_ || strcmp((char*)pointless_reader_string_value_ascii(p, v + 2), "tail")) return "the string changed";
	if (pointless_reader_bitvector_n_bits(p, v + 3) != 37) return "the bitvector changed its length";
	for (uint32_t i = 0; i < 37; i++) if (!pointless_reader_bitvector_is_set(p, v + 3, i) != !((unsigned char)"\x55\xaa\x01\x3c\xff"[i / 8] >> i % 8 & 1)) return "the bitvector changed";
	if (pointless_reader_set_n_items(p, v + 4) != 1) return "the set changed";
	uint32_t it = 0, x = 0;
	pointless_value_t* k;
	if (!pointless_reader_set_iter(p, v + 4, &k, &it) || !pointless_is_integer_type(k->type) || k->data.data_u32 != 7) return "the set changed";
	if (pointless_reader_map_n_items(p, v + 5) != 1) return "the map changed";
	pointless_value_t *kk, *vv;
	it = 0;
	if (!pointless_reader_map_iter(p, v + 5, &kk, &vv, &it) || kk->data.data_u32 != 8 || vv->type != POINTLESS_STRING_ || strcmp((char*)pointless_reader_string_value_ascii(p, vv), "v")) return "the map changed";
	return 0;
}

static void one(int t, uint32_t n, int t2, uint32_t m, int validate)
{
	if (!mc_begin("%s vector of %u items, %s vector of %u items and other values after it, %s", names[t], n, names[t2], m, validate ? "checked" : "unchecked")) return;
	if ((size_t)n * widths[t] > REGION - 64 || (size_t)m * widths[t2] > REGION - 64) mc_die("region too small");
	const char* e = 0;
	char path[64] = "huge.XXXXXX";
	pointless_create_t c;
	pointless_t p;
	unmark();
	size_t a = (size_t)n * widths[t];
	mark(0);
	if (a > 4096) { mark(a / 2); mark(a - 8); }
	for (int s = 31; s <= 34; s++) if (a > ((size_t)1 << s) + 64) { mark(((size_t)1 << s) - 24); mark((size_t)1 << s); }
	snprintf(path, sizeof path, "huge-%d.map", (int)getpid());
	mc_nontrivial();
	mc_count("states", 1);
	mc_count("transitions", 2);
	mc_count("traces", 1);
	if (!build(&c, t, n, t2, m)) { mc_violation("creation failed", "%s", mc_case); pointless_create_end(&c); return; }
	if (!pointless_create_output_and_end_f(&c, path, &e)) {
		/* no space for such a file is no answer */
		mc_violation("a large value was refused", "%s", e ? e : "?");
		unlink(path);
		return;
	}
	e = 0;
	if (!(validate ? pointless_open_f : pointless_open_f_skip_validate)(&p, path, &e)) mc_violation("a file which was written can not be opened", "%s", e ? e : "?");
	else {
		e = check(&p, t, n, t2, m);
		if (e) mc_violation(e, "%s", mc_case);
		pointless_close(&p);
	}
	unlink(path);
}

static void sizes(void)
{
	long part = mc_arg(0, 0), parts = mc_arg(1, 1), around = mc_arg(2, 5), i = 0;
	for (int t = 0; t < 9; t++) {
		uint64_t w = widths[t];
		for (int s = 28; s <= 36; s++) for (long d = -around; d <= around; d++) {
			/* with and without the length before the items */
			for (int o = 0; o < 2; o++) {
				int64_t n = (int64_t)((((uint64_t)1 << s) - (o ? 4 : 0)) / w) + d;
				if (n < 1 || n > (int64_t)UINT32_MAX || (uint64_t)n * w > REGION - 64) continue;
				if (i++ % parts != part) continue;
				one(t, n, (t + 2) % 9, 5, d & 1);
			}
		}
		if (w < 8) for (uint32_t n = UINT32_MAX - 9; n > 9; n++) if (i++ % parts == part) one(t, n, (t + 1) % 9, 1, n & 1);
	}
}

/* the values after the vectors at every offset around the limits */
static void offsets(void)
{
	long part = mc_arg(0, 0), parts = mc_arg(1, 1), around = mc_arg(2, 40), i = 0;
	for (int s = 31; s <= 33; s++) for (long d = -around; d <= around; d++) {
		uint64_t all = ((uint64_t)1 << s) + 4 * d, a = ((uint64_t)1 << (s - 1)) / 8, b = all / 4 - a * 2;
		if (i++ % parts != part) continue;
		one(7, a, 5, b, d & 1);
	}
}

int main(int argc, char** argv)
{
	mc_init(argc, argv);
	setup();
	if (!strcmp(mc_task(), "sizes")) sizes();
	else if (!strcmp(mc_task(), "offsets")) offsets();
	else if (!strcmp(mc_task(), "gen")) {
		/* gen TYPE N PATH: for the Python side; marks at 0, the middle, the powers of two and the end */
		const char* e = 0;
		pointless_create_t c;
		int t = mc_arg(0, 0);
		uint32_t n = strtoul(argv[3], 0, 10);
		size_t a = (size_t)n * widths[t];
		for (int s = 0; s < 40; s++) if (((uint64_t)1 << s) < n && s % 8 > 5) mark(((uint64_t)1 << s) * widths[t]);
		if (a > 64) mark(a - 8);
		if (!build(&c, t, n, 1, 3) || !pointless_create_output_and_end_f(&c, argv[4], &e)) { printf("gen: %s\n", e ? e : "?"); return 1; }
		return 0;
	}
	else mc_die("task");
	mc_finish();
}
