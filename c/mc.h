/* Harness side of the checker protocol, see mc/engine.py. Cases are numbered
   in a fixed order; mc_begin() says whether to execute the next one. */
#ifndef MC_H
#define MC_H
#include <fcntl.h>
#include <inttypes.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

static uint64_t mc_n, mc_start, mc_stop = UINT64_MAX, mc_executed, mc_nt;
static volatile uint64_t* mc_mm;
static int mc_describing;
static char mc_case[1024];
static FILE* mc_vf;
static char* mc_vbuf;
static size_t mc_vlen;
static int mc_nviol, mc_nsamples;
static char mc_samples[3][1024];
static int mc_case_nt;
static struct { const char* name; uint64_t n; } mc_counts[32];
static int mc_argc;
static char** mc_argv;

static void mc_json(FILE* f, const char* s)
{
	fputc('"', f);
	for (; *s; s++) {
		unsigned char c = *s;
		if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
		else if (c < 32 || c >= 127) fprintf(f, "\\u%04x", c);
		else fputc(c, f);
	}
	fputc('"', f);
}

static void mc_finish(void)
{
	const char* out = getenv("MC_OUT");
	fflush(stdout);
	if (mc_vf) fflush(mc_vf);
	if (out && !mc_describing) {
		char tmp[4096];
		snprintf(tmp, sizeof(tmp), "%s.tmp", out);
		FILE* f = fopen(tmp, "w");
		if (!f) _exit(3);
		fprintf(f, "{\"counts\":{\"cases\":%" PRIu64 ",\"nontrivial\":%" PRIu64, mc_executed, mc_nt);
		for (int i = 0; i < 32 && mc_counts[i].name; i++)
			fprintf(f, ",\"%s\":%" PRIu64, mc_counts[i].name, mc_counts[i].n);
		fprintf(f, "},\"violations\":[%.*s],\"samples\":[", (int)mc_vlen, mc_vbuf ? mc_vbuf : "");
		for (int i = 0; i < mc_nsamples; i++) {
			if (i) fputc(',', f);
			mc_json(f, mc_samples[i]);
		}
		fprintf(f, "],\"complete\":true}");
		if (fclose(f) != 0) _exit(3);
		if (rename(tmp, out) != 0) _exit(3);
	}
	_exit(0);
}

static void mc_init(int argc, char** argv)
{
	mc_argc = argc;
	mc_argv = argv;
	const char* p = getenv("MC_PROGRESS");
	if (p && *p) {
		int fd = open(p, O_RDWR);
		void* m = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		if (m == MAP_FAILED) _exit(3);
		close(fd);
		mc_mm = m;
	}
	if (getenv("MC_START")) mc_start = strtoull(getenv("MC_START"), 0, 10);
	if (getenv("MC_STOP")) mc_stop = strtoull(getenv("MC_STOP"), 0, 10);
	mc_describing = getenv("MC_DESCRIBE") && getenv("MC_DESCRIBE")[0] == '1';
}

static const char* mc_task(void) { return mc_argc > 1 ? mc_argv[1] : ""; }
static long mc_arg(int i, long d) { return mc_argc > 2 + i ? atol(mc_argv[2 + i]) : d; }

/* index only: for hot loops, describe lazily with mc_describe */
static void (*mc_describe_cb)(char* out, size_t n);

static int mc_begin_cb(void (*cb)(char*, size_t))
{
	uint64_t n = mc_n++;
	if (n < mc_start) return 0;
	if (n >= mc_stop) mc_finish();
	if (mc_mm) *mc_mm = n + 1;
	mc_describe_cb = cb;
	mc_case[0] = 0;
	mc_case_nt = 0;
	if (mc_describing) {
		cb(mc_case, sizeof(mc_case));
		printf("MC-CASE %s\n", mc_case);
		mc_finish();
	}
	mc_executed++;
	return 1;
}

static int mc_begin(const char* fmt, ...)
{
	uint64_t n = mc_n++;
	if (n < mc_start) return 0;
	if (n >= mc_stop) mc_finish();
	if (mc_mm) *mc_mm = n + 1;
	va_list a;
	va_start(a, fmt);
	vsnprintf(mc_case, sizeof(mc_case), fmt, a);
	va_end(a);
	mc_describe_cb = 0;
	mc_case_nt = 0;
	if (mc_describing) {
		printf("MC-CASE %s\n", mc_case);
		mc_finish();
	}
	mc_executed++;
	return 1;
}

static void mc_nontrivial(void)
{
	if (mc_case_nt) return;
	mc_case_nt = 1;
	mc_nt++;
	if (mc_nsamples < 3) {
		if (mc_describe_cb && !mc_case[0]) mc_describe_cb(mc_case, sizeof(mc_case));
		snprintf(mc_samples[mc_nsamples++], 1024, "%s", mc_case);
	}
}

static void mc_count(const char* name, uint64_t n)
{
	for (int i = 0; i < 32; i++) {
		if (!mc_counts[i].name) mc_counts[i].name = name;
		if (mc_counts[i].name == name || strcmp(mc_counts[i].name, name) == 0) {
			mc_counts[i].n += n;
			return;
		}
	}
}

static void mc_violation(const char* what, const char* fmt, ...)
{
	char d[2048], key[2300];
	if (mc_nviol >= 20) return;
	if (mc_describe_cb && !mc_case[0]) mc_describe_cb(mc_case, sizeof(mc_case));
	if (!mc_vf) mc_vf = open_memstream(&mc_vbuf, &mc_vlen);
	va_list a;
	va_start(a, fmt);
	vsnprintf(d, sizeof(d), fmt, a);
	va_end(a);
	snprintf(key, sizeof(key), "%s: %s", what, mc_case);
	if (mc_nviol++) fputc(',', mc_vf);
	fprintf(mc_vf, "{\"key\":");
	mc_json(mc_vf, key);
	fprintf(mc_vf, ",\"detail\":");
	mc_json(mc_vf, d);
	fprintf(mc_vf, ",\"case\":%" PRIu64 "}", mc_n - 1);
	fflush(mc_vf);
}

static void mc_die(const char* what)
{
	printf("MC-HARNESS-ERROR %s (case %" PRIu64 ")\n", what, mc_n);
	fflush(stdout);
	_exit(3);
}
#endif
