/* Linked into the instrumented extension with --wrap: counts and fails the
   extension's own allocations, and gives a scheduler control whenever the
   extension gives up or retakes the interpreter lock. */
#include <errno.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/stat.h>

void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);

/* fault plan */
long mc_alloc_count = 0;      /* allocations seen since reset */
long mc_alloc_fail_at = -1;   /* index (0-based) of the first failing allocation, -1: none */
long mc_alloc_fail_n = 1;     /* number of consecutive failures, <0: all from there on */
long mc_alloc_failed = 0;     /* failures delivered */
long mc_live = 0;             /* live blocks of the extension */
long mc_max_size = 0;         /* largest request seen */
long mc_cap = 0;              /* if > 0, requests above this fail (out of memory) */

static int should_fail(size_t n)
{
	long i = mc_alloc_count++;
	if ((long)n > mc_max_size) mc_max_size = (long)n;
	if (mc_cap > 0 && n > (size_t)mc_cap) { mc_alloc_failed++; return 1; }
	if (mc_alloc_fail_at < 0 || i < mc_alloc_fail_at) return 0;
	if (mc_alloc_fail_n >= 0 && i >= mc_alloc_fail_at + mc_alloc_fail_n) return 0;
	mc_alloc_failed++;
	return 1;
}

/* scheduler hook: phase 0 lock given up, 1 about to retake it, 2 a call out
   of the extension in between (if mc_fine) */
typedef struct _ts PyThreadState;
PyThreadState* __real_PyEval_SaveThread(void);
void __real_PyEval_RestoreThread(PyThreadState*);

void (*mc_window)(int phase) = NULL;
long mc_windows = 0;
long mc_fine = 0;
static __thread int unlocked = 0;

static void point(void)
{
	if (!unlocked || !mc_fine || !mc_window) return;
	int e = errno;
	unlocked = 0;
	mc_window(2);
	unlocked = 1;
	errno = e;
}

PyThreadState* __wrap_PyEval_SaveThread(void)
{
	PyThreadState* t = __real_PyEval_SaveThread();
	mc_windows++;
	if (mc_window) mc_window(0);
	unlocked = 1;
	return t;
}

void __wrap_PyEval_RestoreThread(PyThreadState* t)
{
	unlocked = 0;
	if (mc_window) mc_window(1);
	__real_PyEval_RestoreThread(t);
}

/* after the calls which give something, before those which end it: what is
   kept of a result in a place of its own or of others is put to the test */
FILE* __real_fopen(const char*, const char*);
FILE* __wrap_fopen(const char* f, const char* m) { FILE* r = __real_fopen(f, m); point(); return r; }
int __real_fstat(int, struct stat*);
int __wrap_fstat(int f, struct stat* s) { int r = __real_fstat(f, s); point(); return r; }
void* __real_mmap(void*, size_t, int, int, int, off_t);
void* __wrap_mmap(void* a, size_t n, int p, int f, int d, off_t o) { void* r = __real_mmap(a, n, p, f, d, o); point(); return r; }
int __real_munmap(void*, size_t);
int __wrap_munmap(void* a, size_t n) { point(); return __real_munmap(a, n); }
int __real_fclose(FILE*);
int __wrap_fclose(FILE* f) { point(); return __real_fclose(f); }

void* __wrap_malloc(size_t n)
{
	point();
	if (should_fail(n)) return NULL;
	void* p = __real_malloc(n);
	if (p) mc_live++;
	return p;
}

void* __wrap_calloc(size_t a, size_t b)
{
	point();
	if (should_fail(a * b)) return NULL;
	void* p = __real_calloc(a, b);
	if (p) mc_live++;
	return p;
}

void* __wrap_realloc(void* q, size_t n)
{
	point();
	if (should_fail(n)) return NULL;
	void* p = __real_realloc(q, n);
	if (q == NULL && p) mc_live++;
	return p;
}

void __wrap_free(void* p)
{
	point();
	if (p) mc_live--;
	__real_free(p);
}
