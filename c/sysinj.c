/* Runs a call with every system call under control: the calling process traps
   its own system calls (seccomp, SIGSYS), records them, and fails, shortens,
   tears, pauses at or dies at the ones the plan names. Installed in a forked
   child only. Memory, signal, time and exit calls are not intercepted. */
#include <errno.h>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <signal.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <ucontext.h>
#include <unistd.h>

__asm__(
	".text\n.p2align 12\n.globl sysinj_raw\n.type sysinj_raw,@function\nsysinj_raw:\n"
	"mov %rdi,%rax\nmov %rsi,%rdi\nmov %rdx,%rsi\nmov %rcx,%rdx\nmov %r8,%r10\nmov %r9,%r8\nmov 8(%rsp),%r9\n"
	"syscall\n.globl sysinj_after\nsysinj_after:\nret\n");
long sysinj_raw(long nr, long a, long b, long c, long d, long e, long f);
extern char sysinj_after[];

enum { ERR, ERR_SPACE, DIE, SHORT, TORN, PAUSE };

struct fault { int64_t at, action, arg; };
struct entry { int64_t nr, a0, a1, a2, ret, fault; };
#define MAXT 4096
struct shared {
	int64_t n_faults;
	struct fault f[8];
	int64_t n;                 /* calls seen while armed */
	int64_t armed;
	int64_t faulted;
	int64_t unlink_faulted;    /* a call which removes a name was made to fail */
	int64_t early;             /* content was visible under the target name before it was flushed */
	int64_t space;             /* from here on nothing can be written */
	int64_t status;            /* set by the caller */
	char message[256];
	char target[4096];
	struct entry t[MAXT];
};

static struct shared* S;
static struct { uint64_t dev, ino; int dirty; } ino[256];
static int n_ino;
static uint64_t target_dev, target_ino;

struct shared* sysinj_init(void)
{
	if (!S) {
		S = mmap(0, sizeof(*S), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		if (S == MAP_FAILED) return 0;
	}
	memset(S, 0, sizeof(*S));
	return S;
}

/* another area, for a second process */
struct shared* sysinj_init2(void)
{
	struct shared* s = mmap(0, sizeof(*S), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	return s == MAP_FAILED ? 0 : s;
}

void sysinj_use(struct shared* s) { S = s; }
void sysinj_clear(struct shared* s) { memset(s, 0, offsetof(struct shared, t)); }

static int* dirty(uint64_t dev, uint64_t i)
{
	for (int k = 0; k < n_ino; k++)
		if (ino[k].dev == dev && ino[k].ino == i) return &ino[k].dirty;
	if (n_ino == 256) return &ino[0].dirty;
	ino[n_ino].dev = dev;
	ino[n_ino].ino = i;
	ino[n_ino].dirty = 0;
	return &ino[n_ino++].dirty;
}

static void mark(int fd, int d)
{
	struct stat st;
	if (sysinj_raw(SYS_fstat, fd, (long)&st, 0, 0, 0, 0) == 0 && S_ISREG(st.st_mode))
		*dirty(st.st_dev, st.st_ino) = d;
}

static void look(int first)
{
	struct stat st;
	uint64_t d = 0, i = 0;
	if (sysinj_raw(SYS_stat, (long)S->target, (long)&st, 0, 0, 0, 0) == 0 && S_ISREG(st.st_mode)) {
		d = st.st_dev;
		i = st.st_ino;
	}
	if (!first && i && (d != target_dev || i != target_ino) && *dirty(d, i)) S->early++;
	target_dev = d;
	target_ino = i;
}

static int is_write(long nr)
{
	return nr == SYS_write || nr == SYS_pwrite64 || nr == SYS_writev || nr == SYS_pwritev || nr == SYS_pwritev2;
}

static int is_space(long nr, long a1, long a2)
{
	if (is_write(nr) || nr == SYS_ftruncate || nr == SYS_fallocate || nr == SYS_fsync || nr == SYS_fdatasync || nr == SYS_sendfile || nr == SYS_copy_file_range) return 1;
	if (nr == SYS_open) return (a1 & O_CREAT) != 0;
	if (nr == SYS_openat) return (a2 & O_CREAT) != 0;
	return nr == SYS_creat || nr == SYS_link || nr == SYS_linkat || nr == SYS_rename || nr == SYS_renameat || nr == SYS_renameat2;
}

static int is_unlink(long nr) { return nr == SYS_unlink || nr == SYS_unlinkat || nr == SYS_rename || nr == SYS_renameat || nr == SYS_renameat2; }

/* transfers at most n bytes of a write */
static long some(long nr, long a, long b, long c, long d, long e, long f, long n)
{
	if (nr == SYS_write || nr == SYS_pwrite64) {
		if (n > c) n = c;
		return sysinj_raw(nr, a, b, n, d, e, f);
	}
	struct iovec v[16];
	const struct iovec* o = (const struct iovec*)b;
	int k = 0;
	for (; k < c && k < 16; k++) {
		v[k] = o[k];
		if ((long)v[k].iov_len > n) v[k].iov_len = n;
		n -= v[k].iov_len;
	}
	return sysinj_raw(nr, a, (long)v, k, d, e, f);
}

static long size(long nr, long b, long c)
{
	if (nr == SYS_write || nr == SYS_pwrite64) return c;
	const struct iovec* o = (const struct iovec*)b;
	long n = 0;
	for (int k = 0; k < c; k++) n += o[k].iov_len;
	return n;
}

static long perform(long nr, long a, long b, long c, long d, long e, long f)
{
	long r = sysinj_raw(nr, a, b, c, d, e, f);
	if (!S || !S->armed || r < 0) return r;
	if (is_write(nr) || nr == SYS_ftruncate || nr == SYS_fallocate || nr == SYS_sendfile) mark(a, 1);
	if (nr == SYS_copy_file_range) mark(c, 1);
	if (nr == SYS_fsync || nr == SYS_fdatasync) mark(a, 0);
	if (nr == SYS_sync || nr == SYS_syncfs || nr == SYS_msync) for (int k = 0; k < n_ino; k++) ino[k].dirty = 0;
	if (nr == SYS_mmap && (c & PROT_WRITE) && (d & MAP_SHARED)) mark(e, 1);
	look(0);
	return r;
}

static long step(long nr, long a, long b, long c, long d, long e, long f)
{
	if (!S || !S->armed) return sysinj_raw(nr, a, b, c, d, e, f);
	/* messages are not part of the protocol */
	if ((is_write(nr) || nr == SYS_fstat || nr == SYS_ioctl) && a >= 0 && a <= 2) return sysinj_raw(nr, a, b, c, d, e, f);
	int64_t at = S->n++;
	struct entry* t = at < MAXT ? &S->t[at] : 0;
	if (t) { t->nr = nr; t->a0 = a; t->a1 = is_write(nr) ? size(nr, b, c) : b; t->a2 = c; t->fault = -1; t->ret = 0; }
	long r = 0;
	int done = 0;
	for (int k = 0; k < S->n_faults; k++) {
		struct fault* q = &S->f[k];
		if (q->at != at) continue;
		S->faulted++;
		if (t) t->fault = q->action;
		switch (q->action) {
			case DIE:
				sysinj_raw(SYS_exit_group, 77, 0, 0, 0, 0, 0);
			case TORN:
				S->armed = 0;
				if (is_write(nr)) some(nr, a, b, c, d, e, f, q->arg);
				sysinj_raw(SYS_exit_group, 77, 0, 0, 0, 0, 0);
			case SHORT:
				r = is_write(nr) && q->arg > 0 ? some(nr, a, b, c, d, e, f, q->arg) : perform(nr, a, b, c, d, e, f);
				if (is_write(nr)) mark(a, 1);
				done = 1;
				break;
			case PAUSE:
				sysinj_raw(SYS_kill, sysinj_raw(SYS_getpid, 0, 0, 0, 0, 0, 0), SIGSTOP, 0, 0, 0, 0);
				look(1);
				break;
			case ERR_SPACE:
				S->space = q->arg;
				break;
			case ERR:
				if (nr == SYS_close || nr == SYS_close_range) perform(nr, a, b, c, d, e, f);
				if (is_unlink(nr)) S->unlink_faulted++;
				r = -q->arg;
				done = 1;
				break;
		}
	}
	if (!done && S->space && is_space(nr, b, c)) {
		r = -S->space;
		done = 1;
	}
	if (!done) r = perform(nr, a, b, c, d, e, f);
	if (t) t->ret = r;
	return r;
}

static void trap(int sig, siginfo_t* si, void* ctx)
{
	ucontext_t* u = ctx;
	greg_t* g = u->uc_mcontext.gregs;
	(void)sig;
	g[REG_RAX] = step(si->si_syscall, g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9]);
}

void sysinj_arm(void) { n_ino = 0; look(1); S->armed = 1; }
void sysinj_disarm(void) { S->armed = 0; }

int sysinj_install(void)
{
	struct sigaction sa;
	memset(&sa, 0, sizeof(sa));
	sa.sa_sigaction = trap;
	sa.sa_flags = SA_SIGINFO | SA_NODEFER;
	if (sigaction(SIGSYS, &sa, 0) != 0) return 1;
	static const int pass[] = {
		SYS_munmap, SYS_mremap, SYS_brk, SYS_mprotect, SYS_madvise, SYS_futex, SYS_rt_sigaction, SYS_rt_sigprocmask,
		SYS_rt_sigreturn, SYS_sigaltstack, SYS_exit, SYS_exit_group, SYS_getpid, SYS_gettid, SYS_kill, SYS_tgkill,
		SYS_clock_gettime, SYS_gettimeofday, SYS_time, SYS_getrandom, SYS_sched_yield, SYS_nanosleep, SYS_clock_nanosleep,
		SYS_set_robust_list, SYS_rseq, SYS_prlimit64, SYS_getrlimit, SYS_sysinfo, SYS_getrusage, SYS_clone, SYS_clone3,
		SYS_membarrier, SYS_sched_getaffinity, SYS_prctl, SYS_arch_prctl, SYS_wait4, SYS_uname, SYS_getuid, SYS_geteuid,
		SYS_getgid, SYS_getegid, SYS_umask,
	};
	int np = sizeof(pass) / sizeof(pass[0]);
	struct sock_filter p[128];
	int n = 0;
	uint64_t ip = (uint64_t)sysinj_after;
#define ST(code, k) p[n++] = (struct sock_filter)BPF_STMT(code, k)
#define JP(k, t, f) p[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, k, t, f)
	ST(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer));
	JP((uint32_t)ip, 0, 3);
	ST(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer) + 4);
	JP((uint32_t)(ip >> 32), 0, 1);
	ST(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
	ST(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
	/* private mappings pass */
	JP(SYS_mmap, 0, 4);
	ST(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, args[3]));
	p[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JSET | BPF_K, MAP_SHARED, 0, 1);
	ST(BPF_RET | BPF_K, SECCOMP_RET_TRAP);
	ST(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
	for (int i = 0; i < np; i++) {
		JP(pass[i], 0, 1);
		ST(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
	}
	ST(BPF_RET | BPF_K, SECCOMP_RET_TRAP);
	struct sock_fprog prog = { n, p };
	if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) != 0) return 2;
	if (prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &prog) != 0) return 3;
	return 0;
}
