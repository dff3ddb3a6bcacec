/*
 * Controlled scheduler for code compiled with clang -fsanitize=thread: this
 * file is the runtime behind the instrumentation.  Threads are coroutines.  A
 * scheduling point lies before every access to memory that two threads access
 * and one of them writes (the conflict set); there every choice of the next
 * thread is explored, switching away from a runnable thread costs one
 * preemption.
 *
 * The conflict set is found before exploring: all sequential orders and all
 * single-preemption schedules are run and their accesses recorded, until no
 * new conflicting address appears.
 */
#ifndef SCHED_H
#define SCHED_H
#include "mc.h"
#include <ucontext.h>
#include <errno.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>

#define SCHED_MAXT 3
#define SCHED_MAXPOINTS 2500
#define SCHED_STACK (512 * 1024)

static struct sthread {
	ucontext_t ctx;
	void (*fn)(int);
	int done, spinning;
	int quantum, run;	/* >0: gives way after so many accesses (a thread that never waits) */
	char *stack;
} sthr[SCHED_MAXT];
static int snt, scur = -1;
static ucontext_t smain;
static unsigned long spoints, sswitches, sspin, slimit;

/* --- recorded accesses and conflict set (shared between processes) --- */
#define SREC (1u << 21)
#define SCON (1u << 15)
struct srec { uintptr_t a; uint8_t rd, wr; };
static struct sshared {
	struct srec rec[SREC];
	uintptr_t con[SCON];
	unsigned ncon;
	unsigned long maxspin;	/* accesses of the longest profiled run */
	unsigned long points;	/* of the last profiled run */
} *ssh;
static int srecording;
static long spreempt_at = -1;	/* profile mode: preempt at this point */
static int sprofile, sfirst;

static unsigned shash(uintptr_t a) { return (unsigned)((a * 0x9E3779B97F4A7C15ull) >> 40); }

static int sconflict(uintptr_t a)
{
	unsigned i = shash(a) & (SCON - 1);
	while (ssh->con[i]) {
		if (ssh->con[i] == a)
			return 1;
		i = (i + 1) & (SCON - 1);
	}
	return 0;
}

static void srecord(uintptr_t a, int wr)
{
	unsigned i = shash(a) & (SREC - 1);
	while (ssh->rec[i].a && ssh->rec[i].a != a)
		i = (i + 1) & (SREC - 1);
	ssh->rec[i].a = a;
	if (wr)
		ssh->rec[i].wr |= (uint8_t)(1 << scur);
	else
		ssh->rec[i].rd |= (uint8_t)(1 << scur);
}

static void sswitch(int to)
{
	int from = scur, e = errno;
	if (to == from)
		return;
	sswitches++;
	scur = to;
	if (from >= 0)
		swapcontext(&sthr[from].ctx, &sthr[to].ctx);
	else
		swapcontext(&smain, &sthr[to].ctx);
	errno = e;	/* is per thread */
}

/* other runnable threads; thr[] receives them */
static int sothers(int *thr)
{
	int i, n = 0;
	for (i = 0; i < snt; i++)
		if (i != scur && !sthr[i].done)
			thr[n++] = i;
	return n;
}

static void spoint(void)
{
	int o[SCHED_MAXT], n = sothers(o), k;
	if (!n)
		return;
	if (sprofile) {
		if ((long)spoints++ == spreempt_at)
			sswitch(o[0]);
		return;
	}
	if (spoints++ >= SCHED_MAXPOINTS)	/* bound: later points run on */
		return;
	k = mc_env(n + 1, "next thread");
	if (k)
		sswitch(o[k - 1]);
}

static void syield(void);
static void (*saccess_hook)(const void *p, size_t n, int wr);
static void (*safter_hook)(const void *p, size_t n, int wr);	/* when the access is about to happen */
static int strace_only;	/* no threads: accesses only go to the hook */
static void saccess(const void *p, size_t n, int wr)
{
	uintptr_t a = (uintptr_t)p & ~(uintptr_t)3, e = (uintptr_t)p + n;
	int hit = 0;
	if (strace_only) {
		saccess_hook(p, n, wr);
		return;
	}
	if (scur < 0 || !n || p == (const void *)&errno)
		return;
	if (saccess_hook)
		saccess_hook(p, n, wr);
	if (sthr[scur].quantum && ++sthr[scur].run >= sthr[scur].quantum) {
		sthr[scur].run = 0;
		syield();
	}
	if (n > 4096 && !srecording) {	/* bulk: ends and samples suffice to detect overlap with the set */
		uintptr_t i;
		for (i = 0; i < SCON; i++)
			if (ssh->con[i] && ssh->con[i] + 4 > (uintptr_t)p && ssh->con[i] < e)
				hit = 1;
	} else
		for (; a < e; a += 4) {
			if (srecording)
				srecord(a, wr);
			hit |= sconflict(a);
		}
	if (++sspin > slimit)
		mc_fail("a thread does not terminate");
	if (hit)
		spoint();
	if (safter_hook)
		safter_hook(p, n, wr);
}

/* a thread that waits lets the others run */
static void syield(void)
{
	int o[SCHED_MAXT], n;
	if (scur < 0)
		return;
	n = sothers(o);
	if (n) {
		int i;
		for (i = 0; i < n && o[i] < scur; i++)	/* round robin */
			;
		sswitch(o[i < n ? i : 0]);
	} else if (++sthr[scur].spinning > 100000)
		mc_fail("a thread waits for something no other thread will do");
}

static void sentry(int i)
{
	int o[SCHED_MAXT], n;
	sthr[i].fn(i);
	sthr[i].done = 1;
	n = sothers(o);
	if (!n) {
		scur = -1;
		setcontext(&smain);
	}
	{
		int to = o[sprofile ? 0 : mc_choose(n, "next thread")];
		scur = to;
		setcontext(&sthr[to].ctx);
	}
}

static int sspawn_at(void (*fn)(int), int slot)
{
	struct sthread *t = &sthr[slot];
	if (!t->stack)
		t->stack = mmap(NULL, SCHED_STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	getcontext(&t->ctx);
	t->ctx.uc_stack.ss_sp = t->stack;
	t->ctx.uc_stack.ss_size = SCHED_STACK;
	t->ctx.uc_link = NULL;
	t->fn = fn;
	t->done = t->spinning = t->quantum = t->run = 0;
	makecontext(&t->ctx, (void (*)(void))sentry, 1, slot);
	if (slot >= snt)
		snt = slot + 1;
	return slot;
}
static void sspawn(void (*fn)(int)) { sspawn_at(fn, snt); }

static void srun(void)
{
	int first = sprofile ? sfirst : snt > 1 ? mc_choose(snt, "first thread") : 0;
	spoints = sswitches = sspin = 0;
	/* ten times what the threads need one after the other */
	slimit = sprofile ? 1000000000ul : ssh && 10 * ssh->maxspin > 50000000ul ? 10 * ssh->maxspin : 50000000ul;
	sswitch(first);
	if (sprofile && ssh && sspin > ssh->maxspin)
		ssh->maxspin = sspin;
	if (sprofile && srecording)
		ssh->points = spoints;
	snt = 0;
}

static unsigned sgrow(void)
{
	unsigned i, added = 0;
	for (i = 0; i < SREC; i++) {
		struct srec *r = &ssh->rec[i];
		unsigned all = r->rd | r->wr;
		if (r->a && r->wr && (all & (all - 1)) && !sconflict(r->a) && ssh->ncon < SCON / 2) {
			unsigned k = shash(r->a) & (SCON - 1);
			while (ssh->con[k])
				k = (k + 1) & (SCON - 1);
			ssh->con[k] = r->a;
			ssh->ncon++;
			added++;
		}
	}
	return added;
}

/* body() performs one concurrent execution via sspawn()/srun(); call from mc_setup() */
static int sfork_profile(void (*body)(void), int first, long at)
{
	pid_t pid = fork();
	int st;
	if (!pid) {
		sprofile = srecording = 1;
		sfirst = first;
		spreempt_at = at;
		mc_quiet(1);
		body();
		_exit(0);
	}
	waitpid(pid, &st, 0);
	return st;
}

static void sched_profile(void (*body)(void), int nthreads, long maxpoints)
{
	int round, f;
	if (!ssh) {
		ssh = mmap(NULL, sizeof(*ssh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (ssh == MAP_FAILED)
			abort();
	}
	for (round = 0; round < 6; round++) {
		for (f = 0; f < nthreads; f++) {
			long k, np;
			ssh->points = 0;
			sfork_profile(body, f, -1);
			np = (long)ssh->points;
			if (np > maxpoints)
				np = maxpoints;
			if (round)
				for (k = 0; k < np; k++)
					sfork_profile(body, f, k);
		}
		if (!sgrow() && round)
			break;
	}
}

/* --- instrumentation runtime --- */
#define SR(n) void __tsan_read##n(void *p); void __tsan_read##n(void *p) { saccess(p, n, 0); } \
	      void __tsan_unaligned_read##n(void *p); void __tsan_unaligned_read##n(void *p) { saccess(p, n, 0); }
#define SW(n) void __tsan_write##n(void *p); void __tsan_write##n(void *p) { saccess(p, n, 1); } \
	      void __tsan_unaligned_write##n(void *p); void __tsan_unaligned_write##n(void *p) { saccess(p, n, 1); } \
	      void __tsan_read_write##n(void *p); void __tsan_read_write##n(void *p) { saccess(p, n, 0); saccess(p, n, 1); } \
	      void __tsan_unaligned_read_write##n(void *p); void __tsan_unaligned_read_write##n(void *p) { saccess(p, n, 0); saccess(p, n, 1); }
SR(1) SR(2) SR(4) SR(8) SR(16) SW(1) SW(2) SW(4) SW(8) SW(16)
void __tsan_init(void); void __tsan_init(void) {}
void __tsan_func_entry(void *p); void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void); void __tsan_func_exit(void) {}
void *__tsan_memcpy(void *d, const void *s, size_t n);
void *__tsan_memcpy(void *d, const void *s, size_t n) { saccess(s, n, 0); saccess(d, n, 1); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n);
void *__tsan_memmove(void *d, const void *s, size_t n) { saccess(s, n, 0); saccess(d, n, 1); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n);
void *__tsan_memset(void *d, int c, size_t n) { saccess(d, n, 1); return memset(d, c, n); }
#define SA(B, T) \
	T __tsan_atomic##B##_load(const volatile T *p, int mo); T __tsan_atomic##B##_load(const volatile T *p, int mo) { (void)mo; saccess((void *)p, sizeof(T), 0); return *p; } \
	void __tsan_atomic##B##_store(volatile T *p, T v, int mo); void __tsan_atomic##B##_store(volatile T *p, T v, int mo) { (void)mo; saccess((void *)p, sizeof(T), 1); *p = v; } \
	T __tsan_atomic##B##_exchange(volatile T *p, T v, int mo); T __tsan_atomic##B##_exchange(volatile T *p, T v, int mo) { T o; (void)mo; saccess((void *)p, sizeof(T), 1); o = *p; *p = v; return o; } \
	T __tsan_atomic##B##_fetch_add(volatile T *p, T v, int mo); T __tsan_atomic##B##_fetch_add(volatile T *p, T v, int mo) { T o; (void)mo; saccess((void *)p, sizeof(T), 1); o = *p; *p = (T)(o + v); return o; } \
	T __tsan_atomic##B##_fetch_sub(volatile T *p, T v, int mo); T __tsan_atomic##B##_fetch_sub(volatile T *p, T v, int mo) { T o; (void)mo; saccess((void *)p, sizeof(T), 1); o = *p; *p = (T)(o - v); return o; } \
	T __tsan_atomic##B##_fetch_or(volatile T *p, T v, int mo); T __tsan_atomic##B##_fetch_or(volatile T *p, T v, int mo) { T o; (void)mo; saccess((void *)p, sizeof(T), 1); o = *p; *p = (T)(o | v); return o; } \
	T __tsan_atomic##B##_fetch_and(volatile T *p, T v, int mo); T __tsan_atomic##B##_fetch_and(volatile T *p, T v, int mo) { T o; (void)mo; saccess((void *)p, sizeof(T), 1); o = *p; *p = (T)(o & v); return o; } \
	T __tsan_atomic##B##_compare_exchange_val(volatile T *p, T e, T v, int mo, int fmo); T __tsan_atomic##B##_compare_exchange_val(volatile T *p, T e, T v, int mo, int fmo) { T o; (void)mo; (void)fmo; saccess((void *)p, sizeof(T), 1); o = *p; if (o == e) *p = v; return o; } \
	int __tsan_atomic##B##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int fmo); int __tsan_atomic##B##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int fmo) { (void)mo; (void)fmo; saccess((void *)p, sizeof(T), 1); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
	int __tsan_atomic##B##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int fmo); int __tsan_atomic##B##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int fmo) { return __tsan_atomic##B##_compare_exchange_strong(p, e, v, mo, fmo); }
SA(8, uint8_t) SA(16, uint16_t) SA(32, uint32_t) SA(64, uint64_t)
void __tsan_atomic_thread_fence(int mo); void __tsan_atomic_thread_fence(int mo) { (void)mo; }
void __tsan_atomic_signal_fence(int mo); void __tsan_atomic_signal_fence(int mo) { (void)mo; }
int __wrap_sched_yield(void);
int __wrap_sched_yield(void) { syield(); return 0; }

/* plain memory functions reached by call (not instrumented by the compiler) */

/* --- per-thread bump allocator: no address is ever reused --- */
static char *sarena[SCHED_MAXT + 1];
static size_t sused[SCHED_MAXT + 1];
#define SARENA ((size_t)1 << 26)
static void *salloc(size_t n)
{
	int t = scur < 0 ? SCHED_MAXT : scur;
	char *p;
	n = (n + 63) & ~(size_t)63;
	if (sused[t] + n > SARENA)
		abort();
	p = sarena[t] + sused[t];
	sused[t] += n;
	return p;
}
static void sarena_init(void)
{
	int i;
	for (i = 0; i <= SCHED_MAXT; i++)
		sarena[i] = mmap(NULL, SARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
#endif
