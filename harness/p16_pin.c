/* P16: the counting thread is bound to exactly the CPU that was named. */
#define _GNU_SOURCE
#include <errno.h>
#include <sched.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include "mc.h"
#include "jitterentropy.h"
#include "jitterentropy-internal.h"
#include "jitterentropy-arch-thread.h"

const char *mc_property = "P16";
int mc_fork_per_run = 0;
int mc_split_depth = 1;

static int armed, calls, live, err, nomem;
static unsigned long want;

cpu_set_t *__real___sched_cpualloc(size_t n);
void __real___sched_cpufree(cpu_set_t *s);
cpu_set_t *__wrap___sched_cpualloc(size_t n)
{
	cpu_set_t *s;
	if (!armed)
		return __real___sched_cpualloc(n);
	if (nomem)
		return NULL;
	s = __real___sched_cpualloc(n);
	memset(s, 0xff, CPU_ALLOC_SIZE(n));	/* not clean */
	live++;
	return s;
}
void __wrap___sched_cpufree(cpu_set_t *s)
{
	if (armed)
		live--;
	__real___sched_cpufree(s);
}
static int bad(size_t size, const cpu_set_t *set)
{
	size_t i;
	if (size * 8 <= want)
		return 1;
	for (i = 0; i < size; i++)
		if (((const uint8_t *)set)[i] != (i == want / 8 ? 1u << want % 8 : 0))
			return 1;
	return 0;
}
int __wrap_sched_setaffinity(pid_t pid, size_t size, const cpu_set_t *set)
{
	calls++;
	MC_ASSERT(!pid, "another thread is bound (%d)", (int)pid);
	MC_ASSERT(!bad(size, set), "the set for CPU %lu names something else", want);
	if (err) {
		errno = err;
		return -1;
	}
	return 0;
}
int __wrap_pthread_setaffinity_np(pthread_t t, size_t size, const cpu_set_t *set)
{
	calls++;
	MC_ASSERT(pthread_equal(t, pthread_self()), "another thread is bound");
	MC_ASSERT(!bad(size, set), "the set for CPU %lu names something else", want);
	return err;
}

void mc_body(void)
{
	static const int errs[] = { 0, EINVAL, EPERM, ESRCH, EFAULT };
	static const unsigned long far[] = { 65534, 65535, JENT_NCPU_SET_MAX - 1, JENT_NCPU_SET_MAX, JENT_NCPU_SET_MAX + 1ul,
		(1ul << 32) - 1, 1ul << 32, (1ul << 32) + 5, ~0ul - 1, ~0ul };
	int k = mc_choose(8200 + 10, "cpu"), r;
	want = k < 8200 ? (unsigned long)k : far[k - 8200];
	err = errs[mc_choose(5, "answer")];
	nomem = mc_choose(2, "memory");
	calls = live = 0;
	armed = 1;
	errno = 0;
	r = jent_thread_pin_to_cpu(want);
	armed = 0;
	MC_ASSERT(!live, "%d sets left behind", live);
	if (calls)
		MC_ASSERT(r == -err, "binding to CPU %lu answered with %d, reported as %d", want, err, r);
	else
		MC_ASSERT(r < 0, "binding to CPU %lu reported as done, but nothing was", want);
	if (!nomem && want < JENT_NCPU_SET_MAX)
		MC_ASSERT(calls == 1, "CPU %lu: the system is not asked", want);
	mc_outcome((uint64_t)r * 4 + (uint64_t)calls);
}
