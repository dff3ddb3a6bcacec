/* P16: time stamps where they come from the operating system's clock. KERNEL_CLOCK: the kernel's. */
#include <stdint.h>
#include <string.h>
#include <errno.h>
#include "mc.h"

const char *mc_property = "P16";
int mc_fork_per_run = 0;
int mc_split_depth = 2;
void jent_get_nstime(uint64_t *out);

static int armed;
#ifdef KERNEL_CLOCK
static uint64_t cyc, ns;
static int askns;
unsigned long long verif_random_get_entropy(void) { return cyc; }
unsigned long long ktime_get_ns(void) { askns++; return ns; }
unsigned long long ktime_get_raw_ns(void) { askns++; return ns; }
void mc_body(void)
{
	static const uint64_t v[] = { 0, 1, 2, 1000, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000ull, 0x123456789abcdefull, 1ull << 62, 1ull << 63, ~0ull };
	uint64_t out = 77;
	cyc = v[mc_choose(12, "cycles")];
	ns = v[mc_choose(12, "clock")];
	jent_get_nstime(&out);
	MC_ASSERT(out == (cyc ? cyc : ns), "cycles %llu, clock %llu: time stamp %llu", (unsigned long long)cyc, (unsigned long long)ns, (unsigned long long)out);
	mc_outcome(out);
	(void)armed;
}
#else
#include <time.h>
static struct timespec t;
static int fail;
int __real_clock_gettime(clockid_t id, struct timespec *ts);
int __wrap_clock_gettime(clockid_t id, struct timespec *ts)
{
	if (!armed)
		return __real_clock_gettime(id, ts);
	MC_ASSERT(id != CLOCK_REALTIME && id != CLOCK_REALTIME_COARSE && id != CLOCK_TAI, "time stamps from a clock that is set and stepped");
	MC_ASSERT(id != CLOCK_MONOTONIC_COARSE, "time stamps from a coarse clock");
	if (fail) {
		errno = fail;
		return -1;
	}
	*ts = t;
	return 0;
}
void mc_body(void)
{
	static const long long s[] = { 0, 1, 2, 59, 3600, 86400, 31536000, 2147483646, 2147483647, 2147483648ll, 4294967294ll, 4294967295ll };
	static const long nsv[] = { 0, 1, 2, 999, 1000, 4095, 4096, 65535, 1000000, 16777215, 16777216, 268435455, 999999998, 999999999 };
	static const int errs[] = { 0, EINVAL, EFAULT };
	uint64_t a = 77, want;
	int i = mc_choose(12, "seconds"), j = mc_choose(14, "nanoseconds");
	fail = errs[mc_choose(3, "failure")];
	t.tv_sec = s[i];
	t.tv_nsec = nsv[j];
	want = fail ? 0 : (uint64_t)s[i] * 1000000000ull + (uint64_t)nsv[j];
	armed = 1;
	jent_get_nstime(&a);
	armed = 0;
	MC_ASSERT(a == want, "clock %lld.%09ld (failure %d): time stamp %llu", s[i], nsv[j], fail, (unsigned long long)a);
	mc_outcome(a);
}
#endif
