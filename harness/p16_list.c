/* P16: CPU count of a C library without affinity calls of its own (musl): the list of online CPUs. */
#define _GNU_SOURCE
#include <sched.h>
#include <stdlib.h>
#include "mc.h"
#include "jitterentropy.h"
#include "jitterentropy-internal.h"
#include "vfile.h"

const char *mc_property = "P16";
int mc_fork_per_run = 0;
int mc_split_depth = 3;

static int armed, calls, faulty;
static char text[600];
static int missing;

static int vf_open(const char *path)
{
	if (!armed)
		return VF_PASS;
	if (strcmp(path, "/sys/devices/system/cpu/online"))
		return -ENOENT;
	if (missing || mc_env(2, "open")) {
		faulty = 1;
		return -ENOENT;
	}
	return 1;
}
static ssize_t vf_read(struct vfd *f, void *buf, size_t n)
{
	size_t l = strlen(text);
	int k = mc_env(4, "read");
	if (++calls > 100)
		mc_fail("the library reads the list again and again");
	if (k == 1)
		return -EINTR;
	if (k) {
		faulty = 1;
		return k == 2 ? -EIO : 0;
	}
	if (f->pos >= l)
		return 0;
	if (l - f->pos < n)
		n = l - f->pos;
	memcpy(buf, text + f->pos, n);
	return (ssize_t)n;
}
static int mask;	/* 0: fails, else CPUs */
int __wrap_sched_getaffinity(pid_t pid, size_t size, cpu_set_t *set)
{
	int i;
	memset(set, 0, size);
	if (!mask) {
		errno = EPERM;
		return -1;
	}
	for (i = 0; i < mask; i++)
		CPU_SET_S((size_t)i * 2, size, set);
	return 0;
}
static long online;
long __real_sysconf(int name);
long __wrap_sysconf(int name)
{
	if (!armed || name != _SC_NPROCESSORS_ONLN)
		return __real_sysconf(name);
	if (online < 0)
		errno = EINVAL;
	return online;
}
static const int nums[] = { 0, 1, 2, 5, 9, 10, 63, 64, 99, 100, 127, 1023, 4095 };

void mc_body(void)
{
	long n, h, want = 0, last = -2, max = -1;
	size_t l = 0;
	int i, c = mc_choose(3, "class"), exact = 1;
	armed = calls = faulty = missing = 0;
	text[0] = 0;
	mask = mc_choose(3, "mask");
	online = mc_choose(3, "online") - 1 ? 7 : -1;
	if (c == 0) {
		/* lists as the kernel writes them: ascending, disjoint ranges */
		int k = 1 + mc_choose(3, "ranges");
		for (i = 0; i < k; i++) {
			int a = nums[mc_choose(13, "from")], b = nums[mc_choose(13, "to")];
			if (a <= last + 1 || b < a)
				mc_prune();
			l += (size_t)sprintf(text + l, a == b ? "%s%d" : "%s%d-%d", i ? "," : "", a, b);
			want += b - a + 1;
			last = max = b;
		}
		if (mc_choose(2, "newline"))
			strcpy(text + l, "\n");
	} else if (c == 1) {
		/* long lists: every length around the buffer */
		int k = mc_choose(150, "entries");
		for (i = 0; i <= k; i++) {
			l += (size_t)sprintf(text + l, "%s%d", i ? "," : "", i * 2);
			want++;
			max = i * 2;
		}
		strcpy(text + l++, "\n");
		exact = l < 250;	/* longer ones may be given up, but not miscounted */
	} else {
		/* anything else must not be counted as more than it can mean, nor crash */
		static const char *odd[] = { "", "\n", "x", "-", "-1", "0-", "3-1", "0--1", "99999999999999999999", "0-99999999999999999999", "0-9223372036854775807", "0-2147483647", ",", ",0", "0,,1", "0-1048576", "1048576" };
		int k = mc_choose(17, "odd");
		strcpy(text, odd[k]);
		want = -1;
		missing = k == 0 && mc_choose(2, "missing");
	}
	armed = 1;
	n = jent_ncpu();
	calls = 0;
	if (mask && !c)
		MC_ASSERT(!faulty, "the list is read although the mask is known");
	h = jent_cpu_highest();
	armed = 0;
	vf_check();
	if (mask) {
		MC_ASSERT(n == mask, "%ld CPUs reported, mask has %d", n, mask);
		MC_ASSERT(h == (mask - 1) * 2, "highest CPU %ld, mask ends at %d", h, (mask - 1) * 2);
	} else if (!faulty && want > 0 && exact) {
		MC_ASSERT(n == want, "%ld CPUs reported for the list %s", n, text);
	} else if (c == 2) {
		MC_ASSERT(n == (online > 0 ? online : n) || (n > 0 && n <= (long)JENT_NCPU_SET_MAX), "%ld CPUs reported for the list %s", n, text);
		MC_ASSERT(n < 0 || n > 0, "no CPU reported");
	} else {
		/* a fault in either question, or a list too long */
		MC_ASSERT(n == want || (online > 0 ? n == online : n < 0), "%ld CPUs reported for the list %s", n, text);
		MC_ASSERT(n, "no CPU reported");
	}
	(void)max;
	mc_outcome((uint64_t)n);
}
