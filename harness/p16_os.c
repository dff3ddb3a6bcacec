/* P16: random source, FIPS flag file and CPU count under every answer of the system. */
#include <sched.h>
#include <stdlib.h>
#include "mc.h"
#include "jitterentropy.h"
#include "jitterentropy-internal.h"
#include "vfile.h"
#include <sys/random.h>

const char *mc_property = "P16";
int mc_fork_per_run = 0;
int mc_split_depth = 4;

#define F_RANDOM 1
#define F_FIPS 2
static int armed;
static int calls;
static unsigned char serial;		/* every delivered byte is different from its neighbours and from the fill */
static struct { unsigned char src[64]; int ok[64]; } del;	/* what was delivered at which place, by which source */
static unsigned char *target;
static size_t tlen;
static int src_success[3];	/* bytes of that source are good so far */

static int dead_getrandom, dead_urandom;	/* persistent errors */
static const char *fips_text;
static int fips_open, urandom_fault;

static unsigned char next_byte(void) { serial = (unsigned char)(serial * 5 + 77); return serial == 0x55 ? next_byte() : serial; }

static size_t deliver(void *buf, size_t n, int src)
{
	size_t i;
	unsigned char *b = buf;
	MC_ASSERT(b >= target && b + n <= target + tlen, "the system is asked to write outside of the caller's buffer");
	for (i = 0; i < n; i++) {
		b[i] = next_byte();
		del.src[b + i - target] = b[i];
		del.ok[b + i - target] = src;
	}
	return n;
}

ssize_t __real_getrandom(void *b, size_t n, unsigned f);
ssize_t __wrap_getrandom(void *b, size_t n, unsigned f);
ssize_t __wrap_getrandom(void *b, size_t n, unsigned f)
{
	int k;
	if (!armed)
		return __real_getrandom(b, n, f);
	if (++calls > 200)
		mc_fail("the library asks the random source again and again");
	if (dead_getrandom) {
		errno = dead_getrandom;
		return -1;
	}
	k = mc_env(7, "getrandom");
	switch (k) {
	case 1: errno = EINTR; return -1;
	case 2: errno = ENOSYS; dead_getrandom = ENOSYS; return -1;
	case 3: errno = EAGAIN; dead_getrandom = EAGAIN; return -1;
	case 4: errno = EFAULT; dead_getrandom = EFAULT; return -1;
	case 5: return (ssize_t)deliver(b, n > 1 ? 1 : n, 1);
	case 6: return (ssize_t)deliver(b, n > 1 ? n - 1 : n, 1);
	default: return (ssize_t)deliver(b, n, 1);
	}
}
static int vf_open(const char *path)
{
	int k;
	if (!armed)
		return VF_PASS;
	if (!strcmp(path, "/proc/sys/crypto/fips_enabled")) {
		k = mc_env(4, "open fips");
		if (k) {
			fips_open = 0;
			return k == 1 ? -ENOENT : k == 2 ? -EACCES : -EMFILE;
		}
		if (!fips_text) {
			fips_open = 0;
			return -ENOENT;
		}
		return F_FIPS;
	}
	if (!strcmp(path, "/dev/urandom")) {
		k = mc_env(3, "open urandom");
		if (k || dead_urandom)
			urandom_fault = 1;
		if (k || dead_urandom)
			return k == 1 ? -ENOENT : -EMFILE;
		return F_RANDOM;
	}
	return -ENOENT;
}
static int fips_seen;
static ssize_t vf_read(struct vfd *f, void *buf, size_t n)
{
	int k;
	if (++calls > 200)
		mc_fail("the library reads a file again and again");
	if (f->id == F_FIPS) {
		size_t l = strlen(fips_text);
		k = mc_env(4, "read fips");
		if (k == 1) {	/* has to be asked again */
			fips_seen = !f->pos && fips_text[0] == '1';
			return -EINTR;
		}
		if (k) {
			fips_seen = 0;
			return k == 2 ? -EIO : 0;
		}
		if (f->pos >= l)
			return 0;
		if (l - f->pos < n)
			n = l - f->pos;
		memcpy(buf, fips_text + f->pos, n);
		if (!f->pos && n)
			fips_seen = fips_text[0] == '1';
		return (ssize_t)n;
	}
	if (dead_urandom)
		return dead_urandom == 1 ? 0 : -dead_urandom;
	k = mc_env(7, "read urandom");
	switch (k) {
	case 1: return -EINTR;
	case 2: dead_urandom = EIO; return -EIO;
	case 3: dead_urandom = 1; return 0;
	case 4: dead_urandom = EAGAIN; return -EAGAIN;
	case 5: return (ssize_t)deliver(buf, n > 1 ? 1 : n, 2);
	case 6: return (ssize_t)deliver(buf, n > 1 ? n - 1 : n, 2);
	default: return (ssize_t)deliver(buf, n, 2);
	}
}

/* --- CPUs --- */
static int maskbits, mask_first, mask_need, mask_err, mask_step;
int __real_sched_getaffinity(pid_t pid, size_t size, cpu_set_t *set);
int __wrap_sched_getaffinity(pid_t pid, size_t size, cpu_set_t *set);
int __wrap_sched_getaffinity(pid_t pid, size_t size, cpu_set_t *set)
{
	int i, k = 0;
	if (!armed)
		return __real_sched_getaffinity(pid, size, set);
	if (++calls > 200)
		mc_fail("the library asks for the CPU mask again and again");
	memset(set, 0, size);
	if (mask_err) {
		errno = mask_err;
		return -1;
	}
	if ((int)size * 8 < mask_need) {
		memset(set, 0xff, size);	/* garbage: the call failed */
		errno = EINVAL;
		return -1;
	}
	for (i = mask_first; k < maskbits; i += mask_step, k++)
		CPU_SET_S((size_t)i, size, set);
	return 0;
}
static long online;
static int online_errno;
long __real_sysconf(int name);
long __wrap_sysconf(int name);
long __wrap_sysconf(int name)
{
	if (!armed || name != _SC_NPROCESSORS_ONLN)
		return __real_sysconf(name);
	if (online < 0)
		errno = online_errno;
	return online;
}
long jent_cpu_highest(void);

static void cls_random(void)
{
	static const size_t lens[] = { 0, 1, 2, 3, 8, 16, 33 };
	unsigned char buf[64];
	size_t i, len = lens[mc_choose(7, "length")];
	int r;
	memset(buf, 0x55, sizeof(buf));
	memset(&del, 0, sizeof(del));
	target = buf + 8;
	tlen = len;
	dead_getrandom = dead_urandom = urandom_fault = 0;
#ifdef ONLY_DEVICE
	dead_getrandom = ENOSYS;	/* not asked in this build */
#else
	if (mc_choose(2, "system call available") == 0)
		dead_getrandom = ENOSYS;
#endif
	serial = 3;
	armed = 1;
	r = jent_os_random_bytes(target, len);
	armed = 0;
	for (i = 0; i < sizeof(buf); i++)
		if (i < 8 || i >= 8 + len)
			MC_ASSERT(buf[i] == 0x55, "byte outside of the buffer written");
	if (!r)
		for (i = 0; i < len; i++) {
			MC_ASSERT(del.ok[i], "success, but byte %zu of %zu was never delivered", i, len);
			MC_ASSERT(target[i] == del.src[i], "success, but byte %zu of %zu is not what the system delivered", i, len);
		}
	else {
		MC_ASSERT(r == -1, "failure reported as %d", r);
		MC_ASSERT(mc_deviations() > 0 || !len, "failure although the source works");
		/* a source that answers (sooner or later) was available to the end? */
		MC_ASSERT(dead_getrandom || !len, "failure although the system call works");
		MC_ASSERT(dead_urandom || urandom_fault || !len, "failure although the device works");
	}
	mc_outcome((uint64_t)r * 1000 + (uint64_t)del.ok[0] * 10 + len);
}
static void cls_fips(void)
{
	static const char *texts[] = { "0\n", "1\n", "1", "0", "", "11\n", "01\n", "10\n", " 1\n", "\n1", "2\n", "-1\n", "x\n", "1 \n", NULL };
	int r;
	fips_text = texts[mc_choose(15, "content")];
	fips_seen = 0;
	armed = 1;
	r = jent_fips_enabled();
	armed = 0;
	MC_ASSERT(r == fips_seen, "flag file %s reported as FIPS state %d", fips_text ? fips_text : "(missing)", r);
	mc_outcome(0x10000u + (unsigned)r);
}
static void cls_cpu(void)
{
	static const int need[] = { 64, 1024, 1025, 2048, 4096, 65536, 1 << 20, 1 << 21 };
	static const int errs[] = { 0, EPERM, ENOSYS, ESRCH };
	static const long on[] = { -1, 0, 1, 2, 64 };
	static const int bits[] = { 0, 1, 2, 3, 5, 20 };
	long n, h, want, wanth;
	int ok;
	mask_need = need[mc_choose(8, "kernel mask size")];
	mask_err = errs[mc_choose(4, "error")];
	maskbits = bits[mc_choose(6, "CPUs in the mask")];
	mask_step = 1 + 2 * mc_choose(2, "gaps");
	switch (mc_choose(4, "first")) {
	case 0: mask_first = 0; break;
	case 1: mask_first = mask_need - mask_step * (maskbits ? maskbits - 1 : 0) - 1; break;
	case 2: mask_first = 1; break;
	default: mask_first = mask_need / 2 - 1; break;
	}
	if (mask_first < 0 || mask_first + mask_step * maskbits > mask_need + mask_step - 1)
		mc_prune();
	online = on[mc_choose(5, "online")];
	online_errno = mc_choose(2, "errno") ? EINVAL : ENOSYS;
	armed = 1;
	n = jent_ncpu();
	calls = 0;
	h = jent_cpu_highest();
	armed = 0;
	ok = !mask_err && mask_need <= (int)JENT_NCPU_SET_MAX && maskbits;
	want = ok ? maskbits : online > 0 ? online : -1;
	wanth = ok ? mask_first + mask_step * (maskbits - 1) : online > 0 ? online - 1 : -1;
	if (want > 0) {
		MC_ASSERT(n == want, "%ld CPUs reported, %ld expected", n, want);
		MC_ASSERT(h == wanth, "highest CPU reported as %ld, %ld expected", h, wanth);
	} else {
		MC_ASSERT(n < 0, "%ld CPUs reported although nothing is known", n);
		MC_ASSERT(h < 0, "CPU %ld reported although nothing is known", h);
	}
	mc_outcome(0x20000u + (unsigned)n);
}
void mc_body(void)
{
	int c = mc_choose(3, "class");
	armed = calls = 0;
	fips_open = 1;
	vf_zero = c < 2 && mc_choose(2, "standard input closed");
	if (c == 0)
		cls_random();
	else if (c == 1)
		cls_fips();
	else
		cls_cpu();
	vf_check();
	mc_states_add(0, (uint64_t)calls);
}
