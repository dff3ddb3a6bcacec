/*
 * P18: every delivery path of the kernel module under every combination of
 * generator results, copy faults, signals, lock contention and allocation
 * failures within the deviation bound.
 */
#include "kenv.h"

const char *mc_property = "P18";
int mc_fork_per_run = 1;
int mc_split_depth = 4;

static struct file fl;
static struct inode ino;
static uint64_t oh = MC_HASH_INIT;
static void out(long v) { oh = mc_hash(&v, sizeof(v), oh); }

static struct { char *buf; size_t n; long ret; bool wait; struct crypto_rng *tfm; loff_t pos; } a;
static void do_open(void *x) { (void)x; a.ret = kmisc->fops->open(&ino, &fl); }
static void do_release(void *x) { (void)x; a.ret = kmisc->fops->release(&ino, &fl); }
static void do_read(void *x) { (void)x; a.ret = kmisc->fops->read(&fl, a.buf, a.n, &a.pos); }
static void do_hwrng(void *x) { (void)x; a.ret = khwrng->read(khwrng, a.buf, a.n, a.wait); }
static void do_gen(void *x) { (void)x; a.ret = kalg->generate(a.tfm, NULL, 0, (u8 *)a.buf, (unsigned)a.n); }

static void load(void)
{
	kinj = 0;
	kin_init = 1;
	MC_ASSERT(kmod_init() == 0, "module does not load");
	kin_init = 0;
}
static void unload(void)
{
	kinj = 0;
	kmod_exit();
	kcheck_nothing_left("after unload");
}

/* FIPS: a permanent failure panics, nothing else does */
static int panicked(void)
{
	MC_ASSERT(kpanicked == (fips_enabled && kev.permanent), "permanent failure in FIPS mode did not stop the system");
	if (kpanicked) {
		mc_outcome(0xdead);
		return 1;
	}
	return 0;
}
static int untouched(const char *p, size_t n)
{
	while (n--)
		if (*p++ != 0x21)
			return 0;
	return 1;
}

static int chardev_read(size_t n, unsigned inj)
{
	size_t start = kngood;
	int nb = !!(fl.f_flags & O_NONBLOCK);
	kev_reset();
	kuser_reset();
	a.buf = kuser_new(n);
	a.n = n;
	a.ret = 12345;
	a.pos = 0;
	kop_file = &fl;
	kcopy_unlocked = 1;
	kmay_sleep_on_lock[0] = !nb;
	kinj = inj;
	kop(do_read, NULL);
	kinj = 0;
	kcopy_unlocked = 0;
	kmay_sleep_on_lock[0] = 1;
	if (panicked())
		return 1;
	out(a.ret);
	MC_ASSERT(a.ret <= (long)n, "read of %zu bytes returns %ld", n, a.ret);
	if (!n) {
		MC_ASSERT(a.ret == 0, "empty read returns %ld", a.ret);
		return 0;
	}
	if (kev.problem)
		MC_ASSERT(a.ret == (kev.done ? kev.done : kev.problem), "read of %zu bytes returns %ld, but %ld bytes were delivered before the problem (%d)",
			  n, a.ret, kev.done, kev.problem);
	else if (nb || (fl.f_flags & O_NONBLOCK))
		MC_ASSERT(a.ret > 0 && a.ret == kev.done && (!nb || a.ret <= 256), "non-blocking read of %zu bytes returns %ld, %ld delivered", n, a.ret, kev.done);
	else
		MC_ASSERT(a.ret == (long)n && kev.done == (long)n, "read of %zu bytes returns %ld, %ld delivered", n, a.ret, kev.done);
	if (a.ret > 0)
		MC_ASSERT(kngood >= start + (size_t)a.ret && !memcmp(a.buf, kgood + start, (size_t)a.ret), "the user does not get the generated bytes in order");
	{
		size_t i;
		for (i = a.ret > 0 ? (size_t)a.ret : 0; i < n; i++)
			MC_ASSERT((unsigned char)a.buf[i] != 0x7f, "data of a failed generation reaches the user");
	}
	return 0;
}

static const unsigned ALLINJ = KF_ALLOC | KF_LOCK | KF_COPY | KF_SIGNAL | KF_GEN | KF_NONBLOCK;

static void chardev(void)
{
	static const size_t sizes[] = { 0, 1, 2, 8, 31, 32, 33, 63, 64, 65, 95, 96, 97, 128, 129, 255, 256, 257 };
	int ns = (int)mc_param("sizes", 13);
	size_t n = sizes[mc_choose(ns, "size")];
	int second;
	fl.f_flags = mc_choose(2, "O_NONBLOCK") ? O_NONBLOCK : 0;
	fips_enabled = mc_choose(2, "FIPS mode");
	second = mc_choose(2, "a second read");
	load();
	kev_reset();
	kop(do_open, NULL);
	MC_ASSERT(a.ret == 0 && fl.private_data, "open returns %ld", a.ret);
	if (chardev_read(n, ALLINJ))
		return;
	if (second) {
		fl.f_flags = mc_choose(2, "O_NONBLOCK") ? O_NONBLOCK : 0;
		if (!mc_thorough())
			kgen_kinds = 4;
		if (chardev_read(40, ALLINJ))
			return;
	}
	if (chardev_read(33, 0))	/* and it is usable afterwards */
		return;
	kop(do_release, NULL);
	MC_ASSERT(a.ret == 0, "close returns %ld", a.ret);
	unload();
	mc_outcome(oh);
}

/* a request of many chunks honours signals */
static void signals(void)
{
	int asked;
	load();
	kop(do_open, NULL);
	kuser_reset();
	a.n = 32 * 40;
	a.buf = kuser_new(a.n);
	kev_reset();
	kop_file = NULL;
	kop(do_read, NULL);
	asked = kev.signals_asked;
	MC_ASSERT(a.ret == (long)a.n, "long read returns %ld", a.ret);
	MC_ASSERT(asked > 0 && kev.gens <= 2 * asked + 2, "signals are looked at %d times in %d generator calls", asked, kev.gens);
	MC_ASSERT(!memcmp(a.buf, kgood, a.n), "the user does not get the generated bytes in order");
	/* and a non-blocking one is cut short */
	fl.f_flags = O_NONBLOCK;
	kuser_reset();
	a.buf = kuser_new(a.n);
	kop(do_read, NULL);
	MC_ASSERT(a.ret > 0 && a.ret <= 256, "long non-blocking read returns %ld", a.ret);
	kop(do_release, NULL);
	unload();
}

static void hwrng(void)
{
	static const size_t sizes[] = { 0, 1, 2, 8, 16, 31, 32, 33, 64, 65, 128, 300 };
	int i, reads = 2;
	fips_enabled = mc_choose(2, "FIPS mode");
	load();
	for (i = 0; i < reads; i++) {
		size_t n = sizes[mc_choose(i ? 4 : 12, "size")], start = kngood;
		a.wait = mc_choose(2, "wait");
		kev_reset();
		kuser_reset();
		a.buf = kget(n, 0, 0);
		a.n = n;
		a.ret = 12345;
		kmay_sleep_on_lock[0] = a.wait;
		kinj = ALLINJ;
		kop(do_hwrng, NULL);
		kinj = 0;
		kmay_sleep_on_lock[0] = 1;
		if (panicked())
			return;
		out(a.ret);
		if (!n)
			MC_ASSERT(a.ret == 0, "empty hwrng read returns %ld", a.ret);
		else if (kev.problem == -EAGAIN && !kev.gens)
			MC_ASSERT(a.ret == 0, "contended hwrng read without waiting returns %ld", a.ret);
		else if (kev.problem)
			MC_ASSERT(a.ret == kev.problem, "hwrng read returns %ld instead of %d", a.ret, kev.problem);
		else
			MC_ASSERT(a.ret == (long)n && kngood == start + n && !memcmp(a.buf, kgood + start, n), "hwrng read of %zu returns %ld", n, a.ret);
		/* the caller's buffer: not the module's to clear */
		memset(a.buf, 0, n);
		kfree(a.buf);
	}
	unload();
	mc_outcome(oh);
}

/* long requests are served completely */
static void longreads(void)
{
	static const size_t sizes[] = { 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 70000, 131072, 200001 };
	int what = mc_choose(3, "interface");
	size_t n = sizes[mc_choose(11, "size")];
	struct crypto_rng t;
	load();
	kev_reset();
	kuser_reset();
	a.n = n;
	a.buf = what ? calloc(1, n) : NULL;
	a.wait = 1;
	switch (what) {
	case 0:
		kop(do_open, NULL);
		a.buf = kuser_new(n);
		kop(do_read, NULL);
		break;
	case 1:
		kop(do_hwrng, NULL);
		break;
	default:
		MC_ASSERT(ktfm_new(&t) == 0, "a generator cannot be created");
		a.tfm = &t;
		kop(do_gen, NULL);
		MC_ASSERT(a.ret == 0, "generate of %zu bytes returns %ld", n, a.ret);
		a.ret = (long)n;
	}
	MC_ASSERT(a.ret == (long)n && kngood == n && !memcmp(a.buf, kgood, n), "request of %zu bytes returns %ld, %zu bytes were generated", n, a.ret, kngood);
	if (!what)
		kop(do_release, NULL);
	else
		free(a.buf);
	if (what == 2)
		ktfm_del(&t);
	unload();
	mc_outcome(n);
}

static void kcapi(void)
{
	static const size_t sizes[] = { 0, 1, 8, 31, 32, 33, 64, 100 };
	struct crypto_rng t;
	int i;
	fips_enabled = mc_choose(2, "FIPS mode");
	kset("verbose", (unsigned)mc_choose(2, "verbose"));
	load();
	a.tfm = &t;
	kinj = KF_ALLOC | KF_STATUS;
	kev_reset();
	MC_ASSERT(ktfm_new(&t) == 0, "a generator cannot be created (logging is best effort)");
	for (i = 0; i < 2; i++) {
		size_t n = sizes[mc_choose(i ? 3 : 8, "size")], start = kngood;
		int err;
		kev_reset();
		a.buf = kget(n, 0, 0);
		a.n = n;
		a.ret = 12345;
		kinj = KF_LOCK | KF_GEN | KF_ALLOC | KF_STATUS;
		kop(do_gen, NULL);
		kinj = 0;
		if (panicked())
			return;
		out(a.ret);
		MC_ASSERT(kev.gens == 1 || (!n && !kev.gens), "%d generator calls", kev.gens);
		/* logging problems do not matter */
		err = kngood == start && n ? kev.problem : 0;
		if (!n)
			err = kev.problem == -ENOMEM || kev.problem == -EIO ? 0 : kev.problem;
		MC_ASSERT(a.ret == err, "generate of %zu bytes returns %ld instead of %d", n, a.ret, err);
		if (!a.ret)
			MC_ASSERT(kngood == start + n && !memcmp(a.buf, kgood + start, n), "generate succeeds without generated data");
		memset(a.buf, 0, n);
		kfree(a.buf);
	}
	ktfm_del(&t);
	unload();
	mc_outcome(oh);
}

void mc_body(void)
{
	switch (mc_choose(5, "interface")) {
	case 0: chardev(); break;
	case 1: signals(); break;
	case 2: hwrng(); break;
	case 3: longreads(); break;
	default: kcapi(); break;
	}
}
