/*
 * P23: the raw noise test interface of the kernel module: what is recorded,
 * with which parameters, and what reaches the user, for every request size,
 * parameter change and fault within the deviation bound.
 */
#include "kenv.h"

const char *mc_property = "P23";
int mc_fork_per_run = 1;
int mc_split_depth = 4;

static uint64_t oh = MC_HASH_INIT;
static void out(long v) { oh = mc_hash(&v, sizeof(v), oh); }
static struct inode ino;
static struct rawfile { struct file f; int open, fn; unsigned osr, flags; uint64_t loop; const struct rand_data *ec; } rf[3];
static struct { struct rawfile *r; char *buf; size_t n; long ret; loff_t pos; unsigned cmd; unsigned long arg; } a;
static const struct file_operations *fops;

static void do_open(void *x) { (void)x; a.ret = fops->open(&ino, &a.r->f); }
static void do_release(void *x) { (void)x; a.ret = fops->release(&ino, &a.r->f); }
static void do_read(void *x) { (void)x; a.ret = fops->read(&a.r->f, a.buf, a.n, &a.pos); }
static void do_ioctl(void *x) { (void)x; a.ret = fops->unlocked_ioctl(&a.r->f, a.cmd, a.arg); }

static const unsigned FLAGS[] = { 0, 1u << 15, 1u << 16, (1u << 15) | (1u << 16), 1u << 3, 0x7fffffff & ~((1u << 15) | (1u << 16)), (1u << 14) | (1u << 17), 0xffffffff };
#define NFLAGS 8
static int fn_of(unsigned f) { return f & (1u << 15) ? 1 : f & (1u << 16) ? 2 : 0; }

static unsigned posr, pflags;
static void params(unsigned o, unsigned f)
{
	posr = o;
	pflags = f;
	kset("testing_osr", o);
	kset("testing_flags", f);
}
static void load(void)
{
	kinj = 0;
	kin_init = 1;
	MC_ASSERT(kmod_init() == 0, "module does not load");
	kin_init = 0;
	fops = kraw_fops();
	MC_ASSERT(fops || klockdown, "no test interface");
}
static void unload(void)
{
	int i;
	kinj = 0;
	for (i = 0; i < 3; i++)
		if (rf[i].open) {
			a.r = &rf[i];
			kop(do_release, NULL);
			MC_ASSERT(a.ret == 0, "close returns %ld", a.ret);
		}
	kmod_exit();
	kcheck_nothing_left("after unload");
}

static int open_raw(struct rawfile *r, unsigned inj)
{
	int n = nkinst;
	memset(r, 0, sizeof(*r));
	kev_reset();
	a.r = r;
	kinj = inj;
	kop(do_open, NULL);
	kinj = 0;
	out(a.ret);
	if (klockdown) {
		MC_ASSERT(a.ret == -EPERM && nkinst == n, "open on a locked-down kernel returns %ld", a.ret);
		return 0;
	}
	/* the verbose log is best effort */
	if (a.ret) {
		MC_ASSERT(kev.problem, "open fails with %ld", a.ret);
		MC_ASSERT(a.ret == kev.problem, "open returns %ld instead of %d", a.ret, kev.problem);
		MC_ASSERT(nkinst == n || !kinst[n].live, "failed open leaves an instance");
		return 0;
	}
	MC_ASSERT(nkinst == n + 1 && kinst[n].live && kinst[n].raw, "open without a raw instance of its own");
	MC_ASSERT(kinst[n].osr == posr && kinst[n].flags == pflags, "instance with rate %u flags %#x instead of %u %#x", kinst[n].osr, kinst[n].flags, posr, pflags);
	MC_ASSERT(kinst[n].ec->is_fips_enabled == 1, "recording without the full health tests");
	r->open = 1;
	r->ec = kinst[n].ec;
	r->osr = posr;
	r->flags = pflags;
	r->fn = fn_of(pflags);
	return 1;
}

static void read_raw(struct rawfile *r, size_t n, unsigned inj)
{
	int m0 = nkmeas, i, primed = 0;
	long rec = 0, recn = 0;
	size_t start = kngood;
	loff_t pos0 = a.pos = 4711;
	kev_reset();
	kuser_reset();
	a.r = r;
	a.buf = kuser_new(n);
	a.n = n;
	a.ret = 12345;
	kinj = inj;
	kop(do_read, NULL);
	kinj = 0;
	out(a.ret);
	MC_ASSERT(a.pos == pos0 + (a.ret > 0 ? a.ret : 0), "position advanced by %ld after %ld", (long)(a.pos - pos0), a.ret);
	if (!n || n % 8) {
		MC_ASSERT(a.ret == (n ? -EINVAL : 0), "read of %zu bytes returns %ld", n, a.ret);
		MC_ASSERT(nkmeas == m0 && !kev.copies, "measured for a read of %zu bytes", n);
		return;
	}
	if (kev.problem)
		MC_ASSERT(a.ret == (kev.copied ? kev.copied : kev.problem), "read of %zu bytes returns %ld, but %ld bytes were delivered before the problem (%d)",
			  n, a.ret, kev.copied, kev.problem);
	else
		MC_ASSERT(a.ret == (long)n && kev.copied == (long)n, "read of %zu bytes returns %ld, %ld delivered", n, a.ret, kev.copied);
	if (nkmeas > 8192)
		mc_fail("harness: measurements");
	for (i = m0; i < nkmeas; i++) {
		MC_ASSERT(kmeas[i].ec == r->ec, "measured on the instance of another file");
		if (!kmeas[i].recorded) {
			MC_ASSERT(kmeas[i].fn == 0 && r->fn == 0 && kmeas[i].loop == 0, "unexpected measurement that is not recorded");
			primed = 1;
			continue;
		}
		MC_ASSERT(kmeas[i].fn == r->fn, "sample from noise source %d instead of %d", kmeas[i].fn, r->fn);
		MC_ASSERT(kmeas[i].loop == r->loop, "sample with loop count %llu instead of %llu", (unsigned long long)kmeas[i].loop, (unsigned long long)r->loop);
		/* after a gap spent on copying, the next delta would include it */
		MC_ASSERT(r->fn || primed || (recn && kmeas[i].round == kmeas[i - 1].round), "first sample of a round without priming");
		primed = 0;
		if ((recn + 1) * 8 <= a.ret)
			MC_ASSERT(!memcmp(a.buf + recn * 8, &kmeas[i].delta, 8), "sample %ld is not the measured one", recn);
		else if (recn * 8 < a.ret)
			MC_ASSERT(!memcmp(a.buf + recn * 8, &kmeas[i].delta, (size_t)(a.ret - recn * 8)), "sample %ld is not the measured one", recn);
		recn++;
	}
	rec = recn * 8;
	MC_ASSERT(rec >= a.ret, "more data than samples");
	if (!kev.problem)
		MC_ASSERT(rec == (long)n, "%ld samples measured for %zu bytes", recn, n);
	(void)start;
}

static void ioctl_loop(struct rawfile *r, uint64_t v, unsigned inj)
{
	kev_reset();
	kuser_reset();
	a.r = r;
	a.buf = kuser_new(8);
	memcpy(a.buf, &v, 8);
	a.cmd = JENT_IOCLOOPCNT;
	a.arg = (unsigned long)a.buf;
	kinj = inj;
	kop(do_ioctl, NULL);
	kinj = 0;
	out(a.ret);
	if (kev.problem)
		MC_ASSERT(a.ret == kev.problem, "loop count request returns %ld instead of %d", a.ret, kev.problem);
	else if (v > 0xffffffffull)
		MC_ASSERT(a.ret == -EINVAL, "loop count %llu returns %ld", (unsigned long long)v, a.ret);
	else
		MC_ASSERT(a.ret == 0, "loop count %llu returns %ld", (unsigned long long)v, a.ret);
	if (!a.ret)
		r->loop = v;
}

static const unsigned INJ = KF_ALLOC | KF_LOCK | KF_COPY | KF_SIGNAL;

/* one file, all sizes, all faults */
static void reads(void)
{
	static const size_t sizes[] = { 0, 1, 4, 7, 8, 9, 12, 16, 24, 64, 256, 264, 1000, 7992, 8000, 8004, 8008, 16000, 16008, 24000 };
	size_t n = sizes[mc_choose(20, "size")];
	params(3, FLAGS[mc_choose(4, "flags")]);
	load();
	open_raw(&rf[0], 0);
	if (mc_choose(2, "loop count set"))
		ioctl_loop(&rf[0], 77, 0);
	read_raw(&rf[0], n, INJ);
	read_raw(&rf[0], 16, mc_thorough() ? INJ : 0);
	unload();
	mc_outcome(oh);
}
/* opening with every fault, verbose or not */
static void opens(void)
{
	static const unsigned osrs[] = { 0, 1, 3, 20, 21, 0xffffffff };
	kset("verbose", (unsigned)mc_choose(2, "verbose"));
	params(osrs[mc_choose(6, "rate")], FLAGS[mc_choose(NFLAGS, "flags")]);
	load();
	if (mc_choose(2, "lockdown raised later"))
		klockdown = 1;
	if (open_raw(&rf[0], KF_ALLOC | KF_LOCK | KF_LIBALLOC) && rf[0].open) {
		read_raw(&rf[0], 24, 0);
		if (open_raw(&rf[1], KF_ALLOC | KF_LOCK | KF_LIBALLOC))
			read_raw(&rf[1], 24, 0);
		read_raw(&rf[0], 8, 0);
	}
	unload();
	mc_outcome(oh);
}
/* every value around the bounds of the loop count */
static void loops(void)
{
	static const uint64_t v[] = { 0, 1, 2, 0x7fffffff, 0x80000000ull, 0xfffffffeull, 0xffffffffull, 0x100000000ull, 0x100000001ull, 0x1ffffffffull, 1ull << 63, ~0ull };
	params(0, 0);
	load();
	open_raw(&rf[0], 0);
	ioctl_loop(&rf[0], v[mc_choose(12, "loop count")], KF_COPY | KF_LOCK);
	read_raw(&rf[0], 16, 0);
	ioctl_loop(&rf[0], v[mc_choose(12, "loop count")], KF_COPY | KF_LOCK);
	read_raw(&rf[0], 16, 0);
	unload();
	mc_outcome(oh);
}
/* histories over two files and changing parameters */
static void histories(void)
{
	int depth = (int)mc_param("depth", 5), i;
	params(0, 0);
	load();
	for (i = 0; i < depth; i++) {
		struct rawfile *r;
		int op = mc_choose(14, "operation");
		r = &rf[op % 2];
		switch (op / 2) {
		case 0:	/* parameters */
			params(op % 2 ? 5 : 0, op % 2 ? FLAGS[1 + mc_choose(2, "flags")] : 0);
			break;
		case 1:
			if (r->open)
				mc_prune();
			open_raw(r, 0);
			break;
		case 2:
			if (!r->open)
				mc_prune();
			a.r = r;
			kop(do_release, NULL);
			MC_ASSERT(a.ret == 0, "close returns %ld", a.ret);
			r->open = 0;
			break;
		case 3:
			if (!r->open)
				mc_prune();
			read_raw(r, 24, KF_SIGNAL | KF_COPY | KF_LOCK | KF_ALLOC);
			break;
		case 4:
			if (!r->open)
				mc_prune();
			ioctl_loop(r, (uint64_t)i + 1, KF_LOCK);
			break;
		case 5:
			if (!r->open)
				mc_prune();
			ioctl_loop(r, op & 1 ? 0 : 1ull << 40, 0);
			break;
		default:	/* the self test and status of this file do not change what is recorded */
			if (!r->open)
				mc_prune();
			kev_reset();
			a.r = r;
			a.cmd = JENT_IOCSELFTEST;
			a.arg = 0;
			kop(do_ioctl, NULL);
			MC_ASSERT(a.ret == 0, "self test returns %ld", a.ret);
			break;
		}
	}
	for (i = 0; i < 2; i++)
		if (rf[i].open)
			read_raw(&rf[i], 16, 0);
	unload();
	mc_outcome(oh);
}

void mc_body(void)
{
	switch (mc_choose(4, "part")) {
	case 0: reads(); break;
	case 1: opens(); break;
	case 2: loops(); break;
	default: histories(); break;
	}
}
