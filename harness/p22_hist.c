/*
 * P22: all histories of opens, closes, scheduled and requested self tests and
 * reads, against a model of which instances are in service; and all control
 * requests with every buffer length and fault.
 */
#include "kenv.h"

const char *mc_property = "P22";
int mc_fork_per_run = 1;
int mc_split_depth = 4;

static uint64_t oh = MC_HASH_INIT;
static void out(long v) { oh = mc_hash(&v, sizeof(v), oh); }
static struct inode ino;
static long ret;

/* users of instances: 0 hwrng, 1..2 open files, 3 crypto API */
#define NU 4
static struct { int open; struct file f; struct crypto_rng t; struct kinst *inst; struct kwork *work; int failed, pending; } u[NU];
static long runs, failures;
static unsigned interval;
static struct file raw;
static struct { int i; unsigned cmd; unsigned long p; char *buf; } arg;

static void do_open(void *x) { (void)x; ret = kmisc->fops->open(&ino, &u[arg.i].f); }
static void do_close(void *x) { (void)x; ret = kmisc->fops->release(&ino, &u[arg.i].f); }
static void do_tfm(void *x) { (void)x; ret = ktfm_new(&u[3].t); }
static void do_tfmdel(void *x) { (void)x; ktfm_del(&u[3].t); }
static void do_ioctl(void *x) { (void)x; ret = kmisc->fops->unlocked_ioctl(&u[arg.i].f, arg.cmd, arg.p); }
static void do_rawioctl(void *x) { (void)x; ret = kraw_fops()->unlocked_ioctl(&raw, arg.cmd, arg.p); }
static void do_fire(void *x) { (void)x; kwork_fire(u[arg.i].work); }
static void do_read(void *x)
{
	loff_t pos = 0;
	(void)x;
	if (arg.i == 0)
		ret = khwrng->read(khwrng, arg.buf, 8, true);
	else if (arg.i == 3)
		ret = kalg->generate(&u[3].t, NULL, 0, (u8 *)arg.buf, 8);
	else
		ret = kmisc->fops->read(&u[arg.i].f, arg.buf, 8, &pos);
}
static void do_show(void *x) { (void)x; ret = kproc_read(x); }

static void load(void)
{
	kev_reset();
	kinj = 0;
	kin_init = 1;
	MC_ASSERT(kmod_init() == 0, "module does not load");
	kin_init = 0;
}
static void begin(int i, int insts, int works)
{
	MC_ASSERT(nkinst == insts + 1, "no instance of its own");
	u[i].open = 1;
	u[i].inst = &kinst[insts];
	(void)works;
	/* the work is the one whose memory belongs to the user */
	u[i].work = &kwork[nkwork - 1];
	u[i].failed = 0;
	u[i].pending = interval != 0;
}
static long stat_value(const char *key)
{
	char *p;
	MC_ASSERT(kproc_read(kproc_get("jitterentropy", "statistics")) == 0, "statistics unreadable");
	p = strstr(kseqbuf, key);
	MC_ASSERT(p, "statistics do not mention %s", key);
	return strtol(p + strlen(key) + 2, NULL, 10);
}
static void check(void)
{
	int i, n = 0;
	for (i = 0; i < NU; i++)
		if (u[i].open) {
			MC_ASSERT(u[i].work->pending == u[i].pending, "self test of user %d is %sscheduled", i, u[i].work->pending ? "" : "not ");
			if (u[i].pending)
				MC_ASSERT(u[i].work->delay == (unsigned long)interval * HZ, "self test in %lu ticks, %lu wanted", u[i].work->delay, (unsigned long)interval * HZ);
			MC_ASSERT(u[i].inst->failed == u[i].failed, "self test did not run on its instance");
			n += u[i].pending;
		}
	MC_ASSERT(kpending() == n, "%d self tests are scheduled instead of %d", kpending(), n);
	MC_ASSERT(stat_value("\"runs\"") == runs, "%ld runs reported, %ld happened", stat_value("\"runs\""), runs);
	MC_ASSERT(stat_value("\"failures\"") == failures, "%ld failures reported, %ld happened", stat_value("\"failures\""), failures);
	MC_ASSERT(stat_value("\"intervalSeconds\"") == (long)interval, "interval %ld reported, %u in effect", stat_value("\"intervalSeconds\""), interval);
}
static int stopped(void)	/* FIPS: a failing self test or a read of a failed instance */
{
	MC_ASSERT(kpanicked == (fips_enabled && kev.permanent), "a failed self test in FIPS mode did not stop the system");
	if (kpanicked)
		mc_outcome(0xdead);
	return kpanicked;
}

static int step(void)
{
	int op = mc_choose(1 + 3 + NU + 4 + 1 + NU, "operation"), i;
	unsigned inj = KF_SELFTEST | KF_LOCK;
	kev_reset();
	if (op == 0)
		return 0;
	op--;
	if (op < 3) {	/* open or close */
		i = op + 1;
		arg.i = i;
		if (i == 2 && !u[2].open && !u[1].open)
			mc_prune();	/* same as opening the other */
		if (u[i].open) {
			kop(i == 3 ? do_tfmdel : do_close, NULL);
			u[i].open = 0;
			MC_ASSERT(!u[i].work->pending && !u[i].inst->live, "closing leaves something behind");
			u[i].work->w = NULL;
		} else {
			int n = nkinst, w = nkwork;
			memset(&u[i].f, 0, sizeof(u[i].f));
			u[i].f.f_flags = i == 2 ? O_NONBLOCK : 0;
			ret = -1;
			kop(i == 3 ? do_tfm : do_open, NULL);
			MC_ASSERT(ret == 0, "open returns %ld", ret);
			begin(i, n, w);
		}
		return 1;
	}
	op -= 3;
	if (op < NU) {	/* the scheduled self test */
		if (!u[op].open || !u[op].work->pending)
			mc_prune();
		arg.i = op;
		kinj = inj;
		kop(do_fire, NULL);
		kinj = 0;
		if (u[op].failed) {
			MC_ASSERT(kev.selftests == 0, "self test repeated on a failed instance");
			u[op].pending = 0;
		} else {
			MC_ASSERT(kev.selftests == 1, "scheduled self test ran %d times", kev.selftests);
			runs++;
			if (kev.permanent)
				failures++;
			u[op].failed = kev.permanent;
			u[op].pending = !kev.permanent;
		}
		return !stopped();
	}
	op -= NU;
	if (op < 5) {	/* requested on a file, with or without the privilege; on the test interface */
		i = op == 4 ? 0 : 1 + op / 2;
		kcap = op == 4 ? mc_choose(2, "privileged") : !(op % 2);
		if (i && !u[i].open)
			mc_prune();
		arg.i = i;
		arg.cmd = JENT_IOCSELFTEST;
		arg.p = 0;
		kinj = inj;
		kop(i ? do_ioctl : do_rawioctl, NULL);
		kinj = 0;
		out(ret);
		if (!kcap) {
			MC_ASSERT(ret == -EPERM && !kev.selftests, "self test without the privilege returns %ld", ret);
			return 1;
		}
		if (kev.problem == -ERESTARTSYS) {
			MC_ASSERT(ret == -ERESTARTSYS && !kev.selftests, "interrupted self test returns %ld", ret);
			return 1;
		}
		if (i && u[i].failed) {
			MC_ASSERT(ret == -EFAULT && !kev.selftests, "self test of a failed instance returns %ld", ret);
			return 1;
		}
		MC_ASSERT(kev.selftests == 1, "self test ran %d times", kev.selftests);
		runs++;
		if (kev.permanent)
			failures++;
		if (i)
			u[i].failed = kev.permanent;
		if (stopped())
			return 0;
		MC_ASSERT(ret == (kev.permanent ? -EFAULT : 0), "self test returns %ld", ret);
		return 1;
	}
	op -= 5;	/* read */
	if (!u[op].open)
		mc_prune();
	{
		size_t start = kngood;
		arg.i = op;
		kuser_reset();
		arg.buf = op == 0 || op == 3 ? kget(8, 0, 0) : kuser_new(8);
		kop(do_read, NULL);
		if (stopped())
			return 0;
		if (u[op].failed)
			MC_ASSERT(ret == -EFAULT && kngood == start, "failed instance delivers: %ld", ret);
		else
			MC_ASSERT(ret == (op == 3 ? 0 : 8) && !memcmp(arg.buf, kgood + start, 8), "instance in service returns %ld", ret);
		if (op == 0 || op == 3) {
			memset(arg.buf, 0, 8);
			kfree(arg.buf);
		}
	}
	return 1;
}

static void histories(void)
{
	static const unsigned ivals[] = { 3600, 0, 1, 30u * 86400u, 30u * 86400u + 1, 0xffffffffu };
	int depth = (int)mc_param("depth", 4), d, i;
	int iv = mc_choose(6, "interval");
	interval = ivals[iv];
	kset("selftest_interval", interval);
	kset("verbose", (unsigned)(iv == 1));
	fips_enabled = mc_choose(2, "FIPS mode");
	if (interval > 30u * 86400u)
		interval = 30u * 86400u;
	if (iv > 1)
		depth = depth > 2 ? 2 : depth;
	load();
	begin(0, 0, 0);
	kop(do_open, (arg.i = 1, NULL));	/* one file is open already */
	begin(1, 1, 0);
	MC_ASSERT(kraw_fops()->open(&ino, &raw) == 0, "test interface cannot be opened");
	check();
	for (d = 0; d < depth; d++) {
		if (!step())
			break;
		check();
	}
	if (kpanicked)
		return;
	kinj = 0;
	kev_reset();
	for (i = 1; i < NU; i++)
		if (u[i].open) {
			arg.i = i;
			kop(i == 3 ? do_tfmdel : do_close, NULL);
		}
	kraw_fops()->release(&ino, &raw);
	kmod_exit();
	kcheck_nothing_left("after unload");
	mc_outcome(oh);
}

/* --- control requests --- */
static void control(int israw, unsigned cmd)
{
	arg.i = 1;
	arg.cmd = cmd;
	ret = 12345;
	kop(israw ? do_rawioctl : do_ioctl, NULL);
	out(ret);
}
static unsigned known_cmd(unsigned c)
{
	return c == JENT_IOCSTATUS || c == JENT_IOCUUID || c == JENT_IOCVERSION || c == JENT_IOCOSR || c == JENT_IOCFLAGS ||
	       c == JENT_IOCHEALTH || c == JENT_IOCOUTPUT || c == JENT_IOCREINIT || c == JENT_IOCSELFTEST;
}
static void status(int israw)
{
	static const size_t lens[] = { 0, 1, 39, 40, 300, 4000 };
	struct jent_status_ioctl *s, before;
	size_t need, have;
	int k, which;
	struct kinst *in = israw ? &kinst[2] : u[1].inst;
	kstatus_len = lens[mc_choose(6, "length of the status")];
	need = kstatus_len + 1;
	k = mc_choose(7, "length of the buffer");
	have = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? need - 1 : k == 3 ? need : k == 4 ? need + 1 : k == 5 ? 4096 : 0xffffffffu;
	kuser_reset();
	s = (void *)kuser_new(sizeof(*s));
	memset(s, 0x6b, sizeof(*s));
	s->length = (unsigned)have;
	which = 0;
	arg.buf = kuser_new(have > 8192 ? 8192 : have);
	s->buf = (unsigned long)arg.buf;
	memcpy(&before, s, sizeof(before));
	arg.p = (unsigned long)s;
	kev_reset();
	kinj = KF_ALLOC | KF_LOCK | KF_COPY | KF_STATUS;
	control(israw, JENT_IOCSTATUS);
	kinj = 0;
	(void)which;
	if (kev.problem && kev.problem != -EFAULT) {
		MC_ASSERT(ret == kev.problem, "status request returns %ld instead of %d", ret, kev.problem);
		MC_ASSERT(!memcmp(&before, s, sizeof(before)), "a failing status request changes the argument");
		return;
	}
	if (kev.problem) {
		MC_ASSERT(ret == -EFAULT, "status request with a bad address returns %ld", ret);
		return;
	}
	if (have < need) {
		MC_ASSERT(ret == -EOVERFLOW, "status request with a buffer of %zu for %zu returns %ld", have, need, ret);
		MC_ASSERT(s->length == need && s->buf == before.buf && !memcmp((char *)s + 12, (char *)&before + 12, 4), "needed length %u reported instead of %zu", s->length, need);
		for (size_t i = 0; i < have; i++)
			MC_ASSERT(arg.buf[i] == 0x21, "a buffer that is too short is written");
		return;
	}
	MC_ASSERT(ret == 0 && s->length == need, "status request returns %ld, length %u instead of %zu", ret, s->length, need);
	MC_ASSERT(kstatus_is(arg.buf, in->id), "status of another instance, or not complete");
	for (size_t i = need; i < have && i < 8192; i++)
		MC_ASSERT(arg.buf[i] == 0x21, "more than the status is written");
}
/* every bit of a field reaches the user */
static void field_bits(int israw, unsigned cmd, int c, struct kinst *in, unsigned char *b)
{
	struct rand_data save = *in->ec;
	int bit;
	for (bit = 0; bit < (c == 5 ? 128 : 32); bit++) {
		u64 v[2] = { 0, 0 };
		v[bit / 64] = (u64)1 << bit % 64;
		switch (c) {
		case 2: in->ec->osr = (unsigned)v[0]; break;
		case 3: in->ec->flags = (unsigned)v[0]; break;
		case 4: in->ec->health_failure = (unsigned)v[0]; break;
		case 5: in->ec->read_invocations = v[0]; in->ec->bytes_output = v[1]; break;
		default: in->ec->reinit_count = (u32)v[0]; break;
		}
		memset(b, 0x21, c == 5 ? 16 : 4);
		control(israw, cmd);
		MC_ASSERT(ret == 0 && !memcmp(b, v, c == 5 ? 16 : 4), "request %#x (%ld): bit %d of the field is not what the user gets", cmd, ret, bit);
	}
	*in->ec = save;
}
static void fields(int israw)
{
	static const unsigned cmds[] = { JENT_IOCUUID, JENT_IOCVERSION, JENT_IOCOSR, JENT_IOCFLAGS, JENT_IOCHEALTH, JENT_IOCOUTPUT, JENT_IOCREINIT };
	static const size_t sz[] = { 37, 4, 4, 4, 4, 16, 4 };
	struct kinst *in = israw ? &kinst[2] : u[1].inst;
	int c = mc_choose(7, "field"), i;
	unsigned char *b, want[64];
	memset(want, 0x21, sizeof(want));
	if (!israw && mc_choose(2, "after a recovery")) {
		loff_t pos = 0;
		kuser_reset();
		arg.buf = kuser_new(8);
		in->reallocs = 5;	/* so far */
		kgen_kinds = 2;
		kinj = KF_GEN;
		MC_ASSERT(kmisc->fops->read(&u[1].f, arg.buf, 8, &pos) == 8, "read");
		kinj = 0;
	}
	kuser_reset();
	b = (void *)kuser_new(sz[c]);
	arg.p = (unsigned long)b;
	kev_reset();
	kinj = KF_LOCK | KF_COPY | KF_UUID;
	control(israw, cmds[c]);
	kinj = 0;
	if (kev.problem) {
		MC_ASSERT(ret == kev.problem, "request %#x returns %ld instead of %d", cmds[c], ret, kev.problem);
		return;
	}
	if (israw && c == 0) {
		MC_ASSERT(ret == -ENODATA && b[0] == 0x21, "UUID of a raw instance: %ld", ret);
		return;
	}
	MC_ASSERT(ret == 0, "request %#x returns %ld", cmds[c], ret);
	switch (c) {
	case 0: memcpy(want, in->uuid, 37); break;
	case 1: { unsigned v = jent_version(); memcpy(want, &v, 4); break; }
	case 2: memcpy(want, &in->ec->osr, 4); break;
	case 3: memcpy(want, &in->ec->flags, 4); break;
	case 4: memcpy(want, &in->ec->health_failure, 4); break;
	case 5: { u64 v[2] = { in->ec->read_invocations, in->ec->bytes_output }; memcpy(want, v, 16); break; }
	case 6: { u32 v = (u32)in->ec->reinit_count; memcpy(want, &v, 4); break; }
	}
	for (i = 0; i < (int)sz[c]; i++)
		MC_ASSERT(b[i] == want[i], "request %#x: byte %d is %#x instead of %#x", cmds[c], i, b[i], want[i]);
	if (c >= 2)
		field_bits(israw, cmds[c], c, in, b);
}
static void unknown(int israw)
{
	unsigned nr, dir, size, magic = (unsigned)mc_choose(2, "magic") ? 'J' : 'K';
	static const unsigned sizes[] = { 0, 4, 8, 12, 16, 37, 100 };
	kuser_reset();
	arg.p = (unsigned long)kuser_new(0);	/* nothing may be touched */
	for (nr = 0; nr < 256; nr++)
		for (dir = 0; dir < 4; dir++)
			for (size = 0; size < 7; size++) {
				unsigned c = _IOC(dir, magic, nr, sizes[size]);
				if (known_cmd(c) || (israw && c == JENT_IOCLOOPCNT))
					continue;
				kev_reset();
				control(israw, c);
				MC_ASSERT(ret == -ENOTTY, "unknown request %#x returns %ld", c, ret);
				mc_transition();
			}
	mc_states_add(256 * 28, 256 * 28);
}
static void show(void)
{
	static const size_t lens[] = { 0, 1, 39, 300, 4000, 4095, 4096, 5000 };
	int which = mc_choose(2, "which");
	struct proc_dir_entry *e = which ? kproc_get("jitterentropy", "hwrng_status") : kproc_get("instances", u[1].inst->uuid);
	MC_ASSERT(e, "no status file");
	kstatus_len = lens[mc_choose(8, "length of the status")];
	kev_reset();
	kinj = KF_ALLOC | KF_LOCK | KF_STATUS;
	kop(do_show, e);
	kinj = 0;
	if (!kev.problem && kstatus_len >= 4096)	/* longer than any status */
		return;
	if (kev.problem) {
		MC_ASSERT(ret == kev.problem && !kseq.count, "status file gives %ld instead of %d", ret, kev.problem);
		return;
	}
	MC_ASSERT(ret == 0 && kstatus_is(kseqbuf, which ? 0 : u[1].inst->id) && kseq.count == kstatus_len, "status file does not show the status of its instance");
}
static void requests(void)
{
	int israw = mc_choose(2, "interface"), f2;
	kset("osr", 5);
	kset("flags", JENT_DISABLE_MEMORY_ACCESS | JENT_FORCE_FIPS);
	kset("testing_osr", 9);
	kset("testing_flags", JENT_CACHE_ALL);
	load();
	u[0].inst = &kinst[0];
	arg.i = 1;
	kop(do_open, NULL);
	u[1].inst = &kinst[1];
	MC_ASSERT(kraw_fops()->open(&ino, &raw) == 0, "test interface cannot be opened");
	f2 = mc_choose(4, "kind of request");
	switch (f2) {
	case 0: status(israw); break;
	case 1: fields(israw); break;
	case 2: unknown(israw); break;
	default: show(); break;
	}
	kinj = 0;
	arg.i = 1;
	kop(do_close, NULL);
	kraw_fops()->release(&ino, &raw);
	kmod_exit();
	kcheck_nothing_left("after unload");
	out(f2);
	mc_outcome(oh);
}

void mc_body(void)
{
	if (mc_choose(2, "part"))
		requests();
	else
		histories();
}
