/*
 * P19: loading, opening, closing and unloading the kernel module with a
 * failure at any step.
 */
#include "kenv.h"

const char *mc_property = "P19";
int mc_fork_per_run = 1;
int mc_split_depth = 4;

static uint64_t oh = MC_HASH_INIT;
static void out(long v) { oh = mc_hash(&v, sizeof(v), oh); }
static struct inode ino;
static long ret;
static void do_init(void *x) { (void)x; ret = kmod_init(); }
static void do_exit_(void *x) { (void)x; kmod_exit(); }

#ifndef KHAVE_PROC
#define KHAVE_PROC 1
#endif
#ifdef CONFIG_EXTERNAL_JITTERENTROPY_CHARDEV
#define KHAVE_CHARDEV 1
#else
#define KHAVE_CHARDEV 0
#endif
#ifdef CONFIG_EXTERNAL_JITTERENTROPY_HWRNG
#define KHAVE_HWRNG 1
#else
#define KHAVE_HWRNG 0
#endif
#ifdef CONFIG_EXTERNAL_JITTERENTROPY_KCAPI
#define KHAVE_KCAPI 1
#else
#define KHAVE_KCAPI 0
#endif
#ifdef CONFIG_EXTERNAL_JITTERENTROPY_TESTINTERFACE
#define KHAVE_RAW 1
#else
#define KHAVE_RAW 0
#endif

static long stat_value(const char *key)
{
	char *p;
	struct proc_dir_entry *e = kproc_get("jitterentropy", "statistics");
	MC_ASSERT(e, "no statistics");
	MC_ASSERT(kproc_read(e) == 0, "statistics unreadable");
	p = strstr(kseqbuf, key);
	MC_ASSERT(p, "statistics do not mention %s", key);
	return strtol(p + strlen(key) + 2, NULL, 10);
}

#define NF 3
static struct { struct file f; int open, raw; struct kinst *inst; } fl[NF];
static struct { struct crypto_rng t; int open; struct kinst *inst; } tf[1];
static int nopen, nraw, ntfm, cumulative;
static int have_inst_dir;

static void check_counts(void)
{
	int i, n = 0, files = 0;
	for (i = 0; i < nkinst; i++)
		n += kinst[i].live;
	MC_ASSERT(n == KHAVE_HWRNG + nopen + nraw + ntfm, "%d instances for %d users", n, KHAVE_HWRNG + nopen + nraw + ntfm);
	MC_ASSERT(klive() == n + nopen + nraw + ntfm, "%d allocations for %d users", klive() - n, nopen + nraw + ntfm);
	if (KHAVE_PROC) {
		MC_ASSERT(stat_value("\"openInstances\"") == nopen, "%ld instances counted, %d open", stat_value("\"openInstances\""), nopen);
		MC_ASSERT(stat_value("\"cumulativeOpens\"") == cumulative, "%ld opens counted, %d happened", stat_value("\"cumulativeOpens\""), cumulative);
		for (i = 0; i < nkproc; i++)
			files += kproc[i].live && kproc[i].parent && !strcmp(kproc[i].parent->name, "instances");
		MC_ASSERT(files <= nopen, "%d instance files for %d open instances", files, nopen);
	}
	if (KHAVE_CHARDEV || KHAVE_HWRNG || KHAVE_KCAPI) {
		int want = kparam_get("selftest_interval") ? KHAVE_HWRNG + nopen + ntfm : 0;
		MC_ASSERT(kpending() == want, "%d self tests scheduled for %d instances", kpending(), want);
	}
}
static struct { int i; } arg;
static void do_open(void *x)
{
	const struct file_operations *fo = fl[arg.i].raw ? kraw_fops() : kmisc->fops;
	(void)x;
	ret = fo->open(&ino, &fl[arg.i].f);
}
static void do_close(void *x)
{
	const struct file_operations *fo = fl[arg.i].raw ? kraw_fops() : kmisc->fops;
	(void)x;
	ret = fo->release(&ino, &fl[arg.i].f);
}
static void do_tfm(void *x) { (void)x; ret = ktfm_new(&tf[0].t); }
static void do_tfmdel(void *x) { (void)x; ktfm_del(&tf[0].t); }

static void open_one(int i, int raw)
{
	unsigned insts = (unsigned)nkinst;
	memset(&fl[i].f, 0, sizeof(fl[i].f));
	fl[i].raw = raw;
	fl[i].f.f_flags = i & 1 ? O_NONBLOCK : 0;
	arg.i = i;
	kfatal = 0;
	if (raw)
		klockdown = klockdown || mc_env(2, "lockdown raised");
	kinj = KF_ALLOC | KF_LIBALLOC | KF_PROC | KF_UUID | (raw ? KF_LOCK : 0);
	kop(do_open, NULL);
	kinj = 0;
	if (raw && klockdown) {
		MC_ASSERT(ret == -EPERM, "raw noise opened under lockdown: %ld", ret);
	} else
		MC_ASSERT(ret == kfatal, "open returns %ld instead of %d", ret, kfatal);
	out(ret);
	if (ret)
		return;
	MC_ASSERT(nkinst == (int)insts + 1, "open without an instance of its own");
	fl[i].inst = &kinst[insts];
	fl[i].open = 1;
	if (raw)
		nraw++;
	else {
		nopen++;
		cumulative++;
	}
}
static void close_one(int i)
{
	arg.i = i;
	kop(do_close, NULL);
	MC_ASSERT(ret == 0, "close returns %ld", ret);
	MC_ASSERT(!fl[i].inst->live, "close leaves the instance behind");
	fl[i].open = 0;
	if (fl[i].raw)
		nraw--;
	else
		nopen--;
}
static void use_one(int i)	/* each works on its own instance */
{
	const struct file_operations *fo = kmisc->fops;
	char *b;
	loff_t pos = 0;
	size_t start = kngood;
	kuser_reset();
	b = kuser_new(8);
	MC_ASSERT(fo->read(&fl[i].f, b, 8, &pos) == 8 && !memcmp(b, kgood + start, 8), "an open device cannot be read");
	MC_ASSERT(fl[i].inst->slot && *fl[i].inst->slot == fl[i].inst->ec, "reads go to another instance");
	kuser_reset();
}

static void history(void)
{
	int depth = (int)mc_param("depth", 4), d, i;
	for (d = 0; d < depth; d++) {
		int op = mc_choose(1 + NF + (KHAVE_RAW ? NF : 0) + (KHAVE_KCAPI ? 1 : 0), "operation");
		if (op == 0)
			break;
		op--;
		if (op < NF) {
			if (!KHAVE_CHARDEV)
				mc_prune();
			if (fl[op].open)
				close_one(op);
			else {
				for (i = 0; i < op; i++)
					if (!fl[i].open)
						mc_prune();	/* same as opening the first free one */
				open_one(op, 0);
				if (fl[op].open)
					use_one(op);
			}
		} else if (KHAVE_RAW && op < 2 * NF) {
			op -= NF;
			if (fl[op].open || !kraw_fops())
				mc_prune();
			for (i = 0; i < op; i++)
				if (!fl[i].open)
					mc_prune();
			open_one(op, 1);
		} else if (tf[0].open) {
			kop(do_tfmdel, NULL);
			tf[0].open = 0;
			ntfm--;
		} else {
			kfatal = 0;
			kinj = KF_LIBALLOC;
			kop(do_tfm, NULL);
			kinj = 0;
			MC_ASSERT(ret == kfatal, "creating a generator returns %ld instead of %d", ret, kfatal);
			out(ret);
			if (!ret) {
				tf[0].open = 1;
				ntfm++;
			}
		}
		check_counts();
	}
	for (i = 0; i < NF; i++)
		if (fl[i].open)
			close_one(i);
	if (tf[0].open) {
		kop(do_tfmdel, NULL);
		ntfm--;
	}
	check_counts();
}

void mc_body(void)
{
	static const unsigned ivals[] = { 0, 3600 };
	int what = mc_choose(2, "faults while loading, or while in use");
	unsigned fbits, want = 0;
	fips_enabled = mc_choose(2, "FIPS mode");
	kset("selftest_interval", ivals[mc_choose(2, "interval")]);
	if (!what) {
		fbits = (unsigned)mc_choose(8, "shortcuts");
		kset("ntg1", fbits & 1);
		kset("force_fips", (fbits >> 1) & 1);
		kset("cache_all", (fbits >> 2) & 1);
		if (mc_choose(2, "flags")) {
			kset("flags", JENT_DISABLE_MEMORY_ACCESS);
			kset("osr", 7);
			want = JENT_DISABLE_MEMORY_ACCESS;
		}
		want |= ((fbits & 1) ? JENT_NTG1 : 0) | ((fbits & 2) ? JENT_FORCE_FIPS : 0) | ((fbits & 4) ? JENT_CACHE_ALL : 0);
		klockdown = mc_choose(2, "locked down");
		kinit_result = mc_env(2, "library cannot be initialized") ? 5 : 0;
		kinj = KF_ALLOC | KF_LIBALLOC | KF_PROC | KF_REG | KF_EARLY;
	}
	kev_reset();
	kin_init = 1;
	kop(do_init, NULL);
	kin_init = 0;
	kinj = 0;
	MC_ASSERT(kpanicked == (fips_enabled && kinit_result), "panic while loading: %d", kpanicked);
	if (kpanicked)
		return;
	out(ret);
	MC_ASSERT(ret == kfatal, "load returns %ld instead of %d", ret, kfatal);
	if (ret) {
		MC_ASSERT(!kearly_open, "the load fails although the device was already opened");
		kcheck_nothing_left("after a failed load");
		mc_outcome(oh);
		return;
	}
	if (!what)
		MC_ASSERT(klib_flags == want && klib_osr == (want & JENT_DISABLE_MEMORY_ACCESS ? 7u : 0u), "the library is set up with other parameters: flags %#x", klib_flags);
	MC_ASSERT(!!kmisc == KHAVE_CHARDEV && !!khwrng == KHAVE_HWRNG && !!kalg == KHAVE_KCAPI, "an interface is missing after a successful load");
	MC_ASSERT(!!kraw_fops() == (KHAVE_RAW && !klockdown), "test interface %s", klockdown ? "exposed under lockdown" : "missing");
	if (KHAVE_PROC)
		MC_ASSERT(kproc_get(NULL, "jitterentropy") && kproc_get("jitterentropy", "statistics") && kproc_get("jitterentropy", "version") &&
			  kproc_get("config", "flags") && kproc_get("config", "flags_raw") && kproc_get("config", "osr") && kproc_get("config", "ntg1") &&
			  kproc_get("config", "fips") && kproc_get("interfaces", "kcapi") && kproc_get("interfaces", "hwrng") &&
			  kproc_get("interfaces", "chardev") && kproc_get("interfaces", "testing"), "a proc file is missing after a successful load");
	else
		MC_ASSERT(!nkproc, "proc files without proc");
	have_inst_dir = kproc_get("jitterentropy", "instances") != NULL;
	if (kearly_open) {
		fl[0].f = kearly_file;
		fl[0].open = 1;
		fl[0].inst = &kinst[nkinst - 1];
		nopen = cumulative = 1;
		use_one(0);
		check_counts();
		close_one(0);
	}
	check_counts();
	if (what)
		history();
	kinj = what ? 0 : KF_EARLY;
	kop(do_exit_, NULL);
	kinj = 0;
	kcheck_nothing_left("after unload");
	mc_outcome(oh);
}
