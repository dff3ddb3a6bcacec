/*
 * P22 (and the locking part of P18): self tests, reads, status queries and
 * closes of the kernel module at the same time, under every schedule within
 * the preemption bound.
 */
#include "kenv.h"

const char *mc_property = "P22";
int mc_fork_per_run = 1;
int mc_split_depth = 3;

static struct inode ino;
static struct file f1, f2;
static struct kinst *i1, *i2;
static struct kwork *w1, *w2, *wh;
static struct proc_dir_entry *p1;
static int fail_at, nruns;	/* which self test run fails */
static long r_ioctl[SCHED_MAXT], r_read[SCHED_MAXT], r_show[SCHED_MAXT];
static char *ub[SCHED_MAXT];
static size_t closed;
static int scen;

/* verdicts by order of execution */
static int verdict_hook(void) { return ++nruns == fail_at; }

static void t_ioctl1(int t) { r_ioctl[t] = kmisc->fops->unlocked_ioctl(&f1, JENT_IOCSELFTEST, 0); }
static void t_work1(int t) { (void)t; kwork_fire(w1); }
static void t_work2(int t) { (void)t; kwork_fire(w2); kwork_fire(wh); }
static void t_read1(int t) { loff_t p = 0; r_read[t] = kmisc->fops->read(&f1, ub[t], 40, &p); }
static void t_read2(int t) { loff_t p = 0; r_read[t] = kmisc->fops->read(&f2, ub[t], 40, &p); }
static void t_show1(int t) { if (p1->live) r_show[t] = kproc_read(p1); }
static void t_status1(int t)
{
	struct jent_status_ioctl *s = (void *)ub[t];
	s->buf = (unsigned long)(ub[t] + 64);
	s->length = 1000;
	r_show[t] = kmisc->fops->unlocked_ioctl(&f1, JENT_IOCSTATUS, (unsigned long)s);
}
static void t_close1(int t) { (void)t; kmisc->fops->release(&ino, &f1); closed = 1; }
static void t_open2(int t) { MC_ASSERT(kmisc->fops->open(&ino, &f2) == 0, "open"); (void)t; }
static void t_close2(int t) { (void)t; kmisc->fops->release(&ino, &f2); }
static void t_tfm(int t)
{
	struct crypto_rng c;
	static u8 b[8];
	(void)t;
	MC_ASSERT(ktfm_new(&c) == 0, "crypto generator cannot be created");
	MC_ASSERT(kalg->generate(&c, NULL, 0, b, 8) == 0, "crypto generator fails");
	ktfm_del(&c);
}
static void t_hwread(int t) { r_read[t] = khwrng->read(khwrng, ub[t], 24, true); }
static void t_field1(int t) { r_show[t] = kmisc->fops->unlocked_ioctl(&f1, JENT_IOCREINIT, (unsigned long)ub[t]); }

static const struct { void (*fn[3])(int); int n, fails; const char *what; } scens[] = {
	{ { t_ioctl1, t_ioctl1 }, 2, 3, "two requests on one file" },
	{ { t_ioctl1, t_work1 }, 2, 3, "request and scheduled run" },
	{ { t_ioctl1, t_read1 }, 2, 2, "request and read" },
	{ { t_work1, t_read1 }, 2, 2, "scheduled run and read" },
	{ { t_read1, t_read1 }, 2, 1, "two reads of one file" },
	{ { t_work1, t_work2 }, 2, 3, "scheduled runs of two instances" },
	{ { t_close1, t_work1 }, 2, 2, "close and scheduled run" },
	{ { t_close1, t_show1 }, 2, 1, "close and status file" },
	{ { t_read1, t_show1 }, 2, 1, "read and status file" },
	{ { t_status1, t_read1 }, 2, 1, "status request and read" },
	{ { t_ioctl1, t_read2 }, 2, 2, "request on one file, read of another" },
	{ { t_open2, t_close1 }, 2, 1, "open and close" },
	{ { t_open2, t_work1 }, 2, 2, "open and scheduled run" },
	{ { t_tfm, t_ioctl1 }, 2, 2, "crypto generator and request" },
	{ { t_hwread, t_hwread }, 2, 1, "two hwrng reads" },
	{ { t_field1, t_read1 }, 2, 1, "field request and read" },
	{ { t_close1, t_close2 }, 2, 1, "two closes" },
	{ { t_ioctl1, t_work1, t_read1 }, 3, 3, "request, scheduled run and read" },
	{ { t_close1, t_work1, t_show1 }, 3, 2, "close, scheduled run and status file" },
};
#define NSCEN (int)(sizeof(scens) / sizeof(scens[0]))

static long stat_value(const char *key)
{
	char *p;
	MC_ASSERT(kproc_read(kproc_get("jitterentropy", "statistics")) == 0, "statistics unreadable");
	p = strstr(kseqbuf, key);
	MC_ASSERT(p, "statistics do not mention %s", key);
	return strtol(p + strlen(key) + 2, NULL, 10);
}
static int prof_scen = -1;
static void one(void)
{
	int i, f1open = 1, f2open = 1, nreq = 0, nfail, reads = 0, open2 = 0;
	long total = 0;
	scen = prof_scen >= 0 ? prof_scen : mc_choose(NSCEN, "scenario");
	fail_at = prof_scen >= 0 ? 1 : mc_choose(scens[scen].fails, "failing run");
	/* a recovery reallocates the collector during reads */
	kset("selftest_interval", 60);
	kin_init = 1;
	MC_ASSERT(kmod_init() == 0, "module does not load");
	kin_init = 0;
	wh = &kwork[nkwork - 1];
	for (i = 0; i < scens[scen].n; i++) {
		ub[i] = kuser_new(2048);
		open2 |= scens[scen].fn[i] == t_open2;
	}
	kmisc->fops->open(&ino, &f1);
	i1 = &kinst[nkinst - 1];
	w1 = &kwork[nkwork - 1];
	p1 = kproc_get("instances", i1->uuid);
	if (!open2) {
		kmisc->fops->open(&ino, &f2);
		i2 = &kinst[nkinst - 1];
		w2 = &kwork[nkwork - 1];
	}
	kev_reset();
	nruns = 0;
	kcopy_unlocked = 1;
	krealloc_all = 1;
	kverdict_fn = verdict_hook;
	for (i = 0; i < SCHED_MAXT; i++)
		r_ioctl[i] = r_read[i] = r_show[i] = 12345;
	for (i = 0; i < scens[scen].n; i++)
		sspawn(scens[scen].fn[i]);
	srun();
	if (sprofile)
		return;
	kverdict_fn = NULL;
	krealloc_all = 0;
	nfail = fail_at && nruns >= fail_at;
	for (i = 0; i < scens[scen].n; i++) {
		void (*fn)(int) = scens[scen].fn[i];
		nreq += fn == t_ioctl1;
		if (fn == t_close1)
			f1open = 0;
		if (fn == t_close2)
			f2open = 0;
		if (fn == t_ioctl1)
			MC_ASSERT(r_ioctl[i] == 0 || (r_ioctl[i] == -EFAULT && nfail), "self test request returns %ld", r_ioctl[i]);
		if (fn == t_read1 || fn == t_read2) {
			long n = r_read[i];
			int bad = i1->failed;
			reads++;
			MC_ASSERT(n == 40 || (fn == t_read1 && bad && (n == -EFAULT || n == 32)), "read returns %ld", n);
			if (n > 0) {
				size_t k;
				for (k = 0; k + 32 <= kngood && memcmp(kgood + k, ub[i], 32); k++)
					;
				MC_ASSERT(k + 32 <= kngood, "a reader gets something else than generated data");
				total += n;
			}
		}
		if (fn == t_hwread) {
			MC_ASSERT(r_read[i] == 24, "hwrng read returns %ld", r_read[i]);
		}
		if (fn == t_show1)
			MC_ASSERT(r_show[i] == 0 || r_show[i] == 12345, "status file gives %ld", r_show[i]);
		if (fn == t_status1)
			MC_ASSERT(r_show[i] == 0 && kstatus_is(ub[i] + 64, i1->id), "status request gives %ld", r_show[i]);
		if (fn == t_field1) {
			MC_ASSERT(r_show[i] == 0, "field request gives %ld", r_show[i]);
		}
	}
	/* data of different readers comes from different generations */
	if (reads == 2 && r_read[0] > 0 && r_read[1] > 0)
		MC_ASSERT(memcmp(ub[0], ub[1], 8), "two readers get the same data");
	(void)total;
	/* at least one request reports the failure it caused */
	if (nfail && nreq && f1open && i1->failed) {
		int told = 0;
		for (i = 0; i < scens[scen].n; i++)
			told |= scens[scen].fn[i] == t_ioctl1 && r_ioctl[i] == -EFAULT;
		MC_ASSERT(told || !w1->pending, "a failure goes unreported");
	}
	MC_ASSERT(kev.selftests == stat_value("\"runs\""), "%ld runs reported, %d happened", stat_value("\"runs\""), kev.selftests);
	MC_ASSERT(nfail == stat_value("\"failures\""), "%ld failures reported, %d happened", stat_value("\"failures\""), nfail);
	MC_ASSERT(stat_value("\"openInstances\"") == f1open + f2open, "%ld open instances reported, %d are open", stat_value("\"openInstances\""), f1open + f2open);
	MC_ASSERT(stat_value("\"cumulativeOpens\"") == 2, "%ld opens reported, 2 happened", stat_value("\"cumulativeOpens\""));
	if (f1open) {
		/* a run that finds the failure does not schedule the next one */
		if (!i1->failed)
			MC_ASSERT(w1->pending, "the next self test is not scheduled");
		else if (scens[scen].fn[i1->failed_by] == t_work1)
			MC_ASSERT(!w1->pending, "a failed instance is scheduled again");
	} else
		MC_ASSERT(!w1->pending && !i1->live, "closing leaves something behind");
	mc_outcome(mc_hash(r_ioctl, sizeof(r_ioctl), mc_hash(r_read, sizeof(r_read), (uint64_t)(scen * 8 + fail_at))));
	/* afterwards: the failure is sticky, the others deliver */
	kcopy_unlocked = 0;
	if (f1open) {
		loff_t p = 0;
		long n = kmisc->fops->read(&f1, ub[0], 8, &p);
		MC_ASSERT(n == (i1->failed ? -EFAULT : 8), "afterwards a read returns %ld", n);
		if (w1->pending && i1->failed) {	/* one run that was queued before the failure may be left */
			int before = kev.selftests;
			kwork_fire(w1);
			MC_ASSERT(kev.selftests == before && !w1->pending, "a failed instance is tested again");
		}
		n = kmisc->fops->unlocked_ioctl(&f1, JENT_IOCSELFTEST, 0);
		MC_ASSERT(n == (i1->failed ? -EFAULT : 0), "afterwards a self test request returns %ld", n);
		kmisc->fops->release(&ino, &f1);
	}
	if (f2open) {
		loff_t p = 0;
		long n = kmisc->fops->read(&f2, ub[0], 8, &p);
		if (i2)
			MC_ASSERT(n == (i2->failed ? -EFAULT : 8), "afterwards a read returns %ld", n);
		kmisc->fops->release(&ino, &f2);
	}
	kmod_exit();
	kcheck_nothing_left("after unload");
}

void mc_setup(void)
{
	sarena_init();
	safter_hook = kaccess;
	for (prof_scen = 0; prof_scen < NSCEN; prof_scen++)
		sched_profile(one, scens[prof_scen].n, 400);
	prof_scen = -1;
}
void mc_body(void) { one(); }
