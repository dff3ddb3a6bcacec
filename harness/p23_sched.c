/*
 * P23: recording sessions, loop count requests, opens and closes of the raw
 * test interface at the same time, under every schedule within the
 * preemption bound.
 */
#include "kenv.h"

const char *mc_property = "P23";
int mc_fork_per_run = 1;
int mc_split_depth = 3;

static struct inode ino;
static struct file f1, f2, f3;
static const struct file_operations *fops;
static const struct rand_data *e1, *e2;
static long r[SCHED_MAXT];
static char *ub[SCHED_MAXT];
static int scen;
#define N 24

static void rd(int t, struct file *f, size_t n) { loff_t p = 0; r[t] = fops->read(f, ub[t], n, &p); }
static void t_read1(int t) { rd(t, &f1, N); }
static void t_read2(int t) { rd(t, &f2, N); }
static void t_loop1(int t) { *(uint64_t *)ub[t] = 9; r[t] = fops->unlocked_ioctl(&f1, JENT_IOCLOOPCNT, (unsigned long)ub[t]); }
static void t_status1(int t)
{
	struct jent_status_ioctl *s = (void *)ub[t];
	s->buf = (unsigned long)(ub[t] + 64);
	s->length = 1000;
	r[t] = fops->unlocked_ioctl(&f1, JENT_IOCSTATUS, (unsigned long)s);
}
static void t_field1(int t) { r[t] = fops->unlocked_ioctl(&f1, JENT_IOCREINIT, (unsigned long)ub[t]); }
static void t_open3(int t) { r[t] = fops->open(&ino, &f3); }
static void t_close2(int t) { r[t] = fops->release(&ino, &f2); }
static void t_param(int t)
{
	int i;
	for (i = 0; i < nkpar; i++)
		if (!strcmp(kpar[i].name, "testing_flags"))
			saccess(kpar[i].p, 4, 1);
	kset("testing_flags", 1u << 15);
	r[t] = 0;
}

static const struct { void (*fn[3])(int); int n; const char *what; } scens[] = {
	{ { t_read1, t_read2 }, 2, "two files read" },
	{ { t_read1, t_read1 }, 2, "one file read twice" },
	{ { t_read1, t_loop1 }, 2, "loop count changed" },
	{ { t_read1, t_status1 }, 2, "status requested" },
	{ { t_read1, t_field1 }, 2, "field requested" },
	{ { t_read1, t_open3 }, 2, "another open" },
	{ { t_read1, t_close2 }, 2, "another close" },
	{ { t_open3, t_param }, 2, "parameters changed during an open" },
	{ { t_read1, t_read2, t_loop1 }, 3, "two readers, loop count changed" },
};
#define NSCEN (int)(sizeof(scens) / sizeof(scens[0]))

static int prof_scen = -1;
static void one(void)
{
	int i, j, k, open2 = 1;
	scen = prof_scen >= 0 ? prof_scen : mc_choose(NSCEN, "scenario");
	kset("verbose", prof_scen >= 0 ? 1 : (unsigned)mc_choose(2, "verbose"));
	kin_init = 1;
	MC_ASSERT(kmod_init() == 0, "module does not load");
	kin_init = 0;
	fops = kraw_fops();
	for (i = 0; i < scens[scen].n; i++)
		ub[i] = kuser_new(2048);
	MC_ASSERT(!fops->open(&ino, &f1), "open");
	e1 = kinst[nkinst - 1].ec;
	MC_ASSERT(!fops->open(&ino, &f2), "open");
	e2 = kinst[nkinst - 1].ec;
	kev_reset();
	nkmeas = 0;
	for (i = 0; i < SCHED_MAXT; i++)
		r[i] = 12345;
	for (i = 0; i < scens[scen].n; i++)
		sspawn(scens[scen].fn[i]);
	srun();
	if (sprofile)
		return;
	/* sessions follow each other: measurements of one are not interrupted by another */
	for (i = 0; i < scens[scen].n; i++) {
		void (*f)(int) = scens[scen].fn[i];
		MC_ASSERT(r[i] == (f == t_read1 || f == t_read2 ? N : 0), "%s: call %d returns %ld", scens[scen].what, i, r[i]);
		if (f != t_read1 && f != t_read2)
			continue;
		/* find the session that delivered this buffer */
		for (j = 0; j < nkmeas; j++)
			if (kmeas[j].recorded && !memcmp(ub[i], &kmeas[j].delta, 8))
				break;
		MC_ASSERT(j < nkmeas, "%s: unknown samples", scens[scen].what);
		MC_ASSERT(kmeas[j].ec == (f == t_read1 ? e1 : e2), "%s: samples of another file", scens[scen].what);
		MC_ASSERT(j > 0 && !kmeas[j - 1].recorded && kmeas[j - 1].ec == kmeas[j].ec, "%s: another session runs between priming and the first sample", scens[scen].what);
		for (k = 1; k < N / 8; k++) {
			MC_ASSERT(j + k < nkmeas && kmeas[j + k].recorded && kmeas[j + k].ec == kmeas[j].ec && !memcmp(ub[i] + 8 * k, &kmeas[j + k].delta, 8),
				  "%s: another session runs between the samples of one", scens[scen].what);
			MC_ASSERT(kmeas[j + k].loop == kmeas[j].loop, "%s: the loop count changes within a session", scens[scen].what);
		}
		mc_outcome((uint64_t)(j * 16 + i));
	}
	if (scens[scen].fn[1] == t_param) {
		struct kinst *n = &kinst[nkinst - 1];
		loff_t p = 0;
		int m = nkmeas;
		MC_ASSERT(!r[0], "open returns %ld", r[0]);
		MC_ASSERT(fops->read(&f3, ub[0], 16, &p) == 16, "read");
		for (; m < nkmeas; m++)
			if (kmeas[m].recorded)
				MC_ASSERT(kmeas[m].fn == (n->flags & (1u << 15) ? 1 : 0), "the noise source does not belong to the flags of the instance");
		mc_outcome(n->flags);
	}
	for (i = 0; i < scens[scen].n; i++) {
		if (scens[scen].fn[i] == t_close2)
			open2 = 0;
		if (scens[scen].fn[i] == t_open3)
			fops->release(&ino, &f3);
	}
	fops->release(&ino, &f1);
	if (open2)
		fops->release(&ino, &f2);
	kmod_exit();
	kcheck_nothing_left("after unload");
}

void mc_setup(void)
{
	sarena_init();
	safter_hook = kaccess;
	for (prof_scen = 0; prof_scen < NSCEN; prof_scen++)
		sched_profile(one, scens[prof_scen].n, 400);
	prof_scen = -1;
}
void mc_body(void) { one(); }
