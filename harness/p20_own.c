/*
 * P20: threads that use their own instances only, under every interleaving at
 * the memory they share; every result is compared with the sequential ones.
 */
#include <stdlib.h>
#include <stdio.h>
#include "jitterentropy.h"
#include "jitterentropy-internal.h"
#include "jitterentropy-timer.h"
#include "jitterentropy-health.h"
#include "jitterentropy-noise.h"
#include "ilv.h"

const char *mc_property = "P20";
int mc_fork_per_run = 1;
int mc_split_depth = 3;

static int light;	/* measurements stubbed */
static int setup_for;
static int me(void) { return scur >= 0 ? scur : setup_for; }

/* --- private clock, memory and randomness of each thread --- */
static struct { uint64_t cur, delta, k; unsigned reads; int have; long burst; } ck[SCHED_MAXT];
static void clock_cb(void *arg, uint64_t *out)
{
	int t = me();
	(void)arg;
	if (!ck[t].have) {
		uint64_t k = ++ck[t].k;
		ck[t].delta = 100000 + (k * k * (31 + 2 * t) + k * 7919) % 1000003;
		if (ck[t].burst > 0) {
			ck[t].burst--;
			ck[t].delta = 4242;
		}
		ck[t].have = 1;
	}
	ck[t].reads++;
	*out = ck[t].reads == 1 ? ck[t].cur : ck[t].cur + ck[t].delta;
}
unsigned int __real_jent_stuck(struct rand_data *ec, uint64_t d);
unsigned int __wrap_jent_stuck(struct rand_data *ec, uint64_t d)
{
	int t = me();
	ck[t].cur += ck[t].delta;
	ck[t].have = ck[t].reads = 0;
	return __real_jent_stuck(ec, d);
}
static struct { const char *p; size_t n; int freed; } blks[256];
static int nblk;
void *__wrap_jent_zalloc(size_t len, unsigned int flags)
{
	void *p = salloc(len);
	(void)flags;
	memset(p, 0, len);
	if (nblk == 256)
		mc_fail("harness: blocks");
	blks[nblk].p = p;
	blks[nblk].n = len;
	blks[nblk++].freed = 0;
	return p;
}
void __wrap_jent_zfree(void *ptr, size_t len)
{
	int i;
	if (!ptr)
		return;
	for (i = 0; i < nblk && blks[i].p != ptr; i++)
		;
	MC_ASSERT(i < nblk && !blks[i].freed && blks[i].n == len, "memory released twice or never allocated");
	blks[i].freed = 1;
}
int __wrap_jent_os_random_bytes(uint8_t *b, size_t n)
{
	static uint8_t c[SCHED_MAXT];
	memset(b, 17 * (me() + 1) + c[me()]++, n);
	return 0;
}
int __wrap_jent_fips_enabled(void) { return 0; }
long __wrap_jent_ncpu(void) { return 4; }
uint32_t __wrap_jent_cache_size_roundup(int all) { return all ? 4096 : 1024; }

unsigned int __real_jent_measure_jitter(struct rand_data *ec, uint64_t l, uint64_t *d);
unsigned int __wrap_jent_measure_jitter(struct rand_data *ec, uint64_t l, uint64_t *d)
{
	uint64_t t;
	if (!light)
		return __real_jent_measure_jitter(ec, l, d);
	clock_cb(NULL, &t);
	clock_cb(NULL, &t);
	ck[me()].cur += ck[me()].delta;
	ck[me()].have = ck[me()].reads = 0;
	ec->prev_time = t;
	if (d)
		*d = ck[me()].delta;
	return 0;
}
void __real_jent_random_data(struct rand_data *ec);
static int fail_next[SCHED_MAXT];
void __wrap_jent_random_data(struct rand_data *ec)
{
	if (!light) {
		__real_jent_random_data(ec);
		return;
	}
	if (fail_next[me()] && !--fail_next[me()])
		ec->health_failure |= JENT_RCT_FAILURE;
	ec->startup_state = jent_startup_completed;
}

/* --- threads --- */
static struct rand_data *inst[SCHED_MAXT];
static uint64_t res[SCHED_MAXT];
static char trace[SCHED_MAXT][300];
static void put(int t, const char *what, const void *p, size_t n)
{
	size_t l = strlen(trace[t]);
	uint64_t h = mc_hash(p, n, MC_HASH_INIT);
	res[t] = mc_hash(&h, 8, res[t] ^ 77);
	snprintf(trace[t] + l, sizeof(trace[t]) - l, "%s:%x ", what, (unsigned)(h >> 40));
}
static void puti(int t, const char *what, long v)
{
	size_t l = strlen(trace[t]);
	res[t] = mc_hash(&v, sizeof(v), res[t] ^ 99);
	snprintf(trace[t] + l, sizeof(trace[t]) - l, "%s=%ld ", what, v);
}
enum { O_END, O_INIT, O_INITF, O_ALLOC, O_ALLOCF, O_READ, O_SAFE, O_STATUS, O_FREE, O_SELF, O_READ64, O_BURST, O_ALLOCN };
static const struct { int light, pre; unsigned char op[2][8]; int cheap; } scens[] = {
	/* everything real; the instances exist or not */
	{ 0, 1, { { O_READ, O_STATUS }, { O_READ } } },
	{ 0, 1, { { O_READ }, { O_SELF, O_SELF } } },
	{ 0, 0, { { O_ALLOC, O_READ }, { O_ALLOC } } },
	{ 0, 2, { { O_BURST, O_SAFE }, { O_READ, O_STATUS } } },
	{ 0, 0, { { O_ALLOCN, O_READ }, { O_ALLOCN, O_READ } } },
	/* measurements stubbed */
	{ 1, 0, { { O_INIT, O_ALLOC, O_READ, O_STATUS, O_FREE }, { O_INIT, O_ALLOC, O_READ, O_STATUS, O_FREE } } },
	{ 1, 0, { { O_ALLOC, O_READ64, O_FREE }, { O_ALLOCF, O_READ, O_FREE } } },
	{ 1, 0, { { O_INITF, O_ALLOCF, O_READ }, { O_ALLOC, O_STATUS, O_FREE } } },
	{ 1, 1, { { O_FREE, O_ALLOC, O_READ }, { O_READ, O_STATUS, O_SELF, O_READ } } },
	{ 1, 2, { { O_BURST, O_SAFE, O_STATUS, O_FREE }, { O_BURST, O_SAFE, O_STATUS, O_FREE } } },
};
#define NSCEN (int)(sizeof(scens) / sizeof(scens[0]))
static int scen;

static void worker(int t)
{
	static char st[SCHED_MAXT][4096];
	static char out[SCHED_MAXT][64];
	int i;
	for (i = 0; i < 8 && scens[scen].op[t][i]; i++) {
		memset(out[t], 0, 64);
		switch (scens[scen].op[t][i]) {
		case O_INIT: puti(t, "init", jent_entropy_init_ex(0, 0)); break;
		case O_INITF: puti(t, "init", jent_entropy_init_ex(0, JENT_FORCE_FIPS)); break;
		case O_ALLOC: inst[t] = jent_entropy_collector_alloc(0, 0); puti(t, "alloc", !!inst[t]); break;
		case O_ALLOCF: inst[t] = jent_entropy_collector_alloc(0, JENT_FORCE_FIPS); puti(t, "alloc", !!inst[t]); break;
		case O_ALLOCN: inst[t] = jent_entropy_collector_alloc(0, JENT_NTG1); puti(t, "alloc", !!inst[t]); break;
		case O_READ: puti(t, "read", jent_read_entropy(inst[t], out[t], 32)); put(t, "out", out[t], 64); break;
		case O_READ64: puti(t, "read", jent_read_entropy(inst[t], out[t], 64)); put(t, "out", out[t], 64); break;
		case O_SAFE: puti(t, "safe", jent_read_entropy_safe(&inst[t], out[t], 32)); put(t, "out", out[t], 64); break;
		case O_STATUS: puti(t, "status", jent_status(inst[t], st[t], sizeof(st[t]))); put(t, "text", st[t], strlen(st[t])); break;
		case O_FREE: jent_entropy_collector_free(inst[t]); inst[t] = NULL; break;
		case O_SELF: puti(t, "selftest", jent_selftest(inst[t])); break;
		case O_BURST: ck[t].burst = 100; fail_next[t] = 1; break;
		}
	}
}

/* results of the sequential orders, per scenario, order and thread */
static struct seqres { uint64_t r[NSCEN][2][2]; char tr[NSCEN][2][2][300]; } *seq;

static void body(void)
{
	int t, i, alive = 0;
	light = scens[scen].light;
	memset(ck, 0, sizeof(ck));
	for (t = 0; t < 2; t++) {
		ck[t].cur = 1000000 + 7 * t;
		res[t] = 0;
		trace[t][0] = 0;
	}
	jent_set_mock_timer(clock_cb, NULL);
	if (scens[scen].pre) {
		for (setup_for = 0; setup_for < 2; setup_for++) {
			inst[setup_for] = jent_entropy_collector_alloc(0, scens[scen].pre == 2 ? JENT_FORCE_FIPS : 0);
			if (!inst[setup_for])
				mc_fail("harness: allocation");
		}
		setup_for = 0;
	}
	sspawn(worker);
	sspawn(worker);
	srun();
	if (sprofile && spreempt_at < 0) {
		for (t = 0; t < 2; t++) {
			seq->r[scen][sfirst][t] = res[t];
			strcpy(seq->tr[scen][sfirst][t], trace[t]);
		}
	}
	if (sprofile)
		return;
	for (t = 0; t < 2; t++)
		MC_ASSERT(res[t] == seq->r[scen][0][t] || res[t] == seq->r[scen][1][t],
			  "thread %d: %s, one after the other: %s", t, trace[t], seq->tr[scen][0][t]);
	for (i = 0; i < nblk; i++)
		alive += !blks[i].freed;
	for (t = 0; t < 2; t++)
		alive -= inst[t] ? 3 : 0;
	MC_ASSERT(alive == 0, "%d blocks of memory lost", alive);
	mc_outcome(spoints * 16 + scen);
	mc_states_add(0, spoints);
}
static int lo, hi;
void mc_setup(void)
{
	seq = mmap(NULL, sizeof(*seq), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	sarena_init();
	lo = mc_param("from", 0);
	hi = mc_param("to", NSCEN);
	for (scen = lo; scen < hi; scen++)
		sched_profile(body, 2, mc_param("profile", 40));
}
void mc_body(void)
{
	scen = lo + mc_choose(hi - lo, "scenario");
	body();
}
