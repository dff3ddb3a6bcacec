/*
 * P13: life of the counting thread over all histories of calls, health
 * verdicts and refusals, with the built-in and with a custom thread handler.
 */
#include <stdlib.h>
#include <stdio.h>
#include "mc.h"
#include "vos.h"
#include "jitterentropy.h"
#include "jitterentropy-internal.h"
#include "jitterentropy-health.h"
#include "jitterentropy-timer.h"
#include "jitterentropy-noise.h"

const char *mc_property = "P13";
int mc_fork_per_run = 1;
int mc_split_depth = 4;

static int custom, badclock, live;
static long ncpu = 4;

/* --- environment --- */
static struct blk { uint8_t *p; size_t n; int freed; } blks[4096];
static int nblk;
void *__wrap_jent_zalloc(size_t len, unsigned int flags);
void *__wrap_jent_zalloc(size_t len, unsigned int flags)
{
	uint8_t *p;
	(void)flags;
	if (vos_faults && mc_env(2, "memory"))
		return NULL;
	p = calloc(1, len);
	if (nblk == 4096)
		mc_fail("harness: too many blocks");
	blks[nblk].p = p;
	blks[nblk].n = len;
	blks[nblk++].freed = 0;
	return p;
}
static int is_live(const void *q)
{
	int i;
	for (i = nblk - 1; i >= 0; i--)
		if (blks[i].p == q)
			return !blks[i].freed;
	return 0;
}
static int running(const void *ec);
void __wrap_jent_zfree(void *ptr, size_t len);
void __wrap_jent_zfree(void *ptr, size_t len)
{
	int i;
	if (!ptr)
		return;
	for (i = nblk - 1; i >= 0 && blks[i].p != (uint8_t *)ptr; i--)
		;
	MC_ASSERT(i >= 0 && !blks[i].freed && blks[i].n == len, "memory released twice or never allocated");
	MC_ASSERT(!running(ptr), "instance released while its counting thread runs");
	blks[i].freed = 1;	/* never reused */
	memset(ptr, 0xdd, len);
}
static int tester_bad, st_failed[2];
int __wrap_jent_sha3_tester(void) { return tester_bad; }
int __wrap_jent_fips_enabled(void) { return 0; }
long __wrap_jent_ncpu(void) { return ncpu; }
long __wrap_jent_cpu_highest(void) { return ncpu - 1; }
uint32_t __wrap_jent_cache_size_roundup(int all) { (void)all; return 1024; }
int __wrap_jent_os_random_bytes(uint8_t *b, size_t n) { memset(b, 1, n); return 0; }

/* --- custom handler --- */
struct hctx { int alive, run; void *arg; };
static struct hctx hc[256];
static int nhc, starts, first_start, inits_failed;
static int h_init(void **ctx)
{
	if (vos_faults && mc_env(2, "handler init")) {
		mc_note("handler init fails");
		inits_failed++;
		return -1;
	}
	if (nhc == 256)
		mc_fail("harness: contexts");
	hc[nhc].alive = 1;
	hc[nhc].run = 0;
	*ctx = &hc[nhc++];
	return 0;
}
static struct hctx *h_ctx(void *ctx, const char *what)
{
	struct hctx *c = ctx;
	MC_ASSERT(c >= hc && c < hc + nhc, "%s with a foreign context", what);
	MC_ASSERT(c->alive, "%s with a finalized context", what);
	return c;
}
static void h_fini(void *ctx)
{
	struct hctx *c;
	if (!ctx)
		return;
	c = h_ctx(ctx, "finalization");
	MC_ASSERT(!c->run, "context finalized while its thread runs");
	c->alive = 0;
}
static void started(void *arg)
{
	struct rand_data *ec = arg;
	MC_ASSERT(is_live(ec), "thread started on a released instance");
	MC_ASSERT(ec->enable_notime, "thread started for an instance that does not use it");
	MC_ASSERT(!ec->notime_interrupt, "thread started with the stop request still set");
}
static int h_start(void *ctx, jent_notime_start_routine fn, void *arg)
{
	struct hctx *c = h_ctx(ctx, "start");
	MC_ASSERT(fn && arg, "start without routine or argument");
	MC_ASSERT(!c->run, "thread started twice");
	starts++;
	if (vos_faults && mc_env(2, "handler start")) {
		vos_fault("thread");
		if (starts == 1)
			first_start = -1;
		return -EAGAIN;
	}
	if (starts == 1)
		first_start = 1;
	started(arg);
	c->run = 1;
	c->arg = arg;
	return 0;
}
static void h_stop(void *ctx)
{
	struct hctx *c;
	if (!ctx)
		return;
	c = h_ctx(ctx, "stop");
	if (c->run) {
		MC_ASSERT(is_live(c->arg), "instance released before its thread was stopped");
		MC_ASSERT(((struct rand_data *)c->arg)->notime_interrupt, "waiting for a thread that was not asked to stop");
	}
	c->run = 0;
	c->arg = NULL;
}
static struct jent_notime_thread handler = { h_init, h_fini, h_start, h_stop };

/* --- built-in handler --- */
static int running(const void *ec)
{
	int i, k = vos_thread_of(ec);
	for (i = 0; i < nhc; i++)
		k += hc[i].run && hc[i].arg == ec;
	return k;
}
static int anyrun(void)
{
	int i, k = vthreads;
	for (i = 0; i < nhc; i++)
		k += hc[i].run;
	return k;
}

static void b_start(void *arg, int ok)
{
	starts++;
	if (starts == 1)
		first_start = ok ? 1 : -1;
	if (ok) {
		MC_ASSERT(!running(arg), "thread started twice");
		started(arg);
	}
}
static void b_stop(void *arg)
{
	MC_ASSERT(is_live(arg), "instance released before its thread was stopped");
	MC_ASSERT(((struct rand_data *)arg)->notime_interrupt, "waiting for a thread that was not asked to stop");
}

/* --- measurements --- */
static void measuring(struct rand_data *ec)
{
	MC_ASSERT(is_live(ec), "measurement on a released instance");
	if (ec->enable_notime)
		MC_ASSERT(running(ec) == 1, "measurement with %d counting threads", running(ec));
	else
		MC_ASSERT(running(ec) == 0, "counting thread runs although the platform clock is used");
}
static int cur_internal;
unsigned int __wrap_jent_measure_jitter(struct rand_data *ec, uint64_t l, uint64_t *d);
unsigned int __wrap_jent_measure_jitter(struct rand_data *ec, uint64_t l, uint64_t *d)
{
	static unsigned k;
	static uint64_t now = 1000;
	uint64_t delta = 100 + (k++ * 37) % 101;
	(void)l;
	measuring(ec);
	now += delta;
	cur_internal = ec->enable_notime;
	ec->prev_time = now;
	if (d)
		*d = delta;
	return 0;
}
int __wrap_jent_gcd_analyze(uint64_t *h, size_t n, size_t osr);
int __wrap_jent_gcd_analyze(uint64_t *h, size_t n, size_t osr)
{
	(void)h; (void)n; (void)osr;
	return badclock && !cur_internal ? ECOARSETIME : 0;
}
void __wrap_jent_random_data(struct rand_data *ec);
void __wrap_jent_random_data(struct rand_data *ec)
{
	static const unsigned f[] = { 0, JENT_RCT_FAILURE, JENT_APT_FAILURE_PERMANENT };
	unsigned i;
	measuring(ec);
	i = live ? mc_env(3, "verdict") : 0;
	ec->health_failure |= f[i];
	if (ec->startup_state != jent_startup_completed)
		ec->startup_state--;
}
void __wrap_jent_drbg_generate_block(void *ctx, uint8_t *dst, size_t n);
void __wrap_jent_drbg_generate_block(void *ctx, uint8_t *dst, size_t n) { (void)ctx; memset(dst, 7, n); }

static struct rand_data *ins[2];
static char out[64];
static const unsigned af[] = { JENT_FORCE_INTERNAL_TIMER, JENT_FORCE_INTERNAL_TIMER | JENT_FORCE_FIPS, 0, JENT_FORCE_FIPS };

static void rest(const char *op)
{
	int i, alive = 0, want = 0;
	MC_ASSERT(anyrun() == 0, "%d counting threads run after %s", anyrun(), op);
	for (i = 0; i < nhc; i++)
		alive += hc[i].alive;
	for (i = 0; i < 2; i++)
		want += ins[i] && ins[i]->enable_notime && custom;
	MC_ASSERT(alive == want, "%d contexts exist for %d instances after %s", alive, want, op);
}

void mc_body(void)
{
	static const char *names[] = { "initialization", "allocation", "read", "self-healing read", "empty read", "release", "self test" };
	int k, depth = mc_param("depth", 4);

	custom = mc_choose(2, "handler");
	vos_thread_start = b_start;
	vos_thread_stop = b_stop;
	badclock = mc_choose(2, "clock");
	if (custom) {
		int r = jent_entropy_switch_notime_impl(&handler);
		MC_ASSERT(r == 0, "handler refused: %d", r);
		if (mc_choose(2, "cpus"))
			ncpu = 1;	/* of no concern to a custom handler */
	}
	for (k = 0; k < depth; k++) {
		int op = mc_choose(14, "op"), w = 0, dev = mc_deviations(), o, r;
		ssize_t n = 0;
		starts = first_start = 0;
		live = vos_faults = 1;
		if (op < 2) {
			o = 0;
			r = jent_entropy_init_ex(0, af[op * 2]);
			MC_ASSERT(!r || mc_deviations() > dev, "initialization fails for no reason: %d", r);
		} else if (op < 7) {
			o = 1;
			w = op == 6;
			if (ins[w] || (w && !ins[0]))
				mc_prune();
			st_failed[w] = 0;
			ins[w] = jent_entropy_collector_alloc(0, af[op == 6 ? 1 : op - 2]);
			MC_ASSERT(ins[w] || mc_deviations() > dev, "allocation fails for no reason");
		} else if (op < 11) {
			o = op == 7 || op == 8 ? 2 : op == 9 ? 3 : 4;
			w = op == 8;
			if (!ins[w])
				mc_prune();
			if (o == 3)
				n = jent_read_entropy_safe(&ins[w], out, 40);
			else
				n = jent_read_entropy(ins[w], out, o == 4 ? 0 : 40);
			if (o != 3) {
				if (first_start < 0)
					MC_ASSERT(n == JENT_ERR_NOTIME, "read without counting thread returns %zd", n);
			}
			MC_ASSERT(n >= 0 || mc_deviations() > dev || ins[w]->health_failure || st_failed[w], "%s fails for no reason: %zd", names[o], n);
			MC_ASSERT(n < 0 || n == (o == 4 ? 0 : 40), "%s returns %zd", names[o], n);
		} else if (op == 13) {
			o = 6;
			if (!ins[0] || st_failed[0] || k == depth - 1)
				mc_prune();
			tester_bad = 1;
			r = jent_selftest(ins[0]);
			tester_bad = 0;
			st_failed[0] = 1;
			MC_ASSERT(r, "failed self test reports success");
		} else {
			o = 5;
			w = op == 12;
			st_failed[w] = 0;
			if (!ins[w])
				mc_prune();
			jent_entropy_collector_free(ins[w]);
			ins[w] = NULL;
		}
		live = vos_faults = 0;
		mc_note("%s", names[o]);
		rest(names[o]);
		mc_state(mc_hash(&(struct { int a, b, c, d, e; }){ !!ins[0], !!ins[1], nhc, custom * 4 + badclock, (int)n }, 20, k));
	}
	jent_entropy_collector_free(ins[0]);
	jent_entropy_collector_free(ins[1]);
	ins[0] = ins[1] = NULL;
	rest("the end");
	mc_outcome((uint64_t)nhc * 31 + vthr_serial);
}
