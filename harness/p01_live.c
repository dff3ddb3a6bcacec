/* P01: an instance obtained through the API applies the documented cutoffs of
 * its rate and profile in every startup stage and while generating */
#include "mc.h"
#include "clk.h"
#include "jitterentropy-sha3.h"
#include "jitterentropy-noise.h"
#include "jitterentropy-base.h"
#include "jitterentropy-health.h"
#include "ref_health.h"
#include <string.h>
#include <stdlib.h>

const char *mc_property = "P01";
int mc_fork_per_run = 1;
int mc_split_depth = 3;

unsigned int __real_jent_stuck(struct rand_data *ec, uint64_t d);
void __real_jent_random_data(struct rand_data *ec);

static struct rand_data *cur;
static struct rh r;
static int live, done, priming, stage, ntg1, sysfips;
static enum jent_startup_state last;
static unsigned rate, samples;	/* since the stage began */

static void recovery(struct rh *x)
{
	(void)x;
	done = 1;	/* explored elsewhere */
}

static void enter(int s)
{
	stage = s;
	samples = 0;
}

unsigned int __wrap_jent_stuck(struct rand_data *ec, uint64_t d)
{
	unsigned got, want, f;

	clk_step();
	if (!live || done || ec != cur)
		return __real_jent_stuck(ec, d);
	if (ec->startup_state != last) {
		/* the next stage: the profile is selected again */
		last = ec->startup_state;
		rh_select(&r);
		if (last != jent_startup_completed)
			r.mem_pos = 0;
		enter(stage + 1);
	}
	want = rh_sample(&r, d);
	if (done)
		return __real_jent_stuck(ec, d);
	got = __real_jent_stuck(ec, d);
	f = jent_health_failure(ec);
	samples++;
	mc_transition();
	MC_ASSERT(!!got == !!want, "rate %u %s stage %d: sample %u classified %sstuck", rate, ntg1 ? "NTG.1" : "common",
		  stage, samples, got ? "" : "not ");
	MC_ASSERT(f == r.fail, "rate %u %s stage %d: after sample %u the health state is 0x%x, the documented tests give 0x%x "
		  "(repetitions %u of %u/%u, proportion %u of %u/%u)", rate, ntg1 ? "NTG.1" : "common", stage, samples, f, r.fail,
		  r.rct, r.rct_c, r.rct_p, r.apt_cnt, r.apt_c, r.apt_p);
	if (priming) {
		priming = 0;
		r.mem_pos = 0;
	}
	return got;
}

void __wrap_jent_random_data(struct rand_data *ec)
{
	if (live && !done) {
		if (!cur) {
			cur = ec;
			rh_init(&r, rate, ntg1);
			rh_recover = recovery;
			r.mem_win = 321 * rate;
			last = ec->startup_state;
			enter(0);
		} else if (ec != cur) {
			done = 1;	/* replaced after a failure */
		}
		priming = ec->startup_state == jent_startup_completed;
		if (!priming)
			r.mem_pos = 0;
	}
	__real_jent_random_data(ec);
}

void __wrap_jent_sha3_256_init(struct jent_sha_ctx *c) { (void)c; }
void __wrap_jent_sha3_final(struct jent_sha_ctx *c, uint8_t *d) { (void)c; (void)d; }
void __wrap_jent_sha3_update(struct jent_sha_ctx *c, const uint8_t *in, size_t n) { (void)c; (void)in; (void)n; }
int __wrap_jent_fips_enabled(void) { return sysfips; }

static int kind, at_stage;
static unsigned from, pos;
static uint64_t plan(void)
{
	static uint64_t base;
	int s = stage;
	unsigned n;

	/* the sample about to be measured is the next of this stage, or the first of the following */
	if (!live || done || !cur || (s != at_stage))
		return clk_good();
	if (samples < from)
		return clk_good();
	n = pos++;
	if (!n)
		base = clk_good();
	switch (kind) {
	case 0:	return base;					/* repetition */
	case 1: return 0;
	case 2: return clk_p1 + 4;				/* even steps */
	case 3: return n % 8 == 7 ? clk_good() : base;		/* proportion */
	case 4: return n % 50 == 49 ? clk_good() : base;
	case 5: return n % 2 ? clk_good() : base;
	case 6: return base + (n % 2 ? 17 : 0);			/* periods */
	default: return base + (n % 3) * (n % 3) * 19;
	}
}

void mc_setup(void)
{
	clk_install();
	if (jent_entropy_init_ex(3, JENT_MAX_MEMSIZE_1kB))
		exit(2);
}

void mc_body(void)
{
	static const unsigned froms[] = { 0, 1, 2, 57, 700 };
	struct rand_data *ec;
	char buf[32];
	unsigned flags = JENT_MAX_MEMSIZE_1kB | JENT_DISABLE_INTERNAL_TIMER, req;
	int m = mc_choose(3, "mode"), i;
	ssize_t n = 0;

	req = (unsigned)mc_choose(21, "rate");
	kind = mc_choose(8, "deltas");
	at_stage = mc_choose(3, "stage");
	from = froms[mc_choose(5, "from")];
	rate = req < 3 ? 3 : req;
	ntg1 = m == 1;
	sysfips = m == 2;
	if (m == 0)
		flags |= JENT_FORCE_FIPS;
	if (m == 1)
		flags |= JENT_NTG1;
	clk_next = plan;
	live = 1;
	ec = jent_entropy_collector_alloc(req, flags);
	MC_ASSERT(ec || at_stage < 2, "allocation fails at rate %u with a good clock", req);
	if (!ec || done) {
		mc_outcome(r.fail);
		return;
	}
	MC_ASSERT(stage == 1 || stage == 2, "startup ended in stage %d", stage);
	/* every further read after a failure takes one more sample */
	for (i = 0; i < 1400 && !done && !(r.fail >> 16); i++) {
		n = jent_read_entropy(ec, buf, 32);
		if (done)
			break;
		MC_ASSERT((n == 32) == !r.fail, "rate %u: read returns %zd with health state 0x%x", req, n, r.fail);
		if (n == 32 && i > 2)
			break;
	}
	mc_outcome(mc_hash(&n, sizeof(n), r.fail));
	mc_state(mc_hash(&r, sizeof(r), 1));
	jent_entropy_collector_free(ec);
}
