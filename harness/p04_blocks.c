/* P04: good measurements per block and per startup stage */
#include "mc.h"
#include "clk.h"
#include "jitterentropy-sha3.h"
#include "jitterentropy-noise.h"
#include "jitterentropy-base.h"
#include <string.h>
#include <stdlib.h>

const char *mc_property = "P04";
int mc_fork_per_run = 1;
int mc_split_depth = 5;

unsigned int __real_jent_stuck(struct rand_data *ec, uint64_t d);
void __real_jent_random_data(struct rand_data *ec);
void __real_jent_drbg_generate_block(struct jent_sha_ctx *ctx, uint8_t *dst, size_t n);

/* what the instance absorbed since the last released block */
static uint64_t m_p1, m_p2, m_n;
static int last_stuck, pending;
static unsigned good[256], all[256];	/* by domain separator */
static int priming;
static unsigned osr, need;
static int mode;	/* 0 plain, 1 no memory, 2 FIPS, 3 NTG.1, 4 system FIPS */
static int live, started, in_read;
static unsigned blocks, stage_err;
static struct rand_data *cur_ec;

unsigned int __wrap_jent_stuck(struct rand_data *ec, uint64_t d)
{
	unsigned r;
	clk_step();
	r = __real_jent_stuck(ec, d);
	if (live && ec == cur_ec) {
		int s = !d || d == m_p1 || d - m_p1 == m_p1 - m_p2;
		m_p2 = m_p1;
		m_p1 = d;
		/* deltas before a restart of the predictor window count as zero */
		if (++m_n == 131072)
			m_n = m_p1 = m_p2 = 0;
		last_stuck = s;
		pending++;
	}
	return r;
}

void __wrap_jent_random_data(struct rand_data *ec)
{
	if (ec != cur_ec) {
		/* a (re)started instance */
		cur_ec = ec;
		MC_ASSERT(ec->osr >= osr && ec->osr >= 3, "instance with rate %u, %u requested", ec->osr, osr);
		need = ec->osr * (mode >= 2 ? 321 : 256);
		memset(good, 0, sizeof(good));
		memset(all, 0, sizeof(all));
		stage_err = 0;
		m_n = m_p1 = m_p2 = 0;
	}
	priming = ec->startup_state == jent_startup_completed;
	__real_jent_random_data(ec);
}

void __wrap_jent_sha3_256_init(struct jent_sha_ctx *c) { (void)c; }
void __wrap_jent_sha3_final(struct jent_sha_ctx *c, uint8_t *d) { (void)c; (void)d; }
void __wrap_jent_sha3_update(struct jent_sha_ctx *c, const uint8_t *in, size_t n)
{
	if (!live || !cur_ec || (void *)c != cur_ec->hash_state || n != JENT_SHA3_256_SIZE_BLOCK)
		return;
	uint8_t sep = in[8];
	if (!pending) {
		/* nothing was measured for this */
		return;
	}
	pending = 0;
	all[sep]++;
	if (priming) {
		/* only sets the time reference */
		priming = 0;
		return;
	}
	if (!last_stuck)
		good[sep]++;
	if (sep == 2 && good[1] < need)
		stage_err = 1;
	if (sep == 1 && all[2])
		stage_err = 2;
}

static void startup_check(const char *when)
{
	if (mode >= 2) {
		MC_ASSERT(!stage_err, "osr %u: startup stages overlap (%u)", osr, stage_err);
		MC_ASSERT(good[1] >= need, "osr %u %s: only %u good measurements from the memory source, %u required",
			  osr, when, good[1], need);
		MC_ASSERT(good[2] >= need, "osr %u %s: only %u good measurements from the hash loop source, %u required",
			  osr, when, good[2], need);
	} else {
		MC_ASSERT(good[3] >= need, "osr %u %s: only %u good measurements at allocation, %u required",
			  osr, when, good[3], need);
	}
}

void __wrap_jent_drbg_generate_block(struct jent_sha_ctx *ctx, uint8_t *dst, size_t n)
{
	if (live) {
		MC_ASSERT(started, "output released during the allocation");
		MC_ASSERT(good[3] >= need, "osr %u: block %u released after %u good measurements, %u required",
			  osr, blocks, good[3], need);
		MC_ASSERT(n <= 32, "one block yields %zu bytes", n);
		mc_state(mc_hash(good, sizeof(good), mc_hash(all, sizeof(all), osr * 8 + mode)));
		memset(good, 0, sizeof(good));
		memset(all, 0, sizeof(all));
		blocks++;
	}
	__real_jent_drbg_generate_block(ctx, dst, n);
}

int __wrap_jent_fips_enabled(void) { return mode == 4; }

/* --- the clock --- */
static int pattern, explore;
static uint64_t pos;
static uint64_t plan(void)
{
	int kind = 0;
	pos++;
	switch (pattern) {
	case 1: kind = pos % 2 ? 0 : 1; break;
	case 2: kind = pos % 3 ? 0 : 2; break;
	case 3: kind = pos % 4 ? 0 : 3; break;
	case 4: kind = (pos / 13) % 2 ? (int)(pos % 4) : 0; break;	/* bursts */
	case 5: kind = pos < 40 ? 1 : 0; break;
	/* hardly anything is good, yet no health test may object */
	case 6: kind = pos % 16 ? 3 : 0; break;
	case 7: kind = pos % 64 ? 3 : 0; break;
	case 8: kind = pos < 300 * need ? (int)(1 + pos % 3) : 0; break;
	}
	if (explore)
		kind = (kind + mc_env(4, "measurement")) % 4;
	switch (kind) {
	case 1: return 0;
	case 2: return clk_p1;				/* repeated */
	case 3: return 2 * clk_p1 - clk_p2;		/* even steps */
	}
	return clk_good();
}

void mc_setup(void)
{
	clk_install();
	if (jent_entropy_init_ex(3, JENT_MAX_MEMSIZE_1kB))
		exit(2);
}

static const size_t reads[][4] = {
	{ 32, 0, 0, 0 }, { 33, 0, 0, 0 }, { 1, 1, 1, 0 }, { 8, 24, 0, 0 }, { 0, 31, 32, 0 }, { 96, 1, 0, 0 },
};

void mc_body(void)
{
	struct rand_data *ec;
	char buf[128];
	unsigned flags, i, total = 0;
	int wide;

	mode = mc_choose(5, "mode");
	wide = mc_choose(2, "all rates");
	pattern = mc_choose(9, "stuck pattern");
	if (wide) {
		osr = (unsigned)mc_choose(20, "rate") + 1;
		explore = 0;
	} else {
		osr = 3;
		if (pattern > (int)mc_param("patterns", 1))
			mc_prune();
		explore = 1;
	}
	i = (unsigned)mc_choose(wide ? 6 : 2, "requests");
	if (pattern >= 6 && (i % 5 || (pattern == 7 && osr != 1 && osr != 20) || (pattern == 8 && osr != 1 && osr != 4)))
		mc_prune();
	if (mode >= 2 && (pattern == 1 || pattern == 4 || pattern == 5 || pattern == 8))
		pattern = 0;	/* would trip the health tests */
	if (mode == 3)
		pattern = 0;
	flags = JENT_MAX_MEMSIZE_1kB;
	if (mode == 1)
		flags |= JENT_DISABLE_MEMORY_ACCESS;
	if (mode == 2)
		flags |= JENT_FORCE_FIPS;
	if (mode == 3)
		flags |= JENT_NTG1;
	clk_single = mode == 1;
	if (osr < 3)
		need = 3;
	else
		need = osr;
	need *= mode >= 2 ? 321 : 256;
	clk_next = plan;
	pos = 0;
	live = 1;
	ec = jent_entropy_collector_alloc(osr, flags | JENT_DISABLE_INTERNAL_TIMER);
	if (!ec) {
		/* permitted only if deviations produced a health failure */
		mc_outcome(1);
		return;
	}
	startup_check("at allocation");
	started = 1;
	/* the pool of the allocation precedes the first block; a block needs its own */
	memset(good, 0, sizeof(good));
	memset(all, 0, sizeof(all));
	for (int k = 0; k < 3; k++) {
		size_t n = reads[i][k];
		ssize_t r;
		unsigned before = blocks;
		if (k && !n)
			continue;
		in_read = 1;
		memset(good, 0, sizeof(good));
		r = jent_read_entropy(ec, buf, n);
		if (r < 0) {
			MC_ASSERT(mode >= 2, "read of %zu failed with %zd in a mode without health tests", n, r);
			mc_outcome(2 + (uint64_t)-r);
			return;
		}
		MC_ASSERT(blocks - before == (n + 31) / 32,
			  "%zu bytes were drawn from %u blocks", n, blocks - before);
		total += blocks - before;
	}
	mc_outcome(100 + total * 1000 + pos);
	mc_states_add(0, pos);
	jent_entropy_collector_free(ec);
}
