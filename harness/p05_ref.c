/* P05: the output is that of the reference generator for the same time stamps */
#include "mc.h"
#include "clk.h"
#include "ref_gen.h"
#include <stdlib.h>
#include <stdio.h>

const char *mc_property = "P05";
int mc_fork_per_run = 1;
int mc_split_depth = 6;

static uint64_t *log_t;
static size_t log_n, log_r;
#define LOGMAX (4u << 20)

static void logging(void *arg, uint64_t *out)
{
	clk_cb(arg, out);
	if (log_n < LOGMAX)
		log_t[log_n] = *out;
	log_n++;
}

static uint64_t replay(void)
{
	if (log_r >= log_n)
		mc_fail("the generator took %zu time stamps, the specified one needs more", log_n);
	return log_t[log_r++];
}

unsigned int __real_jent_stuck(struct rand_data *ec, uint64_t d);
unsigned int __wrap_jent_stuck(struct rand_data *ec, uint64_t d)
{
	clk_step();
	return __real_jent_stuck(ec, d);
}

int __wrap_jent_fips_enabled(void) { return 0; }

static int slice, pattern, explore, raw_adjust, kinds;
static uint64_t pos;
static int burst;		/* a fault that lasts until the instance is replaced */
static uint64_t burst_from;
static size_t alloc_at[64];	/* where in the log memory was allocated */
static unsigned allocs;

static uint64_t plan(void)
{
	int k = 0;
	uint64_t d;
	pos++;
	if (burst && pos >= burst_from) {
		static uint64_t held, pat[5];
		uint64_t i = pos - burst_from;
		if (!i)
			held = clk_p1;
		switch (burst) {
		case 1: return 0;
		case 2: return pos % 8 ? held : clk_good();
		case 3: return pos % 5 < 3 ? clk_p1 : clk_good();
		default:
			if (i < 5)
				pat[i] = clk_good();
			return pat[i % 5];
		}
	}
	switch (pattern) {
	case 1:		/* mixture of stuck kinds, wide and wrapped deltas */
		k = pos % 5 == 0 ? 1 + (int)(pos / 5) % 6 : 0;
		break;
	case 2:		/* repeated deltas, then clean: memory test recovery */
		k = pos < 1100 && pos % 2 ? 2 : 0;
		break;
	case 3:
		k = pos % 3 == 0 ? 2 : 0;
		break;
	}
	if (explore && (int)(pos % 32) == slice) {
		if (kinds == 1) {
			if (mc_env(2, "measurement"))
				k = 1 + (int)(pos % 6);
		} else {
			int e = mc_env(7, "measurement");
			if (e)
				k = e;
		}
	}
	switch (k) {
	case 1: d = 0; break;
	case 2: d = clk_p1; break;
	case 3: d = 2 * clk_p1 - clk_p2; break;
	case 4: d = ((uint64_t)1 << 40) / clk_scale + clk_good(); break;
	case 5: d = (uint64_t)-(int64_t)(clk_good() + 77); break;	/* backwards */
	case 6: d = ((uint64_t)1 << 63) / clk_scale + 5; break;
	default: d = clk_good();
	}
	return d;
}

/* a clock whose deltas are not all multiples of the common divisor later */
static uint64_t odd_cb_k;
static void logging_odd(void *arg, uint64_t *out)
{
	uint64_t before = clk_have;
	clk_cb(arg, out);
	if (!before && clk_have && raw_adjust) {
		odd_cb_k++;
		clk_delta += odd_cb_k % clk_scale;
		if (clk_reads == 1 && !clk_single)
			*out = clk_cur;
		else
			*out = clk_cur + clk_delta;
	}
	if (log_n < LOGMAX)
		log_t[log_n] = *out;
	log_n++;
}

struct inst { struct rand_data *ec; struct rg g; };

/* a reinitialization begins: legitimate only after a health failure */
static int setup_done;
static struct inst *making;
static size_t making_from;
int __real_jent_sha3_tester(void);
int __wrap_jent_sha3_tester(void)
{
	if (!setup_done)
		return __real_jent_sha3_tester();
	if (burst && !making) {
		burst = 0;
		allocs = 0;
		return 0;
	}
	if (making) {
		log_r = making_from;
		rg_block(&making->g);
		/* failures of a startup stage are kept, those of the counters not */
		MC_ASSERT(making->g.fips && making->g.h.fail, "reinitialization during startup without health failure");
	}
	mc_outcome(9);
	mc_prune();
}

void *__real_jent_zalloc(size_t n, unsigned flags);
void *__wrap_jent_zalloc(size_t n, unsigned flags)
{
	void *p = __real_jent_zalloc(n, flags);
	alloc_at[allocs++ % 64] = log_n;
	return p;
}

/*
 * The instance was replaced after an intermittent failure: the log position at
 * which the new one starts measuring is that of one of its allocations.
 */
static size_t want_end;
static uint64_t replay_soft(void)
{
	return log_r < want_end ? log_t[log_r++] : (log_r++, 0);
}

static int replaced(struct inst *i, const char *got, size_t n, ssize_t r)
{
	struct rg old = i->g;
	unsigned c;
	size_t k;
	if (i->ec->reinit_count != 1) {
		mc_outcome(11);
		return 0;
	}
	MC_ASSERT(old.fips && old.h.fail && !(old.h.fail >> 16), "reinitialization although the failures are 0x%x", old.h.fail);
	MC_ASSERT(r == (ssize_t)n, "read of %zu bytes returned %zd after a reinitialization", n, r);
	want_end = log_n;
	rg_stamp = replay_soft;
	for (c = 0; c < 2 * allocs && c < 128; c++) {
		struct rg g;
		uint8_t want[200];
		rg_init(&g, i->ec->osr, 1, old.h.ntg1, old.mem, old.loops * 2 > 128 ? 128 : old.loops * 2, clk_scale);
		log_r = alloc_at[c / 2];
		rg_block(&g);
		if (log_r > log_n || g.h.fail)
			continue;
		/* the health tests continue from the failure */
		g.h.rct = g.h.rct_c;
		if (old.h.apt_n) {
			g.h.apt_on = 1;
			g.h.apt_base = old.h.apt_base;
			g.h.apt_cnt = g.h.apt_c;
			g.h.apt_n = old.h.apt_n;
		}
		memcpy(g.h.past, old.h.past, sizeof(g.h.past));
		memcpy(g.h.lag_score, old.h.lag_score, sizeof(g.h.lag_score));
		g.h.lag_n = old.h.lag_n;
		g.h.lag_best = old.h.lag_best;
		g.h.lag_run = old.h.lag_run;
		g.h.lag_hits = old.h.lag_hits;
		/* documented to have no effect on the test: either value will do */
		g.h.mem_cnt = c & 1 ? 0 : old.h.mem_c;
		memset(want, 0, sizeof(want));
		for (k = 0; k < n && log_r < log_n; k += 32) {
			rg_block(&g);
			if (g.h.fail)
				break;
			rkd_generate(&g.d, want + k, n - k);
		}
		if (k < n || log_r != log_n || memcmp(want, got, n))
			continue;
		rg_stamp = replay;
		i->g = g;
		mc_outcome(mc_hash(got, n, MC_HASH_INIT + old.h.fail));
		return 1;
	}
	mc_fail("output after a reinitialization for failures 0x%x differs from the specified generator", old.h.fail);
}

static void make(struct inst *i, unsigned osr, unsigned flags, int mode, unsigned loops)
{
	size_t from = log_n;
	rg_init(&i->g, osr < 3 ? 3 : osr, mode == 2, mode == 3, mode != 1, loops, clk_scale);
	making = i;
	making_from = from;
	i->ec = jent_entropy_collector_alloc(osr, flags);
	making = NULL;
	if (!i->ec)
		return;
	log_r = from;
	rg_block(&i->g);
	MC_ASSERT(log_r == log_n, "allocation took %zu time stamps, the specified generator takes %zu",
		  log_n - from, log_r - from);
}

static int api_history;
static int do_read(struct inst *i, size_t n, int api)
{
	char got[200];
	uint8_t want[200];
	size_t from = log_n, k;
	ssize_t r;
	struct rand_data *ec = i->ec;
	memset(got, 0x33, sizeof(got));
	memset(want, 0x33, sizeof(want));
	r = api ? jent_read_entropy_safe(&i->ec, got, n) : jent_read_entropy(i->ec, got, n);
	if (i->ec != ec && !api_history)
		return 0;
	log_r = from;
	for (k = 0; k < n; k += 32) {
		rg_block(&i->g);
		if (i->g.fips && i->g.h.fail)
			break;
		rkd_generate(&i->g.d, want + k, n - k);
	}
	if (i->ec != ec)
		return replaced(i, got, n, r);
	if (i->g.fips && i->g.h.fail) {
		MC_ASSERT(r < 0, "read of %zu bytes succeeded despite health failure 0x%x", n, i->g.h.fail);
		return 0;
	}
	MC_ASSERT(r == (ssize_t)n, "read of %zu bytes returned %zd, the specified generator has no failure", n, r);
	MC_ASSERT(log_r == log_n, "a read of %zu bytes took %zu time stamps, the specified generator takes %zu",
		  n, log_n - from, log_r - from);
	for (k = 0; k < sizeof(got); k++)
		MC_ASSERT((uint8_t)got[k] == want[k], "output byte %zu of %zu differs from the specified generator", k, n);
	mc_outcome(mc_hash(got, n, MC_HASH_INIT));
	return 1;
}

/*
 * Long histories on one instance: every request length, and recoveries from
 * each kind of failure at different points.
 */
static void history(struct inst *a)
{
	static const unsigned hl[] = { 0, JENT_HASHLOOP_2, JENT_HASHLOOP_8, JENT_HASHLOOP_16, JENT_HASHLOOP_32, JENT_HASHLOOP_64 };
	static const unsigned hn[] = { 1, 2, 8, 16, 32, 64 };
	static const uint64_t froms[] = { 1, 2, 3, 12, 500, 963, 964, 965, 1300, 1928, 1929, 2500 };
	int mode = mc_choose(4, "mode"), kind = mc_choose(3, "history"), h = 0, f = 0, i;
	unsigned osr = 3, flags = JENT_MAX_MEMSIZE_1kB | JENT_DISABLE_INTERNAL_TIMER, n;
	if (kind == 2) {
		if (mode < 2)
			mc_prune();
		f = mc_choose(4, "fault") + 1;
		i = mc_choose((int)(sizeof(froms) / sizeof(froms[0])), "onset");
		burst_from = froms[i];
		osr = 3 + (unsigned)mc_choose(2, "rate");
		h = mc_choose(mc_thorough() ? 6 : 2, "hash loops");
	} else if (kind == 1) {
		h = 2 + mc_choose(4, "hash loops");
		osr = 1 + (unsigned)mc_choose(2, "rate") * 19;	/* rate 1: raised to 3 by the library */
		if (osr > 1 && h > 2 && !mc_thorough())
			mc_prune();
	}
	flags |= mode == 1 ? JENT_DISABLE_MEMORY_ACCESS : mode == 2 ? JENT_FORCE_FIPS : mode == 3 ? JENT_NTG1 : 0;
	flags |= hl[h];
	clk_scale = kind == 2 ? 40 : 1;
	clk_single = mode == 1;
	rg_stamp = replay;
	jent_set_mock_timer(clk_cb, NULL);
	MC_ASSERT(jent_entropy_init_ex(3, flags & ~(JENT_FORCE_FIPS | JENT_NTG1)) == 0, "harness: initialization");
	clk_next = plan;
	setup_done = 1;
	jent_set_mock_timer(logging, NULL);
	make(a, osr, flags, mode, hn[h]);
	MC_ASSERT(a->ec, "harness: allocation");
	pos = 0;
	burst = kind == 2 ? f : 0;
	api_history = 1;
	switch (kind) {
	case 0:
		for (n = 0; n <= 66; n++)
			if (!do_read(a, n, (int)(n & 1)))
				mc_fail("a read failed on a good clock");
		if (!do_read(a, 200, 0))
			mc_fail("a read failed on a good clock");
		break;
	case 1:
		if (!do_read(a, 31, 0) || !do_read(a, 33, 1))
			mc_fail("a read failed on a good clock");
		break;
	case 2:
		if (!do_read(a, 40, 1) || !do_read(a, 33, 1) || !do_read(a, 8, 1) || !do_read(a, 64, 0))
			return;
		mc_outcome(12 + (uint64_t)f);
		break;
	}
	mc_states_add(a->g.measured, a->g.measured);
}

void mc_body(void)
{
	static const unsigned hl[] = { 0, JENT_HASHLOOP_2, JENT_HASHLOOP_4, JENT_HASHLOOP_128 };
	static const unsigned hn[] = { 1, 2, 4, 128 };
	static const uint64_t scales[] = { 1, 40, 1000 };
	int wide = mc_choose(3, "configurations / placements / histories");
	int mode, sc, h, api, two;
	unsigned osr = 3, flags = JENT_MAX_MEMSIZE_1kB | JENT_DISABLE_INTERNAL_TIMER;
	struct inst a, b;

	log_t = malloc(LOGMAX * sizeof(*log_t));
	memset(&a, 0, sizeof(a));
	memset(&b, 0, sizeof(b));
	if (wide == 2) {
		history(&a);
		return;
	}
	mode = mc_choose(4, "mode");
	pattern = mc_choose(4, "pattern");
	sc = mc_choose(wide ? 2 : 3, "clock resolution");
	if (wide) {
		/* every placement of a special delta */
		h = 0;
		two = 0;
		api = 0;
		if (pattern > (int)mc_param("place_patterns", 0))
			mc_prune();
		if ((sc == 0 || mode == 1 || mode == 2) && !mc_thorough())
			mc_prune();
		kinds = mc_thorough() ? 6 : 1;
		slice = mc_choose(32, "slice");
	} else {
		h = mc_choose(4, "hash loops");
		if (h == 3 && (sc || pattern != 1))
			mc_prune();
		osr = 3 + (unsigned)mc_choose(3, "rate") * 4;
		two = mc_choose(2, "instances");
		api = mc_thorough() ? mc_choose(2, "call") : two ^ (pattern & 1);
		if (osr > 3 && (h > 0 || sc))
			mc_prune();
	}
	if (mode == 1)
		flags |= JENT_DISABLE_MEMORY_ACCESS;
	if (mode == 2)
		flags |= JENT_FORCE_FIPS;
	if (mode == 3)
		flags |= JENT_NTG1;
	flags |= hl[h];
	clk_scale = scales[sc];
	clk_single = mode == 1;
	rg_stamp = replay;

	/* establish the divisor with a plain clock */
	jent_set_mock_timer(clk_cb, NULL);
	MC_ASSERT(jent_entropy_init_ex(3, flags & ~(JENT_FORCE_FIPS | JENT_NTG1)) == 0, "harness: initialization");
	clk_next = plan;
	setup_done = 1;
	explore = wide;
	raw_adjust = clk_scale > 1;
	jent_set_mock_timer(raw_adjust ? logging_odd : logging, NULL);
	make(&a, osr, flags, mode, hn[h]);
	if (!a.ec) {
		MC_ASSERT(mode >= 2, "allocation failed without health tests");
		mc_outcome(7);
		return;
	}
	if (two) {
		make(&b, osr, flags, mode, hn[h]);
		if (!b.ec)
			return;
	}
	if (!do_read(&a, 40, api))
		return;
	if (two && !do_read(&b, 8, api))
		return;
	explore = 0;
	if (!wide && (!do_read(&a, 97, api) || !do_read(&a, 0, api)))
		return;
	if (two && !do_read(&b, 64, api))
		return;
	if (!do_read(&a, 1, api))
		return;
	mc_states_add(a.g.measured + b.g.measured, a.g.measured + b.g.measured);
}
