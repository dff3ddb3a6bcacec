/*
 * P10: verdict of the power-up test for enumerated clock behaviours.  A clock
 * behaviour is an array of 1125 deltas: one that primes, 100 of warm-up and
 * 1024 evaluated ones.
 */
#include "mc.h"
#include "jitterentropy.h"
#include "jitterentropy-internal.h"
#include "jitterentropy-health.h"
#include "jitterentropy-sha3.h"
#include "jitterentropy-gcd.h"
#include "clk.h"
#include "ref_health.h"
#include <stdio.h>
#include <stdlib.h>

const char *mc_property = "P10";
int mc_fork_per_run = 1;
int mc_split_depth = 3;

#define N 1125
static uint64_t d[N];
static unsigned pos;
static uint64_t t0 = 5000000;

static uint64_t next_delta(void)
{
	MC_ASSERT(pos < N, "more than 1125 measurements in the power-up test");
	return d[pos++];
}

unsigned int __real_jent_stuck(struct rand_data *ec, uint64_t cur);
unsigned int __wrap_jent_stuck(struct rand_data *ec, uint64_t cur);
unsigned int __wrap_jent_stuck(struct rand_data *ec, uint64_t cur)
{
	clk_step();
	return __real_jent_stuck(ec, cur);
}
void __wrap_jent_sha3_update(struct jent_sha_ctx *c, const uint8_t *i, size_t n);
void __wrap_jent_sha3_update(struct jent_sha_ctx *c, const uint8_t *i, size_t n) { (void)c; (void)i; (void)n; }
void __wrap_jent_sha3_final(struct jent_sha_ctx *c, uint8_t *o);
void __wrap_jent_sha3_final(struct jent_sha_ctx *c, uint8_t *o) { (void)c; memset(o, 0, 32); }
int __wrap_jent_sha3_tester(void) { return 0; }
int __wrap_jent_fips_enabled(void) { return 0; }

/* --- model --- */
static uint64_t m_gcd;		/* established divisor, 0: none */
static uint64_t gcd(uint64_t a, uint64_t b) { while (b) { uint64_t t = a % b; a = b; b = t; } return a; }

static int m_verdict(unsigned osr, int ntg1)
{
	struct rh h;
	uint64_t t = t0, g = 0, div = m_gcd ? m_gcd : 1, last = 0;
	unsigned __int128 var = 0;
	unsigned i, stuck = 0, back = 0;

	rh_init(&h, osr, ntg1);
	for (i = 0; i < N; i++) {
		uint64_t before = i ? t : 0, delta;
		unsigned s;
		t += d[i];
		delta = (t - before) / div;
		s = rh_sample(&h, delta);
		if (i == 0)
			continue;
		if (!before || !t)
			return ENOTIME;
		if (!delta)
			return ECOARSETIME;
		if (i <= 100)
			continue;
		stuck += s;
		back += !(t > before);
		g = gcd(delta, g);
		if (i > 101)
			var += delta > last ? delta - last : last - delta;
		last = delta;
	}
	if (back > 3)
		return ENOMONOTONIC;
	if (h.fail)
		return (h.fail & (RH_RCT | RH_PERM(RH_RCT))) ? ERCT : EHEALTH;
	if (var * osr < 1024)
		return EMINVARVAR;
	if (g >= 0xffffffffu / 2)
		return ECOARSETIME;
	if (!m_gcd)
		m_gcd = g;
	if (stuck > 921)
		return ESTUCK;
	return 0;
}

/* --- behaviours --- */
static void base_good(uint64_t unit)
{
	unsigned i;
	uint64_t p1 = 0, p2 = 0;
	for (i = 0; i < N; i++) {
		uint64_t x;
		unsigned k = i;
		do {
			x = (1000 + ((uint64_t)k * k * 31 + k * 7919ull) % 10007) * unit;
			k += 3;
		} while (x == p1 || x - p1 == p1 - p2 || x == p2);
		d[i] = x;
		p2 = p1;
		p1 = x;
	}
}

static uint64_t abs_before(unsigned i)
{
	uint64_t t = t0;
	unsigned k;
	for (k = 0; k < i; k++)
		t += d[k];
	return t;
}

#define NKIND 9
static void anomaly(unsigned i, int kind)
{
	switch (kind) {
	case 0: d[i] = 0; break;				/* coarse */
	case 1: d[i] = 0 - abs_before(i); break;		/* zero stamp */
	case 2: d[i] = 0 - (uint64_t)7; break;			/* a step backwards */
	case 3: d[i] = 0 - (uint64_t)400000; break;
	case 4: if (i) d[i] = d[i - 1]; break;			/* repeated */
	case 5: d[i] = (uint64_t)1 << 62; break;		/* far jump */
	case 6: d[i] = 1 - abs_before(i); break;		/* stamp one */
	case 7: d[i] = 1; break;				/* smallest delta */
	case 8: d[i] = (uint64_t)1 << 63; break;
	}
}

static void run(unsigned osr, unsigned flags)
{
	int r, want;
	unsigned eff = osr < 3 ? 3 : osr;
	uint64_t g = 0;
	long shown;

	pos = 0;
	clk_cur = t0;
	clk_delta = 0;
	clk_have = clk_reads = 0;
	clk_single = !!(flags & JENT_DISABLE_MEMORY_ACCESS);
	want = m_verdict(eff, !!(flags & JENT_NTG1));
	r = jent_entropy_init_ex(osr, flags | JENT_DISABLE_INTERNAL_TIMER);
	shown = pos;
	MC_ASSERT(r == want, "initialization (rate %u, flags 0x%x) returned %d, the documented reason is %d", osr, flags, r, want);
	if (want == 0 || want >= EMINVARVAR)
		MC_ASSERT(want == ECOARSETIME || want == ENOTIME || shown == N, "only %ld measurements", shown);
	MC_ASSERT(!!jent_gcd_get(&g) == !m_gcd && g == m_gcd, "common divisor %llu, expected %llu", (unsigned long long)g, (unsigned long long)m_gcd);
	mc_outcome(mc_hash(d, sizeof(d), (uint64_t)want));
	mc_states_add(0, pos);
}

static const unsigned modes[] = { 0, JENT_FORCE_FIPS, JENT_NTG1, JENT_DISABLE_MEMORY_ACCESS };

/* value changes so that the variation sums up to v, spread irregularly */
static void low_variation(unsigned v, unsigned bits, uint64_t base, unsigned seed)
{
	unsigned i, need = v, left = N - 102;
	uint64_t cur = base;
	uint64_t rnd = seed * 2654435761u + 12345;
	for (i = 0; i <= 101; i++) {
		/* a good warm-up */
		d[i] = base + 1000 + (i * i * 37) % 997 + i;
	}
	d[101] = cur;
	for (i = 102; i < N; i++, left--) {
		rnd = rnd * 6364136223846793005ull + 1442695040888963407ull;
		if (need && (rnd >> 33) % left < (need < left ? need : left)) {
			unsigned step = 1 + (need > left ? need / left : 0);
			(void)bits;
			if (step > need)
				step = need;
			cur = (rnd >> 20 & 1) ? cur + step : cur > base / 2 ? cur - step : cur + step;
			need -= step;
		}
		d[i] = cur;
	}
}

/* exactly s stuck measurements among the evaluated ones: runs of equal deltas */
static void stuck_count(unsigned s)
{
	unsigned good = 1024 - s, i, k, in = 0;
	base_good(1);
	/* good measurements start runs; distribute the stuck ones over the runs */
	for (i = 101, k = 0; i < N; k++) {
		unsigned len = 1 + s / good + (k < s % good);
		unsigned j;
		uint64_t v = 3000 + (k * k * 101 + k * 17) % 5003;
		for (j = 0; j < len && i < N; j++)
			d[i++] = v;
		in++;
	}
}

void mc_body(void)
{
	unsigned mode, osr, i, j, k;

	clk_next = next_delta;
	clk_install();
	base_good(1);
	switch (mc_choose(8, "behaviour")) {
	case 0: {	/* one anomaly anywhere */
		int kind = mc_choose(NKIND, "anomaly");
		int sl = mc_choose(25, "slice");
		int p = mc_choose(45, "position");
		mode = modes[mc_choose(4, "mode")];
		osr = mc_choose(2, "rate") ? 20 : 3;
		anomaly((unsigned)(p * 25 + sl), kind);
		run(osr, mode);
		break;
	}
	case 1: {	/* two anomalies */
		static const unsigned ps[] = { 0, 1, 2, 50, 99, 100, 101, 102, 600, 1123, 1124 };
		int k1 = mc_choose(NKIND, "first"), k2 = mc_choose(NKIND, "second");
		i = ps[mc_choose(11, "at")];
		j = ps[mc_choose(11, "at")];
		if (j <= i)
			mc_prune();
		anomaly(i, k1);
		anomaly(j, k2);
		run(3, modes[mc_choose(2, "mode")]);
		break;
	}
	case 2: {	/* steps backwards around the limit, and where they count */
		unsigned n = (unsigned)mc_choose(8, "steps backwards");
		unsigned first = 94 + (unsigned)mc_choose(13, "first");
		unsigned gap = 1 + (unsigned)mc_choose(4, "distance") * 2;
		int last = mc_choose(3, "also at the end");
		for (k = 0; k < n; k++)
			anomaly(first + k * gap, 2 + (k & 1));
		if (last)
			anomaly(N - (unsigned)last, 2);
		run(mc_choose(2, "rate") ? 19 : 3, modes[mc_choose(3, "mode")]);
		break;
	}
	case 3: {	/* variation around the limit */
		unsigned lim;
		unsigned eff;
		osr = (unsigned)mc_choose(21, "rate");
		eff = osr < 3 ? 3 : osr;
		lim = (1024 + eff - 1) / eff;
		low_variation(lim - 2 + (unsigned)mc_choose(4, "variation"), 0, 50 + (uint64_t)mc_choose(2, "level") * 100000, 1 + (unsigned)mc_choose(3, "spread"));
		run(osr, modes[mc_choose(2, "mode")]);
		break;
	}
	case 4: {	/* common divisor around the limit */
		static const uint64_t gs[] = { 0x7ffffffd, 0x7ffffffe, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff, 0x100000000ull, 0x123456789abull, 1, 2, 1000, 65536 };
		uint64_t g = gs[mc_choose(13, "divisor")];
		static const unsigned ps[] = { 0, 1, 50, 100, 101, 102, 600, 1123, 1124 };
		base_good(g);
		if (mc_choose(2, "other delta"))
			d[ps[mc_choose(9, "at")]] += mc_choose(2, "by") ? 1 : g / 2;
		run(3, modes[mc_choose(4, "mode")]);
		/* the divisor is not taken from a rejected clock, and does not change later */
		if (mc_choose(2, "again")) {
			base_good(3);
			run(4, 0);
			base_good(7);
			run(4, 0);
		}
		break;
	}
	case 5: {	/* stuck measurements around the limit */
		osr = 10 + 10 * (unsigned)mc_choose(2, "rate");
		stuck_count(915 + (unsigned)mc_choose(12, "stuck"));
		if (mc_choose(2, "warm-up"))
			for (i = 60; i < 90; i++)
				d[i] = d[59];
		run(osr, modes[mc_choose(2, "mode")]);
		break;
	}
	case 6: {	/* repetitions and periodic deltas around the cutoffs */
		unsigned per = 1 + (unsigned)mc_choose(8, "period");
		unsigned n, st;
		static const unsigned starts[] = { 1, 40, 100, 101, 300, 700 };
		static const int off[] = { -10, -2, -1, 0, 1, 2, 8, 9 };
		int kind = mc_choose(4, "cutoff");
		osr = (unsigned)(mc_choose(3, "rate") * 2 + 3);
		mode = modes[mc_choose(3, "mode")];
		n = kind == 0 ? (mode == JENT_NTG1 ? (30 * osr + 7) / 8 : 30 * osr) :
		    kind == 1 ? (mode == JENT_NTG1 ? (60 * osr + 7) / 8 : 60 * osr) :
		    kind == 2 ? rh_lag_lc[osr - 1] : rh_lag_lp[osr - 1];
		n = (unsigned)((int)n + off[mc_choose(8, "length")]);
		st = starts[mc_choose(6, "start")];
		for (i = st, k = 0; k < n && i < N; k++, i++)
			d[i] = 2000 + (k % per) * (k % per) * 13 + (k % per);
		run(osr, mode);
		break;
	}
	default: {	/* all reasons at once, and a divisor established before */
		int c = mc_choose(64, "reasons");
		int prior = mc_choose(3, "prior clock");
		if (prior) {
			base_good(prior == 1 ? 1000 : 7);
			run(3, 0);
			base_good(prior == 1 ? 1000 : 7);
		}
		if (c & 32) {
			low_variation(100, 0, 100000, 3);
			if (prior)
				for (i = 0; i < N; i++)
					d[i] *= prior == 1 ? 1000 : 7;
		}
		if (c & 16)
			for (i = 0; i < N; i++)
				d[i] *= 0x80000001ull;
		if (c & 8)
			for (i = 300; i < 420; i++)
				d[i] = d[299];
		if (c & 4)
			for (i = 500; i < 700; i++)
				d[i] = d[499 - (i % 2)];
		if (c & 2)
			for (k = 0; k < 4; k++)
				anomaly(800 + 2 * k, 3);
		if (c & 1)
			d[900] = prior ? 6 : 0;	/* zero after division */
		run(3, modes[mc_choose(3, "mode")]);
	}
	}
}
