/* P01: lockstep of the real health tests with the reference model */
#include "mc.h"
#include "jitterentropy.h"
#include "jitterentropy-internal.h"
#include "jitterentropy-health.h"
#include "ref_health.h"
#include <stdlib.h>
#include <stdio.h>

const char *mc_property = "P01";
int mc_fork_per_run = 1;
int mc_split_depth = 3;

struct pair { struct rand_data ec; struct rh r; };

static uint64_t n_state, n_trans;
static const char *where = "";

/* ---- scripted recovery blocks ---- */
static unsigned inner_stuck;	/* stuck samples at counted positions per block */
static int inner_blocks, inner_live;
static unsigned real_blocks;
static int real_ok;
static enum jent_startup_state st_seen;

static uint64_t inner_delta(unsigned i, unsigned stuck_n, uint64_t *acc)
{
	/* positions 0,3,6,.. are counted; make the first stuck_n of them stuck */
	if (i % 3 == 0 && i / 3 < stuck_n)
		return 0;
	*acc = *acc * 3 + 7 + i;
	return (*acc & 0xffff) + 100000 * (uint64_t)(i + 1) * (i + 1);
}

void __wrap_jent_random_data(struct rand_data *ec);
void __wrap_jent_random_data(struct rand_data *ec)
{
	real_blocks++;
	st_seen = ec->startup_state;
	ec->rct_mem_ctr = 0;
	if (inner_live && real_blocks <= 10) {
		uint64_t acc = real_blocks;
		unsigned i;
		for (i = 0; i < ec->rct_mem_nosr; i++)
			jent_stuck(ec, inner_delta(i, inner_stuck, &acc));
	}
}

static void ref_recover(struct rh *r)
{
	int b;
	inner_blocks++;
	for (b = 1; b <= 10; b++) {
		r->mem_pos = 0;
		if (inner_live) {
			uint64_t acc = b;
			unsigned i;
			for (i = 0; i < r->mem_win; i++)
				rh_sample(r, inner_delta(i, inner_stuck, &acc));
		}
	}
}

static void start(struct pair *p, unsigned osr, int ntg1)
{
	memset(p, 0, sizeof(*p));
	p->ec.osr = osr;
	p->ec.flags = ntg1 ? JENT_NTG1 : 0;
	p->ec.is_fips_enabled = 1;
	p->ec.jent_common_timer_gcd = 1;
	jent_health_init(&p->ec, ntg1 ? jent_health_init_type_ntg1 :
					jent_health_init_type_common);
	rh_init(&p->r, osr, ntg1);
	rh_recover = ref_recover;
}

static void window(struct pair *p, unsigned n)
{
	p->ec.rct_mem_nosr = (unsigned short)n;
	p->ec.rct_mem_ctr = 0;
	p->r.mem_win = n;
	p->r.mem_pos = 0;
}

static void check(struct pair *p, unsigned got, unsigned want, uint64_t d)
{
	unsigned f = jent_health_failure(&p->ec);
	if (!!got != !!want)
		mc_fail("%s osr=%u %s: delta %llu classified %sstuck, expected the opposite (previous %llu, %llu)",
			where, p->r.osr, p->r.ntg1 ? "NTG.1" : "common",
			(unsigned long long)d, got ? "" : "not ",
			(unsigned long long)p->r.past[1], (unsigned long long)p->r.past[2]);
	if (f != p->r.fail)
		mc_fail("%s osr=%u %s: health failure mask 0x%x, documented tests give 0x%x "
			"(rct=%u/%u/%u apt=%u/%u/%u in window %u, lag run=%u hits=%u, mem=%u at %u)",
			where, p->r.osr, p->r.ntg1 ? "NTG.1" : "common", f, p->r.fail,
			p->r.rct, p->r.rct_c, p->r.rct_p, p->r.apt_cnt, p->r.apt_c,
			p->r.apt_p, p->r.apt_n, p->r.lag_run, p->r.lag_hits,
			p->r.mem_cnt, p->r.mem_pos);
}

static unsigned step(struct pair *p, uint64_t d)
{
	unsigned got, want, before = real_blocks, rb = inner_blocks;
	got = jent_stuck(&p->ec, d);
	want = rh_sample(&p->r, d);
	n_trans++;
	check(p, got, want, d);
	if ((real_blocks - before) != 10u * (inner_blocks - rb))
		mc_fail("%s osr=%u: recovery generated %u blocks, expected %u", where,
			p->r.osr, real_blocks - before, 10u * (inner_blocks - rb));
	real_blocks = 0;
	inner_blocks = 0;
	return got;
}

/* never stuck, never repeating, never equal to small alphabet values */
static uint64_t fresh(uint64_t *k)
{
	uint64_t x = (*k)++;
	return 1000000 + x * x * 977 + x * 13;
}

static unsigned osr_of(int i) { return i + 1; }

/* --- 0: the complete (position, count) graph of the proportion window --- */
static void apt_graph(unsigned osr, int ntg1)
{
	static struct pair *lay[2];
	int n = 1, o, c;
	static uint64_t ks[2][513];
	where = "proportion window";
	lay[0] = calloc(520, sizeof(struct pair));
	lay[1] = calloc(520, sizeof(struct pair));
	start(&lay[0][1], osr, ntg1);
	step(&lay[0][1], 42);		/* base */
	ks[0][1] = 1;
	for (o = 1; o < 512; o++) {
		struct pair *a = lay[(o + 1) & 1], *b = lay[o & 1];
		uint64_t *ka = ks[(o + 1) & 1], *kb = ks[o & 1];
		/* layer o has counts 1..n ; differ: (o+1,c), equal: (o+1,c+1) */
		for (c = 1; c <= n; c++) {
			/* each edge is taken on the real code */
			struct pair t = a[c];
			uint64_t k = ka[c];
			if (c > 1) {
				/* (o,c) via "differ": keep as representative */
			}
			step(&t, fresh(&k));
			b[c] = t;
			kb[c] = k;
			n_state++;
		}
		for (c = 1; c <= n; c++) {
			struct pair t = a[c];
			step(&t, 42);
			if (c == n) {
				b[c + 1] = t;
				kb[c + 1] = ka[c];
				n_state++;
			} else {
				/* merged state must agree on the test itself */
				if (t.r.apt_cnt != b[c + 1].r.apt_cnt ||
				    t.r.apt_n != b[c + 1].r.apt_n)
					mc_fail("harness: bad merge");
			}
		}
		n++;
	}
	/* window is over: the next value is the new base, old base is nothing */
	{
		struct pair *a = lay[(o + 1) & 1];
		uint64_t *ka = ks[(o + 1) & 1];
		for (c = 1; c <= n; c++) {
			int pat;
			for (pat = 0; pat < 8; pat++) {
				struct pair t = a[c];
				uint64_t k = ka[c];
				int i;
				step(&t, pat & 1 ? 42 : fresh(&k));
				step(&t, pat & 2 ? 42 : fresh(&k));
				for (i = 0; i < 12; i++)
					step(&t, pat & 4 ? 42 : fresh(&k));
			}
		}
	}
	free(lay[0]);
	free(lay[1]);
}

/* --- 1: repetition count: every count, every kind of stuck value --- */
static void rct_graph(unsigned osr, int ntg1)
{
	unsigned max = 60 * osr + 4, i;
	int kind, again;
	where = "repetition count";
	for (kind = 0; kind < 3; kind++) {
		struct pair p;
		uint64_t d, inc;
		start(&p, osr, ntg1);
		d = 77777;
		inc = 5;
		step(&p, d);
		if (kind == 2) {
			/* constant slope: second difference zero */
			step(&p, d + 1000);
			d += 1000;
			inc = 1000;
		}
		for (i = 0; i < max; i++) {
			struct pair t = p;
			uint64_t k = 5 + i;
			/* leave the run here, then run again */
			step(&t, fresh(&k));
			step(&t, fresh(&k));
			for (again = 0; again < 3; again++)
				step(&t, 0);
			if (i % 7 == 0) {
				unsigned j;
				for (j = 0; j < p.r.rct_p + 2; j++)
					step(&t, 0);
			}
			/* selecting the profile anew restarts the count */
			t = p;
			jent_health_init(&t.ec, ntg1 ? jent_health_init_type_ntg1 :
					 jent_health_init_type_common);
			rh_select(&t.r);
			step(&t, 0);
			step(&t, 0);
			/* continue the run */
			if (kind == 0)
				step(&p, 0);
			else if (kind == 1)
				step(&p, d);
			else {
				d += inc;
				step(&p, d);
			}
			n_state++;
		}
	}
}

/* --- 2: the complete (position, count) graph of the block window --- */
static void mem_graph(unsigned osr, int ntg1)
{
	unsigned win = 321 * osr, o;
	struct pair *lay[2];
	unsigned maxc, n = 1, c;
	where = "block window";
	inner_live = 0;
	inner_stuck = 0;
	{
		struct rh r;
		rh_init(&r, osr, ntg1);
		maxc = r.mem_p + 1;
	}
	lay[0] = calloc(maxc + 2, sizeof(struct pair));
	lay[1] = calloc(maxc + 2, sizeof(struct pair));
	start(&lay[0][0], osr, ntg1);
	/* a past that makes 0 stuck and fresh values not */
	step(&lay[0][0], 1234567);
	window(&lay[0][0], win);
	for (o = 0; o < win; o++) {
		struct pair *a = lay[o & 1], *b = lay[(o + 1) & 1];
		unsigned nn = n;
		uint64_t k = 10 + o;
		uint64_t f = fresh(&k);
		for (c = 0; c < n; c++) {
			struct pair t = a[c];
			step(&t, f);
			if (t.r.mem_cnt < n && t.r.mem_cnt == c)
				b[c] = t;
			else
				b[c] = a[c];	/* unreachable slot */
			n_state++;
		}
		for (c = 0; c < n; c++) {
			struct pair t = a[c];
			step(&t, 0);
			if (t.r.mem_cnt == n && n <= maxc) {
				b[n] = t;
				nn = n + 1;
			}
		}
		n = nn;
		/* the flags must not hide later alarms of this test */
		for (c = 0; c < n; c++) {
			b[c].ec.health_failure &= ~(RH_RCT | RH_PERM(RH_RCT) | RH_LAG |
						    RH_PERM(RH_LAG) | RH_APT | RH_PERM(RH_APT));
			b[c].r.fail = b[c].ec.health_failure;
		}
	}
	/* beyond the window nothing is counted */
	{
		struct pair *a = lay[win & 1];
		for (c = 0; c < n; c++) {
			struct pair t = a[c];
			int i;
			for (i = 0; i < 6; i++)
				step(&t, 0);
			/* next block starts afresh */
			window(&t, win);
			for (i = 0; i < 9; i++)
				step(&t, 0);
		}
	}
	free(lay[0]);
	free(lay[1]);
}

/* --- 3: prediction runs for every lag, left at every length --- */
static void lag_local(unsigned osr, int ntg1, int period)
{
	struct pair p;
	uint64_t base[8], k = 3;
	unsigned i, max;
	where = "prediction run";
	start(&p, osr, ntg1);
	max = p.r.lag_lp + 20;
	for (i = 0; i < 8; i++)
		base[i] = fresh(&k) + i * i * i;
	for (i = 0; i < max + 8; i++) {
		struct pair t;
		unsigned j;
		uint64_t kk = 1000 + i;
		step(&p, base[i % period]);
		n_state++;
		/* break the run and resume it */
		if (i > 6) {
			t = p;
			step(&t, fresh(&kk));
			for (j = 0; j < 4; j++)
				step(&t, base[(i + 2 + j) % period]);
			if (i % 5 == 0) {
				for (; j < t.r.lag_lp + 4; j++)
					step(&t, base[(i + 2 + j) % period]);
				/* switch to another period */
				for (j = 0; j < 40; j++)
					step(&t, base[j % ((period % 8) + 1)]);
			}
		}
	}
}

/* --- 4: hits per predictor window --- */
static void lag_global(unsigned osr, int ntg1, int pat)
{
	struct pair p;
	uint64_t k = 9;
	unsigned i, run = 0;
	unsigned want;
	static const int off[] = {-2, -1, 0, 1, 2};
	where = "predictor window";
	start(&p, osr, ntg1);
	/*
	 * Exactly 'want' hits are spread over the first window in runs shorter
	 * than the local cutoff; the second window is walked as well.
	 */
	want = (pat < 5 ? p.r.lag_gc + off[pat] : p.r.lag_gp + off[pat - 5]);
	for (i = 0; i < 131072 + 131072 / 2; i++) {
		uint64_t d;
		unsigned left = 131072 - p.r.lag_n;
		int miss = run + 1 >= p.r.lag_lc;
		if (pat == 10) {	/* near-minimal density, never an alarm */
			miss |= (i % 2);
		} else if (p.r.lag_n >= 8 && p.r.lag_hits >= want) {
			miss = 1;
		}
		(void)left;
		if (p.r.lag_n < 8)
			d = 5000;	/* lag 1 predictor */
		else if (miss) {
			d = fresh(&k);
			/* keep the best predictor predicting: two values */
		} else
			d = p.r.past[p.r.lag_best];
		{
			unsigned h = p.r.lag_hits;
			step(&p, d);
			run = p.r.lag_hits > h ? run + 1 : 0;
		}
		/* the other tests are judged elsewhere */
		p.ec.health_failure &= ~(RH_RCT | RH_PERM(RH_RCT) | RH_APT | RH_PERM(RH_APT));
		p.r.fail = p.ec.health_failure;
		n_state++;
	}
	mc_note("hits %u fail %x ", want, p.r.fail);
}

/* --- 4b: one predictor window shaped by one period, the next by another --- */
static void lag_windows(unsigned osr, int first, int second, int lead, unsigned seam)
{
	struct pair p;
	uint64_t k = 9;
	unsigned i, j;
	where = "second predictor window";
	start(&p, osr, 0);
	/* broken up so often that nothing is raised in the first window */
	for (i = 0; i < 131072; i++)
		if (i >= 131072 - 40 && seam == 1000)	/* a run across the seam */
			step(&p, 7000 + 17 * (uint64_t)((i + 48) % (unsigned)first));
		else if (i >= 131072 - 4)	/* repetitions and ramps across the seam */
			step(&p, 9000 + seam * (i - (131072 - 4)));
		else
			step(&p, i % 7 == 6 || i % 7 == 5 ? fresh(&k) : 5000 + 17 * (uint64_t)((i - i / 7 * 2) % (unsigned)first));
	p.ec.health_failure &= ~(RH_RCT | RH_PERM(RH_RCT) | RH_APT | RH_PERM(RH_APT));
	p.r.fail = p.ec.health_failure;
	n_state++;
	if (seam != 1000)
		for (i = 0; i < 4; i++)
			step(&p, 9000 + seam * (i + 4));
	for (i = 0; i < (unsigned)lead; i++)
		step(&p, fresh(&k));
	for (j = 0; j < p.r.lag_lp + 40; j++) {
		step(&p, 7000 + 17 * (uint64_t)(j % (unsigned)second));
		n_state++;
	}
	mc_note("fail %x ", p.r.fail);
}

/* --- 5: every sequence over a small alphabet, scaled cutoffs --- */
static void tree(struct pair *p, const uint64_t *al, int na, int depth)
{
	int i;
	n_state++;
	if (!depth)
		return;
	for (i = 0; i < na; i++) {
		struct pair t = *p;
		step(&t, al[i]);
		tree(&t, al, na, depth - 1);
	}
}

static void scaled(struct pair *p, int s)
{
	/* small cutoffs put every alarm within the depth of the tree */
	static const unsigned lc[] = {2, 3, 4}, lp[] = {4, 5, 6};
	static const unsigned gc[] = {5, 4, 6}, gp[] = {7, 8, 7};
	static const unsigned ac[] = {3, 4, 5}, ap[] = {5, 6, 7};
	static const unsigned rc[] = {3, 2, 4}, rp[] = {5, 6, 6};
	p->ec.lag_local_cutoff = p->r.lag_lc = lc[s];
	p->ec.lag_local_cutoff_permanent = p->r.lag_lp = lp[s];
	p->ec.lag_global_cutoff = p->r.lag_gc = gc[s];
	p->ec.lag_global_cutoff_permanent = p->r.lag_gp = gp[s];
	p->ec.apt_cutoff = p->r.apt_c = ac[s];
	p->ec.apt_cutoff_permanent = p->r.apt_p = ap[s];
	p->ec.rct_cutoff = p->r.rct_c = rc[s];
	p->ec.rct_cutoff_permanent = p->r.rct_p = rp[s];
	p->ec.rct_mem_cutoff = p->r.mem_c = s + 1;
	p->ec.rct_mem_cutoff_permanent = p->r.mem_p = s + 2;
}

static const uint64_t alpha[][4] = {
	{0, 5, 7, 12}, {5, 10, 15, 20}, {0, UINT64_MAX, 1, 2},
	{1ULL << 63, 0, 1ULL << 32, 1}, {3, 3ULL << 32, 3ULL << 48, 6},
};

static void sequences(int set, int s, int pre, int depth)
{
	struct pair p;
	static const uint64_t prefixes[][12] = {
		{0},
		{11, 23, 41, 67, 101, 149, 211, 281, 0},
		{5, 7, 5, 7, 5, 7, 5, 7, 5, 0},
		{7, 7, 7, 7, 7, 7, 7, 7, 0},
		{5, 7, 12, 5, 7, 12, 5, 7, 12, 5, 0},
	};
	int i;
	where = "sequence";
	start(&p, 3, s & 1);
	scaled(&p, s);
	inner_live = 0;
	window(&p, 30);
	for (i = 0; prefixes[pre][i]; i++)
		step(&p, prefixes[pre][i]);
	tree(&p, alpha[set], 4, depth);
}

/* --- 6: recovery from the block window alarm, real cutoffs --- */
static void recovery(unsigned osr, int inner, int at)
{
	struct pair p;
	unsigned win = 321 * osr, i, c;
	uint64_t k = 3;
	enum jent_startup_state st = (enum jent_startup_state)at;
	where = "recovery";
	start(&p, osr, 1);
	inner_live = 1;
	switch (inner) {
	case 0: inner_stuck = 0; break;
	case 1: inner_stuck = p.r.mem_c - 1; break;
	case 2: inner_stuck = p.r.mem_c; break;
	case 3: inner_stuck = p.r.mem_p - 1; break;
	case 4: inner_stuck = p.r.mem_p; break;
	default: inner_stuck = p.r.mem_p + 1; break;
	}
	p.ec.startup_state = st;
	step(&p, fresh(&k));
	window(&p, win);
	for (i = 0, c = 0; i < win; i++) {
		unsigned b = n_trans;
		(void)b;
		st_seen = (enum jent_startup_state)77;
		/* two fresh values then a stuck one at each counted position */
		step(&p, (i % 3 == 0) ? 0 : fresh(&k));
		if (i % 3 == 0)
			c++;
		if (st_seen != (enum jent_startup_state)77 &&
		    st_seen != jent_startup_completed)
			mc_fail("recovery blocks do not use the combined noise sources");
		if (p.ec.startup_state != st)
			mc_fail("recovery changed the startup stage");
		n_state++;
		if (p.r.fail)
			break;
	}
	mc_note("inner=%u fail=%x ", inner_stuck, p.r.fail);
}

/* --- 7: externally obtained time stamps --- */
static void stamps(int gi, int si, int depth)
{
	static const uint64_t g[] = {0, 1, 3, 1000, 1ULL << 33};
	static const uint64_t s0[] = {0, 5, UINT64_MAX - 3, 1ULL << 63};
	static const uint64_t inc[] = {0, 1, 3, 6, 3000, 1ULL << 34};
	struct { struct pair p; uint64_t ts; } st[12];
	int idx[12], lv = 0;
	where = "time stamps";
	start(&st[0].p, 3, 0);
	scaled(&st[0].p, 1);
	window(&st[0].p, 30);
	st[0].p.ec.jent_common_timer_gcd = g[gi];
	st[0].ts = s0[si];
	st[0].p.ec.prev_time = st[0].ts;
	memset(idx, 0, sizeof(idx));
	while (lv >= 0) {
		if (lv == depth || idx[lv] == 6) {
			lv--;
			if (lv >= 0)
				idx[lv]++;
			continue;
		}
		st[lv + 1] = st[lv];
		{
			struct pair *q = &st[lv + 1].p;
			uint64_t nt = st[lv].ts + inc[idx[lv]];
			uint64_t d = inc[idx[lv]] / (g[gi] ? g[gi] : 1);
			unsigned a = jent_health_insert_timestamp(&q->ec, nt);
			unsigned b = rh_sample(&q->r, d);
			st[lv + 1].ts = nt;
			check(q, a, b, d);
			real_blocks = inner_blocks = 0;
			n_trans++;
			n_state++;
		}
		lv++;
		idx[lv] = 0;
	}
}

void mc_body(void)
{
	int phase = mc_choose(9, "phase"), ntg1;
	unsigned osr;
	switch (phase) {
	case 0:
		osr = osr_of(mc_choose(20, "osr"));
		ntg1 = mc_choose(2, "ntg1");
		apt_graph(osr, ntg1);
		break;
	case 1:
		osr = osr_of(mc_choose(20, "osr"));
		ntg1 = mc_choose(2, "ntg1");
		rct_graph(osr, ntg1);
		break;
	case 2:
		osr = osr_of(mc_choose((int)mc_param("mem_osr", 8), "osr"));
		ntg1 = mc_choose(2, "ntg1");
		mem_graph(osr, ntg1);
		break;
	case 3:
		osr = osr_of(mc_choose(20, "osr"));
		ntg1 = mc_choose(2, "ntg1");
		lag_local(osr, ntg1, 1 + mc_choose(8, "period"));
		break;
	case 4:
		osr = osr_of(mc_choose(20, "osr"));
		lag_global(osr, 0, mc_choose(11, "hits"));
		break;
	case 5:
		sequences(mc_choose(5, "alphabet"), mc_choose(3, "scale"),
			  mc_choose(5, "prefix"), (int)mc_param("depth", 7));
		break;
	case 6:
		osr = osr_of(mc_choose(8, "osr"));
		recovery(osr, mc_choose(6, "inner"), mc_choose(3, "stage"));
		break;
	case 8: {
		static const unsigned o[] = { 3, 9, 20 };
		int f = 1 + mc_choose(8, "first period"), t = 1 + mc_choose(8, "second period"), l = mc_choose(3, "lead");
		lag_windows(o[mc_choose(3, "osr")], f, t, l * 7, f == 1 ? (unsigned)t - 1 : 1000);
		break;
	}
	default:
		stamps(mc_choose(5, "gcd"), mc_choose(4, "first"),
		       (int)mc_param("sdepth", 6));
		break;
	}
	mc_states_add(n_state, n_trans);
	mc_outcome(mc_hash(&n_state, sizeof(n_state), mc_hash(&n_trans, 8, phase)));
}
