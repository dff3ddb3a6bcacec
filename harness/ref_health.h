/*
 * Reference model of the health tests, written from the documented test
 * definitions (SP800-90B 4.4.1/4.4.2, lag predictor, RCT with memory) with its
 * own data layout.  Shared by several harnesses.
 */
#ifndef REF_HEALTH_H
#define REF_HEALTH_H
#include <stdint.h>
#include <string.h>

#define RH_RCT 1u
#define RH_APT 2u
#define RH_LAG 4u
#define RH_MEM 8u
#define RH_PERM(x) ((x) << 16)

struct rh {
	unsigned osr;
	int ntg1;
	/* cutoffs */
	unsigned rct_c, rct_p, apt_c, apt_p, mem_c, mem_p;
	unsigned lag_gc, lag_gp, lag_lc, lag_lp;
	/* repetition count */
	unsigned rct;
	/* proportion */
	int apt_on;
	uint64_t apt_base;
	unsigned apt_n, apt_cnt;
	/* predictor; past[0] is the most recent delta */
	uint64_t past[8];
	unsigned lag_n, lag_score[8], lag_best, lag_run, lag_hits;
	/* repetition count with memory */
	unsigned mem_pos, mem_win, mem_cnt;
	int recovering;
	unsigned fail;
};

static const unsigned rh_apt_c[2][20] = {
	{325,422,459,477,488,494,499,502,505,507,508,509,510,511,512,512,512,512,512,512},
	{17,71,136,191,236,272,301,325,345,361,375,388,398,407,415,422,429,434,439,444}};
static const unsigned rh_apt_p[2][20] = {
	{355,447,479,494,502,507,510,512,512,512,512,512,512,512,512,512,512,512,512,512},
	{26,92,162,221,267,303,332,355,375,390,404,415,425,433,440,447,453,458,462,466}};
static const unsigned rh_lag_gc[20] = {
	66443,93504,104761,110875,114707,117330,119237,120686,121823,122739,
	123493,124124,124660,125120,125520,125871,126181,126457,126704,126926};
static const unsigned rh_lag_gp[20] = {
	66876,93896,105108,111188,114993,117596,119486,120920,122045,122951,
	123696,124318,124847,125301,125695,126041,126346,126617,126860,127079};
static const unsigned rh_lag_lc[20] = {
	38,75,111,146,181,215,250,284,318,351,385,419,452,485,518,551,584,617,650,683};
static const unsigned rh_lag_lp[20] = {
	60,119,177,234,291,347,404,460,516,571,627,683,738,793,848,903,958,1013,1068,1123};
static const unsigned rh_mem_c_ntg1[7] = {4,46,134,255,399,560,733};
static const unsigned rh_mem_p_ntg1[7] = {5,50,142,265,410,572,746};

static void rh_cutoffs(struct rh *r)
{
	unsigned o = r->osr;
	r->rct_c = 30 * o;
	r->rct_p = 60 * o;
	if (r->ntg1) {
		r->rct_c = (r->rct_c + 7) / 8;
		r->rct_p = (r->rct_p + 7) / 8;
	}
	r->apt_c = rh_apt_c[!!r->ntg1][o - 1];
	r->apt_p = rh_apt_p[!!r->ntg1][o - 1];
	r->lag_gc = rh_lag_gc[o - 1];
	r->lag_gp = rh_lag_gp[o - 1];
	r->lag_lc = rh_lag_lc[o - 1];
	r->lag_lp = rh_lag_lp[o - 1];
	if (r->ntg1 && o <= 7) {
		r->mem_c = rh_mem_c_ntg1[o - 1];
		r->mem_p = rh_mem_p_ntg1[o - 1];
	} else {
		r->mem_c = 107 * o;
		r->mem_p = 107 * o + 1;
	}
}

/* (re)selecting the profile restarts the repetition count, nothing else */
static void rh_select(struct rh *r)
{
	r->rct = 0;
	rh_cutoffs(r);
}

static void rh_init(struct rh *r, unsigned osr, int ntg1)
{
	memset(r, 0, sizeof(*r));
	r->osr = osr;
	r->ntg1 = ntg1;
	rh_select(r);
}

static void (*rh_recover)(struct rh *);	/* generates ten blocks */

static unsigned rh_sample(struct rh *r, uint64_t d)
{
	uint64_t d2 = d - r->past[0];
	uint64_t d3 = d2 - (r->past[0] - r->past[1]);
	unsigned stuck = (d == 0 || d2 == 0 || d3 == 0);
	unsigned i;

	/* proportion test */
	if (!r->apt_on) {
		r->apt_on = 1;
		r->apt_base = d;
		r->apt_cnt = 1;
		r->apt_n = 1;
	} else {
		if (d == r->apt_base) {
			r->apt_cnt++;
			if (r->apt_cnt >= r->apt_p)
				r->fail |= RH_PERM(RH_APT);
			else if (r->apt_cnt == r->apt_c)
				r->fail |= RH_APT;
		}
		r->apt_n++;
		if (r->apt_n >= 512)
			r->apt_on = 0;
	}

	/* predictor */
	if (r->lag_n >= 8) {
		if (r->past[r->lag_best] == d) {
			r->lag_hits++;
			r->lag_run++;
			if (r->lag_run >= r->lag_lp || r->lag_hits >= r->lag_gp)
				r->fail |= RH_PERM(RH_LAG);
			else if (r->lag_run >= r->lag_lc || r->lag_hits >= r->lag_gc)
				r->fail |= RH_LAG;
		} else {
			r->lag_run = 0;
		}
		for (i = 0; i < 8; i++)
			if (r->past[i] == d) {
				r->lag_score[i]++;
				if (r->lag_score[i] > r->lag_score[r->lag_best])
					r->lag_best = i;
			}
	}
	for (i = 7; i > 0; i--)
		r->past[i] = r->past[i - 1];
	r->past[0] = d;
	if (++r->lag_n >= 131072) {
		r->lag_n = r->lag_hits = r->lag_run = r->lag_best = 0;
		memset(r->lag_score, 0, sizeof(r->lag_score));
		memset(r->past, 0, sizeof(r->past));
	}

	/* repetition count */
	if (stuck) {
		r->rct++;
		if (r->rct >= r->rct_p)
			r->fail |= RH_PERM(RH_RCT);
		else if (r->rct == r->rct_c)
			r->fail |= RH_RCT;
	} else {
		r->rct = 0;
	}

	/* repetition count with memory: every third position of the window */
	if (r->mem_pos == 0)
		r->mem_cnt = 0;
	if (stuck && r->mem_pos < r->mem_win && r->mem_pos % 3 == 0)
		r->mem_cnt++;
	if (r->mem_cnt >= r->mem_p) {
		if (r->mem_pos < r->mem_win)
			r->fail |= RH_PERM(RH_MEM);
	} else if (r->mem_cnt == r->mem_c) {
		if (!r->recovering) {
			r->mem_cnt = 0;
			r->recovering = 1;
			if (rh_recover)
				rh_recover(r);
			r->recovering = 0;
		} else if (r->mem_pos < r->mem_win) {
			r->fail |= RH_MEM;
		}
	}
	if (r->mem_pos < r->mem_win)
		r->mem_pos++;
	return stuck;
}
#endif
