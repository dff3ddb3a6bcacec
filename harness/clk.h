/*
 * Controlled clock.  A measurement is whatever happens up to a call of
 * jent_stuck() (intercepted): its first time stamp is the current time, all
 * later ones are the current time plus the delta planned for it.
 */
#ifndef CLK_H
#define CLK_H
#include "jitterentropy.h"
#include "jitterentropy-internal.h"
#include <stdint.h>

static uint64_t clk_cur = 1000000, clk_delta, clk_total;
static unsigned clk_reads, clk_have;
static int clk_single;		/* measurements take a single time stamp */
static uint64_t clk_scale = 1;	/* resolution of the clock */
static uint64_t clk_p1, clk_p2;	/* deltas issued before, in units of clk_scale */
static uint64_t clk_k;

static void clk_issue(uint64_t d)
{
	clk_p2 = clk_p1;
	clk_p1 = d;
}

static int clk_stuck(uint64_t d)
{
	return !d || d == clk_p1 || (d - clk_p1) == (clk_p1 - clk_p2);
}

/* a delta that is not stuck and hardly ever repeats */
static uint64_t clk_good(void)
{
	uint64_t d;
	do {
		clk_k++;
		d = 100000 + (clk_k * clk_k * 31 + clk_k * 7919) % 1000003;
	} while (clk_stuck(d) || d == clk_p2);
	return d;
}

static uint64_t clk_plain(void)
{
	return clk_good();
}

/* supplies the next delta, in units of clk_scale */
static uint64_t (*clk_next)(void) = clk_plain;

static void clk_cb(void *arg, uint64_t *out)
{
	(void)arg;
	clk_reads++;
	clk_total++;
	if (!clk_have) {
		uint64_t d = clk_next();
		clk_issue(d);
		clk_delta = d * clk_scale;
		clk_have = 1;
	}
	*out = (clk_reads == 1 && !clk_single) ? clk_cur : clk_cur + clk_delta;
}

/* end of a measurement */
static void clk_step(void)
{
	clk_cur += clk_delta;
	clk_delta = 0;
	clk_reads = 0;
	clk_have = 0;
}

static void clk_install(void)
{
	jent_set_mock_timer(clk_cb, NULL);
}
#endif
