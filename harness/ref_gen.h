/*
 * Reference generator: replays a log of time stamps through the specified
 * collection and conditioning and yields the expected output.
 */
#ifndef REF_GEN_H
#define REF_GEN_H
#include "ref_health.h"
#include "ref_keccak.h"

struct rg {
	struct rh h;
	struct rk_drbg d;
	uint64_t prev, gcd;
	unsigned loops;
	int fips, mem, stage;	/* stage 2 memory, 1 hash loop, 0 completed */
	uint64_t measured;
};

static uint64_t (*rg_stamp)(void);	/* next time stamp of the log */
static struct rg *rg_cur;

static void rg_absorb(struct rg *g, uint64_t delta, uint8_t sep, const uint8_t digest[32])
{
	uint8_t b[136] = { 0 };
	int i;
	for (i = 0; i < 8; i++)
		b[i] = (uint8_t)(delta >> (8 * i));
	b[8] = sep;
	memcpy(b + 9, digest, 32);
#ifndef RG_NOHASH
	rkd_add(&g->d, b, 136);
#endif
	g->measured++;
}

static void rg_le(uint8_t **p, uint64_t v, int n)
{
	while (n--) {
		*(*p)++ = (uint8_t)v;
		v >>= 8;
	}
}

static void rg_hashloop(struct rg *g, uint8_t digest[32], unsigned loops)
{
	uint64_t j;
	memset(digest, 0, 32);
	for (j = 0; j < loops; j++) {
		uint8_t m[80], *p = m;
		memcpy(p, digest, 32);
		p += 32;
		rg_le(&p, g->h.rct, 4);
		rg_le(&p, g->h.apt_c, 4);
		rg_le(&p, g->h.apt_n, 4);
		rg_le(&p, g->h.apt_cnt, 4);
		rg_le(&p, g->h.apt_base, 8);
		rg_le(&p, g->h.mem_cnt, 2);
		rg_le(&p, j, 8);
#ifndef RG_NOHASH
		rk_sha3_256(m, (size_t)(p - m), digest);
#endif
	}
}

static unsigned rg_measure(struct rg *g, int stage)
{
	uint8_t digest[32] = { 0 };
	uint64_t now, start, delta;
	unsigned stuck, i;
	struct rg *save = rg_cur;
	rg_cur = g;
	switch (stage) {
	case 2:
		start = rg_stamp();
		now = rg_stamp();
		delta = (now - start) / g->gcd;
		stuck = rh_sample(&g->h, delta);
		rg_absorb(g, delta, 1, digest);
		break;
	case 1:
		g->prev = rg_stamp();
		rg_hashloop(g, digest, 3 * g->loops);
		now = rg_stamp();
		delta = (now - g->prev) / g->gcd;
		stuck = rh_sample(&g->h, delta);
		rg_absorb(g, delta, 2, digest);
		break;
	default:
		for (i = 0; g->mem && i < 16; i++)
			rg_stamp();
		now = rg_stamp();
		delta = (now - g->prev) / g->gcd;
		g->prev = now;
		stuck = rh_sample(&g->h, delta);
		rg_hashloop(g, digest, g->loops);
		rg_absorb(g, delta, 3, digest);
	}
	rg_cur = save;
	return stuck;
}

static void rg_collect(struct rg *g, int stage)
{
	unsigned want = (256 + (g->fips ? 65 : 0)) * g->h.osr, ok = 0;
	want = (want + 2) / 3 * 3;
	g->h.mem_pos = 0;
	g->h.mem_win = want;
	while (!(g->fips && g->h.fail)) {
		if (rg_measure(g, stage))
			continue;
		if (++ok >= want)
			break;
	}
}

static void rg_block(struct rg *g)
{
	if (g->stage == 2) {
		rg_collect(g, 2);
		g->stage = 1;
		rh_select(&g->h);
		rg_collect(g, 1);
		g->stage = 0;
		rh_select(&g->h);
	} else {
		rg_measure(g, 0);
		rg_collect(g, 0);
	}
}

static void rg_recover(struct rh *h)
{
	struct rg *g = rg_cur;
	int i, save = g->stage;
	(void)h;
	g->stage = 0;
	for (i = 0; i < 10; i++)
		rg_block(g);
	g->stage = save;
}

static void rg_init(struct rg *g, unsigned osr, int fips, int ntg1, int mem, unsigned loops, uint64_t gcd)
{
	memset(g, 0, sizeof(*g));
	rh_init(&g->h, osr, ntg1);
	rkd_init(&g->d);
	g->fips = fips || ntg1;
	g->stage = g->fips ? 2 : 0;
	g->mem = mem;
	g->loops = loops;
	g->gcd = gcd;
	rh_recover = rg_recover;
}
#endif
