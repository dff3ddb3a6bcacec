/*
 * Independent FIPS 202 / XDRBG-256 reference, written from the standards: the
 * message is kept whole, padded and absorbed lane by lane, with computed
 * rotation offsets and round constants.
 */
#ifndef REF_KECCAK_H
#define REF_KECCAK_H
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

static uint64_t rk_rc[24];
static int rk_off[5][5];
static int rk_ready;

static inline uint64_t rk_rol(uint64_t v, int n)
{
	return n ? (v << n) | (v >> (64 - n)) : v;
}

static void rk_prepare(void)
{
	unsigned r = 1;
	int x = 1, y = 0, t, i, j;

	for (i = 0; i < 24; i++) {
		rk_rc[i] = 0;
		for (j = 0; j < 7; j++) {
			if (r & 1)
				rk_rc[i] |= (uint64_t)1 << ((1 << j) - 1);
			r = (r << 1) ^ ((r >> 7) * 0x171);
		}
	}
	rk_off[0][0] = 0;
	for (t = 0; t < 24; t++) {
		int ny = (2 * x + 3 * y) % 5;
		rk_off[x][y] = ((t + 1) * (t + 2) / 2) % 64;
		x = y;
		y = ny;
	}
	rk_ready = 1;
}

static void rk_perm(uint64_t a[25])
{
	int i;
	if (!rk_ready)
		rk_prepare();
	for (i = 0; i < 24; i++) {
		uint64_t c[5], d[5], b[25];
#define RK_C(x) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20]
		RK_C(0); RK_C(1); RK_C(2); RK_C(3); RK_C(4);
#define RK_D(x) d[x] = c[(x + 4) % 5] ^ rk_rol(c[(x + 1) % 5], 1)
		RK_D(0); RK_D(1); RK_D(2); RK_D(3); RK_D(4);
		/* rho and pi, x and y constant in each term */
#define RK_B(x, y) b[y + 5 * ((2 * x + 3 * y) % 5)] = rk_rol(a[x + 5 * y] ^ d[x], rk_off[x][y])
#define RK_BB(x) RK_B(x, 0); RK_B(x, 1); RK_B(x, 2); RK_B(x, 3); RK_B(x, 4)
		RK_BB(0); RK_BB(1); RK_BB(2); RK_BB(3); RK_BB(4);
#define RK_A(x, y) a[x + 5 * y] = b[x + 5 * y] ^ (~b[(x + 1) % 5 + 5 * y] & b[(x + 2) % 5 + 5 * y])
#define RK_AA(y) RK_A(0, y); RK_A(1, y); RK_A(2, y); RK_A(3, y); RK_A(4, y)
		RK_AA(0); RK_AA(1); RK_AA(2); RK_AA(3); RK_AA(4);
		a[0] ^= rk_rc[i];
	}
}

/* one-shot sponge with rate 136 */
static void rk_sponge(const uint8_t *m, size_t n, uint8_t pad, uint8_t *out, size_t outlen)
{
	uint64_t s[25] = { 0 };
	size_t i, off = 0;
	for (;;) {
		uint8_t blk[136] = { 0 };
		size_t left = n - off, take = left < 136 ? left : 136;
		memcpy(blk, m + off, take);
		if (take < 136) {
			blk[take] ^= pad;
			blk[135] ^= 0x80;
		}
		for (i = 0; i < 136; i++)
			s[i / 8] ^= (uint64_t)blk[i] << (8 * (i % 8));
		rk_perm(s);
		off += take;
		if (take < 136)
			break;
	}
	for (i = 0; i < outlen; i++) {
		if (i && i % 136 == 0)
			rk_perm(s);
		out[i] = (uint8_t)(s[(i % 136) / 8] >> (8 * (i % 8)));
	}
}
#define rk_sha3_256(m, n, d) rk_sponge(m, n, 0x06, d, 32)
#define rk_shake256(m, n, d, l) rk_sponge(m, n, 0x1f, d, l)

/* XDRBG-256: state V, seed collected since the last generate */
struct rk_drbg {
	uint64_t s[25];		/* running sponge of the seed */
	uint8_t blk[136];
	unsigned fill;
	int seeded;
};

static void rkd_init(struct rk_drbg *d)
{
	memset(d, 0, sizeof(*d));
}

static void rkd_add(struct rk_drbg *d, const void *p, size_t n)
{
	const uint8_t *b = p;
	while (n--) {
		d->blk[d->fill++] = *b++;
		if (d->fill == 136) {
			int i;
			for (i = 0; i < 136; i++)
				d->s[i / 8] ^= (uint64_t)d->blk[i] << (8 * (i % 8));
			rk_perm(d->s);
			d->fill = 0;
		}
	}
}

static void rkd_squeeze(struct rk_drbg *d, uint8_t *out, size_t n)
{
	size_t i;
	memset(d->blk + d->fill, 0, 136 - d->fill);
	d->blk[d->fill] ^= 0x1f;
	d->blk[135] ^= 0x80;
	for (i = 0; i < 136; i++)
		d->s[i / 8] ^= (uint64_t)d->blk[i] << (8 * (i % 8));
	rk_perm(d->s);
	for (i = 0; i < n; i++)
		out[i] = (uint8_t)(d->s[i / 8] >> (8 * (i % 8)));
	memset(d->s, 0, sizeof(d->s));
	d->fill = 0;
}

/* generate with alpha empty; output limited to 32 bytes */
static void rkd_generate(struct rk_drbg *d, uint8_t *out, size_t n)
{
	uint8_t v[64], t[96], e;
	e = d->seeded ? 1 * 85 : 0 * 85;
	d->seeded = 1;
	rkd_add(d, &e, 1);
	rkd_squeeze(d, v, 64);
	rkd_add(d, v, 64);
	e = 2 * 85;
	rkd_add(d, &e, 1);
	rkd_squeeze(d, t, 96);
	if (n > 32)
		n = 32;
	if (n)
		memcpy(out, t + 64, n);
	rkd_add(d, t, 64);
}

/* first 64 bytes of T, i.e. the state kept by the generator */
#endif
