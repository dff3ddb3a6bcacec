/* P06: SHA3-256, SHAKE256 and XDRBG-256 against the reference */
#include "mc.h"
#include "jitterentropy.h"
#include "jitterentropy-internal.h"
#include "jitterentropy-sha3.h"
#include "ref_keccak.h"
#include <stdio.h>
#include <sys/mman.h>

const char *mc_property = "P06";
int mc_fork_per_run = 1;
int mc_split_depth = 4;

#define MAXLEN 640
static uint8_t msg[4][MAXLEN + 1];
static uint64_t cases;

static int hexeq(const uint8_t *b, const char *h)
{
	for (; *h; h += 2, b++) {
		unsigned v;
		sscanf(h, "%2x", &v);
		if (v != *b)
			return 0;
	}
	return 1;
}

void mc_setup(void)
{
	uint8_t m[300], d[140];
	unsigned i;
	uint32_t x = 12345;
	for (i = 0; i < 300; i++)
		m[i] = (uint8_t)(i * 7 + 3);
	/* the reference itself, against digests of an unrelated implementation */
	rk_sha3_256(m, 0, d);
	int ok = hexeq(d, "a7ffc6f8bf1ed76651c14756a061d662f580ff4de43b49fa82d80a4b80f8434a");
	rk_sha3_256(m, 136, d);
	ok &= hexeq(d, "743bd32e775ac7387a57d4d574c89ddef5ebcb08bb5cc6b88c55a27b5035cc45");
	rk_sha3_256(m, 300, d);
	ok &= hexeq(d, "064af3405aacb53d5d77ee858fec1e6e225480de3f14f06444e2b33d92d61879");
	rk_shake256(m, 135, d, 140);
	ok &= hexeq(d + 120, "4ade8603b8bc69db9d10b25e24c9de8adbc9e713");
	rk_shake256(m, 272, d, 140);
	ok &= hexeq(d + 120, "cb8320969c7e079533757fa3856dc412ed121e83");
	if (!ok) {
		fprintf(stderr, "reference Keccak is wrong\n");
		exit(2);
	}
	for (i = 0; i <= MAXLEN; i++) {
		msg[0][i] = (uint8_t)(i * 7 + 3);
		msg[1][i] = 0xff;
		msg[2][i] = 0;
		x = x * 1664525 + 1013904223;
		msg[3][i] = (uint8_t)(x >> 24);
	}
}

static void begin(struct jent_sha_ctx *c, int shake, int dirty)
{
	memset(c, dirty ? 0xa5 : 0, sizeof(*c));
	if (shake)
		jent_shake256_init(c);
	else
		jent_sha3_256_init(c);
}

static void cmp(const uint8_t *a, const uint8_t *b, size_t n, const char *what, unsigned len,
		unsigned s1, unsigned s2)
{
	size_t i;
	cases++;
	if (!memcmp(a, b, n))
		return;
	for (i = 0; a[i] == b[i]; i++)
		;
	mc_fail("%s of %u bytes split at %u and %u differs from FIPS 202 in output byte %zu",
		what, len, s1, s2, i);
}

/* all lengths of one residue class, all two- and three-way splits */
static void splits(void)
{
	unsigned res = (unsigned)mc_choose(32, "length mod 32");
	unsigned pat = (unsigned)mc_choose(4, "contents");
	unsigned two = (unsigned)mc_param("two", 410), three = (unsigned)mc_param("three", 280);
	unsigned len, a, b;
	for (len = res; len <= two; len += 32) {
		uint8_t want[32], wantx[136], got[136];
		struct jent_sha_ctx c;
		rk_sha3_256(msg[pat], len, want);
		rk_shake256(msg[pat], len, wantx, 136);
		for (a = 0; a <= len; a++) {
			begin(&c, 0, a & 1);
			jent_sha3_update(&c, msg[pat], a);
			jent_sha3_update(&c, msg[pat] + a, len - a);
			jent_sha3_final(&c, got);
			cmp(got, want, 32, "SHA3-256", len, a, a);
			begin(&c, 1, a & 1);
			jent_sha3_update(&c, msg[pat], a);
			jent_sha3_update(&c, msg[pat] + a, len - a);
			jent_shake256_set_digestsize(&c, 136);
			jent_sha3_final(&c, got);
			cmp(got, wantx, 136, "SHAKE256", len, a, a);
		}
		/* one byte at a time */
		begin(&c, 0, 1);
		for (a = 0; a < len; a++)
			jent_sha3_update(&c, msg[pat] + a, 1);
		jent_sha3_final(&c, got);
		cmp(got, want, 32, "SHA3-256 bytewise", len, 1, 1);
		if (len > three || pat % 3)
			continue;
		for (a = 0; a <= len; a++)
			for (b = a; b <= len; b++) {
				begin(&c, 0, 0);
				jent_sha3_update(&c, msg[pat], a);
				jent_sha3_update(&c, msg[pat] + a, b - a);
				jent_sha3_update(&c, msg[pat] + b, len - b);
				jent_sha3_final(&c, got);
				cmp(got, want, 32, "SHA3-256", len, a, b);
			}
	}
}

static void outlens(void)
{
	unsigned len, o;
	for (len = 0; len <= MAXLEN; len += 1)
		for (o = 0; o <= 136; o += 8) {
			uint8_t want[136], got[152];
			struct jent_sha_ctx c;
			unsigned i;
			memset(got, 0x77, sizeof(got));
			rk_shake256(msg[3], len, want, o);
			begin(&c, 1, 1);
			jent_sha3_update(&c, msg[3], len);
			jent_shake256_set_digestsize(&c, o);
			jent_sha3_final(&c, got);
			cmp(got, want, o, "SHAKE256", len, o, o);
			for (i = o; i < sizeof(got); i++)
				MC_ASSERT(got[i] == 0x77, "SHAKE256 with %u bytes of output wrote byte %u", o, i);
		}
}

/* every single bit, and every pair within a distance, of one and two blocks */
static void bits(void)
{
	unsigned part = (unsigned)mc_choose(16, "bit class"), b, e;
	uint8_t m[200], want[32], got[32];
	struct jent_sha_ctx c;
	for (b = part; b < 200 * 8; b += 16)
		for (e = b; e < b + 3 && e < 200 * 8; e++) {
			memset(m, 0, sizeof(m));
			m[b / 8] ^= (uint8_t)(1 << (b % 8));
			if (e != b)
				m[e / 8] ^= (uint8_t)(1 << (e % 8));
			rk_sha3_256(m, 200, want);
			begin(&c, 0, 0);
			jent_sha3_update(&c, m, 200);
			jent_sha3_final(&c, got);
			cmp(got, want, 32, "SHA3-256 (bit pair)", 200, b, e);
		}
	/* long chain: output fed back */
	memset(m, (int)part, 32);
	for (b = 0; b < 4000; b++) {
		rk_sha3_256(m, 32 + b % 160, want);
		begin(&c, 0, 0);
		jent_sha3_update(&c, m, 32 + b % 160);
		jent_sha3_final(&c, got);
		cmp(got, want, 32, "SHA3-256 (chain)", 32 + b % 160, b, b);
		memcpy(m + (b * 8) % 168, got, 32);
	}
}

/* big messages: counters must not wrap at 8, 16 or 32 bits */
static void big(void)
{
	int which = mc_choose(mc_thorough() ? 5 : 4, "size");
	size_t n = which == 0 ? 65536 + 3 : which == 1 ? (1u << 20) + 77 : which == 2 ? 3 * 65536 :
		   ((size_t)1 << 32) + 5;
	uint8_t got[32], want[32];
	struct jent_sha_ctx c;
	uint8_t *z = mmap(NULL, which == 4 ? 1 << 24 : n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	MC_ASSERT(z != MAP_FAILED, "harness: mmap");
	begin(&c, 0, 0);
	if (which == 4) {
		size_t left = n;
		while (left) {
			size_t t = left < (1 << 24) - 1 ? left : (1 << 24) - 1;
			jent_sha3_update(&c, z, t);
			left -= t;
		}
	} else
		jent_sha3_update(&c, z, n);
	jent_sha3_final(&c, got);
	if (which < 3) {
		rk_sha3_256(z, n, want);
		cmp(got, want, 32, "SHA3-256 of zeros", (unsigned)n, 0, 0);
	} else {
		cases++;
		MC_ASSERT(hexeq(got, "c49fe80fabce10b69ceaa426e8e75064aff765b240c6b096325d68a38b8f706d"),
			  "SHA3-256 of 2^32+5 zero bytes is wrong (%s)", which == 3 ? "one update" : "many updates");
	}
}

/* all histories of seeding and generating */
static const unsigned seedlen[] = { 0, 1, 8, 64, 71, 72, 135, 136, 200, 640 };
static const size_t genlen[] = { 32, 0, 1, 8, 31, 33, 96, (size_t)-1 };
#define NS (sizeof(seedlen) / sizeof(seedlen[0]))
#define NG (sizeof(genlen) / sizeof(genlen[0]))

static void drbg(void)
{
	int depth = (int)mc_param("drbg_depth", 4), i;
	struct jent_sha_ctx c;
	struct rk_drbg r;
	uint8_t got[160], want[160];
	uint64_t h = MC_HASH_INIT;

	memset(&c, 0, sizeof(c));
	if (mc_choose(2, "context used before")) {
		memset(&c, 0xff, sizeof(c));
	}
	jent_shake256_init(&c);
	rkd_init(&r);
	for (i = 0; i < depth; i++) {
		int op = mc_choose((int)(NS + NG + 1), "op");
		if (op < (int)NS) {
			const uint8_t *s = msg[i & 3];
			jent_sha3_update(&c, s, seedlen[op]);
			rkd_add(&r, s, seedlen[op]);
		} else if (op == (int)(NS + NG)) {
			jent_shake256_init(&c);
			rkd_init(&r);
		} else {
			size_t n = genlen[op - NS], want_n = n > 32 ? 32 : n, k;
			memset(got, 0x5a, sizeof(got));
			memset(want, 0x5a, sizeof(want));
			jent_drbg_generate_block(&c, n ? got : NULL, n);
			rkd_generate(&r, want, n);
			for (k = 0; k < sizeof(got); k++)
				MC_ASSERT(got[k] == want[k],
					  "XDRBG generate of %zu bytes at step %d: byte %zu differs%s",
					  n, i, k, k >= want_n ? " (written past the end)" : "");
			h = mc_hash(got, 32, h);
		}
		mc_states_add(0, 1);
	}
	/* the states agree if the next output does */
	memset(got, 0, 32);
	memset(want, 0, 32);
	jent_drbg_generate_block(&c, got, 32);
	rkd_generate(&r, want, 32);
	MC_ASSERT(!memcmp(got, want, 32), "XDRBG state differs after the history");
	mc_outcome(mc_hash(got, 32, h));
	cases++;
}

void mc_body(void)
{
	switch (mc_choose(5, "part")) {
	case 0: splits(); break;
	case 1: outlens(); break;
	case 2: bits(); break;
	case 3: big(); break;
	case 4: drbg(); break;
	}
	mc_states_add(cases, cases);
}
