/*
 * P07 and P08 for the other memory backends: libgcrypt, OpenSSL, AWS-LC,
 * plain allocation without an operating system, and the kernel.  The provider
 * is a stand-in that may refuse or hand out ordinary instead of secure memory.
 * BK: 1 gcrypt, 2 openssl, 3 awslc, 4 bare, 5 kernel
 */
#include <stdlib.h>
#include <string.h>
#include "mc.h"
#include "jitterentropy.h"
#include "jitterentropy-internal.h"
#include "jitterentropy-sha3.h"

#if PROP == 7
const char *mc_property = "P07";
#else
const char *mc_property = "P08";
#endif
int mc_fork_per_run = 1;
int mc_split_depth = 3;

#define NB 256
enum { SECURE = 1, PLAIN = 2 };
static struct blk { uint8_t *p; size_t n; int kind, used; } blks[NB];
static int live, on, faults, refused, demand, pool, sysfips;
static const char *last = "nothing";

static void *give(size_t n, int kind)
{
	int i;
	uint8_t *p;
	for (i = 0; i < NB && blks[i].p; i++)
		;
	MC_ASSERT(i < NB, "harness: blocks");
	p = aligned_alloc(64, (n + 127) & ~(size_t)63);
	memset(p, 0xa5, n + 16);	/* fresh memory is not clean */
	blks[i] = (struct blk){ p, n, kind, 0 };
	live++;
	return p;
}
static struct blk *find(const void *p)
{
	int i;
	for (i = 0; i < NB; i++)
		if (blks[i].p && (const uint8_t *)p >= blks[i].p && (const uint8_t *)p < blks[i].p + blks[i].n)
			return &blks[i];
	return NULL;
}
static int refuse(const char *what)
{
	if (!faults || !mc_env(2, what))
		return 0;
	refused++;
	last = what;
	mc_note("refused: %s", what);
	return 1;
}
/* wiped: by the provider on the way */
static void take(void *p, int wipes, size_t n)
{
	struct blk *b = find(p);
	size_t i;
	if (!p)
		return;
	MC_ASSERT(b && b->p == p, "release of memory that was not handed out, or twice");
	if (wipes)
		memset(p, 0, n < b->n ? n : b->n);
	if (PROP == 7 && b->used)	
		for (i = 0; i < b->n; i++)
			MC_ASSERT(!b->p[i], "byte %zu of a block of %zu bytes is not wiped when given back", i, b->n);
	for (i = 0; i < 16; i++)
		MC_ASSERT(b->p[b->n + i] == 0xa5, "memory behind a block of %zu bytes was changed", b->n);
	memset(p, 0xdd, b->n);	/* used after release: noticed */
	b->p = NULL;	/* never reused */
	live--;
}

#if BK == 1
void *gcry_malloc_secure(size_t n)
{
	if (!pool || refuse("secure memory"))
		return NULL;
	if (faults && mc_env(2, "not secure")) {
		refused += demand;
		last = "secure memory";
		return give(n, PLAIN);
	}
	return give(n, SECURE);
}
void *gcry_malloc(size_t n) { return refuse("memory") ? NULL : give(n, PLAIN); }
void *gcry_calloc(size_t n, size_t m) { void *p = gcry_malloc(n * m); if (p) memset(p, 0, n * m); return p; }
void *gcry_calloc_secure(size_t n, size_t m) { void *p = gcry_malloc_secure(n * m); if (p) memset(p, 0, n * m); return p; }
void gcry_free(void *p) { struct blk *b = find(p); take(p, b && b->kind == SECURE, b ? b->n : 0); }
int gcry_is_secure(const void *p) { struct blk *b = find(p); return b && b->kind == SECURE; }
int gcry_fips_mode_active(void) { return sysfips; }
#elif BK == 2
int CRYPTO_secure_malloc_initialized(void) { return pool; }
void *OPENSSL_secure_malloc(size_t n)
{
	if (!pool)
		return refuse("memory") ? NULL : give(n, PLAIN);	/* falls back silently */
	if (refuse("secure memory"))
		return NULL;
	if (faults && mc_env(2, "not secure")) {
		refused += demand;
		last = "secure memory";
		return give(n, PLAIN);
	}
	return give(n, SECURE);
}
void *OPENSSL_secure_zalloc(size_t n) { void *p = OPENSSL_secure_malloc(n); if (p) memset(p, 0, n); return p; }
int CRYPTO_secure_allocated(const void *p) { struct blk *b = find(p); return b && b->kind == SECURE; }
void OPENSSL_secure_free(void *p) { struct blk *b = find(p); take(p, b && b->kind == SECURE, b ? b->n : 0); }
void OPENSSL_secure_clear_free(void *p, size_t n) { struct blk *b = find(p); take(p, 1, b && b->kind == SECURE ? b->n : n); }
void *OPENSSL_malloc(size_t n) { return refuse("memory") ? NULL : give(n, PLAIN); }
void *OPENSSL_zalloc(size_t n) { void *p = OPENSSL_malloc(n); if (p) memset(p, 0, n); return p; }
void OPENSSL_free(void *p) { struct blk *b = find(p); MC_ASSERT(!b || b->kind == PLAIN, "secure memory goes back to the ordinary heap"); take(p, 0, 0); }
void OPENSSL_clear_free(void *p, size_t n) { struct blk *b = find(p); MC_ASSERT(!b || b->kind == PLAIN, "secure memory goes back to the ordinary heap"); take(p, 1, n); }
void OPENSSL_cleanse(void *p, size_t n) { memset(p, 0, n); }
int EVP_default_properties_is_fips_enabled(void *c) { return sysfips; }
#elif BK == 3
void *OPENSSL_malloc(size_t n) { return refuse("memory") ? NULL : give(n, PLAIN); }
void *OPENSSL_zalloc(size_t n) { void *p = OPENSSL_malloc(n); if (p) memset(p, 0, n); return p; }
void OPENSSL_free(void *p) { struct blk *b = find(p); take(p, 1, b ? b->n : 0); }
void OPENSSL_clear_free(void *p, size_t n) { OPENSSL_free(p); }
void OPENSSL_cleanse(void *p, size_t n) { memset(p, 0, n); }
int FIPS_mode(void) { return sysfips; }
#elif BK == 4
void *__real_malloc(size_t n);
void __real_free(void *p);
void *__wrap_malloc(size_t n) { if (!on) return __real_malloc(n); return refuse("memory") ? NULL : give(n, PLAIN); }
void *__wrap_calloc(size_t n, size_t m) { void *p = __wrap_malloc(n * m); if (p) memset(p, 0, n * m); return p; }
void __wrap_free(void *p) { if (!on || !find(p)) { if (!on) __real_free(p); else MC_ASSERT(!p, "release of memory that was not handed out, or twice"); return; } take(p, 0, 0); }
#elif BK == 5
int fips_enabled;
void *kvzalloc(size_t n, gfp_t f) { void *p; if (refuse("memory")) return NULL; p = give(n, PLAIN); memset(p, 0, n); return p; }
void *kvmalloc(size_t n, gfp_t f) { return refuse("memory") ? NULL : give(n, PLAIN); }
void *kzalloc(size_t n, gfp_t f) { MC_ASSERT(n <= 4 << 20, "%zu bytes of contiguous memory are asked for", n); return kvzalloc(n, f); }
void *kmalloc(size_t n, gfp_t f) { MC_ASSERT(n <= 4 << 20, "%zu bytes of contiguous memory are asked for", n); return kvmalloc(n, f); }
void kvfree(const void *p) { take((void *)p, 0, 0); }
void kfree(const void *p) { take((void *)p, 0, 0); }
void kvfree_sensitive(const void *p, size_t n) { take((void *)p, 1, n); }
void kfree_sensitive(const void *p) { struct blk *b = find(p); take((void *)p, 1, b ? b->n : 0); }
void get_random_bytes(void *b, size_t n) { memset(b, 0x5a, n); }
int num_online_cpus_(void) { return 4; }
void ksched_point(void) {}
void schedule(void) {}
#endif

/* --- clock --- */
static uint64_t now = 1 << 20, rnd = 1;
static long burst;
void __wrap_jent_get_nstime(uint64_t *out)
{
	rnd = rnd * 6364136223846793005ull + 1442695040888963407ull;
	now += burst > 0 ? (burst--, 1000) : 1000 + (rnd >> 50);
	*out = now;
}
uint32_t __wrap_jent_cache_size_roundup(int all) { return all ? 8192 : 1024; }
int __wrap_jent_sha3_tester(void) { return 0; }
long __wrap_jent_ncpu(void) { return 4; }
int __wrap_jent_os_random_bytes(uint8_t *b, size_t n) { memset(b, 0x5a, n); return 0; }

void *__real_jent_zalloc(size_t n, unsigned int flags);
void *__wrap_jent_zalloc(size_t n, unsigned int flags)
{
	uint8_t *p = __real_jent_zalloc(n, flags);
	size_t i;
	if (p) {
		struct blk *b = find(p);
		MC_ASSERT(b && p + n <= b->p + b->n, "memory handed out is not %zu bytes long", n);
		b->used = 1;
		for (i = 0; i < n; i++)
			MC_ASSERT(!p[i], "fresh memory is not zero");
		if (PROP == 8 && BK <= 2 && demand)
			MC_ASSERT(b->kind == SECURE, "ordinary memory is used although secure memory is demanded");
	}
	return p;
}

static const struct { unsigned flags; int fips, demand; } modes[] = {
	{ 0, 0, 0 }, { JENT_FORCE_SECURE_MEM, 0, 1 }, { JENT_FORCE_FIPS, 1, 1 }, { JENT_NTG1, 1, 1 }, { 0, 1, 0 },
	{ JENT_FORCE_SECURE_MEM | JENT_DISABLE_MEMORY_ACCESS, 0, 1 },
};

/* what the library says about its memory is what the memory is */
static void claims(struct rand_data *ec)
{
	static char txt[8192];
	int i, says, ordinary = 0;
	int was = on;

	if (PROP != 8)
		return;
	on = 0;
	MC_ASSERT(!!jent_secure_memory_supported() == (BK != 3), "support of secure memory is reported as %d", jent_secure_memory_supported());
	MC_ASSERT(!jent_status(ec, txt, sizeof(txt)), "no status");
	says = strstr(txt, "\"secureMemory\": true") != NULL;
	MC_ASSERT(says || strstr(txt, "\"secureMemory\": false"), "no word about secure memory in the status");
	on = was;
	for (i = 0; i < NB; i++)
		if (blks[i].p && blks[i].used && blks[i].kind != SECURE)
			ordinary = 1;
	if (BK >= 4)
		ordinary = 0;	/* no paging, no dumps */
	MC_ASSERT(!says || !ordinary, "the status claims secure memory for ordinary memory");
	MC_ASSERT(says || ordinary || !demand, "the status denies the secure memory that was demanded");
}

void mc_body(void)
{
	int m = mc_choose(6, "mode"), sc = mc_choose(5, "scenario"), r;
	unsigned flags = modes[m].flags | JENT_DISABLE_INTERNAL_TIMER;
	struct rand_data *ec;
	char out[64];
	ssize_t n;

	demand = modes[m].demand;
	sysfips = m == 4;
#if BK == 5
	fips_enabled = sysfips;
#endif
	pool = BK > 2 || mc_choose(2, "no pool") == 0;
	if (sc == 3 && !modes[m].fips)
		mc_prune();
	on = 1;
	if (sc == 4) {
		/* blocks of every size */
		static const size_t len[] = { 1, 7, 8, 200, 4095, 4096, 4097, 65536, 1 << 20, (1 << 20) + 1, 8 << 20 };
		size_t l = len[mc_choose(11, "len")];
		uint8_t *p;
		faults = 1;
		p = jent_zalloc(l, flags | (demand ? JENT_FORCE_SECURE_MEM : 0));
		faults = 0;
		if (p)
			memset(p, 0xff, l);
		else if (PROP == 8)
			MC_ASSERT(refused || (demand && !pool), "allocation of %zu bytes fails although nothing was refused", l);
		jent_zfree(p, l);
		jent_zfree(NULL, l);
		MC_ASSERT(!live, "%d blocks left", live);
		on = 0;
		mc_outcome(m * 100 + 40 + !!p);
		return;
	}
	faults = sc == 0;
	r = jent_entropy_init_ex(0, flags);
	faults = 0;
	if (PROP == 8) {
		MC_ASSERT(!live, "initialization (refused: %s) leaves %d blocks behind", last, live);
		MC_ASSERT(!r || refused || (demand && !pool), "initialization fails (%d) although nothing was refused", r);
		MC_ASSERT(r || !(demand && !pool) || BK > 2, "initialization succeeds without the secure memory demanded");
		if (r && refused && (pool || !demand)) {
			r = jent_entropy_init_ex(0, flags);
			MC_ASSERT(!r, "initialization after a transient failure (%s): %d", last, r);
		}
	}
	if (r || sc == 0) {
		on = 0;
		mc_outcome(m * 100 + sc * 10 + !!r);
		return;
	}
	faults = sc == 1;
	ec = jent_entropy_collector_alloc(0, flags);
	faults = 0;
	if (!ec) {
		if (PROP == 8) {
			MC_ASSERT(refused, "allocation fails although nothing was refused");
			MC_ASSERT(!live, "failed allocation (refused: %s) leaves %d blocks behind", last, live);
			ec = jent_entropy_collector_alloc(0, flags);
			MC_ASSERT(ec, "allocation after a transient failure (%s) fails", last);
		} else {
			on = 0;
			return;
		}
	}
	claims(ec);
	n = jent_read_entropy(ec, out, 40);
	MC_ASSERT(n == 40, "read: %zd", n);
	if (sc == 3) {
		int before = live;
		burst = 1700;
		faults = 1;
		n = jent_read_entropy_safe(&ec, out, 64);
		faults = 0;
		burst = 0;
		if (PROP == 8) {
			MC_ASSERT(live == before, "recovery (refused: %s) leaves %d blocks behind", last, live - before);
			MC_ASSERT(n == 64 || refused, "recovery fails with %zd although nothing was refused", n);
		}
		claims(ec);
		mc_outcome(5000 + m * 10 + (n == 64));
	}
	jent_entropy_collector_free(ec);
	MC_ASSERT(!live, "%d blocks left after the release", live);
	mc_outcome(m * 100 + sc * 10 + 2);
	on = 0;
}
