/*
 * P21: every access of the memory noise source, seen by the instrumented
 * library, in a region surrounded by inaccessible memory.
 */
#include <stdlib.h>
#include <stdio.h>
#include "clk.h"
#include "jitterentropy-health.h"
#include "jitterentropy-noise.h"
#include "jitterentropy-sha3.h"
#include "ilv.h"

const char *mc_property = "P21";
int mc_fork_per_run = 1;
int mc_split_depth = 3;

#define LOOPS 128	/* documented default */
#define STARTUP 3

/* --- blocks of memory between inaccessible ones --- */
static struct blk { unsigned char *p; size_t n; unsigned long wr; } blks[64];
static int nblk, at_start;
#define GUARD ((size_t)1 << 30)
void *__wrap_jent_zalloc(size_t len, unsigned int flags)
{
	size_t r = (len + 4095) & ~(size_t)4095;
	unsigned char *m = mmap(NULL, r + 2 * GUARD, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	(void)flags;
	if (m == MAP_FAILED || mprotect(m + GUARD, r, PROT_READ | PROT_WRITE) || nblk == 64)
		mc_fail("harness: memory");
	blks[nblk].p = m + GUARD + (at_start ? 0 : r - len);
	blks[nblk].n = len;
	blks[nblk].wr = 0;
	return blks[nblk++].p;
}
static struct blk *blk_of(const void *p)
{
	int i;
	for (i = nblk; i-- > 0;)
		if ((const unsigned char *)p >= blks[i].p && (const unsigned char *)p < blks[i].p + blks[i].n)
			return &blks[i];
	return NULL;
}
void __wrap_jent_zfree(void *ptr, size_t len)
{
	struct blk *b = blk_of(ptr);
	(void)len;
	if (b)
		munmap((void *)((uintptr_t)b->p & ~(uintptr_t)4095), b->n);
	if (b)
		b->n = 0;
}

/* --- what is watched --- */
static struct blk *region;		/* of the instance in question */
static uint8_t *seen;			/* per byte of the region */
static size_t pass;			/* accesses of the current pass of the startup walk */
static int watch;			/* 1 startup walk, 2 random walk */
static unsigned long repeats;

static void hook(const void *p, size_t n, int wr)
{
	struct blk *b = region;
	if (!b || (const unsigned char *)p < b->p || (const unsigned char *)p >= b->p + b->n)
		b = blk_of(p);
	if (!b)
		return;
	MC_ASSERT((const unsigned char *)p + n <= b->p + b->n, "an access of %zu bytes crosses the end of a block of %zu", n, b->n);
	if (!wr)
		return;
	b->wr++;
	if (b != region || !watch)
		return;
	size_t off = (size_t)((const unsigned char *)p - b->p);
	if (watch == 2) {
		seen[off] = 1;
		return;
	}
	if (pass == b->n) {
		memset(seen, 0, b->n);
		pass = 0;
	}
	MC_ASSERT(!seen[off], "startup walk returns to position %zu after %zu of %zu positions", off, pass, b->n);
	seen[off] = 1;
	pass++;
}

/* --- the measurements --- */
static int in_data, checking;
static unsigned long counted[3];
static unsigned fail_at, nmeas;
unsigned int __real_jent_stuck(struct rand_data *ec, uint64_t d);
unsigned int __wrap_jent_stuck(struct rand_data *ec, uint64_t d)
{
	unsigned r;
	clk_step();
	if (checking) {
		struct blk *b = ec->mem ? blk_of(ec->mem) : NULL;
		unsigned long want = LOOPS, got = b ? b->wr : 0;
		int st = in_data ? (int)ec->startup_state : 0;
		if (st == jent_startup_memory)
			want = LOOPS * STARTUP;
		if (st == jent_startup_sha3 || !b)
			want = 0;
		MC_ASSERT(!ec->mem || (b && (unsigned char *)ec->mem == b->p), "memory is not the region allocated for it");
		MC_ASSERT(got == want, "%lu memory accesses in a measurement of stage %d, expected %lu", got, st, want);
		if (b)
			b->wr = 0;
		counted[st]++;
	}
	if (fail_at && ++nmeas == fail_at)
		ec->health_failure |= JENT_RCT_FAILURE;
	r = __real_jent_stuck(ec, d);
	return r;
}
void __real_jent_random_data(struct rand_data *ec);
void __wrap_jent_random_data(struct rand_data *ec)
{
	int o = in_data;
	struct blk *b = ec->mem ? blk_of(ec->mem) : NULL;
	if (b && !o)
		b->wr = 0;
	in_data = 1;
	__real_jent_random_data(ec);
	in_data = o;
}
int __wrap_jent_fips_enabled(void) { return 0; }
uint32_t __wrap_jent_cache_size_roundup(int all) { return all ? 65536 : 8192; }
void __wrap_jent_sha3_256_init(struct jent_sha_ctx *c) { (void)c; }
void __wrap_jent_sha3_final(struct jent_sha_ctx *c, uint8_t *d) { (void)c; (void)d; }
void __wrap_jent_sha3_update(struct jent_sha_ctx *c, const uint8_t *in, size_t n) { (void)c; (void)in; (void)n; }
int __wrap_jent_sha3_tester(void) { return 0; }

static const unsigned char *st_pat;
static unsigned st_i;
static uint64_t st_hi;
static void pat_cb(void *arg, uint64_t *out)
{
	(void)arg;
	st_hi += 256 * 1000;
	*out = st_hi + st_pat[st_i++ & 15];
}

static void counts(void)
{
	static const unsigned modes[] = { 0, JENT_FORCE_FIPS, JENT_NTG1, JENT_DISABLE_MEMORY_ACCESS, JENT_CACHE_ALL, JENT_NTG1 | JENT_FORCE_FIPS };
	struct rand_data *ec;
	unsigned mode = modes[mc_choose(6, "mode")];
	int size = mc_choose(4, "size");	/* 0: derived from the cache */
	int na = (int)mc_param("alarms", 4);
	unsigned hl = mc_choose(2, "hash loops") ? JENT_HASHLOOP_2 : JENT_HASHLOOP_1;
	int rec = mode & (JENT_FORCE_FIPS | JENT_NTG1) ? mc_choose(4, "recovery") : 0;
	unsigned osr = mc_choose(2, "rate") ? 9 : 3;
	char buf[100];
	clk_install();
	checking = 1;
	at_start = size == 1 ? mc_choose(2, "placement") : 0;
	if (rec == 3)
		fail_at = 3000 + mc_choose(na, "alarm") * (4220 / na);	/* during allocation */
	ec = jent_entropy_collector_alloc(osr, mode | hl | JENT_MAX_MEMSIZE_TO_FLAGS((unsigned)size));
	MC_ASSERT(ec, "no instance");
	region = blk_of(ec->mem);
	if (mode & (JENT_NTG1 | JENT_FORCE_FIPS))
		MC_ASSERT(counted[jent_startup_memory] && counted[jent_startup_sha3], "a source was left out of the startup");
	if (rec == 1)
		ec->health_failure |= JENT_RCT_FAILURE;
	if (rec == 2) {
		nmeas = 0;
		fail_at = 1 + mc_choose(na, "alarm") * (3980 / na);
	}
	ssize_t r = rec ? jent_read_entropy_safe(&ec, buf, 70) : jent_read_entropy(ec, buf, 70);
	MC_ASSERT(r == 70, "read returned %zd", r);
	mc_outcome(counted[0] * 1000003 + counted[1] * 31 + counted[2]);
	mc_states_add(0, counted[0] + counted[1] + counted[2]);
	jent_entropy_collector_free(ec);
}

static struct rand_data *make(int size, unsigned flags)
{
	struct rand_data *ec;
	clk_install();
	ec = jent_entropy_collector_alloc(3, flags | JENT_HASHLOOP_1 | JENT_MAX_MEMSIZE_TO_FLAGS((unsigned)size));
	MC_ASSERT(ec, "no instance");
	region = blk_of(ec->mem);
	MC_ASSERT(region && region->n == (size_t)512 << size, "region of %zu bytes for size %d", region ? region->n : 0, size);
	seen = mmap(NULL, region->n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	return ec;
}

/* startup walk, alone, in measurements of all kinds of lengths */
static void startup_walk(int maxsize)
{
	int size = 1 + mc_choose(maxsize, "size");
	static const unsigned long lens[] = { 1, 2, 3, 127, 128, 129, 384, 385, 1000, 65536, 1ul << 24 };
	unsigned long len, total = 0, d;
	uint64_t dl;
	int li = mc_choose(12, "accesses per measurement");
	struct rand_data *ec;
	at_start = size < 3 ? mc_choose(2, "placement") : 0;
	if (li < 11 && ((size_t)512 << size) / lens[li] > 100000)
		mc_prune();
	if (li == 11 && size > 10)
		mc_prune();
	ec = make(size, JENT_NTG1);
	watch = 1;
	while (total < 2 * region->n) {
		len = li == 11 ? 0 : lens[li];	/* 0: as in the startup */
		d = region->wr;
		jent_measure_jitter_ntg1_memaccess(ec, len, &dl);
		if (!len)
			len = LOOPS * STARTUP;
		MC_ASSERT(region->wr - d == len, "%lu accesses instead of %lu", region->wr - d, len);
		total += len;
	}
	mc_outcome((uint64_t)size * 16 + (unsigned)li);
	mc_states_add(region->n, total);
}

/* the walk the startup itself performs */
static void startup_real(void)
{
	int size = 1 + mc_choose(20, "size");
	struct rand_data *ec;
	at_start = size < 3 ? mc_choose(2, "placement") : 0;
	clk_install();
	ec = make(size, JENT_NTG1);
	/* the same again, watched: the startup of an instance is the stage itself */
	ec->startup_state = jent_startup_memory;
	watch = 1;
	checking = 1;
	region->wr = 0;
	jent_random_data(ec);
	MC_ASSERT(counted[jent_startup_memory] >= 3 * 321 && counted[jent_startup_sha3] >= 3 * 321, "stages left out");
	mc_outcome(size);
	mc_states_add(0, counted[0] + counted[1] + counted[2]);
}

/* random walk under all kinds of time stamps */
static void random_walk(void)
{
	int size = 1 + mc_choose(20, "size"), pos, v, bg;
	static unsigned char pat[16];
	size_t i;
	unsigned long w, miss = 0;
	uint64_t d;
	unsigned part[1024] = { 0 }, low[1024] = { 0 };
	struct rand_data *ec;
	at_start = size < 3 ? mc_choose(2, "placement") : 0;
	ec = make(size, mc_choose(2, "mode") ? JENT_FORCE_FIPS : 0);
	st_pat = pat;
	jent_set_mock_timer(pat_cb, NULL);
	watch = 2;
	for (bg = 0; bg < 3; bg++)
		for (pos = 0; pos < 16; pos++)
			for (v = 0; v < 256; v++) {
				memset(pat, bg == 0 ? 0 : bg == 1 ? 0xff : v * 7 + 5, 16);
				pat[pos] = (unsigned char)v;
				st_i = 0;
				w = region->wr;
				jent_measure_jitter(ec, 0, &d);
				MC_ASSERT(region->wr - w == LOOPS, "%lu accesses instead of %d", region->wr - w, LOOPS);
			}
	for (v = 1; v <= 400; v++) {
		w = region->wr;
		jent_measure_jitter(ec, (uint64_t)v, &d);
		MC_ASSERT(region->wr - w == (unsigned long)v, "%lu accesses instead of %d", region->wr - w, v);
	}
	w = region->wr;
	jent_measure_jitter(ec, 1 << 20, &d);
	MC_ASSERT(region->wr - w == 1 << 20, "%lu accesses instead of %d", region->wr - w, 1 << 20);
	for (i = 0; i < region->n; i++)
		if (seen[i]) {
			part[i / (region->n / 1024)]++;
			low[i & 1023]++;
		} else
			miss++;
	for (i = 0; i < 1024; i++)
		MC_ASSERT(part[i] && low[i], "random walk does not reach part %zu of 1024 of %zu bytes", i, region->n);
	MC_ASSERT(region->n > 1 << 17 || !miss, "random walk does not reach %lu of %zu bytes", miss, region->n);
	mc_outcome((uint64_t)size);
	mc_states_add(0, region->wr);
}

void mc_setup(void)
{
	saccess_hook = hook;
	strace_only = 1;
}
void mc_body(void)
{
	switch (mc_choose(4, "part")) {
	case 0: counts(); break;
	case 1: startup_walk((int)mc_param("sizes", 15)); break;
	case 2: startup_real(); break;
	case 3: random_walk(); break;
	}
}
