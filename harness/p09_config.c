/*
 * P09: acceptance and application of flags, oversampling rate, memory size and
 * hash loops, for every combination and after every prior initialization.
 */
#include "mc.h"
#include "jitterentropy.h"
#include "jitterentropy-internal.h"
#include "jitterentropy-health.h"
#include "jitterentropy-timer.h"
#include <stdlib.h>
#include <stdio.h>
#include <sys/mman.h>

const char *mc_property = "P09";
int mc_fork_per_run = 1;
int mc_split_depth = 3;

/* --- environment: everything works --- */
static struct blk { void *p; size_t n; } blks[64];
static long alive;
void *__wrap_jent_zalloc(size_t len, unsigned int flags);
void *__wrap_jent_zalloc(size_t len, unsigned int flags)
{
	int i;
	void *p = len >= 65536 ? mmap(NULL, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0) : calloc(1, len);
	(void)flags;
	for (i = 0; i < 64; i++)
		if (!blks[i].p) {
			blks[i].p = p;
			blks[i].n = len;
			alive++;
			return p;
		}
	mc_fail("harness: too many live blocks");
}
static size_t size_of(void *p)
{
	int i;
	for (i = 0; i < 64; i++)
		if (p && blks[i].p == p)
			return blks[i].n;
	return 0;
}
void __wrap_jent_zfree(void *ptr, size_t len);
void __wrap_jent_zfree(void *ptr, size_t len)
{
	int i;
	if (!ptr)
		return;
	for (i = 0; i < 64; i++)
		if (blks[i].p == ptr)
			break;
	MC_ASSERT(i < 64 && blks[i].n == len, "release of %zu bytes that were not allocated so", len);
	blks[i].p = NULL;
	alive--;
	if (len >= 65536)
		munmap(ptr, len);
	else
		free(ptr);
}
int __wrap_jent_sha3_tester(void) { return 0; }
static uint64_t t_now = 1000;
static int badclock, cur_internal;	/* the platform clock is unusable */
unsigned int __wrap_jent_measure_jitter(struct rand_data *ec, uint64_t l, uint64_t *d);
unsigned int __wrap_jent_measure_jitter(struct rand_data *ec, uint64_t l, uint64_t *d)
{
	static unsigned k;
	uint64_t delta = 100 + (k++ * 37) % 101;
	(void)l;
	t_now += delta;
	cur_internal = ec->enable_notime;
	ec->prev_time = t_now;
	if (d)
		*d = delta;
	return 0;
}
int __wrap_jent_gcd_analyze(uint64_t *h, size_t n, size_t osr);
int __wrap_jent_gcd_analyze(uint64_t *h, size_t n, size_t osr) { (void)h; (void)n; (void)osr; return badclock && !cur_internal ? ECOARSETIME : 0; }
static uint32_t cache1, cacheall;
uint32_t __wrap_jent_cache_size_roundup(int all);
uint32_t __wrap_jent_cache_size_roundup(int all) { return all ? cacheall : cache1; }
static int sysfips;
int __wrap_jent_fips_enabled(void) { return sysfips; }
int __wrap_jent_os_random_bytes(uint8_t *b, size_t n);
int __wrap_jent_os_random_bytes(uint8_t *b, size_t n) { memset(b, 1, n); return 0; }
void __wrap_jent_random_data(struct rand_data *ec);
void __wrap_jent_random_data(struct rand_data *ec) { ec->startup_state = jent_startup_completed; }
long __wrap_jent_ncpu(void);
long __wrap_jent_ncpu(void) { return 4; }
int __wrap_jent_notime_settick(struct rand_data *ec);
int __wrap_jent_notime_settick(struct rand_data *ec) { (void)ec; return 0; }
void __wrap_jent_notime_unsettick(struct rand_data *ec);
void __wrap_jent_notime_unsettick(struct rand_data *ec) { (void)ec; }

/* --- model --- */
#define FI JENT_FORCE_INTERNAL_TIMER
#define DI JENT_DISABLE_INTERNAL_TIMER
#define NG JENT_NTG1
static int m_forced;
#ifdef JENT_CONF_ENABLE_INTERNAL_TIMER
static int m_timer(unsigned f) { return !((m_forced || badclock) && (f & (DI | NG))); }
#else	/* nothing but the platform clock */
static int m_timer(unsigned f) { return !badclock && !(f & FI); }
#endif
static int m_contradict(unsigned f) { return (f & FI) && (f & (DI | NG)); }

static int m_init_ok(unsigned osr, unsigned f)
{
	return !m_contradict(f) && osr <= 20 && m_timer(f);
}
static int m_alloc_ok(unsigned osr, unsigned f)
{
	if ((f & JENT_DISABLE_MEMORY_ACCESS) && ((f & (NG | JENT_FORCE_FIPS)) || sysfips))
		return 0;
	return !m_contradict(f) && osr <= 20 && m_timer(f);
}
/* the internal timer comes into force when an attempt with it is made */
static void m_after(unsigned osr, unsigned f, int ok)
{
	if (ok && ((f & FI) || badclock))
		m_forced = 1;
	if (osr > 20)
		m_forced = jent_notime_forced();	/* not documented either way */
}
static unsigned lg(uint32_t v) { unsigned r = 0; while (v >>= 1) r++; return r; }

static uint64_t m_memsize(unsigned f)
{
	unsigned field = f >> 27, bits;
	uint32_t c = (f & JENT_CACHE_ALL) ? cacheall : cache1;
	if (field)
		return (uint64_t)1 << ((field > 20 ? 20 : field) + 9);
	if (lg(c) == 0)
		bits = 18;
	else
		bits = lg(c) + ((f & JENT_CACHE_ALL) ? 0 : 2);
	if (bits <= 9)
		bits = 18;
	return (uint64_t)1 << (bits > 29 ? 29 : bits);
}

static uint64_t nalloc;
static void one_alloc(unsigned osr, unsigned f)
{
	long before = alive;
	struct rand_data *ec;
	int ok = m_alloc_ok(osr, f);
	unsigned eff = osr < 3 ? 3 : osr, h = (f >> 24) & 7;
	int fips = (f & (NG | JENT_FORCE_FIPS)) || sysfips;
	char status[4096];

	ec = jent_entropy_collector_alloc(osr, f);
	nalloc++;
	MC_ASSERT(!!ec == ok, "allocation (rate %u, flags 0x%x, system FIPS %d, internal timer %s in force) was %s", osr, f, sysfips,
		  m_forced ? "already" : "not", ec ? "accepted" : "refused");
	m_after(osr, f, ok);
	MC_ASSERT(!!jent_notime_forced() == m_forced, "after allocation (rate %u, flags 0x%x) the internal timer is %sin force", osr, f, m_forced ? "not " : "");
	if (!ec) {
		MC_ASSERT(alive == before, "refused allocation left %ld blocks", alive - before);
		return;
	}
	MC_ASSERT(ec->osr == eff, "rate %u became %u", osr, ec->osr);
	if (f & JENT_DISABLE_MEMORY_ACCESS)
		MC_ASSERT(!ec->mem, "noise memory although disabled");
	else {
		uint64_t want = m_memsize(f);
		MC_ASSERT(ec->mem && (uint64_t)ec->memmask + 1 == want && size_of(ec->mem) == want,
			  "flags 0x%x, caches %u/%u: %llu bytes of noise memory (%zu allocated), expected %llu", f, cache1, cacheall,
			  (unsigned long long)ec->memmask + 1, size_of(ec->mem), (unsigned long long)want);
		MC_ASSERT(ec->memaccessloops == JENT_MEM_ACC_LOOP_DEFAULT, "memory access loops %u", ec->memaccessloops);
		MC_ASSERT(jent_memsize(ec->flags) == want, "status memory size differs");
	}
	MC_ASSERT(ec->hashloopcnt == 1u << h, "hash loop setting %u became %u loops", h, ec->hashloopcnt);
	MC_ASSERT(!!ec->is_fips_enabled == fips, "flags 0x%x system FIPS %d: health tests %s", f, sysfips, ec->is_fips_enabled ? "enforced" : "not enforced");
	MC_ASSERT(!!ec->max_mem_set == !!(f >> 27), "memory cap not recorded");
	MC_ASSERT(!!ec->enable_notime == (!(f & (DI | NG)) && m_forced), "flags 0x%x, forced %d: internal timer %sused", f, m_forced, ec->enable_notime ? "" : "not ");
	MC_ASSERT(ec->rct_cutoff == ((f & NG) ? (30 * eff + 7) / 8 : 30 * eff), "flags 0x%x: repetition cutoff %u at rate %u", f, ec->rct_cutoff, eff);
	MC_ASSERT(((ec->flags ^ f) & (JENT_DISABLE_MEMORY_ACCESS | FI | JENT_FORCE_FIPS | NG | JENT_CACHE_ALL)) == 0, "flags 0x%x became 0x%x", f, ec->flags);
	MC_ASSERT((f & DI) ? !!(ec->flags & DI) : 1, "flags 0x%x became 0x%x", f, ec->flags);
	if (fips && (f & (NG | JENT_FORCE_FIPS)))
		MC_ASSERT(ec->flags & JENT_FORCE_SECURE_MEM, "compliance mode without secure memory demand");
	/* the report tells the same */
	MC_ASSERT(jent_status(ec, status, sizeof(status)) == 0, "status report fails");
	mc_outcome(((uint64_t)ec->flags << 20) ^ ((uint64_t)ec->osr << 8) ^ (uint64_t)ec->enable_notime << 1 ^ ec->is_fips_enabled);
	jent_entropy_collector_free(ec);
	MC_ASSERT(alive == before, "%ld blocks not released", alive - before);
}

static void one_init(unsigned osr, unsigned f)
{
	long before = alive;
	int ok = m_init_ok(osr, f);
	int r = jent_entropy_init_ex(osr, f);
	MC_ASSERT(!r == ok, "initialization (rate %u, flags 0x%x) with the internal timer %s in force returned %d", osr, f, m_forced ? "already" : "not", r);
	m_after(osr, f, ok);
	MC_ASSERT(!!jent_notime_forced() == m_forced, "after initialization (rate %u, flags 0x%x) the internal timer is %sin force", osr, f, m_forced ? "not " : "");
	MC_ASSERT(alive == before, "initialization left %ld blocks", alive - before);
}

static const struct { int op; unsigned osr, f; } pre[] = {
	{ 0, 0, 0 }, { 1, 0, 0 }, { 2, 3, 0 }, { 2, 20, JENT_FORCE_FIPS }, { 2, 3, FI }, { 3, 3, FI },
	{ 2, 25, 0 }, { 2, 3, FI | DI }, { 2, 3, NG }, { 2, 3, NG | FI }, { 3, 3, NG }, { 3, 3, FI | NG }, { 2, 21, DI },
	{ 3, 3, JENT_DISABLE_MEMORY_ACCESS },
};
#define NPRE ((int)(sizeof(pre) / sizeof(pre[0])))

static void do_pre(int i)
{
	switch (pre[i].op) {
	case 1:
	{
		int r = jent_entropy_init();
		MC_ASSERT(!r == m_timer(0), "initialization returns %d", r);
		m_after(0, 0, !r);
	}
		break;
	case 2: one_init(pre[i].osr, pre[i].f); break;
	case 3: one_alloc(pre[i].osr, pre[i].f); break;
	}
}

void mc_body(void)
{
	static const unsigned bits[] = { JENT_DISABLE_MEMORY_ACCESS, FI, DI, JENT_FORCE_FIPS, NG, JENT_CACHE_ALL, JENT_FORCE_SECURE_MEM, JENT_DISABLE_STIR | JENT_DISABLE_UNBIAS };
	static const unsigned osrs[] = { 0, 1, 2, 3, 4, 19, 20, 21, 22, 0x80000003u, 0xffffffffu };
	static const uint32_t caches[][2] = { { 0, 0 }, { 1, 1 }, { 2, 4 }, { 64, 128 }, { 1024, 2048 }, { 65536, 1u << 21 }, { 1u << 26, 1u << 28 }, { 1u << 27, 1u << 29 }, { 1u << 28, 1u << 30 }, { 1u << 31, 1u << 31 } };
	unsigned f = 0, i, osr, b;
	int p1, p2, kind;

	p1 = mc_choose(NPRE, "first call");
	b = (unsigned)mc_choose(256, "flags");
	for (i = 0; i < 8; i++)
		if (b >> i & 1)
			f |= bits[i];
	sysfips = mc_choose(2, "system FIPS");
	badclock = mc_choose(2, "platform clock");
	kind = mc_choose(3, "call");	/* allocation, initialization, allocation after a second call */
	cache1 = 65536;
	cacheall = 1u << 21;
	if (kind == 2) {
		/* second prior call, reduced grid */
		p2 = mc_choose(NPRE, "second call");
		do_pre(p1);
		do_pre(p2);
		osr = 3;
		one_init(osr, f);
		one_alloc(osr, f);
	} else {
		/* a fresh process for each rate; memory and hash loop settings share one */
		osr = osrs[mc_choose(sizeof(osrs) / sizeof(osrs[0]), "rate")];
		do_pre(p1);
		if (kind == 1)
			one_init(osr, f);
		else {
			one_alloc(osr, f);
			if (osr == 3 && !(f & FI) && p1 < 3) {
				unsigned m, h, c;
				for (m = 0; m < 32; m++)
					for (h = 0; h < 8; h++)
						for (c = 0; c < sizeof(caches) / sizeof(caches[0]); c++) {
							if (m && c > 1)
								continue;
							cache1 = caches[c][0];
							cacheall = caches[c][1];
							one_alloc(osr, f | m << 27 | h << 24);
						}
			}
		}
	}
	mc_states_add(0, nalloc);
}
