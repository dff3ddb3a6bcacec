/*
 * P03: self-healing reads.  Verdicts of block generation, initialization and
 * allocation are enumerated; the event trace of each execution is replayed on
 * a model of the documented recovery ladder.
 */
#include "mc.h"
#include "jitterentropy.h"
#include "jitterentropy-internal.h"
#include "jitterentropy-health.h"
#include "jitterentropy-sha3.h"
#include "jitterentropy-gcd.h"
#include "jitterentropy-noise.h"
#include "ref_health.h"
#include <stdlib.h>
#include <stdio.h>
#include <errno.h>
#include <sys/mman.h>

const char *mc_property = "P03";
int mc_fork_per_run = 1;
int mc_split_depth = 6;

enum { EV_T, EV_Z, EV_G, EV_R, EV_F };
struct ev { int type; int ok; unsigned osr, mask; void *p; uint64_t memsize; unsigned hashloops; };
static struct ev ev[4096];
static int nev;
static int live;

static struct ev *log_ev(int type, int ok)
{
	struct ev *e = &ev[nev++];
	MC_ASSERT(nev < 4000, "recovery does not terminate (%d events)", nev);
	memset(e, 0, sizeof(*e));
	e->type = type;
	e->ok = ok;
	return e;
}

/* --- controlled environment --- */
static int dflt_startup, dflt_read, dflt_init;	/* default verdicts: 0 good */
static int in_startup_depth;

static struct blk { void *p; size_t n; int freed; } blks[2048];
static int nblk;

void *__wrap_jent_zalloc(size_t len, unsigned int flags);
void *__wrap_jent_zalloc(size_t len, unsigned int flags)
{
	void *p;
	int bad = live ? mc_env(2, "memory") : 0;
	if (live)
		log_ev(EV_Z, !bad);
	if (bad)
		return NULL;
	if (len >= 65536)
		p = mmap(NULL, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	else
		p = calloc(1, len);
	blks[nblk].p = p;
	blks[nblk].n = len;
	blks[nblk++].freed = 0;
	(void)flags;
	return p;
}

void __wrap_jent_zfree(void *ptr, size_t len);
void __wrap_jent_zfree(void *ptr, size_t len)
{
	int i;
	if (!ptr)
		return;
	for (i = nblk - 1; i >= 0; i--)
		if (blks[i].p == ptr && !blks[i].freed)
			break;
	MC_ASSERT(i >= 0, "memory released twice or never allocated");
	MC_ASSERT(blks[i].n == len, "memory of %zu bytes released as %zu", blks[i].n, len);
	blks[i].freed = 1;	/* never reused: a later access of a stale pointer stays visible */
	if (len < 65536)
		memset(ptr, 0xdd, len);
	else
		mprotect(ptr, len, PROT_NONE);
}

static int is_live(void *p)
{
	int i;
	for (i = 0; i < nblk; i++)
		if (blks[i].p == p)
			return !blks[i].freed;
	return 0;
}

int __real_jent_sha3_tester(void);
int __wrap_jent_sha3_tester(void)
{
	int bad = live ? mc_env(2, "self test") : 0;
	if (live)
		log_ev(EV_T, !bad);
	return bad;
}

static uint64_t t_now = 1000;
unsigned int __wrap_jent_measure_jitter(struct rand_data *ec, uint64_t l, uint64_t *d);
unsigned int __wrap_jent_measure_jitter(struct rand_data *ec, uint64_t l, uint64_t *d)
{
	static unsigned k;
	uint64_t delta = 100 + (k++ * 37) % 101;
	(void)l;
	MC_ASSERT(is_live(ec), "measurement on a released instance");
	t_now += delta;
	ec->prev_time = t_now;
	if (d)
		*d = delta;
	return 0;
}

int __wrap_jent_gcd_analyze(uint64_t *h, size_t n, size_t osr);
int __wrap_jent_gcd_analyze(uint64_t *h, size_t n, size_t osr)
{
	int bad = 0;
	(void)h; (void)n;
	if (live) {
		bad = mc_env(2, "timer verdict") ^ dflt_init;
		log_ev(EV_G, !bad)->osr = (unsigned)osr;
	}
	return bad ? ECOARSETIME : 0;
}

uint32_t cache_bytes;
uint32_t __wrap_jent_cache_size_roundup(int all);
uint32_t __wrap_jent_cache_size_roundup(int all) { (void)all; return cache_bytes; }
int __wrap_jent_fips_enabled(void) { return 0; }
int __wrap_jent_os_random_bytes(uint8_t *b, size_t n);
int __wrap_jent_os_random_bytes(uint8_t *b, size_t n)
{
	static uint8_t k;
	k++;
	memset(b, k, n);
	return 0;
}

static const unsigned masks[] = { 0, RH_RCT, RH_PERM(RH_RCT), RH_APT, RH_LAG, RH_MEM,
				  RH_PERM(RH_APT) | RH_RCT, RH_PERM(RH_LAG), RH_PERM(RH_MEM) | RH_APT, RH_LAG | RH_APT };
#define NMASK 10
static int first_block, probe, probed, prof;
static struct rand_data *reading;	/* instance the read began with */
static struct rh cont;
static int have_cont;
static unsigned gen_calls;

static ssize_t code(unsigned f)
{
	if (f & RH_PERM(RH_RCT)) return -6;
	if (f & RH_PERM(RH_APT)) return -7;
	if (f & RH_PERM(RH_LAG)) return -8;
	if (f & RH_PERM(RH_MEM)) return -10;
	if (f & RH_RCT) return -2;
	if (f & RH_APT) return -3;
	if (f & RH_MEM) return -9;
	if (f & RH_LAG) return -5;
	return 0;
}
static int is_perm(unsigned f) { return (f >> 16) != 0; }

/* the health tests of a recovered instance continue from the alarm */
static uint64_t probe_delta(int k)
{
	static const uint64_t per[3] = { 500, 777, 901 };
	int r;
	switch (probe) {
	case 1: return 0;		/* repetition, proportion */
	case 2: return per[k % 3];	/* periodic: predictor */
	case 3:
		/* after the recovery: a good clock for the rest of the proportion window, then the fault again */
		if (!have_cont)
			return 0;
		r = k - have_cont;
		if (r < 512 - (int)cont.apt_n || r % 7 == 6)
			return 1000 + 7 * (uint64_t)k * k;
		return 0;
	}
	return 0;
}

static void probe_old(struct rand_data *ec)
{
	int k;
	rh_init(&cont, ec->osr, !!(ec->flags & JENT_NTG1));
	/* start from a fresh health state so that the model knows it */
	ec->rct_count = 0;
	ec->apt_base_set = 0;
	ec->apt_observations = 0;
	ec->apt_count = 0;
	for (k = 0; k < 5000 && !ec->health_failure; k++) {
		uint64_t d = probe_delta(k);
		ec->rct_mem_ctr = 60000;
		jent_stuck(ec, d);
		cont.mem_pos = 60000;
		rh_sample(&cont, d);
	}
	have_cont = k;
	MC_ASSERT(ec->health_failure == cont.fail, "harness: health model out of step (0x%x, 0x%x)", ec->health_failure, cont.fail);
}

static void probe_new(struct rand_data *ec)
{
	struct rh n;
	int k;
	unsigned keep = ec->health_failure;
	rh_init(&n, ec->osr, !!(ec->flags & JENT_NTG1));
	n.rct = n.rct_c;
	if (cont.apt_n) {
		n.apt_on = 1;
		n.apt_base = cont.apt_base;
		n.apt_cnt = n.apt_c;
		n.apt_n = cont.apt_n;
	}
	memcpy(n.past, cont.past, sizeof(n.past));
	n.lag_n = cont.lag_n;
	memcpy(n.lag_score, cont.lag_score, sizeof(n.lag_score));
	n.lag_best = cont.lag_best;
	n.lag_run = cont.lag_run;
	n.lag_hits = cont.lag_hits;
	MC_ASSERT(keep == 0, "the recovered instance starts with failures 0x%x", keep);
	for (k = 0; k < 5000; k++) {
		uint64_t d = probe_delta(have_cont + k);
		ec->rct_mem_ctr = 60000;
		n.mem_pos = 60000;
		jent_stuck(ec, d);
		rh_sample(&n, d);
		MC_ASSERT(ec->health_failure == n.fail,
			  "rate %u: %d measurements after the recovery the persisting fault gives failures 0x%x, "
			  "continuing from the alarm gives 0x%x", ec->osr, k + 1, ec->health_failure, n.fail);
		if (is_perm(n.fail))
			break;
	}
	/* a further recovery continues from here */
	n.fail = 0;
	cont = n;
	have_cont += k;
	probed++;
}

void __wrap_jent_random_data(struct rand_data *ec);
void __wrap_jent_random_data(struct rand_data *ec)
{
	int startup = ec->startup_state != jent_startup_completed || !live;
	struct ev *e;
	unsigned mask = 0;
	if (!live) {
		ec->startup_state = jent_startup_completed;
		return;
	}
	MC_ASSERT(is_live(ec), "block generated in a released instance");
	ec->startup_state = jent_startup_completed;
	if (first_block) {
		first_block = 0;
		reading = ec;
		if (probe) {
			probe_old(ec);
			mask = ec->health_failure;
		} else
			mask = masks[1 + mc_choose(mc_param("deep", 0) ? 1 : prof && !mc_thorough() ? 3 : NMASK - 1, "first failure")];
	} else if (probe && ec != reading && !startup) {
		probe_new(ec);
		mask = ec->health_failure;
	} else {
		int d = startup ? dflt_startup : dflt_read;
		int alt = mc_env(startup ? 3 : 4, startup ? "startup block" : "block");
		/* rotate so that alternative 0 is the default verdict */
		static const unsigned v[4] = { 0, RH_RCT, RH_PERM(RH_APT), RH_LAG | RH_MEM };
		int n = startup ? 3 : 4;
		mask = v[(d + alt) % n];
	}
	if (mask)
		ec->health_failure |= mask;
	e = log_ev(EV_R, 1);
	e->mask = ec->health_failure;
	e->p = ec;
	e->osr = ec->osr;
	e->memsize = (uint64_t)ec->memmask + 1;
	e->hashloops = ec->hashloopcnt;
	e->ok = startup;
}

void __wrap_jent_drbg_generate_block(struct jent_sha_ctx *ctx, uint8_t *dst, size_t n);
void __wrap_jent_drbg_generate_block(struct jent_sha_ctx *ctx, uint8_t *dst, size_t n)
{
	(void)ctx;
	gen_calls++;
	memset(dst, 0x80 + (int)(gen_calls & 31), n);
}

/* --- the model --- */
struct cfg { unsigned osr, mem, hash; int capped; };
static int pc;

static unsigned field_up(unsigned f, unsigned max) { return f < max ? f + 1 : max; }

/* one reinitialization; returns 0 and the new configuration, or -1 */
static int m_reset(struct cfg *c, int full);

static int mem_at_max;
static int m_startup(struct cfg *c)
{
	int nested = 0;
	for (;;) {
		MC_ASSERT(pc < nev && ev[pc].type == EV_R && ev[pc].ok, "a new instance was not started up");
		MC_ASSERT(ev[pc].osr == c->osr, "new instance has rate %u, expected %u", ev[pc].osr, c->osr);
		/* a restart during startup may, but need not, enlarge the memory again */
		if (nested && !c->capped && ev[pc].memsize == (uint64_t)1 << (c->mem + 8))
			c->mem--;
		MC_ASSERT(ev[pc].memsize == (uint64_t)1 << (c->mem + 9), "new instance has %llu bytes of noise memory, expected 2^%u",
			  (unsigned long long)ev[pc].memsize, c->mem + 9);
		MC_ASSERT(ev[pc].hashloops == 1u << c->hash, "new instance has %u hash loops, expected 2^%u", ev[pc].hashloops, c->hash);
		if (!ev[pc++].mask)
			return 0;
		if (m_reset(c, 0))
			return -1;
		nested = !mem_at_max;
	}
}

static int m_reset(struct cfg *c, int full)
{
	struct cfg n = *c;
	n.osr++;
	if (n.osr > 20)
		return -1;
	mem_at_max = n.mem == 20;
	if (!n.capped)
		n.mem = field_up(n.mem, 20);
	n.hash = field_up(n.hash, 7);
	for (;;) {
		int pass = 0;
		MC_ASSERT(pc < nev && ev[pc].type == EV_T, "expected an initialization at rate %u", n.osr);
		if (ev[pc++].ok) {
			int bad = 0;
			while (pc < nev && (ev[pc].type == EV_Z || ev[pc].type == EV_G)) {
				if (ev[pc].type == EV_Z) {
					bad |= !ev[pc].ok;
					pc++;
					if (bad)
						break;
				} else {
					MC_ASSERT(ev[pc].osr == n.osr, "initialization at rate %u, expected %u", ev[pc].osr, n.osr);
					pass = ev[pc].ok;
					pc++;
					break;
				}
			}
			/* after a refused allocation nothing else is decided */
		}
		if (pass)
			break;
		n.osr++;
		if (n.osr > 20)
			return -1;
	}
	/* allocation */
	while (pc < nev && ev[pc].type == EV_Z)
		if (!ev[pc++].ok)
			return -1;
	if (full && m_startup(&n))
		return -1;
	*c = n;
	return 0;
}

/* expected result of a self-healing read */
static ssize_t m_read(struct cfg *c, size_t n, int *resets, unsigned *draws)
{
	for (;;) {
		size_t left = n;
		unsigned mask = 0;
		while (left) {
			MC_ASSERT(pc < nev && ev[pc].type == EV_R && !ev[pc].ok, "expected a block for the read");
			MC_ASSERT(ev[pc].osr == c->osr, "block generated at rate %u, expected %u", ev[pc].osr, c->osr);
			mask = ev[pc++].mask;
			if (mask)
				break;
			(*draws)++;
			left -= left < 32 ? left : 32;
		}
		if (!mask)
			return (ssize_t)n;
		if (is_perm(mask))
			return code(mask);
		{
			struct cfg k = *c;
			if (m_reset(&k, 1))
				return code(mask);
			*c = k;
			(*resets)++;
		}
	}
}

static unsigned memfield(const struct rand_data *ec)
{
	unsigned f = 0;
	while (((uint64_t)1 << (f + 9)) < (uint64_t)ec->memmask + 1)
		f++;
	return f;
}
static unsigned hashfield(const struct rand_data *ec)
{
	unsigned f = 0;
	while ((1u << f) < ec->hashloopcnt)
		f++;
	return f;
}

void mc_body(void)
{
	static const unsigned osrs[] = { 3, 17, 19, 20 };
	static const size_t lens[] = { 32, 1, 70 };
	static char buf[256];
	struct rand_data *ec, *old;
	struct cfg c;
	unsigned flags, hash;
	int mem, i, two, ntg1, callno;

	prof = mc_choose(5, "default behaviour");
	ntg1 = mc_choose(2, "mode");
	c.osr = osrs[mc_choose(4, "initial rate")];
	mem = mc_choose(4, "memory");
	hash = mc_choose(3, "hash loops") * 3;		/* 0, 3, 6 */
	probe = prof == 0 ? mc_choose(4, "probe") : 0;
	two = mc_choose(2, "calls") + 1;
	if (mc_param("deep", 0) && ((c.osr == 20) || mem > 1 || hash || two > 1 || probe || (ntg1 && prof)))
		mc_prune();
	if (prof && (mem == 2 || hash == 3) && !mc_thorough())
		mc_prune();
	if (probe && (mem || hash))
		mc_prune();
	flags = (ntg1 ? JENT_NTG1 : JENT_FORCE_FIPS | JENT_DISABLE_INTERNAL_TIMER) | JENT_HASHLOOP_TO_FLAGS(hash);
	cache_bytes = 65536;
	switch (mem) {
	case 1: flags |= JENT_MAX_MEMSIZE_4kB; break;
	case 2: flags |= JENT_MAX_MEMSIZE_512MB; break;
	case 3: cache_bytes = 1u << 27; flags |= JENT_CACHE_ALL; break;		/* near the maximum by itself */
	}
	ec = jent_entropy_collector_alloc(c.osr, flags);
	MC_ASSERT(ec, "harness: allocation");
	c.mem = memfield(ec);
	c.hash = hashfield(ec);
	c.capped = mem == 1 || mem == 2;
	dflt_startup = prof == 1 || prof == 3;
	dflt_read = prof == 2 || prof == 3;
	dflt_init = prof == 4;
	if (probe)
		two = 1;
	if (mem) {
		/* an instance with a long history */
		ec->read_invocations = 0x8000000100000005ull;
		ec->bytes_output = 0x70000001fffffff0ull;
		ec->reinit_count = 0x80010003u;
	}
	live = 1;
	for (callno = 0; callno < two; callno++) {
		uint8_t uuid[sizeof(ec->uuid)];
		uint64_t inv = ec->read_invocations, by = ec->bytes_output;
		unsigned reinit = ec->reinit_count, oflags = ec->flags, draws = 0;
		size_t n = lens[mc_param("deep", 0) ? 0 : mc_choose(callno ? 1 : 3, "length")];
		int resets = 0;
		struct cfg before = c;
		ssize_t r, want;

		memcpy(uuid, ec->uuid, sizeof(uuid));
		nev = pc = 0;
		gen_calls = 0;
		first_block = callno == 0 || !ec->health_failure;
		old = ec;
		memset(buf, 0x11, sizeof(buf));
		r = jent_read_entropy_safe(&ec, buf, n);
		want = m_read(&c, n, &resets, &draws);
		MC_ASSERT(r == want, "read returned %zd, the documented ladder gives %zd", r, want);
		MC_ASSERT(pc == nev, "%d actions beyond the documented ladder (next %d)", nev - pc, ev[pc].type);
		MC_ASSERT(is_live(ec), "the handle refers to a released instance");
		MC_ASSERT((ec != old) == (resets > 0), "the handle %s", resets ? "is still the replaced instance" : "changed without recovery");
		MC_ASSERT(ec->osr == c.osr && memfield(ec) == c.mem && hashfield(ec) == c.hash && !!ec->max_mem_set == !!c.capped,
			  "after %d recoveries: rate %u memory %u hash %u cap %d, expected %u %u %u %d", resets,
			  ec->osr, memfield(ec), hashfield(ec), ec->max_mem_set, c.osr, c.mem, c.hash, c.capped);
		MC_ASSERT(!memcmp(ec->uuid, uuid, sizeof(uuid)), "the UUID changed in a recovery");
		MC_ASSERT(ec->reinit_count == reinit + (unsigned)resets, "%d recoveries counted as %u", resets, ec->reinit_count - reinit);
		MC_ASSERT(((ec->flags ^ oflags) & ~(JENT_MAX_MEMSIZE_MASK | JENT_MAX_HASHLOOP_MASK)) == 0, "flags 0x%x became 0x%x", oflags, ec->flags);
		MC_ASSERT(ec->read_invocations == inv + (r >= 0) && ec->bytes_output == by + (r >= 0 ? n : 0),
			  "counters %llu/%llu became %llu/%llu after a result of %zd", (unsigned long long)inv, (unsigned long long)by,
			  (unsigned long long)ec->read_invocations, (unsigned long long)ec->bytes_output, r);
		MC_ASSERT(gen_calls == draws, "%u blocks drawn, expected %u", gen_calls, draws);
		if (r >= 0) {
			MC_ASSERT(r == (ssize_t)n && jent_health_failure(ec) == 0, "data delivered by a failed instance");
			for (i = 0; i < (int)sizeof(buf); i++)
				MC_ASSERT((buf[i] != 0x11) == (i < (int)n), "byte %d of %zu", i, n);
			/* all blocks of the answer come from the final instance */
			for (i = 0; i < (int)n; i++)
				MC_ASSERT((uint8_t)buf[i] == 0x80 + ((gen_calls - (unsigned)(n + 31) / 32 + 1 + (unsigned)i / 32) & 31),
					  "byte %d stems from before the recovery", i);
		} else if (resets == 0) {
			MC_ASSERT(jent_health_failure(ec) != 0, "the failed instance no longer fails");
		}
		MC_ASSERT(c.osr >= before.osr && c.osr <= 20, "rate %u", c.osr);
		mc_outcome(mc_hash(&c, sizeof(c), (uint64_t)r * 31 + (uint64_t)resets));
		mc_states_add(0, (uint64_t)nev);
		/* exactly one instance is alive: three blocks */
		{
			int alive = 0;
			for (i = 0; i < nblk; i++)
				alive += !blks[i].freed;
			MC_ASSERT(alive == 3, "%d memory blocks alive with one instance", alive);
		}
	}
	live = 0;
	jent_entropy_collector_free(ec);
	for (i = 0; i < nblk; i++)
		MC_ASSERT(blks[i].freed, "memory not released at the end");
	MC_ASSERT(!probe || probed || mc_deviations() || c.osr > 10, "harness: probe did not run");
}
