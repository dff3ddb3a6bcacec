/*
 * P07 (wiping) and P08 (resource failures): every refusal of an operating
 * system service along initialization, allocation, reading, recovery and
 * release, on the real code.
 */
#include <stdlib.h>
#include "mc.h"
#include "vos.h"
#include "clk.h"
#include "jitterentropy-sha3.h"
#include "jitterentropy-timer.h"

#if PROP == 7
const char *mc_property = "P07";
#else
const char *mc_property = "P08";
#endif
int mc_fork_per_run = 1;
int mc_split_depth = 4;

unsigned int __real_jent_stuck(struct rand_data *ec, uint64_t d);
unsigned int __wrap_jent_stuck(struct rand_data *ec, uint64_t d)
{
	clk_step();
	return __real_jent_stuck(ec, d);
}
static int sysfips;
static long ncpu;
int __wrap_jent_fips_enabled(void) { return sysfips; }
long __wrap_jent_ncpu(void) { return ncpu; }
long __wrap_jent_cpu_highest(void) { return ncpu - 1; }
uint32_t __wrap_jent_cache_size_roundup(int all) { return all ? 8192 : 1024; }
int __wrap_jent_os_random_bytes(uint8_t *b, size_t n) { memset(b, 0x5a, n); return 0; }
int __wrap_jent_sha3_tester(void) { return 0; }

/* --- clock --- */
static int badclock;		/* platform clock stands still */
static long burst;		/* repeated deltas to come */
static uint64_t t_last;
static uint64_t next_delta(void)
{
	if (burst > 0) {
		burst--;
		return 777777;
	}
	return clk_good();
}

static void in_use(void)
{
	int i;
	if (PROP != 8 || !vos_demand)
		return;
	for (i = 0; i < VMAX; i++)
		if (vmaps[i].base)
			MC_ASSERT(!vmaps[i].refused, "memory that could not be locked is used although locking is demanded");
}

static int allzero(const uint8_t *p, size_t n)
{
	static const uint8_t zero[VPAGE];
	return !memcmp(p, zero, n);
}

void *__real_jent_zalloc(size_t len, unsigned int flags);
void *__wrap_jent_zalloc(size_t len, unsigned int flags);
void *__wrap_jent_zalloc(size_t len, unsigned int flags)
{
	uint8_t *p = __real_jent_zalloc(len, flags);
	size_t i;
	if (p && vos_on) {
		struct vmap *m = vos_find(p);
		MC_ASSERT(m && vos_find(p + len - 1) == m, "memory handed out is not mapped");
		if (PROP == 8) {
			size_t f = (size_t)(p - m->base) / VPAGE, l = (size_t)(p + len - 1 - m->base) / VPAGE, k;
			MC_ASSERT(!vos_demand || !m->refused, "memory that could not be locked is handed out although locking is demanded");
			MC_ASSERT(f > 0 && !m->rw[f - 1], "no inaccessible page before a block");
			MC_ASSERT(l + 1 < m->n / VPAGE && !m->rw[l + 1], "no inaccessible page after a block");
			for (k = f; k <= l; k++)
				MC_ASSERT(m->rw[k] && m->nodump[k], "a page of a block is %s", m->rw[k] ? "not to be kept out of core dumps" : "inaccessible");
		}
		for (i = 0; i < len; i += VPAGE)
			MC_ASSERT(allzero(p + i, len - i < VPAGE ? len - i : VPAGE), "fresh memory is not zero");
	}
	return p;
}

void __real_jent_get_nstime_internal(struct rand_data *ec, uint64_t *out);
void __wrap_jent_get_nstime_internal(struct rand_data *ec, uint64_t *out)
{
	in_use();
	if (ec->enable_notime) {
		MC_ASSERT(vos_thread_of(ec) == 1, "measurement with %d counting threads", vos_thread_of(ec));
		clk_cb(NULL, out);
		return;
	}
	if (badclock) {
		*out = 4711;
		return;
	}
	__real_jent_get_nstime_internal(ec, out);
}

/* --- P07 --- */
static void wiped(const struct vmap *m)
{
	size_t i;
	for (i = 0; i < m->n; i++) {
		if (!(i % VPAGE) && !m->rw[i / VPAGE]) {
			i += VPAGE - 1;
			continue;
		}
		if (!(i % VPAGE) && allzero(m->base + i, VPAGE)) {
			i += VPAGE - 1;
			continue;
		}
		if (m->base[i])
			mc_fail("byte %zu of a block of %zu pages is not wiped when given back", i, m->n / VPAGE);
	}
}

/* state consumed and blocks generated since the last call */
struct sec { uint64_t st[25]; uint8_t blk[32]; };
static struct sec secs[64];
static int nsecs;
void __real_jent_drbg_generate_block(struct jent_sha_ctx *ctx, uint8_t *dst, size_t n);
void __wrap_jent_drbg_generate_block(struct jent_sha_ctx *ctx, uint8_t *dst, size_t n)
{
	if (PROP == 7 && vos_on && nsecs < 64 && n) {
		struct jent_sha_ctx c = *ctx;
		struct sec *s = &secs[nsecs++];
		memcpy(s->st, c.state, sizeof(s->st));
		__real_jent_drbg_generate_block(&c, s->blk, 32);
	}
	__real_jent_drbg_generate_block(ctx, dst, n);
}

static int holds(const struct vmap *m, const void *what, size_t n)
{
	size_t i, first = 0, last = m->n / VPAGE;
	while (first < last && !m->rw[first])
		first++;
	while (last > first && !m->rw[last - 1])
		last--;
	for (i = first; i < last; i++)
		if (!m->rw[i])
			return 0;
	return first < last && memmem(m->base + first * VPAGE, (last - first) * VPAGE, what, n) != NULL;
}

static void residue(const char *out, size_t n, int all)
{
	int i, k;
	size_t j;
	for (i = 0; i < VMAX; i++) {
		if (!vmaps[i].base)
			continue;
		for (j = 0; j + 8 <= n; j++)
			MC_ASSERT(!holds(&vmaps[i], out + j, 8), "bytes %zu.. of the output are still in memory after the read", j);
		for (k = 0; k < nsecs; k++) {
			for (j = 0; j + 8 <= 32; j += 1)
				MC_ASSERT(!holds(&vmaps[i], secs[k].blk + j, 8), "block %d (byte %zu) is still in memory after the read", k, j);
			for (j = 0; j < 25; j++)
				MC_ASSERT(!secs[k].st[j] || !holds(&vmaps[i], &secs[k].st[j], 8),
					  "word %zu of the state block %d was derived from is still in memory", j, k);
		}
	}
	nsecs = 0;
}

static void at_rest(const char *when)
{
	int i;
	size_t k;
	if (PROP != 8)
		return;
	MC_ASSERT(vthreads == 0, "%d counting threads left after %s", vthreads, when);
	for (i = 0; i < VMAX; i++) {
		if (!vmaps[i].base || !vos_demand)
			continue;
		MC_ASSERT(!vmaps[i].refused, "%s keeps memory that could not be locked although locking is demanded", when);
		for (k = 0; k < vmaps[i].n / VPAGE; k++)
			MC_ASSERT(!vmaps[i].rw[k] || vmaps[i].lk[k], "%s keeps memory that was not locked although locking is demanded", when);
	}
}

/* a fault that the call may survive: locking refused for lack of privilege or quota, without demand */
static int live0;
static void failed_cleanly(const char *what)
{
	if (PROP != 8)
		return;
	MC_ASSERT(vos_live == live0, "failed %s (refused: %s) leaves %d mappings behind", what, vos_last, vos_live - live0);
	MC_ASSERT(vthreads == 0, "failed %s leaves %d threads behind", what, vthreads);
	MC_ASSERT(vos_nfaults || !*what, "%s fails although nothing was refused", what);
}

static struct { unsigned flags; int fips, ntg, demand, timer; const char *name; } modes[] = {
	{ 0, 0, 0, 0, 0, "plain" },
	{ JENT_FORCE_SECURE_MEM, 0, 0, 1, 0, "secure" },
	{ JENT_FORCE_FIPS, 1, 0, 1, 0, "fips" },
	{ JENT_NTG1, 1, 1, 1, 0, "ntg1" },
	{ 0, 1, 0, 0, 0, "system fips" },
	{ JENT_DISABLE_MEMORY_ACCESS, 0, 0, 0, 0, "no memory" },
	{ JENT_FORCE_INTERNAL_TIMER, 0, 0, 0, 1, "timer" },
	{ JENT_FORCE_INTERNAL_TIMER | JENT_FORCE_FIPS, 1, 0, 1, 1, "timer fips" },
	{ JENT_FORCE_SECURE_MEM | JENT_DISABLE_INTERNAL_TIMER | JENT_MAX_MEMSIZE_4kB | JENT_CACHE_ALL, 0, 0, 1, 0, "secure, 4 kB" },
	{ 0, 0, 0, 0, 2, "fallback to the timer" },
	{ JENT_FORCE_SECURE_MEM, 0, 0, 1, 2, "fallback, secure" },
};
#define NMODES (int)(sizeof(modes) / sizeof(modes[0]))

static struct rand_data *ec;
static unsigned flags;
static char out[256];

static int only_tolerable, big;
static int do_init(int legacy)
{
	return legacy ? jent_entropy_init() : jent_entropy_init_ex(0, flags);
}

/* what the library says about its memory is what the memory is */
static void claims(const char *when)
{
	static char txt[8192];
	int i, says, unlocked = 0;
	size_t k;

	if (PROP != 8)
		return;
	MC_ASSERT(jent_secure_memory_supported(), "secure memory is reported as not supported");
	MC_ASSERT(!jent_status(ec, txt, sizeof(txt)), "no status after %s", when);
	says = strstr(txt, "\"secureMemory\": true") != NULL;
	MC_ASSERT(says || strstr(txt, "\"secureMemory\": false"), "no word about secure memory in the status");
	for (i = 0; i < VMAX; i++)
		for (k = 0; vmaps[i].base && k < vmaps[i].n / VPAGE; k++)
			if (vmaps[i].rw[k] && !vmaps[i].lk[k])
				unlocked = 1;
	MC_ASSERT(!says || !unlocked, "the status after %s claims secure memory, but some is not locked", when);
	MC_ASSERT(says || !vos_demand, "the status after %s denies the secure memory that was demanded", when);
}

static void use(const char *when)
{
	ssize_t r;
	claims(when);
	nsecs = 0;
	r = jent_read_entropy(ec, out, 40);
	if (PROP == 8)
		MC_ASSERT(r == 40, "instance from %s does not work: %zd", when, r);
	at_rest("read");
	if (PROP == 7 && r > 0)
		residue(out, r, 1);
}

void mc_body(void)
{
	int m = mc_choose(NMODES, "mode");
	int sc = mc_choose(8, "scenario"), r, i;
	ssize_t n;

	flags = modes[m].flags;
	sysfips = m == 4;
	ncpu = 4;
	if (!modes[m].timer && (sc < 2 || sc == 6) && mc_choose(2, "one cpu"))
		ncpu = 1;
	badclock = modes[m].timer == 2;
	if (sc >= 3 && sc <= 4 && !modes[m].fips)
		mc_prune();
	if (sc == 6 && (modes[m].demand || modes[m].timer == 1 || m == 5))
		mc_prune();	/* takes no flags */
	if (sc == 7) {
		/* allocation and release with every size of the noise memory */
		int size = 1 + mc_choose(20, "size");
		if (m == 5 || m == 8 || (size > mc_param("faultsize", 13) && m != 0 && m != 2))
			mc_prune();
		flags |= JENT_MAX_MEMSIZE_TO_FLAGS(size);
		big = size > mc_param("faultsize", 13);
	}
	vos_demand = modes[m].demand;
	vos_release = PROP == 7 ? wiped : NULL;
	clk_next = next_delta;
	clk_install();
	vos_on = 1;

	if (sc == 0 || sc == 6) {
		const char *nm = "initialization";
		vos_faults = 1;
		r = do_init(sc == 6);
		vos_faults = 0;
		at_rest(nm);
		failed_cleanly(r ? nm : "");
		if (PROP == 8)
			MC_ASSERT(vos_live == 0, "initialization keeps %d mappings", vos_live);
		mc_outcome(m * 100 + sc * 10 + !!r);
		if (r && PROP == 8) {
			r = do_init(sc == 6);
			MC_ASSERT(!r, "%s: initialization after a transient failure (%s): %d", modes[m].name, vos_last, r);
			if (!modes[m].timer) {
				/* a refusal says nothing about the clock */
				ec = jent_entropy_collector_alloc(0, flags | JENT_DISABLE_INTERNAL_TIMER);
				MC_ASSERT(ec, "%s: after a transient failure (%s) of the initialization the clock is no longer used", modes[m].name, vos_last);
				jent_entropy_collector_free(ec);
			}
		}
		return;
	}
	if (sc >= 2) {
		r = do_init(0);
		MC_ASSERT(!r, "harness: initialization %d", r);
	}
	if (sc == 1 || sc == 2 || sc == 3 || sc == 7) {
		/* allocation; 3: with an alarm during the startup */
		if (sc == 3) {
			static const long at[] = { 95, 140 };
			burst = at[mc_choose(2, "burst")];
		}
		vos_faults = !big;
		ec = jent_entropy_collector_alloc(0, flags);
		vos_faults = 0;
		burst = 0;
		at_rest("allocation");
		mc_outcome(m * 100 + sc * 10 + !!ec + 2 * !!vos_nfaults);
		if (!ec) {
			failed_cleanly("allocation");
			ec = jent_entropy_collector_alloc(0, flags);
			if (PROP == 8)
				MC_ASSERT(ec, "%s: allocation after a transient failure (%s) fails", modes[m].name, vos_last);
			if (!ec)
				return;
		}
		if (sc == 7) {
			/* every byte of the region matters */
			memset(ec->mem, 0xff, (size_t)ec->memmask + 1);
			mc_outcome(7000 + ec->memmask % 4096 + vos_live);
			goto release;
		}
		use("allocation");
	} else {
		ec = jent_entropy_collector_alloc(0, flags);
		MC_ASSERT(ec, "harness: allocation");
		live0 = vos_live;
		if (sc == 4) {
			/* recovery */
			struct rand_data *old = ec;
			use("allocation");
			burst = 95;
			vos_faults = 1;
			n = jent_read_entropy_safe(&ec, out, 64);
			vos_faults = 0;
			burst = 0;
			at_rest("recovery");
			mc_outcome(m * 100 + sc * 10 + (n > 0) + 2 * (ec != old) + 4 * !!vos_nfaults);
			if (PROP == 8) {
				MC_ASSERT(ec, "recovery loses the handle");
				MC_ASSERT(n == 64 || vos_nfaults, "recovery fails with %zd although nothing was refused", n);
				MC_ASSERT(vos_live == live0, "recovery (refused: %s) leaves %d mappings behind", vos_nfaults ? vos_last : "nothing", vos_live - live0);
				if (n != 64) {
					n = jent_read_entropy_safe(&ec, out, 64);
					MC_ASSERT(n == 64, "%s: recovery after a transient failure (%s): %zd", modes[m].name, vos_last, n);
				}
			}
			if (n == 64 && PROP == 7)
				residue(out, 64, 1);
			nsecs = 0;
			use("recovery");
		} else {
			/* reads; the thread may be refused */
			static const size_t len[] = { 1, 8, 31, 32, 33, 64, 200 };
			for (i = 0; i < mc_param("reads", 2); i++) {
				size_t l = len[mc_choose(7, "len")];
				int f = vos_nfaults, safe = mc_choose(2, "safe");
				nsecs = 0;
				memset(out, 0, sizeof(out));
				vos_faults = 1;
				n = safe ? jent_read_entropy_safe(&ec, out, l) : jent_read_entropy(ec, out, l);
				vos_faults = 0;
				at_rest("read");
				if (PROP == 8) {
					if (vos_nfaults > f)
						MC_ASSERT(n == JENT_ERR_NOTIME, "read without counting thread: %zd", n);
					else
						MC_ASSERT(n == (ssize_t)l, "read of %zu: %zd", l, n);
				}
				if (PROP == 7 && n > 0)
					residue(out, n, 1);
			}
		}
	}
release:
	jent_entropy_collector_free(ec);
	if (PROP == 8) {
		MC_ASSERT(vos_live == 0, "%d mappings left after the release", vos_live);
		MC_ASSERT(vthreads == 0, "%d threads left after the release", vthreads);
	}
}
