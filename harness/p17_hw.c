/*
 * P17, kernel and bare CPUID builds: working-set size derived from every
 * topology that the processor itself describes.  HW: 1 = x86 kernel,
 * 2 = arm64 kernel, 3 = CPUID without an operating system.
 */
#include <stdlib.h>
#include <stdio.h>
#include "mc.h"
#include "jitterentropy.h"
#include "jitterentropy-internal.h"

const char *mc_property = "P17";
int mc_fork_per_run = 1;
int mc_split_depth = 3;

#define NCPU 4
#define NC 6
struct cache { unsigned type, level, ways, parts, line, sets; };	/* type: 0 none 1 data 2 instruction 3 unified */
static struct cpu { int online, unreachable; struct cache c[NC]; int n; int leaf; } cpus[NCPU];
static int cur;			/* the CPU executing */
static int locked, calls;
static unsigned max_basic = 0x1f, max_ext = 0x80000020u;

static uint64_t size_of(const struct cache *c)
{
	return (uint64_t)c->ways * c->parts * c->line * c->sets;
}

/* ---------------- the processor ---------------- */
static void x86_leaf(unsigned leaf, unsigned sub, unsigned *a, unsigned *b, unsigned *c, unsigned *d)
{
	const struct cpu *p = &cpus[cur];
	*a = *b = *c = *d = 0;
	MC_ASSERT(sub < 64, "subleaf %u of the cache leaf is asked for", sub);
	if ((leaf < 0x80000000u && leaf > max_basic) || (leaf >= 0x80000000u && leaf > max_ext)) {
		/* another leaf's contents */
		*a = 1 | 1 << 5; *b = 1023u << 22 | 1023u << 12 | 0xfff; *c = 0xffff;
		return;
	}
	if (!((leaf == 4 && (p->leaf & 1)) || (leaf == 0x8000001du && (p->leaf & 2))))
		return;
	if (sub >= (unsigned)p->n)
		return;
	*a = p->c[sub].type | p->c[sub].level << 5 | 1 << 8 | 7u << 26;
	*b = (p->c[sub].ways - 1) << 22 | (p->c[sub].parts - 1) << 12 | (p->c[sub].line - 1);
	*c = p->c[sub].sets - 1;
	*d = 4;
}

#if HW == 3
int __get_cpuid_count(unsigned leaf, unsigned sub, unsigned *a, unsigned *b, unsigned *c, unsigned *d)
{
	if ((leaf < 0x80000000u && leaf > max_basic) || (leaf >= 0x80000000u && leaf > max_ext))
		return 0;
	x86_leaf(leaf, sub, a, b, c, d);
	return 1;
}
#else
struct kcpuinfo boot_cpu_data;
void cpuid_count(unsigned op, int count, unsigned *a, unsigned *b, unsigned *c, unsigned *d)
{
	MC_ASSERT(cur >= 0, "CPUID is executed on no particular CPU");
	if (op == 0) { *a = max_basic; *b = *c = *d = 0; return; }
	if (op == 0x80000000u) { *a = max_ext; *b = *c = *d = 0; return; }
	x86_leaf(op, count, a, b, c, d);
}
void cpus_read_lock(void) { MC_ASSERT(!locked, "CPU lock taken twice"); locked = 1; }
void cpus_read_unlock(void) { MC_ASSERT(locked, "CPU lock given back twice"); locked = 0; }
int knext_online_cpu(int c)
{
	for (c++; c < NCPU; c++)
		if (cpus[c].online)
			return c;
	return nr_cpu_ids;
}
int num_online_cpus_(void) { int i, n = 0; for (i = 0; i < NCPU; i++) n += cpus[i].online; return n; }
bool cpu_online(int c) { return c >= 0 && c < NCPU && cpus[c].online; }
int smp_call_function_single(int c, void (*fn)(void *), void *info, int wait)
{
	MC_ASSERT(cpu_online(c), "call on CPU %d, which is not online", c);
	MC_ASSERT(wait, "call on CPU %d is not waited for", c);
	calls++;
	if (cpus[c].unreachable)
		return -ENXIO;
	cur = c;
	fn(info);
	cur = -1;
	return 0;
}
/* arm64 registers: the selection takes effect with the barrier */
static int ccidx;
static u64 sel_written, sel_eff = 0xbad;
u64 kread_sysreg(const char *n)
{
	const struct cpu *p = &cpus[cur < 0 ? 0 : cur];
	int i;
	MC_ASSERT(cur >= 0, "%s is read on no particular CPU", n);
	if (!strcmp(n, "clidr_el1")) {
		u64 v = (u64)1 << 27;	/* level of unification and the like */
		static const unsigned ctype[4] = { 0, 2, 1, 4 };
		for (i = 0; i < p->n; i++) {
			unsigned t = ctype[p->c[i].type];
			if (p->c[i].type == 1 && (p->leaf & 1))
				t = 3;	/* separate instruction and data */
			v |= (u64)t << 3 * (p->c[i].level - 1);
		}
		return v;
	}
	if (!strcmp(n, "id_aa64mmfr2_el1"))
		return (u64)!!ccidx << 20 | 0xf0f0f;
	if (!strcmp(n, "ccsidr_el1")) {
		MC_ASSERT(!(sel_eff & 1), "the instruction cache is read");
		for (i = 0; i < p->n; i++)
			if (p->c[i].level == (sel_eff >> 1) + 1) {
				u64 l = 0;
				while ((16u << l) < p->c[i].line)
					l++;
				return ccidx ? l | (u64)(p->c[i].ways - 1) << 3 | (u64)(p->c[i].sets - 1) << 32 :
					       l | (u64)(p->c[i].ways - 1) << 3 | (u64)(p->c[i].sets - 1) << 13 | (u64)0xf << 28;
			}
		return 0x3fffffff;	/* not a cache: anything */
	}
	mc_fail("harness: register %s", n);
	return 0;
}
void kwrite_sysreg(u64 v, const char *n)
{
	MC_ASSERT(!strcmp(n, "csselr_el1"), "register %s is written", n);
	sel_written = v;
}
void kisb(void) { sel_eff = sel_written; }
#endif

/* ---------------- the question ---------------- */
static uint32_t roundup(uint64_t s)
{
	uint64_t p = 1;
	if (!s)
		return 0;
	while (p <= s && p < (1ull << 31))
		p <<= 1;
	return (uint32_t)p;
}
static uint32_t expect(int all)
{
	uint64_t l[5] = { 0 }, sum;
	int c, i;
	for (c = 0; c < NCPU; c++) {
		if (!cpus[c].online || cpus[c].unreachable)
			continue;
		if (HW != 2 && !((cpus[c].leaf & 1 && max_basic >= 4) || (cpus[c].leaf & 2 && max_ext >= 0x8000001du)))
			continue;
		for (i = 0; i < cpus[c].n && cpus[c].c[i].type; i++)
			if (cpus[c].c[i].type != 2 && size_of(&cpus[c].c[i]) > l[cpus[c].c[i].level])
				l[cpus[c].c[i].level] = size_of(&cpus[c].c[i]);
	}
	for (i = 1; i < 5; i++)
		if (l[i] > (1ull << 31))
			l[i] = 1ull << 31;
	sum = l[1] + (all ? l[2] + l[3] : 0);
	return roundup(sum);
}
static void ask(void)
{
	int first = mc_choose(2, "all");
	uint32_t e[2] = { expect(0), expect(1) }, r;
	int k, before;
#if HW != 3
	cur = -1;
	boot_cpu_data.cpuid_level = (int)max_basic;
	boot_cpu_data.extended_cpuid_level = max_ext;
#endif
	r = jent_cache_size_roundup(first);
	MC_ASSERT(r == e[first], "derived size %u (all levels: %d), expected %u", r, first, e[first]);
	MC_ASSERT(!locked, "the CPU lock is kept");
	before = calls;
	/* computed once: whatever the system says later */
	for (k = 0; k < NCPU; k++)
		cpus[k].n = 0;
	for (k = 0; k < 3; k++) {
		r = jent_cache_size_roundup(k & 1);
		MC_ASSERT(r == e[k & 1], "later answer %u (all levels: %d), expected %u", r, k & 1, e[k & 1]);
	}
	MC_ASSERT(calls == before, "the discovery is repeated");
	mc_outcome(e[0] * 31ull + e[1]);
}

static const struct cache cat[] = {
	{ 1, 1, 8, 1, 64, 64 }, { 2, 1, 16, 1, 64, 128 }, { 3, 2, 16, 1, 64, 1024 }, { 1, 2, 4, 1, 32, 512 },
	{ 3, 3, 16, 1, 64, 16384 }, { 2, 2, 8, 1, 64, 4096 }, { 1, 3, 12, 1, 128, 8192 }, { 1, 1, 12, 1, 64, 64 },
};
#define NCAT (int)(sizeof(cat) / sizeof(cat[0]))

static void put(struct cpu *p, struct cache c) { p->c[p->n++] = c; }

void mc_body(void)
{
	int sc = mc_choose(4, "scenario"), i, k;
	cpus[0].online = 1;
	cpus[0].leaf = 3;
	if (sc == 0) {
		/* all lists of caches */
		int n = mc_choose(1 + mc_param("caches", 4), "caches"), have[5] = { 0 }, last = 0;
		cpus[0].leaf = HW == 2 ? mc_choose(2, "split") : mc_choose(4, "leaf");
		for (i = 0; i < n; i++) {
			struct cache c;
			k = mc_choose(NCAT + 1, "cache");
			if (k == NCAT) {
				if (HW == 2)
					mc_prune();
				/* the end; what follows is meaningless */
				put(&cpus[0], (struct cache){ 0, 1, 1, 1, 64, 1 });
				continue;
			}
			c = cat[k];
			if (HW == 2) {
				/* one entry per level, without gaps */
				if ((int)c.level != last + 1)
					mc_prune();
				last = c.level;
			}
			/* one data or unified cache per level */
			if (c.type != 2 && have[c.level]++)
				mc_prune();
			put(&cpus[0], c);
		}
		if (HW != 2 && n < 3 && mc_choose(2, "old basic"))
			max_basic = mc_choose(2, "l") ? 1 : 3;
		if (HW != 2 && n < 3 && mc_choose(2, "old ext"))
			max_ext = mc_choose(2, "l") ? 0x80000008u : 0x8000001cu;
	} else if (sc == 1) {
		/* all geometries of one cache, at every level */
		static const unsigned w[] = { 1, 2, 3, 16, 17, 255, 1024 }, pt[] = { 1, 2, 1024 }, ln[] = { 16, 32, 64, 128, 2048 },
			s[] = { 1, 2, 63, 64, 1024, 4097, 32768 };
		struct cache c = { 1, 1 + mc_choose(3, "level"), w[mc_choose(7, "ways")], HW == 2 ? 1 : pt[mc_choose(3, "parts")], ln[mc_choose(5, "line")], s[mc_choose(7, "sets")] };
		if (HW == 2 && c.line > 2048)
			mc_prune();
#if HW == 2
		ccidx = mc_choose(2, "ccidx");
		if (ccidx && mc_choose(2, "wide")) {
			static const unsigned ww[] = { 1, 2, 1025, 1 << 21 }, ss[] = { 1, 32769, 1 << 21, (1 << 23) + 5, 1 << 24 };
			c.ways = ww[mc_choose(4, "w")];
			c.sets = ss[mc_choose(5, "s")];
		}
#endif
		for (i = 1; i < (int)c.level; i++)
			put(&cpus[0], (struct cache){ i == 1 ? 1 : 3, i, 2, 1, 64, 16 });
		put(&cpus[0], c);
		if (HW != 2)
			cpus[0].leaf = 1 + mc_choose(2, "leaf");
	} else if (sc == 2) {
		/* different CPUs */
		if (HW == 3)
			mc_prune();
		for (i = 0; i < NCPU; i++) {
			cpus[i].online = mc_choose(2, "online");
			if (!cpus[i].online && i == 0 && HW == 2 && 0)
				mc_prune();
			if (cpus[i].online)
				cpus[i].unreachable = mc_choose(2, "unreachable");
			cpus[i].leaf = HW == 2 ? 1 : 1 + i % 2;
			k = !cpus[i].online || cpus[i].unreachable ? 4 : mc_choose(5, "kind");
			put(&cpus[i], (struct cache){ 1, 1, k == 1 ? 12 : k == 4 ? 64 : 8, 1, 64, 64 });
			put(&cpus[i], (struct cache){ 3, 2, 8, 1, 64, k == 0 ? 4096 : k == 4 ? 32768 : 1024 });
			if (k == 2 || k == 4)
				put(&cpus[i], (struct cache){ 3, 3, k == 4 ? 64 : 12, 1, 64, 8192 });
			if (k == 3)
				cpus[i].n = 0;
		}
	} else {
		/* sums around every power of two */
		int bit = 13 + mc_choose(18, "bit"), d = mc_choose(3, "delta") - 1;
		int lev = 1 + mc_choose(3, "split");
		uint64_t total = (1ull << bit) / 64, part;
		if (total / lev < 2)
			mc_prune();
		for (i = 1; i <= lev; i++) {
			part = i < lev ? total / lev : total - (lev - 1) * (total / lev) + d;
			k = 1;
			while (part / k > (HW == 2 ? 32768 : 1 << 20) || part % k)
				if (++k > 1024)
					mc_prune();
#if HW == 2
			if (k > 1024 || part / k > 32768)
				mc_prune();
#endif
			put(&cpus[0], (struct cache){ i == 1 ? 1 : 3, i, k, 1, 64, (unsigned)(part / k) });
		}
	}
#if HW == 3
	cur = 0;
#endif
	ask();
}
