/* P17: working-set size derived from every described cache topology. */
#include <stdlib.h>
#include "mc.h"
#include "jitterentropy.h"
#include "jitterentropy-internal.h"
#include "vfile.h"
#include <limits.h>

const char *mc_property = "P17";
int mc_fork_per_run = 1;
int mc_split_depth = 2;

/* an attribute is its text, or NULL: missing */
struct cache { const char *type, *level, *size; };
#define NCPU 4
#define NIDX 16
static struct cache topo[NCPU][NIDX];
static long cpu_shift;	/* the CPUs described start here */
static long conf, sc1, sc2, sc3;
static int faults;

/* --- what the library can see, evaluated per attribute as it was served --- */
#define A_NONE 0
static struct seen { int asked, readable; char text[80]; } seen[NCPU][NIDX][3];

static int find(const char *path, int *cpu, int *idx, int *attr)
{
	const char *p = strstr(path, "/cpu/cpu");
	long c;
	unsigned i;
	char a[16], junk;
	if (!p || sscanf(p, "/cpu/cpu%ld/cache/index%u/%15[a-z]%c", &c, &i, a, &junk) != 3)
		return -1;
	*attr = !strcmp(a, "type") ? 0 : !strcmp(a, "level") ? 1 : !strcmp(a, "size") ? 2 : -1;
	*cpu = (int)(c - cpu_shift);
	*idx = (int)i;
	return *attr < 0 ? -1 : 0;
}
static int vf_open(const char *path)
{
	int c, i, a;
	const char *t;
	if (strncmp(path, "/sys/devices/system/cpu", 23))
		return VF_PASS;
	if (find(path, &c, &i, &a))
		return -ENOENT;
	if (c < 0 || c >= NCPU || i >= NIDX)
		return -ENOENT;
	t = a == 0 ? topo[c][i].type : a == 1 ? topo[c][i].level : topo[c][i].size;
	if (!t)
		return -ENOENT;
	if (faults) {
		int f = mc_env(3, "open");
		if (f)
			return f == 1 ? -EACCES : -EMFILE;
	}
	return (c * NIDX + i) * 3 + a;
}
static ssize_t vf_read(struct vfd *f, void *buf, size_t n)
{
	int c = f->id / 3 / NIDX, i = f->id / 3 % NIDX, a = f->id % 3;
	const char *t = a == 0 ? topo[c][i].type : a == 1 ? topo[c][i].level : topo[c][i].size;
	size_t l = strlen(t);
	if (faults) {
		int k = mc_env(4, "read");
		if (k == 1) {	/* has to be asked again */
			seen[c][i][a].readable = 1;
			snprintf(seen[c][i][a].text, sizeof(seen[c][i][a].text), "%s", t);
			return -EINTR;
		}
		if (k) {
			seen[c][i][a].readable = 0;
			return k == 2 ? -EIO : 0;
		}
	}
	if (f->pos > l)
		l = f->pos;
	l -= f->pos;
	if (l > n)
		l = n;
	memcpy(buf, t + f->pos, l);
	if (!f->pos && l) {
		seen[c][i][a].readable = 1;
		snprintf(seen[c][i][a].text, sizeof(seen[c][i][a].text), "%s", t);
	}
	return (ssize_t)l;
}
long __real_sysconf(int name);
long __wrap_sysconf(int name);
long __wrap_sysconf(int name)
{
	switch (name) {
	case _SC_NPROCESSORS_CONF: return conf;
	case _SC_LEVEL1_DCACHE_SIZE: return sc1;
	case _SC_LEVEL2_CACHE_SIZE: return sc2;
	case _SC_LEVEL3_CACHE_SIZE: return sc3;
	default: return __real_sysconf(name);
	}
}

/* --- oracle --- */
typedef __int128 big;
static int number(const char *t, big *v)	/* decimal digits, then anything; 0: no number */
{
	int neg = 0, n = 0;
	*v = 0;
	if (*t == '-') {
		neg = 1;
		t++;
	}
	for (; *t >= '0' && *t <= '9'; t++, n++)
		if (*v < ((big)1 << 100))
			*v = *v * 10 + (*t - '0');
	if (neg)
		*v = -*v;
	return n;
}
static uint32_t m_size(int all)
{
	big l[3] = { 0, 0, 0 }, sum;
	long ncpu = conf <= 0 ? 1 : conf, c;
	uint64_t p = 1;
	int i;
	for (c = 0; c < NCPU; c++) {
		if (c + cpu_shift >= ncpu)
			break;
		for (i = 0; i < NIDX; i++) {
			struct seen *s = seen[c][i];
			big lv, sz;
			if (!s[0].readable)
				break;
			if (strncmp(s[0].text, "Data", 4) && strncmp(s[0].text, "Unified", 7))
				continue;
			if (!s[1].readable || !number(s[1].text, &lv) || lv < 1 || lv > LONG_MAX)
				continue;
			if (!s[2].readable || strlen(s[2].text) >= 32 || !number(s[2].text, &sz) || sz <= 0 || sz >= LONG_MAX)
				continue;
			if (strchr(s[2].text, 'K'))
				sz <<= 10;
			else if (strchr(s[2].text, 'M'))
				sz <<= 20;
			if (sz > LONG_MAX)
				continue;
			if (sz > l[lv == 1 ? 0 : lv == 2 ? 1 : 2])
				l[lv == 1 ? 0 : lv == 2 ? 1 : 2] = sz;
		}
	}
	if (!l[0]) {
		if (sc1 > l[0])
			l[0] = sc1;
		if (sc2 > l[1])
			l[1] = sc2;
		if (sc3 > l[2])
			l[2] = sc3;
	}
	sum = l[0] + (all ? l[1] + l[2] : 0);
	if (!sum)
		return 0;
	while ((big)p <= sum && p < ((uint64_t)1 << 31))
		p <<= 1;
	return (uint32_t)p;
}

/* an attribute is served (and counts) only if the library can and does read it; without faults it can */
static void all_readable(void)
{
	int c, i, a;
	for (c = 0; c < NCPU; c++)
		for (i = 0; i < NIDX; i++)
			for (a = 0; a < 3; a++) {
				const char *t = a == 0 ? topo[c][i].type : a == 1 ? topo[c][i].level : topo[c][i].size;
				seen[c][i][a].readable = t && *t;
				if (t)
					snprintf(seen[c][i][a].text, sizeof(seen[c][i][a].text), "%s", t);
			}
}

static const char *types[] = { "Data\n", "Instruction\n", "Unified\n", "Data", "data\n", "", "Garbage\n", NULL };
static const char *levels[] = { "1\n", "2\n", "3\n", "4\n", "0\n", "-1\n", "x\n", "", NULL, "99999999999999999999\n", "1" };
static const char *sizes[] = { "32K\n", "48K\n", "49152\n", "1M\n", "2M", "0K\n", "-32K\n", "K\n", "M\n", "", NULL, "x\n", "1\n", "65536K\n",
			       "2097152K\n", "4194304K\n", "4096M\n", "9223372036854775807\n", "9223372036854775806\n", "9223372036854775807K\n", "9007199254740992K\n", "8796093022207M\n",
			       "8796093022208M\n", "99999999999999999999K\n", "0000000000000000000000000032K\n", "00000000000000000000000000032K\n",
			       "000000000000000000000000000032K\n", "0000000000000000000000000000032K\n", "00000000000000000000000000000000000000000032K\n" };
#define N(a) ((int)(sizeof(a) / sizeof(a[0])))

static const struct cache small[] = {
	{ NULL, NULL, NULL }, { "Data\n", "1\n", "32K\n" }, { "Data\n", "1\n", "48K\n" }, { "Instruction\n", "1\n", "64K\n" }, { "Unified\n", "1\n", "16K\n" },
	{ "Unified\n", "2\n", "1024K\n" }, { "Unified\n", "2\n", "2M\n" }, { "Unified\n", "3\n", "32M\n" }, { "Unified\n", "4\n", "128M\n" },
	{ "Data\n", "1\n", NULL }, { "Data\n", NULL, "128K\n" }, { "Instruction\n", "2\n", "8M\n" }, { "Data\n", "2\n", "512K\n" },
};
static void cpu_kind(int c, int k)
{
	static const struct cache p[] = { { "Data\n", "1\n", "48K\n" }, { "Instruction\n", "1\n", "32K\n" }, { "Unified\n", "2\n", "2048K\n" }, { "Unified\n", "3\n", "36864K\n" } };
	static const struct cache e[] = { { "Data\n", "1\n", "32K\n" }, { "Instruction\n", "1\n", "64K\n" }, { "Unified\n", "2\n", "4096K\n" }, { "Unified\n", "3\n", "36864K\n" } };
	static const struct cache ionly[] = { { "Instruction\n", "1\n", "128K\n" } };
	static const struct cache big1[] = { { "Data\n", "1\n", "128K\n" }, { "Instruction\n", "1\n", "192K\n" } };
	static const struct cache noL1[] = { { "Unified\n", "2\n", "16M\n" }, { "Unified\n", "3\n", "64M\n" } };
	switch (k) {
	case 1: memcpy(topo[c], p, sizeof(p)); break;
	case 2: memcpy(topo[c], e, sizeof(e)); break;
	case 3: memcpy(topo[c], ionly, sizeof(ionly)); break;
	case 4: memcpy(topo[c], big1, sizeof(big1)); break;
	case 5: memcpy(topo[c], noL1, sizeof(noL1)); break;
	default: break;	/* offline */
	}
}

void mc_body(void)
{
	static const long scv[] = { -1, 0, 32768, 49152, 1048576, 33554432 };
	static char nb[3][40];
	int cls = mc_choose(7, "class"), i, first;
	uint32_t w[2], g[4];

	memset(topo, 0, sizeof(topo));
	conf = 1;
	vf_zero = 0;
	sc1 = sc2 = sc3 = 0;
	switch (cls) {
	case 0:	/* every attribute text */
		topo[0][0] = (struct cache){ types[mc_choose(N(types), "type")], levels[mc_choose(N(levels), "level")], sizes[mc_choose(N(sizes), "size")] };
		if (mc_choose(2, "more"))
			topo[0][1] = (struct cache){ "Data\n", "1\n", "4K\n" };
		break;
	case 1:	/* every sequence of caches */
		vf_zero = mc_choose(2, "standard input closed");
		for (i = 0; i < (mc_thorough() ? 4 : 3); i++)
			topo[0][i] = small[mc_choose(N(small), "cache")];
		break;
	case 2: {	/* hybrid and offline CPUs, any count */
		static const long confs[] = { -1, 0, 1, 2, 3, 4, 65536, 1000000 };
		for (i = 0; i < 3; i++)
			cpu_kind(i, mc_choose(6, "cpu"));
		conf = confs[mc_choose(8, "configured")];
		break;
	}
	case 3:	/* fallback to the C library */
		sc1 = scv[mc_choose(6, "l1")];
		sc2 = scv[mc_choose(6, "l2")];
		sc3 = scv[mc_choose(6, "l3")];
		cpu_kind(0, mc_choose(6, "cpu"));
		break;
	case 4: {	/* sizes around every power of two */
		int k = mc_choose(36, "power"), d = mc_choose(3, "offset");
		static const char *other[] = { NULL, "1\n", "4095\n", "1M\n", "2047M\n", "4096M\n" };
		snprintf(nb[0], sizeof(nb[0]), "%llu\n", (1ull << k) + (unsigned)d - 1ull);
		topo[0][0] = (struct cache){ "Data\n", mc_choose(2, "level") ? "3\n" : "1\n", nb[0] };
		topo[0][1] = (struct cache){ "Unified\n", "2\n", other[mc_choose(6, "l2")] };
		topo[0][2] = (struct cache){ "Unified\n", mc_choose(2, "l1/l3") ? "1\n" : "3\n", other[mc_choose(6, "l3")] };
		break;
	}
	case 5:	/* unreadable and interrupted attributes */
		cpu_kind(0, 1);
		cpu_kind(1, mc_choose(3, "second"));
		conf = 2;
		sc1 = mc_choose(2, "fallback") ? 8192 : 0;
		faults = 1;
		break;
	default: {	/* many caches, high CPU numbers */
		int at = mc_choose(16, "index");
		for (i = 0; i < at; i++)
			topo[0][i] = small[3];
		topo[0][at] = small[1];
		cpu_shift = mc_choose(4, "first CPU") * 1000;
		conf = cpu_shift + 1 + mc_choose(2, "count");
		break;
	}
	}
	first = mc_choose(2, "asked first for");
	g[0] = jent_cache_size_roundup(first);
	faults = 0;
	if (cls != 5)
		all_readable();
	w[0] = m_size(0);
	w[1] = m_size(1);
	/* the answer is final: the system's description may change now */
	memset(topo, 0, sizeof(topo));
	cpu_kind(0, 4);
	sc1 = 1 << 20;
	g[1] = jent_cache_size_roundup(!first);
	g[2] = jent_cache_size_roundup(0);
	g[3] = jent_cache_size_roundup(1);
	vf_check();
	MC_ASSERT(g[0] == w[first] && g[1] == w[!first], "derived size is %u for level 1 and %u for all levels, expected %u and %u",
		  g[first], g[!first], w[0], w[1]);
	MC_ASSERT(g[2] == w[0] && g[3] == w[1], "the answers changed from %u and %u to %u and %u", w[0], w[1], g[2], g[3]);
	mc_outcome(((uint64_t)w[0] << 32) | w[1]);
	mc_states_add(0, 4);
}
