/*
 * P24: what the kernel module reports about itself and hands to the library
 * for every combination of module parameters.
 */
#include <ctype.h>
#include "kenv.h"

const char *mc_property = "P24";
int mc_fork_per_run = 1;
int mc_split_depth = 2;

/* the documented bits (jitterentropy.h, README) */
#define B_DISMEM	(1u << 2)
#define B_FORCETIMER	(1u << 3)
#define B_DISTIMER	(1u << 4)
#define B_FIPS		(1u << 5)
#define B_NTG1		(1u << 6)
#define B_CACHEALL	(1u << 7)

static void kreset(void)
{
	int i;
	for (i = 0; i < nkblk; i++) {
		if (kblk[i].map)
			munmap(kblk[i].map, kblk[i].maplen);
		free(kblk[i].gen);
	}
	memset(kblk, 0, sizeof(kblk));
	memset(kproc, 0, sizeof(kproc));
	nkblk = nkproc = nkdent = nkinst = nkwork = 0;
	klib_init = 0;
}
static void kread(const char *dir, const char *n)
{
	struct proc_dir_entry *e = kproc_get(dir, n);
	int r;
	MC_ASSERT(e, "no file %s/%s", dir, n);
	r = kproc_read(e);
	MC_ASSERT(r == 0, "%s/%s cannot be read (%d)", dir, n, r);
	MC_ASSERT(kseqbuf[0] && kseqbuf[strlen(kseqbuf) - 1] == '\n', "%s/%s does not end its line", dir, n);
}
static void is(const char *dir, const char *n, const char *fmt, ...)
{
	char b[256];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(b, sizeof(b), fmt, ap);
	va_end(ap);
	kread(dir, n);
	kseqbuf[strlen(kseqbuf) - 1] = 0;
	MC_ASSERT(!strcmp(kseqbuf, b), "%s/%s says \"%s\" instead of \"%s\"", dir, n, kseqbuf, b);
}
/* the value behind "label:" in config/flags, blanks around it removed */
static char *value(char *text, const char *label)
{
	static char v[128];
	size_t n = strlen(label), k;
	char *p = text;
	while (p && *p) {
		if (!strncmp(p, label, n) && p[n] == ':') {
			p += n + 1;
			while (*p == ' ' || *p == '\t')
				p++;
			for (k = 0; p[k] && p[k] != '\n' && k < sizeof(v) - 1; k++)
				v[k] = p[k];
			while (k && (v[k - 1] == ' ' || v[k - 1] == '\t'))
				k--;
			v[k] = 0;
			return v;
		}
		p = strchr(p, '\n');
		if (p)
			p++;
	}
	mc_fail("config/flags has no line \"%s\"", label);
}
#define VIS(label, ...) do { char _b[64], *_v = value(text, label); snprintf(_b, sizeof(_b), __VA_ARGS__); \
	MC_ASSERT(!strcmp(_v, _b), "config/flags: %s is \"%s\" instead of \"%s\" for %#x", label, _v, _b, f); } while (0)

/* sizes and loop counts by name, as the header lists them */
static const char *msize[32] = { "auto (derived from cache size)", "1 kB", "2 kB", "4 kB", "8 kB", "16 kB", "32 kB", "64 kB", "128 kB", "256 kB", "512 kB",
	"1 MB", "2 MB", "4 MB", "8 MB", "16 MB", "32 MB", "64 MB", "128 MB", "256 MB", "512 MB" };
static const char *loops[8] = { "default", "2", "4", "8", "16", "32", "64", "128" };

static void check_flags(unsigned f, unsigned o, int fips)
{
	char text[4096];
	kread("config", "flags");
	snprintf(text, sizeof(text), "%s", kseqbuf);
	VIS("flags", "0x%08x", f);
	VIS("JENT_DISABLE_MEMORY_ACCESS", f & B_DISMEM ? "on" : "off");
	VIS("JENT_FORCE_INTERNAL_TIMER", f & B_FORCETIMER ? "on" : "off");
	VIS("JENT_DISABLE_INTERNAL_TIMER", f & B_DISTIMER ? "on" : "off");
	VIS("JENT_FORCE_FIPS", f & B_FIPS ? "on" : "off");
	VIS("JENT_NTG1", f & B_NTG1 ? "on" : "off");
	VIS("JENT_CACHE_ALL", f & B_CACHEALL ? "on" : "off");
	if (msize[f >> 27])
		VIS("max memory size", "%s", msize[f >> 27]);
	else
		MC_ASSERT(strstr(value(text, "max memory size"), "invalid"), "config/flags: memory size %u is not called invalid", f >> 27);
	VIS("hash loop count", "%s", loops[(f >> 24) & 7]);
	is("config", "flags_raw", "0x%08x", f);
	is("config", "osr", "%u", o < 3 ? 3 : o);
	is("config", "ntg1", "%d", !!(f & B_NTG1));
	is("config", "fips", "%d", (f & (B_FIPS | B_NTG1)) || fips);
	MC_ASSERT(klib_flags == f && klib_osr == o, "the library is initialized with rate %u flags %#x instead of %u %#x", klib_osr, klib_flags, o, f);
	MC_ASSERT(kparam_get("flags") == f, "the flags parameter says %#x instead of %#x", kparam_get("flags"), f);
	MC_ASSERT(kparam_get("osr") == o, "the osr parameter changes");
}

static void load(unsigned f, unsigned o, int sc)
{
	kset("flags", f);
	kset("osr", o);
	kset("ntg1", sc & 1);
	kset("force_fips", (sc >> 1) & 1);
	kset("cache_all", (sc >> 2) & 1);
	kin_init = 1;
	MC_ASSERT(kmod_init() == 0, "module does not load");
	kin_init = 0;
}
static void unload(void)
{
	kmod_exit();
	kcheck_nothing_left("after unload");
	kreset();
}
static unsigned effective(unsigned f, int sc) { return f | (sc & 1 ? B_NTG1 : 0) | (sc & 2 ? B_FIPS : 0) | (sc & 4 ? B_CACHEALL : 0); }

/* every value of every documented field */
static void config(void)
{
	int mem = mc_choose(32, "memory size field"), loop = mc_choose(8, "hash loop field"), bits, sc;
	uint64_t n = 0;
	static const unsigned osrs[] = { 0, 1, 2, 3, 4, 20, 21, 0x7fffffff, 0xffffffff };
	for (bits = 0; bits < 64; bits++)
		for (sc = 0; sc < 8; sc++)
			for (fips_enabled = 0; fips_enabled < 2; fips_enabled++) {
				unsigned f = (unsigned)mem << 27 | (unsigned)loop << 24 | (unsigned)bits << 2;
				unsigned o = osrs[n % 9];
				load(f, o, sc);
				check_flags(effective(f, sc), o, fips_enabled);
				unload();
				n++;
			}
	mc_states_add(n, n * 6);
	mc_outcome((uint64_t)(mem * 8 + loop));
}
/* all bits without a meaning, one by one and together */
static void others(void)
{
	int i;
	for (i = 0; i < 33; i++) {
		unsigned f = i < 32 ? 1u << i : 0xffffffffu;
		load(f, 3, 0);
		check_flags(f, 3, 0);
		unload();
		load(~f, 5, 7);
		check_flags(effective(~f, 7), 5, 0);
		unload();
	}
	mc_states_add(66, 66);
}
/* the rate */
static void rates(void)
{
	unsigned i;
	for (i = 0; i < 300; i++) {
		unsigned o = i < 150 ? i : i < 220 ? 0xffffffffu - (i - 150) : 1u << (i % 32);
		load(0, o, 0);
		check_flags(0, o, 0);
		unload();
	}
	mc_states_add(300, 300);
}

#ifdef CONFIG_EXTERNAL_JITTERENTROPY_CHARDEV
#define H_CHAR 1
#else
#define H_CHAR 0
#endif
#ifdef CONFIG_EXTERNAL_JITTERENTROPY_HWRNG
#define H_HW 1
#else
#define H_HW 0
#endif
#ifdef CONFIG_EXTERNAL_JITTERENTROPY_KCAPI
#define H_KC 1
#else
#define H_KC 0
#endif
#ifdef CONFIG_EXTERNAL_JITTERENTROPY_TESTINTERFACE
#define H_RAW 1
#else
#define H_RAW 0
#endif

/* strict JSON: an object of objects of integers */
static char *jp;
static void ws(void) { while (*jp == ' ' || *jp == '\t' || *jp == '\n' || *jp == '\r') jp++; }
static void want(char c) { ws(); MC_ASSERT(*jp == c, "statistics are not JSON: '%c' expected at \"%.20s\"", c, jp); jp++; }
static struct { char k[64]; long long v; } js[16];
static int njs;
static void jobj(const char *prefix)
{
	want('{');
	ws();
	if (*jp == '}') { jp++; return; }
	for (;;) {
		char key[64];
		size_t n = (size_t)snprintf(key, sizeof(key), "%s", prefix);
		want('"');
		while (*jp && *jp != '"' && n < 60)
			key[n++] = *jp++;
		key[n] = 0;
		want('"');
		want(':');
		ws();
		if (*jp == '{') {
			key[n++] = '.';
			key[n] = 0;
			jobj(key);
		} else {
			char *e;
			long long v = strtoll(jp, &e, 10);
			MC_ASSERT(e != jp && (isdigit((unsigned char)*jp) || *jp == '-') && !(*jp == '0' && isdigit((unsigned char)jp[1])), "statistics are not JSON at \"%.20s\"", jp);
			jp = e;
			snprintf(js[njs].k, sizeof(js[njs].k), "%s", key);
			js[njs++].v = v;
			if (njs == 16)
				mc_fail("harness: statistics");
		}
		ws();
		if (*jp == ',') { jp++; continue; }
		break;
	}
	want('}');
}
static long long stat(const char *k)
{
	int i, n = 0;
	long long v = 0;
	for (i = 0; i < njs; i++)
		if (!strcmp(js[i].k, k)) {
			v = js[i].v;
			n++;
		}
	MC_ASSERT(n == 1, "statistics report %s %d times", k, n);
	return v;
}
static void stats(void)
{
	kread("jitterentropy", "statistics");
	jp = kseqbuf;
	njs = 0;
	jobj("");
	ws();
	MC_ASSERT(!*jp, "statistics are not JSON: text after the end");
}
static void misc(void)
{
	static const unsigned iv[] = { 0, 1, 59, 60, 3600, 86400, 2591999, 2592000, 2592001, 0x7fffffff, 0x80000000u, 0xffffffffu };
	static const unsigned q[] = { 0, 1, 512, 1023, 1024, 1025, 2048, 65535, 65536, 65537, 65536 + 5, 65536 + 1024, 0x7fffffff, 0x80000000u, 0xffffffffu };
	unsigned i, k, n = 0;
	static struct file fl[6];
	struct inode ino;
	for (i = 0; i < 12; i++)
		for (k = 0; k < 15; k++) {
			int j, no = 0;
			kset("selftest_interval", iv[i]);
			if (H_HW)
				kset("hwrng_quality", q[k]);
			kquality = -1;
			load(0, 0, 0);
			is("jitterentropy", "version", "%u.%u.%u", JENT_MAJVERSION, JENT_MINVERSION, JENT_PATCHLEVEL);
			is("interfaces", "kcapi", "%d", H_KC);
			is("interfaces", "hwrng", "%d", H_HW);
			is("interfaces", "chardev", "%d", H_CHAR);
			is("interfaces", "testing", "%d", H_RAW);
			MC_ASSERT(!kalg == !H_KC && !khwrng == !H_HW && !kmisc == !H_CHAR && !kraw_fops() == !H_RAW, "interfaces reported, but not provided");
			if (H_HW)
				MC_ASSERT(kquality == (int)(q[k] > 1024 ? 1024 : q[k]), "hwrng quality %u is declared as %d", q[k], kquality);
			for (j = 0; j <= 6; j++) {
				static long long base, brun;
				stats();
				if (!n && !j) {
					base = stat("charDevice.cumulativeOpens");
					brun = stat("selfTest.runs");
					MC_ASSERT(base == 0 && brun == 0, "statistics do not start at zero");
				}
				MC_ASSERT(stat("charDevice.openInstances") == no, "%lld open instances reported instead of %d", stat("charDevice.openInstances"), no);
				MC_ASSERT(stat("charDevice.cumulativeOpens") == base, "%lld opens reported instead of %lld", stat("charDevice.cumulativeOpens"), base);
				MC_ASSERT(stat("selfTest.intervalSeconds") == (long long)(iv[i] > 2592000 ? 2592000 : iv[i]), "interval %lld reported for %u", stat("selfTest.intervalSeconds"), iv[i]);
				MC_ASSERT(stat("selfTest.runs") == brun && stat("selfTest.failures") == 0, "runs");
				if (H_CHAR && j < 6) {
					MC_ASSERT(kmisc->fops->open(&ino, &fl[j]) == 0, "open");
					no++;
					base++;
				}
			}
			for (j = 0; j < no; j++)
				kmisc->fops->release(&ino, &fl[j]);
			unload();
			n++;
		}
	mc_states_add(n, n * 12);
}

void mc_body(void)
{
	switch (mc_choose(4, "part")) {
	case 0: config(); break;
	case 1: others(); break;
	case 2: rates(); break;
	default: misc(); break;
	}
}
