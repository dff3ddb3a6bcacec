/* P15: status and UUID reports for every instance state and buffer length. */
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <ctype.h>
#include <stdarg.h>
#include <strings.h>
#include <sys/mman.h>
#include "mc.h"
#include "jitterentropy.h"
#include "jitterentropy-internal.h"
#include "jitterentropy-health.h"
#include "jitterentropy-uuid.h"

const char *mc_property = "P15";
int mc_fork_per_run = 0;
int mc_split_depth = 2;

static long v_ncpu = 4;
static uint32_t v_c[2] = { 65536, 1 << 24 };
long __wrap_jent_ncpu(void);
long __wrap_jent_ncpu(void) { return v_ncpu; }
uint32_t __wrap_jent_cache_size_roundup(int all);
uint32_t __wrap_jent_cache_size_roundup(int all) { return v_c[!!all]; }
static int rnd_fail;
static uint8_t rnd[16];
int __wrap_jent_os_random_bytes(uint8_t *b, size_t n);
int __wrap_jent_os_random_bytes(uint8_t *b, size_t n)
{
	memset(b, 0xe7, n);	/* a failing source may leave anything */
	if (rnd_fail)
		return -1;
	memcpy(b, rnd, n < 16 ? n : 16);
	return 0;
}

/* --- a strict JSON reader that flattens a document into path=value --- */
static struct { char path[128]; char val[128]; int str; } kv[128];
static int nkv;
static const char *jp;
static void ws(void) { while (*jp == ' ' || *jp == '\t' || *jp == '\n' || *jp == '\r') jp++; }
static void jstr(char *o, size_t n)
{
	size_t i = 0;
	MC_ASSERT(*jp == '"', "invalid JSON: string expected at '%.20s'", jp);
	for (jp++; *jp != '"'; jp++) {
		MC_ASSERT((unsigned char)*jp >= 0x20 && *jp != '\\', "invalid JSON: bad character in string");
		if (i + 1 < n)
			o[i++] = *jp;
	}
	jp++;
	o[i] = 0;
}
static void jval(const char *path)
{
	char sub[128], key[64];
	ws();
	if (*jp == '{') {
		jp++;
		ws();
		if (*jp == '}') {
			jp++;
			return;
		}
		for (;;) {
			int i;
			ws();
			jstr(key, sizeof(key));
			snprintf(sub, sizeof(sub), "%s%s%s", path, *path ? "." : "", key);
			for (i = 0; i < nkv; i++)
				MC_ASSERT(strcmp(kv[i].path, sub), "invalid JSON: %s appears twice", sub);
			ws();
			MC_ASSERT(*jp == ':', "invalid JSON: ':' expected at '%.20s'", jp);
			jp++;
			jval(sub);
			ws();
			if (*jp == ',') {
				jp++;
				continue;
			}
			MC_ASSERT(*jp == '}', "invalid JSON: '}' expected at '%.20s'", jp);
			jp++;
			return;
		}
	}
	MC_ASSERT(nkv < 128, "harness: too many values");
	snprintf(kv[nkv].path, sizeof(kv[nkv].path), "%s", path);
	kv[nkv].str = 0;
	if (*jp == '"') {
		jstr(kv[nkv].val, sizeof(kv[nkv].val));
		kv[nkv++].str = 1;
		return;
	}
	if (!strncmp(jp, "true", 4) || !strncmp(jp, "false", 5) || !strncmp(jp, "null", 4)) {
		size_t l = *jp == 'f' ? 5 : 4;
		memcpy(kv[nkv].val, jp, l);
		kv[nkv++].val[l] = 0;
		jp += l;
		return;
	}
	{
		const char *s = jp;
		size_t l;
		if (*jp == '-')
			jp++;
		MC_ASSERT(isdigit((unsigned char)*jp), "invalid JSON: value expected at '%.20s'", s);
		MC_ASSERT(!(*jp == '0' && isdigit((unsigned char)jp[1])), "invalid JSON: leading zero");
		while (isdigit((unsigned char)*jp))
			jp++;
		l = (size_t)(jp - s);
		memcpy(kv[nkv].val, s, l);
		kv[nkv++].val[l] = 0;
	}
}
static void parse(const char *t)
{
	nkv = 0;
	jp = t;
	jval("");
	ws();
	MC_ASSERT(!*jp, "invalid JSON: text after the end: '%.20s'", jp);
}
static const char *get(const char *path)
{
	int i;
	for (i = 0; i < nkv; i++)
		if (!strcmp(kv[i].path, path))
			return kv[i].val;
	mc_fail("the status has no %s", path);
}
static void is(const char *path, const char *fmt, ...)
{
	char w[128];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(w, sizeof(w), fmt, ap);
	va_end(ap);
	MC_ASSERT(!strcmp(get(path), w), "status says %s is %s, the instance has %s", path, get(path), w);
}
static void isb(const char *path, int v) { is(path, "%s", v ? "true" : "false"); }

static struct rand_data ec;
static int mock_on;

static void verify(const char *t)
{
	unsigned f = ec.flags, field = f >> 27, hl = (f >> 24) & 7, loops;
	uint64_t mem;
	parse(t);
	is("version", "%d.%d.%d", JENT_MAJVERSION, JENT_MINVERSION, JENT_PATCHLEVEL);
	is("uuid", "%s", ec.uuid);
	is("reinitializations", "%u", ec.reinit_count);
	is("output.invocations", "%llu", (unsigned long long)ec.read_invocations);
	is("output.bytes", "%llu", (unsigned long long)ec.bytes_output);
	if (ec.bytes_output < (1ull << 61))
		is("output.bits", "%llu", (unsigned long long)ec.bytes_output * 8);
	isb("healthFailure.apt.intermittent", ec.health_failure & JENT_APT_FAILURE);
	isb("healthFailure.apt.permanent", ec.health_failure & JENT_APT_FAILURE_PERMANENT);
	isb("healthFailure.rct.intermittent", ec.health_failure & JENT_RCT_FAILURE);
	isb("healthFailure.rct.permanent", ec.health_failure & JENT_RCT_FAILURE_PERMANENT);
	isb("healthFailure.rctMemory.intermittent", ec.health_failure & JENT_RCT_MEM_FAILURE);
	isb("healthFailure.rctMemory.permanent", ec.health_failure & JENT_RCT_MEM_FAILURE_PERMANENT);
	isb("healthFailure.lag.intermittent", ec.health_failure & JENT_LAG_FAILURE);
	isb("healthFailure.lag.permanent", ec.health_failure & JENT_LAG_FAILURE_PERMANENT);
	is("runtimeEnvironment.cpuCores", "%ld", v_ncpu);
	is("runtimeEnvironment.cpuCache.l1Bytes", "%u", v_c[0]);
	is("runtimeEnvironment.cpuCache.allBytes", "%u", v_c[1]);
	is("configuration.osr", "%u", ec.osr);
	mem = field ? (uint64_t)1 << ((field > 20 ? 20 : field) + 9) : 1 << 18;
	is("configuration.memoryBlockSizeBytes", "%llu", (unsigned long long)mem);
	loops = hl ? 1u << hl : 1;
	is("configuration.hashLoopCount.runtime", "%u", loops);
	is("configuration.hashLoopCount.initialization", "%u", loops * 3);
	is("configuration.memoryLoopCount.runtime", "%u", ec.memaccessloops);
	is("configuration.memoryLoopCount.initialization", "%u", ec.memaccessloops * 3);
	isb("configuration.secureMemory", f & JENT_FORCE_SECURE_MEM);
	isb("configuration.internalTimer", ec.enable_notime);
	isb("configuration.mockedTimerBuild", 1);
	isb("configuration.mockedTimerActive", mock_on);
	isb("configuration.fipsMode", ec.is_fips_enabled);
	isb("configuration.ntg1Mode", f & JENT_NTG1);
	isb("configuration.flags.JENT_DISABLE_MEMORY_ACCESS", f & JENT_DISABLE_MEMORY_ACCESS);
	isb("configuration.flags.JENT_FORCE_INTERNAL_TIMER", f & JENT_FORCE_INTERNAL_TIMER);
	isb("configuration.flags.JENT_DISABLE_INTERNAL_TIMER", f & JENT_DISABLE_INTERNAL_TIMER);
	isb("configuration.flags.JENT_FORCE_FIPS", f & JENT_FORCE_FIPS);
	isb("configuration.flags.JENT_NTG1", f & JENT_NTG1);
	isb("configuration.flags.JENT_CACHE_ALL", f & JENT_CACHE_ALL);
	isb("configuration.flags.JENT_FORCE_SECURE_MEM", f & JENT_FORCE_SECURE_MEM);
}

#define AREA 8192
static char *area;	/* AREA accessible bytes, then a page that faults */
void mc_setup(void)
{
	char *p = mmap(NULL, AREA + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	mprotect(p, 4096, PROT_NONE);
	mprotect(p + 4096 + AREA, 4096, PROT_NONE);
	area = p + 4096;
}

static void report(const struct rand_data *e)
{
	char full[4096];
	struct rand_data before = ec;
	memset(full, 0x7e, sizeof(full));
	MC_ASSERT(jent_status(e, full, sizeof(full)) == 0, "status fails with a large buffer");
	MC_ASSERT(memchr(full, 0, sizeof(full)), "status is not terminated");
	if (e) {
		verify(full);
		MC_ASSERT(!memcmp(&before, &ec, sizeof(ec)), "status changed the instance");
	} else {
		parse(full);
		is("version", "%d.%d.%d", JENT_MAJVERSION, JENT_MINVERSION, JENT_PATCHLEVEL);
	}
	mc_states_add(1, (uint64_t)nkv);
}
static void lengths(const struct rand_data *e)
{
	char full[4096];
	size_t n, l;
	jent_status(e, full, sizeof(full));
	l = strlen(full);
	for (n = 0; n <= l + 20; n++) {
		/* end flush with the faulting page, canary before */
		char *b = area + AREA - n;
		int r;
		size_t i;
		memset(area, 0x7e, AREA);
		r = jent_status(e, b, n);
		for (i = 0; i < AREA - n; i++)
			MC_ASSERT(area[i] == 0x7e, "status wrote %zu bytes before a buffer of %zu", AREA - n - i, n);
		if (!n) {
			MC_ASSERT(r == -1, "status in an empty buffer returns %d", r);
			continue;
		}
		MC_ASSERT(memchr(b, 0, n), "status in %zu bytes is not terminated", n);
		if (n > l + 1)
			MC_ASSERT(r == 0, "status of %zu characters fails in a buffer of %zu", l, n);
		else if (n <= l)
			MC_ASSERT(r == -1, "status of %zu characters returns %d in a buffer of %zu", l, r, n);
		if (!r || n > l)
			MC_ASSERT(!strcmp(b, full), "status differs in a buffer of %zu", n);
		mc_states_add(0, 1);
	}
}

static void uuid_len(void)
{
	size_t n, i;
	for (n = 0; n <= 45; n++) {
		char *b = area + AREA - n;
		int r;
		memset(area, 0x7e, AREA);
		r = jent_uuid(&ec, b, n);
		for (i = 0; i < AREA - n; i++)
			MC_ASSERT(area[i] == 0x7e, "the UUID call wrote before a buffer of %zu", n);
		if (n < strlen(ec.uuid) + 1)
			MC_ASSERT(r == -1, "the UUID call succeeds in a buffer of %zu", n);
		else
			MC_ASSERT(r == 0 && !strcmp(b, ec.uuid), "the UUID call fails in a buffer of %zu", n);
	}
	MC_ASSERT(jent_uuid(NULL, area, 64) == -1 && jent_uuid(&ec, NULL, 64) == -1 && jent_uuid(NULL, NULL, 0) == -1, "NULL accepted by the UUID call");
	MC_ASSERT(jent_status(&ec, NULL, 64) == -1 && jent_status(NULL, NULL, 64) == -1, "NULL buffer accepted by the status call");
}
static void uuid_gen(int fail)
{
	char want[64];
	uint8_t b[16];
	char *o = area + AREA - 37;
	int i;
	rnd_fail = fail;
	memcpy(b, rnd, 16);
	if (fail)
		memset(b, 0, 16);
	else {
		b[6] = (uint8_t)((b[6] & 15) | 0x40);
		b[8] = (uint8_t)((b[8] & 0x3f) | 0x80);
	}
	snprintf(want, sizeof(want), "%02x%02x%02x%02x-%02x%02x-%02x%02x-%02x%02x-%02x%02x%02x%02x%02x%02x", b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7],
		 b[8], b[9], b[10], b[11], b[12], b[13], b[14], b[15]);
	memset(area, 0x7e, AREA);
	jent_uuid_generate(o);
	MC_ASSERT(memchr(o, 0, 37) && !strcasecmp(o, want), "UUID is %.36s, expected %s", o, want);
	for (i = 0; i < AREA - 37; i++)
		MC_ASSERT(area[i] == 0x7e, "UUID generation wrote before its buffer");
	rnd_fail = 0;
	mc_states_add(1, 1);
}

static void mockcb(void *a, uint64_t *o) { (void)a; *o = 1; }

static void base(int k)
{
	memset(&ec, 0, sizeof(ec));
	strcpy(ec.uuid, "01234567-89ab-4cde-8f01-23456789abcd");
	ec.osr = 3;
	ec.memaccessloops = 128;
	v_ncpu = 4;
	v_c[0] = 65536;
	v_c[1] = 1 << 24;
	if (k == 1) {	/* the longest */
		ec.reinit_count = 0xffffffffu;
		ec.read_invocations = ec.bytes_output = ~(uint64_t)0;
		ec.flags = 0xf8000000u | JENT_HASHLOOP_128;
		ec.osr = 0xffffffffu;
		ec.memaccessloops = 0xffffffffu / 3;
		v_ncpu = -2147483647;
		v_c[0] = v_c[1] = 0x80000000u;
	} else if (k == 2) {	/* the shortest */
		ec.uuid[0] = 0;
		ec.health_failure = 0xffff;
		ec.flags = 0xffff;
		ec.osr = 1;
		ec.memaccessloops = 0;
		ec.is_fips_enabled = ec.enable_notime = 1;
		v_ncpu = 1;
		v_c[0] = v_c[1] = 0;
	}
}

void mc_body(void)
{
	static const uint64_t big[] = { 0, 1, 9, 10, 31, 4095, 0xffffffffull, 0x100000000ull, 1ull << 60, (1ull << 61) - 1, 1ull << 63, ~0ull };
	static const unsigned f7[] = { JENT_DISABLE_MEMORY_ACCESS, JENT_FORCE_INTERNAL_TIMER, JENT_DISABLE_INTERNAL_TIMER, JENT_FORCE_FIPS, JENT_NTG1,
				       JENT_CACHE_ALL, JENT_FORCE_SECURE_MEM };
	int i, k;
	switch (mc_choose(7, "class")) {
	case 0: {	/* flags */
		unsigned f = 0, c;
		base(0);
		c = (unsigned)mc_choose(128, "flags");
		for (i = 0; i < 7; i++)
			if (c & (1u << i))
				f |= f7[i];
		for (c = 0; c < 256; c++) {
			ec.flags = f | (c << 24);
			report(&ec);
		}
		break;
	}
	case 1: {	/* health */
		static const unsigned hb[8] = { JENT_RCT_FAILURE, JENT_APT_FAILURE, JENT_LAG_FAILURE, JENT_RCT_MEM_FAILURE, JENT_RCT_FAILURE_PERMANENT,
						JENT_APT_FAILURE_PERMANENT, JENT_LAG_FAILURE_PERMANENT, JENT_RCT_MEM_FAILURE_PERMANENT };
		int h = mc_choose(256, "failures");
		base(0);
		for (i = 0; i < 8; i++)
			if (h & (1 << i))
				ec.health_failure |= hb[i];
		for (k = 0; k < 32; k++) {
			ec.is_fips_enabled = k & 1;
			ec.enable_notime = k & 2;
			ec.selftest_failed = !!(k & 4);
			ec.startup_state = k & 8 ? jent_startup_memory : jent_startup_completed;
			mock_on = !!(k & 16);
			jent_set_mock_timer(mock_on ? mockcb : NULL, NULL);
			ec.enable_notime = !!(k & 2);
			report(&ec);
		}
		mock_on = 0;
		jent_set_mock_timer(NULL, NULL);
		break;
	}
	case 2:	/* counters */
		base(0);
		ec.read_invocations = big[mc_choose(12, "invocations")];
		ec.bytes_output = big[mc_choose(12, "bytes")];
		ec.reinit_count = (unsigned)big[mc_choose(7, "reinitializations")];
		report(&ec);
		break;
	case 3:	/* numbers */
		base(mc_choose(3, "base"));
		ec.osr = (unsigned)mc_choose(21, "rate");
		ec.memaccessloops = (unsigned)mc_choose(3, "loops") * 64;
		v_ncpu = mc_choose(5, "cpus") * 37 - 22;
		v_c[0] = 1u << mc_choose(32, "cache");
		v_c[1] = v_c[0] ^ (1u << 31);
		report(&ec);
		break;
	case 4:	/* every buffer length */
		k = mc_choose(6, "base");
		base(k % 3);
		if (k >= 3)
			ec.health_failure = 0xa5a5;
		lengths(k == 5 ? NULL : &ec);
		report(k == 5 ? NULL : &ec);
		break;
	case 5:	/* UUID buffer */
		base(mc_choose(3, "base"));
		if (mc_choose(2, "nil"))
			strcpy(ec.uuid, "00000000-0000-0000-0000-000000000000");
		uuid_len();
		break;
	default:	/* UUID format */
		k = mc_choose(16, "byte");
		for (i = 0; i < 256; i++) {
			memset(rnd, 0xff, 16);
			rnd[k] = (uint8_t)i;
			uuid_gen(0);
			memset(rnd, 0, 16);
			rnd[k] = (uint8_t)i;
			uuid_gen(0);
			uuid_gen(1);
		}
		break;
	}
	mc_outcome(mc_hash(&ec, sizeof(ec), MC_HASH_INIT));
}
