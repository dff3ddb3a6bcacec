/* P02: reads fail closed and report the most severe failure */
#define RG_NOHASH
#include "mc.h"
#include "clk.h"
#include "ref_gen.h"
#include "jitterentropy-sha3.h"
#include "jitterentropy-noise.h"
#include <stdlib.h>
#include <errno.h>
#include <unistd.h>
#include <sys/mman.h>

const char *mc_property = "P02";
int mc_fork_per_run = 1;
int mc_split_depth = 5;

/* --- stubs --- */
static uint64_t *log_t;
static size_t log_n, log_r;
#define LOGMAX (8u << 20)
static void logging(void *arg, uint64_t *out)
{
	clk_cb(arg, out);
	if (log_n < LOGMAX)
		log_t[log_n++] = *out;
}
static uint64_t replay(void)
{
	if (log_r >= log_n)
		mc_fail("collection stopped although the documented health tests have not failed");
	return log_t[log_r++];
}
unsigned int __real_jent_stuck(struct rand_data *ec, uint64_t d);
unsigned int __wrap_jent_stuck(struct rand_data *ec, uint64_t d)
{
	clk_step();
	return __real_jent_stuck(ec, d);
}
int __wrap_jent_fips_enabled(void) { return 0; }
void __wrap_jent_sha3_256_init(struct jent_sha_ctx *c) { (void)c; }
void __wrap_jent_sha3_final(struct jent_sha_ctx *c, uint8_t *d) { (void)c; (void)d; }
void __wrap_jent_sha3_update(struct jent_sha_ctx *c, const uint8_t *in, size_t n) { (void)c; (void)in; (void)n; }
static unsigned gen_calls;
static uint64_t gen_bytes;
static int lean;
void __wrap_jent_drbg_generate_block(struct jent_sha_ctx *ctx, uint8_t *dst, size_t n)
{
	(void)ctx;
	gen_calls++;
	gen_bytes += n;
	MC_ASSERT(n <= 32, "a block of %zu bytes was requested", n);
	if (lean)
		return;
	memset(dst, 0xa0 + (int)(gen_calls & 7), n);
}

/* scripted blocks */
static int scripted;
static unsigned script_at, script_mask, script_calls, script_mask2;
void __real_jent_random_data(struct rand_data *ec);
void __wrap_jent_random_data(struct rand_data *ec)
{
	if (!scripted) {
		__real_jent_random_data(ec);
		return;
	}
	if (script_calls == script_at)
		ec->health_failure |= script_mask;
	else if (script_calls == script_at + 1)
		ec->health_failure |= script_mask2;
	script_calls++;
}

static ssize_t code(unsigned f)
{
	if (f & RH_PERM(RH_RCT)) return -6;
	if (f & RH_PERM(RH_APT)) return -7;
	if (f & RH_PERM(RH_LAG)) return -8;
	if (f & RH_PERM(RH_MEM)) return -10;
	if (f & RH_RCT) return -2;
	if (f & RH_APT) return -3;
	if (f & RH_MEM) return -9;
	if (f & RH_LAG) return -5;
	return 0;
}

static unsigned mask_of(unsigned i) { return (i & 15) | ((i >> 4) << 16); }

static uint64_t cases;
static char big[1024];

static struct rand_data *make(unsigned flags)
{
	struct rand_data *ec;
	log_n = 0;
	jent_set_mock_timer(logging, NULL);
	ec = jent_entropy_collector_alloc(3, flags | JENT_MAX_MEMSIZE_1kB | JENT_DISABLE_INTERNAL_TIMER);
	MC_ASSERT(ec, "harness: allocation");
	return ec;
}

/* read, return the result, check what was written */
static ssize_t rd(struct rand_data *ec, char *p, size_t n, size_t allowed)
{
	ssize_t r;
	size_t i;
	memset(big, 0x11, sizeof(big));
	r = jent_read_entropy(ec, p, n);
	for (i = 0; i < (size_t)(p - big); i++)
		MC_ASSERT(big[i] == 0x11, "read of %zu bytes wrote before the buffer", n);
	for (i = allowed; p + i < big + sizeof(big); i++)
		MC_ASSERT(p[i] == 0x11, "read of %zu bytes (result %zd) wrote byte %zu, %zu bytes allowed", n, r, i, allowed);
	if (r >= 0)
		for (i = 0; i < n; i++)
			MC_ASSERT(p[i] != 0x11, "successful read of %zu bytes left byte %zu unwritten", n, i);
	cases++;
	return r;
}

static void scripted_part(void)
{
	unsigned m = (unsigned)mc_choose(256, "failures"), mask = mask_of(m), at, q;
	struct rand_data *ec = make(mc_choose(2, "mode") ? JENT_NTG1 : JENT_FORCE_FIPS);
	size_t n;
	scripted = 1;
	for (at = 0; at < 5; at++)
		for (n = 0; n <= 163; n++) {
			uint64_t inv = ec->read_invocations, by = ec->bytes_output;
			unsigned blocks = (unsigned)(n + 31) / 32;
			int fails = mask && at < blocks;
			ssize_t r, want = fails ? code(mask) : (ssize_t)n;
			ec->health_failure = 0;
			script_at = at;
			script_mask = mask;
			script_mask2 = 0;
			script_calls = 0;
			gen_calls = 0;
			r = rd(ec, big + 64, n, fails ? 32 * at : n);
			MC_ASSERT(r == want, "read of %zu with failures 0x%x in block %u returned %zd, documented %zd",
				  n, mask, at, r, want);
			MC_ASSERT(ec->read_invocations - inv == (fails ? 0 : 1) && ec->bytes_output - by == (fails ? 0 : n),
				  "read of %zu returning %zd counted as %llu reads, %llu bytes", n, r,
				  (unsigned long long)(ec->read_invocations - inv), (unsigned long long)(ec->bytes_output - by));
			MC_ASSERT(gen_calls == (fails ? at : blocks), "%u blocks drawn", gen_calls);
			if (!fails || n % 31)
				continue;
			/* the failure persists, and more may be added */
			for (q = 0; q < 256; q += (mask & 0xf ? 17 : 1)) {
				unsigned sum = mask | mask_of(q);
				ec->health_failure = mask;
				script_at = 0;
				script_mask = mask_of(q);
				script_calls = 0;
				r = rd(ec, big + 64, 1 + q % 70, 0);
				MC_ASSERT(r == code(sum), "later read after failures 0x%x, now 0x%x, returned %zd, documented %zd",
					  mask, sum, r, code(sum));
			}
			ec->health_failure = mask;
			r = rd(ec, big + 64, 0, 0);
			MC_ASSERT(r == 0, "empty read returned %zd", r);
		}
	mc_outcome(m);
}

static void args_part(void)
{
	struct rand_data *ec = make(mc_choose(2, "mode") ? JENT_FORCE_FIPS : 0), *none = NULL;
	int st = mc_choose(2, "failed");
	size_t n;
	scripted = 1;
	script_at = 1000;
	if (st)
		ec->health_failure = RH_RCT;
	MC_ASSERT(jent_read_entropy(NULL, big, 8) == -1, "NULL instance accepted");
	MC_ASSERT(jent_read_entropy(NULL, NULL, 0) == -1, "NULL instance accepted");
	MC_ASSERT(jent_read_entropy_safe(NULL, big, 8) == -1, "NULL reference accepted");
	MC_ASSERT(jent_read_entropy_safe(&none, big, 8) == -1, "reference to NULL accepted");
	MC_ASSERT(none == NULL, "NULL handle changed");
	for (n = 1; n < 100; n++) {
		MC_ASSERT(jent_read_entropy(ec, NULL, n) == -1, "NULL buffer accepted");
		MC_ASSERT(jent_read_entropy_safe(&ec, NULL, n) == -1, "NULL buffer accepted");
	}
	MC_ASSERT(ec->read_invocations == 0 && ec->bytes_output == 0, "refused reads were counted");
	MC_ASSERT(jent_read_entropy(ec, NULL, 0) == 0, "empty read with NULL buffer refused");
	MC_ASSERT(jent_read_entropy(ec, big, 0) == 0, "empty read refused");
	MC_ASSERT(jent_read_entropy_safe(&ec, NULL, 0) == 0, "empty read refused");
	cases += 200;
	mc_outcome(5000);
}

/*
 * --- long requests: one physical buffer mapped over and over, so that every
 * length up to beyond 2^32 is backed by memory; inaccessible behind the end ---
 */
#define CHUNK (1u << 20)
static char *window(size_t n)
{
	size_t len = (n + CHUNK - 1) / CHUNK * CHUNK, o;
	int fd = memfd_create("p02", 0);
	char *a = mmap(NULL, len + CHUNK, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (fd < 0 || a == MAP_FAILED || ftruncate(fd, CHUNK))
		exit(2);
	for (o = 0; o < len; o += CHUNK)
		if (mmap(a + o, CHUNK, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED)
			exit(2);
	close(fd);
	return a + len - n;	/* ends at the inaccessible page */
}

static void long_part(void)
{
	static const size_t L[] = { 255, 256, 257, 1000, 4064, 4095, 4096, 4097, 8191, 32767, 32768, 65535, 65536, 65537,
				    (1u << 20) - 1, 1u << 20, (1u << 20) + 1, 3000001,
				    0x7fffffffu, 0x80000000u, 0xffffffffu, (size_t)1 << 32, ((size_t)1 << 32) + 1, ((size_t)1 << 32) + 70 };
	unsigned li = (unsigned)mc_choose(sizeof(L) / sizeof(L[0]), "length"), w, b;
	int mode = mc_choose(2, "mode");
	size_t n = L[li], blocks = (n + 31) / 32;
	struct rand_data *ec;
	char *p;
	lean = n > 5000000;
	if (lean && (mode || (li % 2 && !mc_param("all", 0))))
		return;
	ec = make(mode ? JENT_NTG1 : JENT_FORCE_FIPS);
	p = window(n);
	scripted = 1;
	for (w = 0; w < 6; w++)
		for (b = 0; b < (w && !lean ? 8 : 1); b++) {
			size_t at = w == 0 ? blocks : w == 1 ? 0 : w == 2 ? 1 : w == 3 ? blocks / 2 : w == 4 ? blocks - 2 : blocks - 1;
			unsigned mask = w ? mask_of(1u << (lean ? w : b)) : 0;
			uint64_t inv = ec->read_invocations, by = ec->bytes_output;
			size_t i, done;
			ssize_t r, want = mask ? code(mask) : (ssize_t)n;
			if (lean && w > 2)
				continue;
			ec->health_failure = 0;
			script_at = (unsigned)at;
			script_mask = mask;
			script_mask2 = 0;
			script_calls = 0;
			gen_calls = 0;
			gen_bytes = 0;
			done = mask ? 32 * at : n;
			if (!lean)
				memset(p, 0x11, n);
			r = jent_read_entropy(ec, p, n);
			MC_ASSERT(r == want, "read of %zu with failures 0x%x in block %zu returned %zd, documented %zd", n, mask, at, r, want);
			MC_ASSERT(gen_bytes == done, "read of %zu with failures 0x%x in block %zu drew %llu bytes", n, mask, at, (unsigned long long)gen_bytes);
			MC_ASSERT(ec->read_invocations - inv == (mask ? 0 : 1) && ec->bytes_output - by == (mask ? 0 : n),
				  "read of %zu returning %zd counted as %llu reads, %llu bytes", n, r,
				  (unsigned long long)(ec->read_invocations - inv), (unsigned long long)(ec->bytes_output - by));
			if (!lean && n <= CHUNK)
				for (i = 0; i < n; i++)
					MC_ASSERT((p[i] != 0x11) == (i < done), "read of %zu with failures 0x%x in block %zu: byte %zu is %s", n, mask, at, i,
						  i < done ? "not random data" : "written");
			cases++;
		}
	/* more than the result type can express, failing at once */
	ec->health_failure = 0;
	script_at = 0;
	script_mask = RH_APT;
	script_calls = 0;
	MC_ASSERT(jent_read_entropy(ec, p, (size_t)-1) == -3, "oversized request: failure not reported");
	MC_ASSERT(jent_read_entropy(ec, p, ((size_t)-1 >> 1) + 1) == -3, "oversized request: failure not reported");
	MC_ASSERT(jent_read_entropy(ec, p, (size_t)-1 >> 1) == -3, "oversized request: failure not reported");
	mc_outcome(6000 + li);
}

/* many requests on one instance, then a failure */
static void many_part(void)
{
	int mode = mc_choose(2, "mode");
	struct rand_data *ec = make(mode ? JENT_NTG1 : JENT_FORCE_FIPS);
	unsigned i, reads = (unsigned)mc_param("reads", 70000);
	uint64_t by = 0;
	scripted = 1;
	for (i = 0; i < reads; i++) {
		size_t n = (i * 7 + i / 97) % 100;
		ssize_t r;
		script_at = ~0u;
		script_calls = 0;
		r = jent_read_entropy(ec, big, n);
		MC_ASSERT(r == (ssize_t)n, "read %u of %zu bytes returned %zd", i, n, r);
		by += n;
	}
	MC_ASSERT(ec->read_invocations == reads && ec->bytes_output == by, "after %u reads of %llu bytes the counters say %llu and %llu", reads,
		  (unsigned long long)by, (unsigned long long)ec->read_invocations, (unsigned long long)ec->bytes_output);
	script_at = 0;
	script_mask = RH_LAG;
	for (i = 0; i < reads; i++) {
		script_calls = i ? 1 : 0;
		MC_ASSERT(jent_read_entropy(ec, big, 1 + i % 80) == -5, "read %u after the failure did not report it", i);
	}
	MC_ASSERT(ec->read_invocations == reads && ec->bytes_output == by, "failing reads were counted");
	cases += 2 * reads;
	mc_outcome(7000);
}

/* --- failures produced by the clock --- */
static int kind;
static uint64_t onset, pos, held, held2;
static uint64_t plan(void)
{
	pos++;
	if (pos < onset)
		return clk_good();
	if (pos == onset) {
		held = clk_p1;
		held2 = clk_p2;
	}
	switch (kind) {
	case 0: return 0;
	case 1: return held;
	case 2: return clk_p1 + 3;			/* even steps */
	case 3: return pos & 1 ? held : held2;		/* period two */
	case 4: return pos % 8 ? held : clk_good();	/* frequent value, runs of 7 */
	case 5: return pos % 5 < 3 ? clk_p1 : clk_good();
	case 6: return (pos - onset) < 95 ? 0 : clk_good();	/* transient */
	case 7: { static uint64_t pat[5]; uint64_t i = (pos - onset) % 5;	/* period five */
		  if (pos - onset < 5) pat[i] = clk_good();
		  return pat[i]; }
	}
	return clk_good();
}

static void clock_part(void)
{
	int mode = mc_choose(2, "mode"), b, failed = 0, slice;
	struct rand_data *ec;
	struct rg g;
	size_t from, total_inv = 0, total_by = 0;
	static const size_t lens[] = { 40, 32, 1, 7, 64, 33 };
	unsigned span = 4 * 963, step = (unsigned)mc_param("step", 16);
	int j;

	kind = mc_choose(8, "fault");
	slice = mc_choose((int)(span / 64) + 1, "onset/64");
	onset = (uint64_t)slice * 64 + (uint64_t)mc_choose((int)(64 / step), "onset") * step + 1;
	ec = make(mode ? JENT_NTG1 : JENT_FORCE_FIPS);
	rg_stamp = replay;
	rg_init(&g, 3, !mode, mode, 1, 1, 1);
	log_r = 0;
	/* the first stamps belong to the initialization; only the state matters */
	{
		size_t n;
		for (n = 0; n < log_n; n++)
			;
	}
	/* synchronize: replay the allocation from its own first stamp */
	log_r = log_n - (2 * 963) * 2;
	rg_block(&g);
	MC_ASSERT(log_r == log_n && !g.h.fail, "harness: out of step after allocation");
	clk_next = plan;
	pos = 0;
	for (j = 0; j < 6; j++) {
		size_t n = lens[j], good = 0;
		ssize_t r, want = (ssize_t)n;
		from = log_n;
		r = rd(ec, big + 64, n, n);
		log_r = from;
		for (good = 0; good < n; good += 32) {
			rg_block(&g);
			if (g.h.fail) {
				want = code(g.h.fail);
				break;
			}
		}
		MC_ASSERT(r == want, "fault %d from measurement %llu: read %d of %zu bytes returned %zd, documented %zd (failures 0x%x)",
			  kind, (unsigned long long)onset, j, n, r, want, g.h.fail);
		MC_ASSERT(log_r == log_n, "fault %d from measurement %llu: collection went on after the failure", kind, (unsigned long long)onset);
		if (r < 0) {
			size_t i;
			for (i = failed ? 0 : good; i < n; i++)
				MC_ASSERT(big[64 + i] == 0x11, "failing read wrote byte %zu, %zu bytes had been completed", i, good);
			failed = 1;
		} else {
			MC_ASSERT(!failed, "a read succeeded after a failure");
			total_inv++;
			total_by += n;
		}
	}
	(void)b;
	MC_ASSERT(ec->read_invocations == total_inv && ec->bytes_output == total_by, "counters wrong");
	mc_outcome(10000 + g.h.fail * 7 + total_by);
	cases += pos;
}

void mc_body(void)
{
	log_t = malloc(LOGMAX * sizeof(*log_t));
	switch (mc_choose(5, "part")) {
	case 0: scripted_part(); break;
	case 1: args_part(); break;
	case 2: clock_part(); break;
	case 3: long_part(); break;
	case 4: many_part(); break;
	}
	mc_states_add(0, cases);
}

void mc_setup(void)
{
	clk_install();
	if (jent_entropy_init_ex(3, JENT_MAX_MEMSIZE_1kB))
		exit(2);
}
