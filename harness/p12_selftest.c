/*
 * P12: histories of self tests, reads, recoveries, initializations and
 * allocations, with the verdict of the conditioning test under control.
 */
#include "mc.h"
#include "jitterentropy.h"
#include "jitterentropy-internal.h"
#include "jitterentropy-base.h"
#include "jitterentropy-health.h"
#include <stdlib.h>
#include <stdio.h>
#include <string.h>

const char *mc_property = "P12";
int mc_fork_per_run = 0;
int mc_split_depth = 4;

static int broken;		/* the conditioning implementation gives wrong answers */
static int broken_gcd;		/* the divisor analysis does */
static unsigned nalloc, nmeasure, ntester, ngcd, tester_first;
static struct rand_data *during;	/* a self test bound to it fails ... */
static int during_block = -1;		/* ... while this block is collected */
static int during_measure;		/* ... while a recovery measures */
static int sick_block = -1;
static int blockno;

static void *live[32];
void *__wrap_jent_zalloc(size_t len, unsigned int flags);
void *__wrap_jent_zalloc(size_t len, unsigned int flags)
{
	int i;
	(void)flags;
	nalloc++;
	for (i = 0; i < 32; i++)
		if (!live[i])
			return live[i] = calloc(1, len);
	mc_fail("harness: too many live blocks");
}
void __wrap_jent_zfree(void *ptr, size_t len);
void __wrap_jent_zfree(void *ptr, size_t len)
{
	int i;
	(void)len;
	if (!ptr)
		return;
	for (i = 0; i < 32; i++)
		if (live[i] == ptr) {
			live[i] = NULL;
			free(ptr);
			return;
		}
	mc_fail("release of memory that is not allocated");
}
int __wrap_jent_sha3_tester(void)
{
	if (!ntester++)
		tester_first = !nalloc && !nmeasure;
	return broken;
}
int __real_jent_gcd_selftest(unsigned int flags);
int __wrap_jent_gcd_selftest(unsigned int flags);
int __wrap_jent_gcd_selftest(unsigned int flags) { (void)flags; ngcd++; return broken_gcd ? EGCD : 0; }
static void verdict_falls(void)
{
	int b = broken;
	broken = 1;
	MC_ASSERT(jent_selftest(during) == EHASH, "a failing self test is not reported");
	broken = b;
}
static uint64_t t_now = 1000;
unsigned int __wrap_jent_measure_jitter(struct rand_data *ec, uint64_t l, uint64_t *d);
unsigned int __wrap_jent_measure_jitter(struct rand_data *ec, uint64_t l, uint64_t *d)
{
	static unsigned k;
	uint64_t delta = 100 + (k++ * 37) % 101;
	(void)l;
	nmeasure++;
	if (during_measure) {
		during_measure = 0;
		verdict_falls();
	}
	t_now += delta;
	ec->prev_time = t_now;
	if (d)
		*d = delta;
	return 0;
}
int __wrap_jent_gcd_analyze(uint64_t *h, size_t n, size_t osr);
int __wrap_jent_gcd_analyze(uint64_t *h, size_t n, size_t osr) { (void)h; (void)n; (void)osr; return 0; }
uint32_t __wrap_jent_cache_size_roundup(int all);
uint32_t __wrap_jent_cache_size_roundup(int all) { (void)all; return 0; }
int __wrap_jent_fips_enabled(void) { return 0; }
int __wrap_jent_os_random_bytes(uint8_t *b, size_t n);
int __wrap_jent_os_random_bytes(uint8_t *b, size_t n) { memset(b, 1, n); return 0; }
void __wrap_jent_random_data(struct rand_data *ec);
void __wrap_jent_random_data(struct rand_data *ec)
{
	ec->startup_state = jent_startup_completed;
	if (blockno == sick_block)
		ec->health_failure |= JENT_RCT_FAILURE;
	if (blockno++ == during_block)
		verdict_falls();
}
void __wrap_jent_drbg_generate_block(void *s, uint8_t *dst, size_t dstlen);
void __wrap_jent_drbg_generate_block(void *s, uint8_t *dst, size_t dstlen) { (void)s; memset(dst, 0xaa, dstlen); }

static struct inst { struct rand_data *ec; int failed, sick; } in[2];
static int m_bad;	/* the most recent initialization failed its self tests */
static unsigned flags;

#define LEN 40
static const char *opname;
static void fresh(void)
{
	nalloc = nmeasure = ntester = ngcd = tester_first = 0;
	during = NULL;
	during_block = sick_block = -1;
	during_measure = 0;
	blockno = 0;
}

static int touched(const unsigned char *b, int from, int to)
{
	int i;
	for (i = from; i < to; i++)
		if (b[i] != 0x55)
			return 1;
	return 0;
}

/* fall: block during which the verdict falls, sick: block at which the health tests fail (-1: none) */
static void do_read(int k, int safe, int fall, int sick, int fall_in_recovery)
{
	unsigned char buf[LEN + 8];
	struct inst *i = &in[k];
	int was_failed, reach, fips = !!(flags & (JENT_FORCE_FIPS | JENT_NTG1));
	ssize_t r;
	if (!i->ec)
		return;
	was_failed = i->failed;
	fresh();
	memset(buf, 0x55, sizeof(buf));
	during = i->ec;
	during_block = fall;
	sick_block = sick;
	during_measure = fall_in_recovery;
	r = safe ? jent_read_entropy_safe(&i->ec, (char *)buf, LEN) : jent_read_entropy(i->ec, (char *)buf, LEN);
	reach = during_measure != fall_in_recovery;
	during_measure = 0;
	MC_ASSERT(!touched(buf, LEN, LEN + 8), "write beyond the buffer");
	if (was_failed) {
		MC_ASSERT(r == JENT_ERR_SELFTEST, "%s returns %zd after a failed self test of the instance", opname, r);
		MC_ASSERT(!touched(buf, 0, LEN), "%s writes output after a failed self test of the instance", opname);
		return;
	}
	if (fall >= 0 && blockno > fall) {
		i->failed = 1;
		if (fips && (i->sick || (sick >= 0 && sick < blockno))) {
			/* a health failure of the same block may be reported instead; the rest of the request must not be served */
			MC_ASSERT(r < 0 && !touched(buf, 32, LEN), "%s returns %zd although self test and health tests failed", opname, r);
			i->sick = 1;	/* whether or not a recovery was tried */
			return;
		}
		MC_ASSERT(fall == 0 ? r == JENT_ERR_SELFTEST && !touched(buf, 32, LEN) : r == JENT_ERR_SELFTEST || r == LEN,
			  "%s returns %zd although the self test failed during block %d", opname, r, fall);
		return;
	}
	if (fips && (i->sick || (sick >= 0 && blockno > sick))) {
		if (!safe) {
			i->sick = 1;
			MC_ASSERT(r < 0, "%s returns %zd in spite of a health failure", opname, r);
			return;
		}
		/* recovery: initialization runs the self tests again */
		MC_ASSERT(ntester > 0, "a recovery did not run the self tests");
		if (broken || broken_gcd) {
			m_bad = 1;
			i->sick = 1;
			MC_ASSERT(r < 0, "%s returns %zd although the recovery's self tests failed", opname, r);
			if (reach)
				i->failed = 1;
			return;
		}
		m_bad = 0;
		i->sick = 0;
		if (reach) {
			i->failed = 1;
			MC_ASSERT(r == JENT_ERR_SELFTEST, "%s returns %zd although the self test failed during the recovery", opname, r);
			MC_ASSERT(sick < 0 ? !touched(buf, 0, LEN) : !touched(buf, sick * 32, LEN), "%s writes output after a failed self test of the instance", opname);
			return;
		}
	}
	MC_ASSERT(r == LEN, "%s of a healthy instance returns %zd", opname, r);
}

static void do_alloc(int k)
{
	struct rand_data *e;
	int bad;
	if (in[k].ec)
		jent_entropy_collector_free(in[k].ec);
	memset(&in[k], 0, sizeof(in[k]));
	fresh();
	e = jent_entropy_collector_alloc(0, flags);
	bad = (ntester && broken) || (ngcd && broken_gcd);
	if (m_bad) {
		MC_ASSERT(!e || (ntester && ngcd), "allocation succeeds without self tests although the last initialization failed them");
		MC_ASSERT(!e || !(broken || broken_gcd), "allocation succeeds although the self tests fail");
	}
	if (!bad)
		MC_ASSERT(e, "allocation fails although nothing is wrong");
	else
		MC_ASSERT(!e, "allocation succeeds although its self tests failed");
	if (ntester)
		m_bad = bad;
	in[k].ec = e;
}

static void do_init(int ex)
{
	int r, want = broken ? EHASH : broken_gcd ? EGCD : 0;
	fresh();
	r = ex ? jent_entropy_init_ex(3, flags) : jent_entropy_init();
	MC_ASSERT(r == want, "initialization returns %d, expected %d", r, want);
	MC_ASSERT(ntester && tester_first, "initialization did something before the self tests");
	MC_ASSERT(!want || !nmeasure, "initialization measured although the self tests failed");
	m_bad = want;
}

static void do_selftest(int k)
{
	int r;
	if (k < 2 && !in[k].ec)
		return;
	fresh();
	r = jent_selftest(k < 2 ? in[k].ec : NULL);
	MC_ASSERT(r == (broken ? EHASH : 0), "self test returns %d, expected %d", r, broken ? EHASH : 0);
	if (k < 2 && broken)
		in[k].failed = 1;
}

void mc_body(void)
{
	static const unsigned modes[] = { 0, JENT_FORCE_FIPS, JENT_NTG1 };
	int i, k, depth = (int)mc_param("depth", 5);
	uint64_t h = MC_HASH_INIT;

	for (k = 0; k < 32; k++)
		if (live[k]) {
			free(live[k]);
			live[k] = NULL;
		}
	memset(in, 0, sizeof(in));
	broken = broken_gcd = m_bad = 0;
	flags = modes[mc_choose(3, "mode")] | JENT_DISABLE_INTERNAL_TIMER | JENT_MAX_MEMSIZE_1kB;
	opname = "init";
	broken = mc_choose(2, "first initialization");
	do_init(0);
	broken = 0;
	if (!m_bad || mc_choose(2, "first instance"))
		do_alloc(0);
	for (i = 0; i < depth; i++) {
		int op = mc_choose(17, "operation");
		switch (op) {
		case 0: broken = !broken; break;
		case 1: broken_gcd = !broken_gcd; break;
		case 2: do_selftest(0); break;
		case 3: do_selftest(1); break;
		case 4: do_selftest(2); break;
		case 5: do_init(1); break;
		case 6: do_init(0); break;
		case 7: do_alloc(1); break;
		case 8: do_alloc(0); break;
		case 9: opname = "read"; do_read(0, 0, -1, -1, 0); break;
		case 10: opname = "safe read"; do_read(0, 1, -1, -1, 0); break;
		case 11: opname = "read"; do_read(1, 0, -1, -1, 0); break;
		case 12: opname = "read"; do_read(0, 0, mc_choose(2, "block"), -1, 0); break;
		case 13: opname = "safe read"; do_read(0, 1, mc_choose(2, "block"), -1, 0); break;
		case 14: opname = "safe read"; do_read(0, 1, -1, mc_choose(2, "block"), 0); break;
		case 15: opname = "safe read"; do_read(0, 1, -1, mc_choose(2, "block"), 1); break;
		default: opname = "read"; do_read(0, 0, -1, mc_choose(2, "block"), 0); break;
		}
		mc_transition();
	}
	for (k = 0; k < 2; k++) {
		opname = "final read";
		do_read(k, 0, -1, -1, 0);
		opname = "final safe read";
		do_read(k, 1, -1, -1, 0);
		h = mc_hash(&in[k].failed, 2 * sizeof(int), h);
	}
	mc_outcome(h ^ (uint64_t)m_bad);
}
