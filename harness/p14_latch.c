/*
 * P14: process-wide settings over all orders of configuration, initialization,
 * allocation and reading.
 */
#include <stdlib.h>
#include <stdio.h>
#include <sched.h>
#include "mc.h"
#include "vos.h"
#include "jitterentropy.h"
#include "jitterentropy-internal.h"
#include "jitterentropy-health.h"
#include "jitterentropy-timer.h"
#include "jitterentropy-noise.h"

const char *mc_property = "P14";
int mc_fork_per_run = 1;
int mc_split_depth = 2;

void *__wrap_jent_zalloc(size_t len, unsigned int flags) { (void)flags; return calloc(1, len); }
void __wrap_jent_zfree(void *ptr, size_t len) { (void)len; free(ptr); }
static int tester_bad, sysfips;
int __wrap_jent_sha3_tester(void) { return tester_bad; }
int __wrap_jent_fips_enabled(void) { return sysfips; }
long __wrap_jent_ncpu(void) { return 8; }
static long highest = 6;
long __wrap_jent_cpu_highest(void) { return highest; }
uint32_t __wrap_jent_cache_size_roundup(int all) { (void)all; return 1024; }
int __wrap_jent_os_random_bytes(uint8_t *b, size_t n) { memset(b, 1, n); return 0; }
void __wrap_jent_drbg_generate_block(void *ctx, uint8_t *dst, size_t n) { (void)ctx; memset(dst, 7, n); }

/* --- what is in use --- */
static int used_handler;	/* bit 0: built-in, 1, 2: custom */
static int used_cpu;
int __wrap_sched_setaffinity(int pid, size_t n, const cpu_set_t *m);
int __wrap_sched_setaffinity(int pid, size_t n, const cpu_set_t *m)
{
	int i;
	(void)pid;
	MC_ASSERT(CPU_COUNT_S(n, m) == 1, "counting thread bound to %d CPUs", CPU_COUNT_S(n, m));
	for (i = 0; i < (int)n * 8; i++)
		if (CPU_ISSET_S(i, n, m))
			used_cpu = i;
	return 0;
}
static void *b_arg;
static int h_used(int k) { used_handler |= 1 << k; return 0; }
#define HANDLER(k) \
	static int hi##k(void **c) { static int x; *c = &x; return h_used(k); } \
	static void hf##k(void *c) { if (c) h_used(k); } \
	static int hs##k(void *c, jent_notime_start_routine f, void *a) { (void)c; (void)f; (void)a; return h_used(k); } \
	static void ht##k(void *c) { if (c) h_used(k); } \
	static struct jent_notime_thread H##k = { hi##k, hf##k, hs##k, ht##k };
HANDLER(1)
HANDLER(2)
static struct jent_notime_thread part[4] = {
	{ NULL, hf1, hs1, ht1 }, { hi1, NULL, hs1, ht1 }, { hi1, hf1, NULL, ht1 }, { hi1, hf1, hs1, NULL } };

/* the built-in handler */
static void thr_start(void *arg, int ok) { (void)ok; b_arg = arg; h_used(0); }
static void thr_stop(void *arg)
{
	/* the thread gets the CPU only now: it finds the stop request */
	MC_ASSERT(((struct rand_data *)arg)->notime_interrupt, "waiting for a thread that was not asked to stop");
	vos_thread_fn(arg);
}

static int cb_calls[3];
static struct rand_data *cb_ec;
static int inject, injected;
static unsigned want_mask;
static void cb_check(int k, struct rand_data *ec, unsigned f)
{
	cb_calls[k]++;
	cb_ec = ec;
	MC_ASSERT(f, "callback without a failure");
	MC_ASSERT(ec && ec->health_failure == f, "callback told 0x%x, the instance has 0x%x", f, ec->health_failure);
	MC_ASSERT(ec->is_fips_enabled, "callback for an instance that does not enforce the health tests");
}
static void cb1(struct rand_data *ec, unsigned f) { cb_check(1, ec, f); }
static void cb2(struct rand_data *ec, unsigned f) { cb_check(2, ec, f); }

unsigned int __wrap_jent_measure_jitter(struct rand_data *ec, uint64_t l, uint64_t *d)
{
	static unsigned k;
	static uint64_t now = 1000;
	uint64_t delta = 100 + (k++ * 37) % 101;
	(void)l;
	if (inject == 2 && k % 1000 == 0) {
		/* alarm during the power-up test */
		ec->health_failure |= JENT_APT_FAILURE;
		injected++;
		inject = 0;
	}
	now += delta;
	ec->prev_time = now;
	if (d)
		*d = delta;
	return 0;
}
int __wrap_jent_gcd_analyze(uint64_t *h, size_t n, size_t osr) { (void)h; (void)n; (void)osr; return 0; }
static unsigned reported;	/* failing blocks of enforcing instances */
void __wrap_jent_random_data(struct rand_data *ec)
{
	if (inject == 1) {
		ec->health_failure |= want_mask;
		inject = 0;
	}
	if (ec->health_failure && ec->is_fips_enabled)
		reported++;
	if (ec->startup_state != jent_startup_completed)
		ec->startup_state--;
}

/* --- model --- */
static int m_latched, m_cb, m_handler, m_cpu = -1, m_forced;

static void conf(int got, int want, int *var, int val, const char *what)
{
	if (m_latched)
		MC_ASSERT(got == -EAGAIN, "%s after the initialization returns %d", what, got);
	else {
		MC_ASSERT(got == want, "%s before the initialization returns %d", what, got);
		if (!want)
			*var = val;
	}
}

static void after(const char *op, int timer)
{
	int k;
	for (k = 1; k < 3; k++)
		if (k != m_cb)
			MC_ASSERT(!cb_calls[k], "%s invokes callback %d, registered is %d", op, k, m_cb);
	if (m_cb) {
		MC_ASSERT(cb_calls[m_cb] >= (int)(reported + injected), "%s reports %u failures, the callback was invoked %d times", op, reported + injected, cb_calls[m_cb]);
		MC_ASSERT(reported + injected || !cb_calls[m_cb], "%s invokes the callback without a failure", op);
	}
	MC_ASSERT(!(used_handler & ~(1 << m_handler)), "%s uses handler 0x%x, %d is in force", op, used_handler, m_handler);
	if (timer > 0)
		MC_ASSERT(used_handler == 1 << m_handler, "%s uses handler 0x%x, %d is in force", op, used_handler, m_handler);
	if (timer == 0)
		MC_ASSERT(!used_handler, "%s starts a counting thread that is not needed", op);
	if ((used_handler & 1) && used_cpu >= 0)
		MC_ASSERT(used_cpu == (m_cpu >= 0 ? m_cpu : highest >= 0 ? highest : 7), "counting thread on CPU %d, configured is %d", used_cpu, m_cpu);
	if (m_forced)
		MC_ASSERT(jent_notime_forced(), "the forced internal timer is no longer in force after %s", op);
	m_forced = jent_notime_forced();
}

static struct rand_data *ec;

void mc_body(void)
{
	int k, depth = mc_param("depth", 4), r;
	static char out[64];

	vos_thread_start = thr_start;
	vos_thread_stop = thr_stop;
	for (k = 0; k < depth; k++) {
		int op = mc_choose(24, "op"), timer = -1, f;
		const char *nm = "configuration";
		if (!k)	/* a different machine for every third first operation */
			highest = op % 3 == 0 ? 6 : op % 3 == 1 ? 0 : -EINVAL;
		memset(cb_calls, 0, sizeof(cb_calls));
		used_handler = 0;
		used_cpu = -1;
		reported = injected = inject = 0;
		switch (op) {
		case 0: conf(jent_set_fips_failure_callback(cb1), 0, &m_cb, 1, "callback"); break;
		case 1: conf(jent_set_fips_failure_callback(cb2), 0, &m_cb, 2, "callback"); break;
		case 2: conf(jent_set_fips_failure_callback(NULL), 0, &m_cb, 0, "callback"); break;
		case 3: conf(jent_entropy_switch_notime_impl(&H1), 0, &m_handler, 1, "handler"); break;
		case 4: conf(jent_entropy_switch_notime_impl(&H2), 0, &m_handler, 2, "handler"); break;
		case 5: conf(jent_entropy_switch_notime_impl(NULL), -EINVAL, &m_handler, 0, "missing handler"); break;
		case 6: case 7: case 8: case 9:
			conf(jent_entropy_switch_notime_impl(&part[op - 6]), -EINVAL, &m_handler, 0, "incomplete handler"); break;
		case 10: conf(jent_entropy_set_notime_cpu(0), 0, &m_cpu, 0, "CPU"); break;
		case 11: conf(jent_entropy_set_notime_cpu(1500), 0, &m_cpu, 1500, "CPU"); break;
		case 12: case 13: case 14: case 15: case 16:
			nm = "initialization";
			tester_bad = op == 14;
			inject = op == 13 ? 2 : 0;
			timer = m_forced;
			if (op == 12)
				r = jent_entropy_init();
			else if (op == 15) {
				r = jent_entropy_init_ex(0, JENT_FORCE_INTERNAL_TIMER);
				timer = 1;
			} else if (op == 16)
				r = jent_entropy_init_ex(0, JENT_FORCE_INTERNAL_TIMER | JENT_NTG1);
			else
				r = jent_entropy_init_ex(0, 0);
			if (op == 14 || op == 16)
				timer = 0;
			else if (op == 13)
				timer = -1;	/* falls back */
			tester_bad = 0;
			MC_ASSERT(op == 13 || !!r == (op == 14 || op == 16), "initialization returns %d", r);
			m_latched = 1;
			break;
		case 17: case 18: case 19: case 20: case 21: {
			/* 17 plain, 18 FIPS, 19 FIPS with alarm, 20 forced timer, 21 refused at once */
			static const unsigned fl[] = { 0, JENT_FORCE_FIPS, JENT_FORCE_FIPS, JENT_FORCE_INTERNAL_TIMER, JENT_FORCE_INTERNAL_TIMER | JENT_DISABLE_INTERNAL_TIMER };
			nm = "allocation";
			jent_entropy_collector_free(ec);
			used_handler = 0;
			inject = op == 19;
			want_mask = JENT_LAG_FAILURE;
			timer = op == 20 ? 1 : op == 21 ? 0 : m_forced;
			ec = jent_entropy_collector_alloc(op == 21 ? 21 : 0, fl[op - 17]);
			MC_ASSERT(!!ec == (op != 21), "allocation %s", ec ? "succeeds" : "fails");
			if (op != 21)
				m_latched = 1;
			break;
		}
		default:
			/* reads: good, intermittent, several failures */
			nm = "read";
			if (!ec)
				mc_prune();
			inject = 1;
			want_mask = op == 22 ? 0 : JENT_APT_FAILURE_PERMANENT | JENT_RCT_FAILURE;
			f = ec->is_fips_enabled;
			timer = ec->enable_notime;
			{
				int had = ec->health_failure;
				ssize_t n = jent_read_entropy(ec, out, 20);
				MC_ASSERT((n < 0) == (f && (had || want_mask)), "read returns %zd", n);
			}
			break;
		}
		after(nm, timer);
		if (k == depth - 1 && op > 21 && m_cb && ec->is_fips_enabled) {
			/* whatever combination fails is told */
			unsigned m;
			for (m = 1; m < 256; m++) {
				ec->health_failure = 0;
				memset(cb_calls, 0, sizeof(cb_calls));
				used_handler = 0;
				reported = 0;
				inject = 1;
				want_mask = (m & 15) | (m >> 4) << JENT_PERMANENT_FAILURE_SHIFT;
				MC_ASSERT(jent_read_entropy(ec, out, 20) < 0, "read succeeds with failures 0x%x", want_mask);
				MC_ASSERT(reported, "harness: failure not injected");
				after("read", timer);
			}
		}
		mc_state(mc_hash(&(struct { int a, b, c, d, e; }){ m_latched, m_cb, m_handler, m_cpu, m_forced * 4 + !!ec }, 20, 0));
	}
	mc_outcome(mc_hash(cb_calls, sizeof(cb_calls), m_handler));
}
