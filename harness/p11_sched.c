/* P11, concurrent part: publication of the divisor under all schedules. */
#include "jitterentropy.h"
#include "jitterentropy-internal.h"
#include "jitterentropy-gcd.h"
#include "ilv.h"

const char *mc_property = "P11";
int mc_fork_per_run = 1;
int mc_split_depth = 3;

void *__wrap_jent_zalloc(size_t len, unsigned int flags);
void *__wrap_jent_zalloc(size_t len, unsigned int flags) { (void)flags; return salloc(len); }
void __wrap_jent_zfree(void *ptr, size_t len);
void __wrap_jent_zfree(void *ptr, size_t len) { (void)ptr; (void)len; }
unsigned int __wrap_jent_measure_jitter(struct rand_data *ec, uint64_t l, uint64_t *d);
unsigned int __wrap_jent_measure_jitter(struct rand_data *ec, uint64_t l, uint64_t *d)
{
	static unsigned k;
	uint64_t delta = 7 * (100 + (k++ * 37) % 101);
	(void)l;
	ec->prev_time += delta + 1;
	if (d)
		*d = delta;
	return 0;
}
void __wrap_jent_random_data(struct rand_data *ec);
void __wrap_jent_random_data(struct rand_data *ec) { ec->startup_state = jent_startup_completed; }
int __wrap_jent_sha3_tester(void) { return 0; }
int __wrap_jent_fips_enabled(void) { return 0; }
int __wrap_jent_os_random_bytes(uint8_t *b, size_t n);
int __wrap_jent_os_random_bytes(uint8_t *b, size_t n) { memset(b, 1, n); return 0; }

static int scen;
static uint64_t seen;	/* first divisor any thread saw */
static int bad_after;	/* thread order is the order of observation */

static void observe(void)
{
	uint64_t v = 0xdead;
	int none = jent_gcd_get(&v);
	if (none) {
		MC_ASSERT(!seen, "the divisor %llu disappeared", (unsigned long long)seen);
		return;
	}
	MC_ASSERT(v == 6 || v == 10 || v == 7, "a reader got the divisor %llu, which nobody computed", (unsigned long long)v);
	MC_ASSERT(!seen || seen == v, "the divisor changed from %llu to %llu", (unsigned long long)seen, (unsigned long long)v);
	seen = v;
}
static void t_six(int i)
{
	uint64_t h[4] = { 6, 12, 30, 6 };
	(void)i;
	MC_ASSERT(jent_gcd_analyze(h, 4, 3) == 0, "analysis fails");
	observe();
	observe();
}
static void t_ten(int i)
{
	uint64_t h[4] = { 20, 10, 40, 10 };
	(void)i;
	MC_ASSERT(jent_gcd_analyze(h, 4, 3) == 0, "analysis fails");
	observe();
	observe();
}
static void t_read(int i)
{
	int k;
	(void)i;
	for (k = 0; k < 4; k++)
		observe();
}
static void t_alloc(int i)
{
	uint64_t pre = seen;
	struct rand_data *ec = jent_entropy_collector_alloc(3, JENT_DISABLE_INTERNAL_TIMER | JENT_MAX_MEMSIZE_1kB);
	(void)i;
	MC_ASSERT(ec, "allocation fails");
	MC_ASSERT(ec->jent_common_timer_gcd == 1 || ec->jent_common_timer_gcd == 6 || ec->jent_common_timer_gcd == 7,
		  "instance uses the divisor %llu", (unsigned long long)ec->jent_common_timer_gcd);
	MC_ASSERT(!pre || ec->jent_common_timer_gcd == pre, "instance uses the divisor %llu although %llu was established before",
		  (unsigned long long)ec->jent_common_timer_gcd, (unsigned long long)pre);
	if (seen)	/* published before this instance was finished or by it */
		observe();
}
static void t_init(int i)
{
	(void)i;
	MC_ASSERT(jent_entropy_init_ex(3, JENT_DISABLE_INTERNAL_TIMER | JENT_MAX_MEMSIZE_1kB) == 0, "initialization fails");
	observe();
}

static void body(void)
{
	seen = 0;
	switch (scen) {
	case 0: sspawn(t_six); sspawn(t_ten); break;
	case 1: sspawn(t_six); sspawn(t_ten); sspawn(t_read); break;
	case 2: sspawn(t_six); sspawn(t_alloc); break;
	case 3: sspawn(t_init); sspawn(t_alloc); break;
	default: sspawn(t_init); sspawn(t_init); sspawn(t_read); break;
	}
	srun();
	{
		uint64_t v = 0;
		MC_ASSERT(jent_gcd_get(&v) == 0, "no divisor although an analysis succeeded");
		observe();
	}
	mc_outcome(seen + (uint64_t)scen * 100);
	mc_states_add(0, spoints);
}

void mc_setup(void)
{
	sarena_init();
	for (scen = 0; scen < 5; scen++)
		sched_profile(body, scen == 1 || scen == 4 ? 3 : 2, 300);
}

void mc_body(void)
{
	scen = mc_choose(5, "scenario");
	body();
}
