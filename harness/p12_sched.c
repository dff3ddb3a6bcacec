/* P12, concurrent part: a failing self test against other activity on the same instance. */
#include "jitterentropy.h"
#include "jitterentropy-internal.h"
#include "jitterentropy-base.h"
#include "ilv.h"
#include "clk.h"

const char *mc_property = "P12";
int mc_fork_per_run = 1;
int mc_split_depth = 3;

int __wrap_jent_fips_enabled(void) { return 0; }
static int testfail;
int __wrap_jent_sha3_tester(void) { return testfail; }
void *__wrap_jent_zalloc(size_t len, unsigned int flags);
void *__wrap_jent_zalloc(size_t len, unsigned int flags) { (void)flags; return salloc(len); }
void __wrap_jent_zfree(void *ptr, size_t len);
void __wrap_jent_zfree(void *ptr, size_t len) { (void)ptr; (void)len; }
unsigned int __real_jent_stuck(struct rand_data *ec, uint64_t d);
unsigned int __wrap_jent_stuck(struct rand_data *ec, uint64_t d);
unsigned int __wrap_jent_stuck(struct rand_data *ec, uint64_t d)
{
	unsigned r = __real_jent_stuck(ec, d);
	clk_step();
	return r;
}

static struct rand_data *ecs[3], *ec;
static int scen, mode, failed;
static char out[80];
static void t_test(int i)
{
	(void)i;
	testfail = 1;
	MC_ASSERT(jent_selftest(ec) == EHASH, "a failing self test is not reported");
	testfail = 0;
	failed = 1;
}
static void t_read(int i)
{
	int f = failed;
	ssize_t r;
	(void)i;
	r = jent_read_entropy(ec, out, 40);
	MC_ASSERT(r == 40 || r == JENT_ERR_SELFTEST, "read returns %zd", r);
	MC_ASSERT(!f || r == JENT_ERR_SELFTEST, "read returns %zd after a failed self test of the instance", r);
}
static void t_safe(int i)
{
	int f = failed;
	ssize_t r;
	(void)i;
	r = jent_read_entropy_safe(&ec, out, 40);
	MC_ASSERT(r == 40 || r == JENT_ERR_SELFTEST, "safe read returns %zd", r);
	MC_ASSERT(!f || r == JENT_ERR_SELFTEST, "safe read returns %zd after a failed self test of the instance", r);
}
static void t_status(int i)
{
	char b[4096];
	(void)i;
	MC_ASSERT(!jent_status(ec, b, sizeof(b)), "status fails");
}
static void t_pass(int i)
{
	/* a passing test running at the same time: the verdict of the failing one stays */
	(void)i;
	if (!testfail)
		jent_selftest(ec);
}
/* two threads bring up a process whose self tests fail */
static void t_init(int i)
{
	(void)i;
	MC_ASSERT(jent_entropy_init_ex(0, JENT_MAX_MEMSIZE_1kB) == EHASH, "an initialization does not report the failed self test");
}
static void t_alloc(int i)
{
	(void)i;
	MC_ASSERT(!jent_entropy_collector_alloc(0, JENT_DISABLE_INTERNAL_TIMER | JENT_MAX_MEMSIZE_1kB),
		  "an allocation succeeds although every self test failed");
}
static void body2(void)
{
	testfail = 1;
	t_init(0);
	sspawn(t_init);
	sspawn(scen == 4 ? t_alloc : t_init);
	srun();
	t_alloc(0);
	mc_outcome((uint64_t)scen);
	mc_states_add(0, spoints);
}
static void body(void)
{
	failed = 0;
	if (scen >= 4) {
		body2();
		return;
	}
	ec = ecs[mode];
	sspawn(t_test);
	sspawn(scen == 0 ? t_read : scen == 1 ? t_safe : scen == 2 ? t_status : t_pass);
	srun();
	memset(out, 0x55, sizeof(out));
	MC_ASSERT(jent_read_entropy(ec, out, 40) == JENT_ERR_SELFTEST, "the failed self test was lost");
	MC_ASSERT(out[0] == 0x55, "output after a failed self test of the instance");
	MC_ASSERT(jent_read_entropy_safe(&ec, out, 40) == JENT_ERR_SELFTEST, "the failed self test was lost");
	mc_outcome((uint64_t)scen);
	mc_states_add(0, spoints);
}
void mc_setup(void)
{
	static const unsigned modes[] = { 0, JENT_FORCE_FIPS, JENT_NTG1 };
	sarena_init();
	clk_install();
	for (mode = 0; mode < 3; mode++) {
		ecs[mode] = jent_entropy_collector_alloc(0, modes[mode] | JENT_DISABLE_INTERNAL_TIMER | JENT_MAX_MEMSIZE_1kB);
		if (!ecs[mode]) {
			fprintf(stderr, "cannot allocate\n");
			exit(3);
		}
		for (scen = 0; scen < 6; scen++)
			if (scen < 4 || !mode)
				sched_profile(body, 2, 40);
	}
}
void mc_body(void)
{
	scen = mc_choose(6, "activity");
	mode = scen < 4 ? mc_choose(3, "mode") : 0;
	body();
}
