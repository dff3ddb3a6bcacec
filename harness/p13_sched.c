/*
 * P13, concurrent part: the real counting thread and the real time stamps of
 * the internal timer under every interleaving.
 */
#include <stdlib.h>
#include <pthread.h>
#include "jitterentropy.h"
#include "jitterentropy-internal.h"
#include "jitterentropy-timer.h"
#include "jitterentropy-health.h"
#include "jitterentropy-noise.h"
#include "ilv.h"

const char *mc_property = "P13";
int mc_fork_per_run = 1;
int mc_split_depth = 4;

/* --- memory: never reused, accesses after the release are reported --- */
static struct { const char *p; size_t n; int freed; } blks[256];
static int nblk;
void *__wrap_jent_zalloc(size_t len, unsigned int flags);
void *__wrap_jent_zalloc(size_t len, unsigned int flags)
{
	void *p = salloc(len);
	(void)flags;
	memset(p, 0, len);
	blks[nblk].p = p;
	blks[nblk].n = len;
	blks[nblk++].freed = 0;
	return p;
}
void __wrap_jent_zfree(void *ptr, size_t len);
void __wrap_jent_zfree(void *ptr, size_t len)
{
	int i;
	if (!ptr)
		return;
	for (i = 0; i < nblk && blks[i].p != ptr; i++)
		;
	MC_ASSERT(i < nblk && !blks[i].freed, "memory released twice");
	blks[i].freed = 1;
	memset(ptr, 0, len);
}
static void touched(const void *p, size_t n, int wr)
{
	int i;
	for (i = 0; i < nblk; i++)
		if (blks[i].freed && (const char *)p < blks[i].p + blks[i].n && (const char *)p + n > blks[i].p)
			mc_fail("thread %d %s memory that was released", scur, wr ? "writes" : "reads");
}

/* --- the counting threads (a recovery during startup tests a second instance meanwhile) --- */
static void *(*c_fn[3])(void *);
static void *c_arg[3];
static int c_running;
static void counter(int i) { c_fn[i](c_arg[i]); }
int __wrap_pthread_attr_init(pthread_attr_t *a);
int __wrap_pthread_attr_init(pthread_attr_t *a) { (void)a; return 0; }
int __wrap_pthread_attr_destroy(pthread_attr_t *a);
int __wrap_pthread_attr_destroy(pthread_attr_t *a) { (void)a; return 0; }
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg);
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
{
	int i;
	(void)a;
	for (i = 1; i < 3; i++)
		MC_ASSERT(c_arg[i] != arg, "two counting threads for one instance");
	for (i = 1; i < 3 && c_arg[i]; i++)
		;
	MC_ASSERT(i < 3, "three counting threads at once");
	c_fn[i] = fn;
	c_arg[i] = arg;
	c_running++;
	*t = i;
	sspawn_at(counter, i);
	sthr[i].quantum = 9;
	return 0;
}
int __wrap_pthread_join(pthread_t t, void **r);
int __wrap_pthread_join(pthread_t t, void **r)
{
	unsigned n = 0;
	(void)r;
	MC_ASSERT(t > 0 && t < 3 && c_arg[t], "join of a thread that does not run");
	while (!sthr[t].done) {
		syield();
		if (++n > 1000)
			mc_fail("the counting thread does not stop when asked to");
	}
	c_arg[t] = NULL;
	c_running--;
	return 0;
}
int __wrap_sched_setaffinity(int pid, size_t n, const void *m);
int __wrap_sched_setaffinity(int pid, size_t n, const void *m) { (void)pid; (void)n; (void)m; return 0; }

int __wrap_jent_sha3_tester(void) { return 0; }
int __wrap_jent_gcd_selftest(unsigned f) { (void)f; return 0; }
int __wrap_jent_fips_enabled(void) { return 0; }
long __wrap_jent_ncpu(void) { return 4; }
long __wrap_jent_cpu_highest(void) { return 3; }
uint32_t __wrap_jent_cache_size_roundup(int all) { (void)all; return 1024; }
int __wrap_jent_os_random_bytes(uint8_t *b, size_t n) { memset(b, 1, n); return 0; }
void __wrap_jent_drbg_generate_block(void *ctx, uint8_t *dst, size_t n) { (void)ctx; memset(dst, 7, n); }

static int looks;
static void look(struct rand_data *ec)
{
	uint64_t last = 0, t;
	int i;
	for (i = 0; i < looks; i++) {
		unsigned long s = sspin;
		jent_get_nstime_internal(ec, &t);
		MC_ASSERT(t > last, "time stamp %llu after %llu: the counter did not tick", (unsigned long long)t, (unsigned long long)last);
		last = t;
		(void)s;
	}
}
static int in_init;
unsigned int __wrap_jent_measure_jitter(struct rand_data *ec, uint64_t l, uint64_t *d)
{
	static unsigned k;
	static uint64_t now = 1000;
	uint64_t delta = 100 + (k++ * 37) % 101;
	(void)l;
	if (in_init-- > 0)
		look(ec);
	now += delta;
	ec->prev_time = now;
	if (d)
		*d = delta;
	return 0;
}
int __wrap_jent_gcd_analyze(uint64_t *h, size_t n, size_t osr) { (void)h; (void)n; (void)osr; return 0; }
static int verdict;
void __wrap_jent_random_data(struct rand_data *ec)
{
	look(ec);
	if (verdict && !--verdict)
		ec->health_failure |= JENT_RCT_FAILURE;
	if (ec->startup_state != jent_startup_completed)
		ec->startup_state--;
}

static int scen;
static void user(int i)
{
	struct rand_data *ec;
	char out[64];
	ssize_t n;
	(void)i;
	looks = scen == 3 ? 1 : 2;
	in_init = scen == 0;
	verdict = scen == 3 ? 2 : scen == 4 ? 1 : 0;
	ec = jent_entropy_collector_alloc(0, JENT_FORCE_INTERNAL_TIMER | (scen >= 2 ? JENT_FORCE_FIPS : 0));
	MC_ASSERT(ec, "allocation fails");
	MC_ASSERT(!c_running, "counting thread runs after the allocation");
	if (scen == 1 || scen == 3) {
		if (scen == 3)
			verdict = 1;
		n = scen == 3 ? jent_read_entropy_safe(&ec, out, 40) : jent_read_entropy(ec, out, 40);
		MC_ASSERT(n == 40, "read returns %zd", n);
		MC_ASSERT(!c_running, "counting thread runs after the read");
	} else if (scen == 2) {
		verdict = 1;
		n = jent_read_entropy(ec, out, 40);
		MC_ASSERT(n == JENT_ERR_RCT, "read returns %zd", n);
		MC_ASSERT(!c_running, "counting thread runs after the failed read");
	}
	jent_entropy_collector_free(ec);
	MC_ASSERT(!c_running, "counting thread runs after the release");
}
static void body(void)
{
	saccess_hook = touched;
	sspawn(user);
	srun();
	mc_outcome(spoints * 5 + scen);
	mc_states_add(0, spoints);
}
#define NSCEN 5
void mc_setup(void)
{
	sarena_init();
	for (scen = 0; scen < NSCEN; scen++)
		sched_profile(body, 1, 200);
}
void mc_body(void)
{
	scen = mc_choose(NSCEN, "scenario");
	body();
}
