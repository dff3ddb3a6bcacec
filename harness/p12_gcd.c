/*
 * P12: the self test of the divisor analysis notices a faulty remainder
 * operation: whenever the analysis would give a wrong divisor for the
 * known-answer deltas, initialization is refused.
 */
#include "mc.h"
#include "jitterentropy-internal.h"
#include <stdlib.h>
#include <errno.h>

static int fault_at, fault_kind, calls, used;
static uint64_t faulty(uint64_t a, uint64_t b)
{
	uint64_t r = b ? a % b : 0;
	int hit = calls++ == fault_at || (fault_kind == 7 && calls > fault_at);
	if (!hit)
		return r;
	used = 1;
	switch (fault_kind) {
	case 0: return 0;
	case 1: return r + 1;
	case 2: return r ^ 1;
	case 3: return b;
	case 4: return a;
	case 5: return r | (uint64_t)1 << 32;
	case 6: return 6;
	default: return 0;
	}
}
#define jent_umod64 faulty
#define jent_gcd_selftest t_jent_gcd_selftest
#define jent_gcd_analyze t_jent_gcd_analyze
#define jent_gcd_get t_jent_gcd_get
#define jent_gcd_init t_jent_gcd_init
#define jent_gcd_fini t_jent_gcd_fini
#define jent_gcd_tested t_jent_gcd_tested
#define jent_gcd_add_value t_jent_gcd_add_value
#include "jitterentropy-gcd.c"

const char *mc_property = "P12";
int mc_fork_per_run = 1;
int mc_split_depth = 2;

void mc_setup(void) {}
void mc_body(void)
{
	uint64_t v[10], g = 0;
	int i, ret, st, none;
	fault_at = mc_choose(40, "call");
	fault_kind = mc_choose(8, "fault");
	for (i = 0; i < 10; i++)
		v[i] = (uint64_t)i * 3;
	calls = 0;
	ret = t_jent_gcd_analyze(v, 10, 3);
	none = t_jent_gcd_get(&g);
	calls = 0;
	st = t_jent_gcd_selftest(0);
	if (!used)	/* never that far */
		MC_ASSERT(st == 0, "the self test of the divisor analysis fails (%d) without a fault", st);
	if (ret || none || g != 3)
		MC_ASSERT(st != 0, "fault %d in remainder %d: divisor %llu instead of 3, and the self test passes", fault_kind, fault_at,
			  none ? 0ull : (unsigned long long)g);
	mc_outcome((uint64_t)st * 1000 + g % 1000);
}
