/* P16: FIPS state as the crypto library or the kernel tells it. BK as in p0708_alt.c */
#include <stddef.h>
#include <stdint.h>
#include "mc.h"
const char *mc_property = "P16";
int mc_fork_per_run = 0;
int mc_split_depth = 1;
int jent_fips_enabled(void);
static int state;
int gcry_fips_mode_active(void) { return state; }
int EVP_default_properties_is_fips_enabled(void *c) { MC_ASSERT(!c, "FIPS state of a private library context"); return state; }
int FIPS_mode(void) { return state; }
int fips_enabled;
void mc_body(void)
{
	int want;
	state = mc_choose(2, "state");
	fips_enabled = state;
	want = BK == 4 ? 0 : state;
	MC_ASSERT(!!jent_fips_enabled() == want, "FIPS state %d is reported as %d", want, !want);
	mc_outcome((uint64_t)state);
}
