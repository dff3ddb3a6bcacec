/*
 * P06, second part: the known answer self test notices every single-bit fault
 * in the constants it works with.  The constants are located by value in the
 * loaded image of the library code and damaged bit by bit.
 */
#include "mc.h"
#include "jitterentropy.h"
#include "jitterentropy-internal.h"
#include "jitterentropy-sha3.h"
#include "ref_keccak.h"
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>

const char *mc_property = "P06";
int mc_fork_per_run = 1;
int mc_split_depth = 2;

extern char __executable_start, etext, edata, end;

static struct tab { const char *name; uint8_t want[200]; unsigned n; } tabs[5];

void mc_setup(void)
{
	static const uint8_t m[3] = { 0x5E, 0x5E, 0xD6 };
	uint8_t seed[9];
	struct rk_drbg d;
	int i;
	rk_prepare();
	tabs[0].name = "round constants";
	for (i = 0; i < 24; i++)
		memcpy(tabs[0].want + 8 * i, &rk_rc[i], 8);
	tabs[0].n = 192;
	tabs[1].name = "SHA3-256 expected digest";
	rk_sha3_256(m, 3, tabs[1].want);
	tabs[1].n = 32;
	for (i = 0; i < 9; i++)
		seed[i] = (uint8_t)i;
	rkd_init(&d);
	rkd_add(&d, seed, 9);
	rkd_generate(&d, tabs[2].want, 32);
	rkd_add(&d, seed, 9);
	rkd_generate(&d, tabs[2].want, 32);
	tabs[2].name = "XDRBG-256 expected output";
	tabs[2].n = 32;
}

void mc_body(void)
{
	int t = mc_choose(3, "table"), found = 0;
	int bit = mc_choose((int)tabs[t].n * 8, "bit");
	char *lo = &__executable_start, *hi = &end, *p;
	/* the tables of the library are in the read-only part of the image;
	 * the reference tables of this harness are zeroed before searching */
	uint8_t want[200];
	unsigned n = tabs[t].n;

	MC_ASSERT(jent_sha3_tester() == 0, "the self test fails on correct primitives");
	memcpy(want, tabs[t].want, n);
	memset(tabs, 0, sizeof(tabs));
	memset(rk_rc, 0, sizeof(rk_rc));
	for (p = lo; p + n <= hi; p++) {
		if (memcmp(p, want, n))
			continue;
		if (mprotect((void *)((uintptr_t)p & ~4095ul), 8192, PROT_READ | PROT_WRITE | PROT_EXEC))
			mc_fail("harness: mprotect");
		p[bit / 8] ^= (char)(1 << (bit % 8));
		found++;
		p += n - 1;
	}
	if (!found) {
		/* the compiler did not keep this table: nothing to damage */
		mc_outcome((uint64_t)t);
		return;
	}
	mc_outcome(1000 + (uint64_t)t * 2000 + bit);
	MC_ASSERT(jent_sha3_tester() != 0,
		  "the self test passes although bit %d of the %s is wrong", bit, n == 192 ? "round constants" : "expected result");
}
