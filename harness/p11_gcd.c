/* P11, sequential part: analysis of all histories over small alphabets. */
#include "mc.h"
#include "jitterentropy.h"
#include "jitterentropy-internal.h"
#include "jitterentropy-gcd.h"

const char *mc_property = "P11";
int mc_fork_per_run = 1;
int mc_split_depth = 3;

static uint64_t gcd(uint64_t a, uint64_t b) { while (b) { uint64_t t = a % b; a = b; b = t; } return a; }
static uint64_t m_pub;

static void analyze(uint64_t *h, size_t n, size_t osr)
{
	unsigned __int128 var = 0;
	uint64_t g = 0, got = 0;
	uint64_t copy[1100];
	int r, want, none;
	size_t i;
	for (i = 0; i < n; i++) {
		g = gcd(h[i], g);
		if (i)
			var += h[i] > h[i - 1] ? h[i] - h[i - 1] : h[i - 1] - h[i];
		copy[i] = h[i];
	}
	want = var * osr < n ? EMINVARVAR : g >= 0xffffffffu / 2 ? ECOARSETIME : 0;
	r = jent_gcd_analyze(h, n, osr);
	MC_ASSERT(r == want, "%zu deltas %llu %llu %llu ... at rate %zu: verdict %d, documented %d", n, (unsigned long long)h[0],
		  (unsigned long long)(n > 1 ? h[1] : 0), (unsigned long long)(n > 2 ? h[2] : 0), osr, r, want);
	if (!want && !m_pub)
		m_pub = g;
	none = jent_gcd_get(&got);
	MC_ASSERT(!!none == !m_pub, "the common divisor is %sestablished", none ? "not " : "");
	MC_ASSERT(none || got == m_pub, "common divisor %llu, true divisor %llu", (unsigned long long)got, (unsigned long long)m_pub);
	for (i = 0; i < n; i++)
		MC_ASSERT(copy[i] == h[i], "the history was changed");
	mc_outcome(((uint64_t)r << 56) ^ got);
	mc_states_add(0, 1);
}

void mc_body(void)
{
	static const uint64_t wide[] = { 0, 1, 2, 3, 4, 6, 12, 15, 1000, 0x7ffffffeull, 0x7fffffffull, 0xfffffffeull, 0x100000000ull,
					 0x180000000ull, 0x4000000000000000ull, 0x8000000000000000ull, 0x8000000000000001ull, 0xfffffffffffffffaull, 0xffffffffffffffffull };
	static const uint64_t small[] = { 0, 1, 6, 10, 15, 21, 0x8000000000000000ull };
	static const uint64_t second[2][4] = { { 35, 70, 140, 35 }, { 0, 0, 0, 0 } };
	static const size_t osrs[] = { 1, 3, 4, 20 };
	uint64_t h[1100];
	size_t n, i, rate = 0;
	uint64_t v = 0;
	int cls = mc_choose(4, "class");

	MC_ASSERT(jent_gcd_get(&v) == 1, "a divisor exists before any analysis");
	if (cls == 0) {
		n = (size_t)mc_choose(3, "length") + 1;
		for (i = 0; i < n; i++)
			h[i] = wide[mc_choose(19, "delta")];
	} else if (cls == 1) {
		n = (size_t)mc_choose(mc_thorough() ? 3 : 2, "length") + 4;
		for (i = 0; i < n; i++)
			h[i] = small[mc_choose(7, "delta")];
	} else if (cls == 3) {
		/* histories as long as the real one, one special place anywhere, the variation at its limit */
		static const size_t len[] = { 1023, 1024, 1025 };
		static const uint64_t odd[] = { 0, 1, 35, 1000, 0x8000000000000000ull };
		static const size_t place[] = { 0, 1, 2, 511, 512, 900 };
		size_t at = (size_t)mc_choose(10, "at");
		n = len[mc_choose(3, "length")];
		at = at < 6 ? place[at] : n - (at - 5);
		if (mc_choose(2, "kind")) {
			for (i = 0; i < n; i++)
				h[i] = 14 * (1 + (i * 5 + 2) % 7);
			h[at] = odd[mc_choose(5, "odd one")];
		} else {
			/* constant, up to one step */
			rate = osrs[mc_choose(4, "rate")];
			v = (n + rate - 1) / rate + (size_t)mc_choose(5, "step") - 2;
			for (i = 0; i < n; i++)
				h[i] = 5000 + (i >= at ? v : 0);
		}
	} else {
		/* long tails: the odd one out at any place */
		uint64_t unit = wide[1 + mc_choose(11, "unit")];
		size_t at = (size_t)mc_choose(12, "at");
		n = 12;
		for (i = 0; i < n; i++)
			h[i] = unit * (1 + (i * 5 + 2) % 7);
		h[at] = wide[mc_choose(19, "odd one")];
	}
	analyze(h, n, rate ? rate : osrs[cls == 1 ? 1 : mc_choose(4, "rate")]);
	/* a later history changes nothing */
	memcpy(h, second[0], sizeof(second[0]));
	analyze(h, 4, 3);
	memcpy(h, second[1], sizeof(second[1]));
	analyze(h, 4, 3);
	h[0] = 5; h[1] = 10; h[2] = 25; h[3] = 5;
	analyze(h, 4, 3);
}
