/* P17, concurrent part: first questions asked by several threads at once. */
#include <fcntl.h>
#include <unistd.h>
#include <stdlib.h>
#include "jitterentropy.h"
#include "jitterentropy-internal.h"
#include "ilv.h"
#include "vfile.h"

const char *mc_property = "P17";
int mc_fork_per_run = 1;
int mc_split_depth = 3;

static int vf_open(const char *path)
{
	static const char *a[] = { "type", "level", "size" };
	const char *p = strstr(path, "/cpu0/cache/index");
	int i, k;
	if (strncmp(path, "/sys/devices/system/cpu", 23))
		return VF_PASS;
	if (!p)
		return -ENOENT;
	i = p[17] - '0';
	for (k = 0; k < 3; k++)
		if (i >= 0 && i < 3 && !strcmp(strrchr(path, '/') + 1, a[k]))
			return i * 3 + k;
	return -ENOENT;
}
static ssize_t vf_read(struct vfd *f, void *buf, size_t n)
{
	static const char *t[] = { "Data\n", "1\n", "32K\n", "Unified\n", "2\n", "1M\n", "Unified\n", "3\n", "16M\n" };
	size_t l = f->pos ? 0 : strlen(t[f->id]);
	(void)n;
	memcpy(buf, t[f->id], l);
	return (ssize_t)l;
}
long __real_sysconf(int name);
long __wrap_sysconf(int name);
long __wrap_sysconf(int name) { return name == _SC_NPROCESSORS_CONF ? 1 : 0; }

static int scen;
static void ask(int all)
{
	uint32_t v = jent_cache_size_roundup(all);
	uint32_t want = all ? 1u << 25 : 1u << 16;
	MC_ASSERT(v == want, "a thread was told %u instead of %u", v, want);
}
static void t_l1(int i) { (void)i; ask(0); ask(1); }
static void t_all(int i) { (void)i; ask(1); ask(0); }
static void t_twice(int i) { (void)i; ask(1); ask(1); }
static void body(void)
{
	sspawn(t_l1);
	sspawn(scen ? t_twice : t_all);
	if (scen == 2)
		sspawn(t_all);
	srun();
	ask(0);
	ask(1);
	vf_check();
	mc_outcome(spoints);
	mc_states_add(0, spoints);
}
void mc_setup(void)
{
	for (scen = 0; scen < 3; scen++)
		sched_profile(body, scen == 2 ? 3 : 2, 300);
}
void mc_body(void)
{
	scen = mc_choose(3, "scenario");
	body();
}
