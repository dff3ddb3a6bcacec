#define _GNU_SOURCE
#include "mc.h"
#include <errno.h>
#include <fcntl.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define MAXC 6000
#define MSGLEN 1600
#define HBITS 22
#define HSIZE (1u << HBITS)

enum { ST_IDLE, ST_RUNNING, ST_OK, ST_FAIL, ST_PRUNE, ST_DIVERGE };

struct slot {
	volatile int status;
	int nch;
	unsigned short ch[MAXC], wid[MAXC];
	unsigned char cost[MAXC];
	char lab[MAXC][20];
	char msg[MSGLEN];
	char note[600];
	/* server reporting */
	uint64_t runs, pruned;
	int subtree_done;
	int capped;
	int timed_out;
};

struct shared {
	uint64_t runs, points, pruned, states_add, trans_add;
	uint64_t n_outcome, n_state;
	uint64_t sat_outcome, sat_state;
	uint64_t maxdev, maxch;
	int stop;
	int setup_done;
	uint64_t outcome[HSIZE];
	uint64_t state[HSIZE];
};

static struct shared *sh;
static struct slot *slots;
static struct slot *cur;		/* slot of the running execution */

static int prefix_len;
static unsigned short prefix[MAXC];
static int dev, bound = 2, quiet, replaying;
static int expand_only_depth = -1;	/* stop at this choice index */
static jmp_buf run_jmp;
static int in_body;
static double run_timeout = 60, budget = 800;
static double t_start;
static int njobs = 8, nslots;
static int thorough;
static const char *tier_out;
static char *params[64];
static int nparams;
static pid_t body_pid;

__attribute__((weak)) void mc_setup(void) {}
__attribute__((weak)) int mc_fork_per_run = 1;
__attribute__((weak)) int mc_split_depth = 2;

static double now(void)
{
	struct timespec ts;
	clock_gettime(CLOCK_MONOTONIC, &ts);
	return ts.tv_sec + ts.tv_nsec * 1e-9;
}

uint64_t mc_hash(const void *p, size_t n, uint64_t h)
{
	const unsigned char *b = p;
	for (size_t i = 0; i < n; i++) {
		h ^= b[i];
		h *= 0x100000001b3ULL;
		h ^= h >> 29;
	}
	return h;
}

static void set_add(uint64_t *tab, uint64_t *cnt, uint64_t *sat, uint64_t h)
{
	uint32_t i, tries = 0;
	if (!h)
		h = 1;
	i = (uint32_t)((h * 0x9E3779B97F4A7C15ULL) >> (64 - HBITS));
	for (;; i = (i + 1) & (HSIZE - 1)) {
		uint64_t v = __atomic_load_n(&tab[i], __ATOMIC_RELAXED);
		if (v == h)
			return;
		if (!v) {
			uint64_t z = 0;
			if (__atomic_compare_exchange_n(&tab[i], &z, h, 0,
							__ATOMIC_RELAXED,
							__ATOMIC_RELAXED)) {
				__atomic_fetch_add(cnt, 1, __ATOMIC_RELAXED);
				return;
			}
			if (z == h)
				return;
		}
		if (++tries > 4096) {
			__atomic_fetch_add(sat, 1, __ATOMIC_RELAXED);
			return;
		}
	}
}

void mc_outcome(uint64_t h) { set_add(sh->outcome, &sh->n_outcome, &sh->sat_outcome, h); }
void mc_state(uint64_t h) { set_add(sh->state, &sh->n_state, &sh->sat_state, h); }
void mc_states_add(uint64_t s, uint64_t t)
{
	__atomic_fetch_add(&sh->states_add, s, __ATOMIC_RELAXED);
	__atomic_fetch_add(&sh->trans_add, t, __ATOMIC_RELAXED);
}
void mc_transition(void) { mc_states_add(0, 1); }
void mc_quiet(int on) { quiet = on; }
int mc_deviations(void) { return dev; }
int mc_replaying(void) { return replaying; }
int mc_thorough(void) { return thorough; }

static void leave(int st) __attribute__((noreturn));
static void leave(int st)
{
	cur->status = st;
	if (mc_fork_per_run || getpid() != body_pid)
		_exit(0);
	longjmp(run_jmp, 1);
}

void mc_fail(const char *fmt, ...)
{
	va_list ap;
	if (cur->status == ST_FAIL)	/* keep the first message */
		_exit(0);
	va_start(ap, fmt);
	vsnprintf(cur->msg, MSGLEN, fmt, ap);
	va_end(ap);
	leave(ST_FAIL);
}

void mc_prune(void) { leave(ST_PRUNE); }

void mc_note(const char *fmt, ...)
{
	va_list ap;
	size_t l = strlen(cur->note);
	va_start(ap, fmt);
	vsnprintf(cur->note + l, sizeof(cur->note) - l, fmt, ap);
	va_end(ap);
}

static int choose(int n, int cost, const char *label)
{
	int i = cur->nch, c = 0;

	if (n <= 0)
		mc_fail("harness: choice %s with %d alternatives", label, n);
	if (quiet)
		return 0;
	if (n == 1)
		return 0;
	if (cost && dev + cost > bound)
		return 0;	/* no budget: default answer, not a choice */
	if (i >= MAXC)
		mc_fail("harness: more than %d choices in one execution", MAXC);
	if (i < prefix_len) {
		c = prefix[i];
		if (c >= n) {
			snprintf(cur->msg, MSGLEN,
				 "replay divergence at choice %d (%s): %d of %d",
				 i, label, c, n);
			leave(ST_DIVERGE);
		}
	} else if (expand_only_depth >= 0 && i >= expand_only_depth) {
		/* the master only wants the width of this choice */
		cur->ch[i] = 0;
		cur->wid[i] = n;
		cur->cost[i] = cost;
		cur->nch = i + 1;
		leave(ST_PRUNE);
	}
	cur->ch[i] = c;
	cur->wid[i] = n;
	cur->cost[i] = cost;
	snprintf(cur->lab[i], sizeof(cur->lab[i]), "%s", label);
	cur->nch = i + 1;
	if (c && cost)
		dev += cost;
	return c;
}

int mc_choose(int n, const char *label) { return choose(n, 0, label); }
int mc_env(int n, const char *label) { return choose(n, 1, label); }
int mc_env_cost(int n, int cost, const char *label) { return choose(n, cost, label); }

long mc_param(const char *name, long dflt)
{
	size_t l = strlen(name);
	for (int i = 0; i < nparams; i++)
		if (!strncmp(params[i], name, l) && params[i][l] == '=')
			return strtol(params[i] + l + 1, NULL, 0);
	return dflt;
}

/* a limit on CPU time, and a longer one on real time for executions that block:
 * how busy the machine is does not decide whether an execution hangs */
static void set_alarm(double s)
{
	struct itimerval it = { {0, 0}, {0, 0} };
	it.it_value.tv_sec = (long)s;
	it.it_value.tv_usec = (long)((s - (long)s) * 1e6);
	setitimer(ITIMER_PROF, &it, NULL);
	it.it_value.tv_sec *= 3;
	it.it_value.tv_usec = 0;
	if (s > 0 && !it.it_value.tv_sec)
		it.it_value.tv_sec = 3;
	setitimer(ITIMER_REAL, &it, NULL);
}
static int is_alarm(int st)
{
	return WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGPROF);
}

static void body(void)
{
	dev = 0;
	quiet = 0;
	in_body = 1;
	mc_body();
	in_body = 0;
	if (cur->nch < prefix_len) {
		snprintf(cur->msg, MSGLEN,
			 "replay divergence: %d of %d choices consumed",
			 cur->nch, prefix_len);
		leave(ST_DIVERGE);
	}
	leave(ST_OK);
}

/* one execution with the given prefix; result is in the slot */
static void run_one(struct slot *s, const unsigned short *pre, int n, int dofork,
		    double tmo)
{
	memcpy(prefix, pre, n * sizeof(*pre));
	prefix_len = n;
	s->nch = 0;
	s->status = ST_RUNNING;
	s->msg[0] = 0;
	s->note[0] = 0;
	s->timed_out = 0;
	cur = s;
	if (dofork) {
		int st;
		pid_t p = fork();
		if (p < 0) {
			perror("fork");
			_exit(3);
		}
		if (!p) {
			int save = mc_fork_per_run;
			mc_fork_per_run = 1;
			(void)save;
			prctl(PR_SET_PDEATHSIG, SIGKILL);
			body_pid = getpid();
			set_alarm(tmo);
			body();
			_exit(0);
		}
		while (waitpid(p, &st, 0) < 0 && errno == EINTR)
			;
		if (s->status == ST_FAIL || s->status == ST_OK ||
		    s->status == ST_PRUNE || s->status == ST_DIVERGE)
			return;
		if (is_alarm(st)) {
			s->timed_out = 1;
			snprintf(s->msg, MSGLEN,
				 "execution does not terminate within %.0f s", tmo);
		} else if (WIFSIGNALED(st))
			snprintf(s->msg, MSGLEN, "execution crashed: signal %d (%s)",
				 WTERMSIG(st), strsignal(WTERMSIG(st)));
		else
			snprintf(s->msg, MSGLEN,
				 "execution ended the process: exit status %d (sanitizer report, abort or exit)",
				 WEXITSTATUS(st));
		s->status = ST_FAIL;
	} else {
		body_pid = getpid();
		set_alarm(tmo);
		if (!setjmp(run_jmp))
			body();
		set_alarm(0);
	}
}

static void account(struct slot *s)
{
	uint64_t d = 0, m;
	__atomic_fetch_add(&sh->runs, 1, __ATOMIC_RELAXED);
	__atomic_fetch_add(&sh->points, (uint64_t)s->nch, __ATOMIC_RELAXED);
	if (s->status == ST_PRUNE)
		__atomic_fetch_add(&sh->pruned, 1, __ATOMIC_RELAXED);
	for (int i = 0; i < s->nch; i++)
		if (s->ch[i] && s->cost[i])
			d += s->cost[i];
	m = __atomic_load_n(&sh->maxdev, __ATOMIC_RELAXED);
	if (d > m)
		__atomic_store_n(&sh->maxdev, d, __ATOMIC_RELAXED);
	m = __atomic_load_n(&sh->maxch, __ATOMIC_RELAXED);
	if ((uint64_t)s->nch > m)
		__atomic_store_n(&sh->maxch, (uint64_t)s->nch, __ATOMIC_RELAXED);
}

/* DFS over the subtree below prefix; runs in a worker process */
static void explore(struct slot *s, const unsigned short *pre, int plen)
{
	static unsigned short path[MAXC], wid[MAXC];
	static unsigned char cost[MAXC];
	int n = plen, base = plen;

	memcpy(path, pre, plen * sizeof(*pre));
	for (;;) {
		int i;
		if (sh->stop) {
			s->capped = 1;
			return;
		}
		if (now() - t_start > budget) {
			s->capped = 1;
			return;
		}
		run_one(s, path, n, mc_fork_per_run, run_timeout);
		s->runs++;
		account(s);
		if (s->status == ST_FAIL || s->status == ST_DIVERGE)
			return;
		/* backtrack: deepest choice with an untried alternative */
		n = s->nch;
		memcpy(path, s->ch, n * sizeof(path[0]));
		memcpy(wid, s->wid, n * sizeof(wid[0]));
		memcpy(cost, s->cost, n);
		for (i = n - 1; i >= base; i--)
			if (path[i] + 1 < wid[i])
				break;
		if (i < base) {
			s->subtree_done = 1;
			return;
		}
		path[i]++;
		n = i + 1;
	}
}

/* ---- master ---- */
struct job {
	int n;
	unsigned short *ch;
};
static struct job *jobs;
static int njob, capjob;

static void push(const unsigned short *ch, int n)
{
	if (njob == capjob) {
		capjob = capjob ? capjob * 2 : 256;
		jobs = realloc(jobs, capjob * sizeof(*jobs));
	}
	jobs[njob].n = n;
	jobs[njob].ch = malloc((n + 1) * sizeof(*ch));
	memcpy(jobs[njob].ch, ch, n * sizeof(*ch));
	njob++;
}

static void expand(struct slot *s, unsigned short *pre, int n)
{
	/* enumerate all prefixes of length mc_split_depth (or complete runs) */
	if (n >= mc_split_depth) {
		push(pre, n);
		return;
	}
	expand_only_depth = n;
	run_one(s, pre, n, 1, run_timeout);
	expand_only_depth = -1;
	if (s->status != ST_PRUNE || s->nch <= n) {
		/* complete (or failing) before a further choice */
		push(pre, n);
		return;
	}
	int w = s->wid[n];
	for (int c = 0; c < w; c++) {
		pre[n] = c;
		expand(s, pre, n + 1);
	}
}

static void jesc(FILE *f, const char *s)
{
	for (; *s; s++) {
		unsigned char c = *s;
		if (c == '"' || c == '\\')
			fprintf(f, "\\%c", c);
		else if (c == '\n')
			fputs("\\n", f);
		else if (c < 32 || c > 126)
			fprintf(f, "\\u%04x", c);
		else
			fputc(c, f);
	}
}

static char samples[6][900];
static int nsamples;

static void describe(struct slot *s, char *o, size_t l)
{
	size_t u = 0;
	o[0] = 0;
	for (int i = 0; i < s->nch && u + 60 < l; i++) {
		if (s->cost[i] && !s->ch[i])
			continue;
		u += snprintf(o + u, l - u, "%s=%d/%d ", s->lab[i], s->ch[i],
			      s->wid[i]);
	}
	if (s->note[0] && u + 20 < l)
		snprintf(o + u, l - u, "-> %s", s->note);
}

static void summary(int violated, const char *msg, int exhaustive, int ndone)
{
	FILE *f;
	if (!tier_out)
		return;
	f = fopen(tier_out, "w");
	if (!f)
		return;
	fprintf(f, "{\"runs\":%llu,\"choice_points\":%llu,\"pruned\":%llu,"
		"\"distinct_outcomes\":%llu,\"distinct_states\":%llu,"
		"\"state_table_saturated\":%llu,"
		"\"inner_states\":%llu,\"inner_transitions\":%llu,"
		"\"deviation_bound\":%d,\"max_deviations_seen\":%llu,"
		"\"max_choices\":%llu,\"subtrees\":%d,\"subtrees_done\":%d,"
		"\"exhaustive\":%s,\"violation\":%s,\"wall_s\":%.2f,\"message\":\"",
		(unsigned long long)sh->runs, (unsigned long long)sh->points,
		(unsigned long long)sh->pruned,
		(unsigned long long)sh->n_outcome,
		(unsigned long long)sh->n_state,
		(unsigned long long)(sh->sat_outcome + sh->sat_state),
		(unsigned long long)sh->states_add,
		(unsigned long long)sh->trans_add, bound,
		(unsigned long long)sh->maxdev, (unsigned long long)sh->maxch,
		njob, ndone, exhaustive ? "true" : "false",
		violated ? "true" : "false", now() - t_start);
	jesc(f, msg);
	fprintf(f, "\",\"samples\":[");
	for (int i = 0; i < nsamples; i++) {
		fprintf(f, "%s\"", i ? "," : "");
		jesc(f, samples[i]);
		fprintf(f, "\"");
	}
	fprintf(f, "]}\n");
	fclose(f);
}

static void write_replay(const char *path, struct slot *s, const char *msg)
{
	FILE *f = fopen(path, "w");
	if (!f)
		return;
	fprintf(f, "# property %s\n# %s\n", mc_property, "choices below; one per line: value width cost label");
	fprintf(f, "# bound %d\n", bound);
	for (const char *p = msg; *p; ) {
		const char *e = strchrnul(p, '\n');
		fprintf(f, "# message: %.*s\n", (int)(e - p), p);
		p = *e ? e + 1 : e;
	}
	for (int i = 0; i < s->nch; i++)
		fprintf(f, "%d %d %d %s\n", s->ch[i], s->wid[i], s->cost[i], s->lab[i]);
	fclose(f);
}

/* replay the failing run alone; 1 when it fails again */
static int confirm(struct slot *s, unsigned short *ch, int n, int hang)
{
	int fails = 0, times = hang ? 1 : 2;
	for (int i = 0; i < times; i++) {
		run_one(s, ch, n, 1, run_timeout * 1.2);
		if (s->status == ST_FAIL)
			fails++;
		else
			fprintf(stderr, "mc: replay %d did not fail (status %d: %s)\n",
				i, s->status, s->msg);
	}
	return fails == times;
}

int main(int argc, char **argv)
{
	const char *replay = NULL, *replay_out = "replay.txt";
	unsigned short *pre = calloc(MAXC, sizeof(*pre));
	pid_t *pids;
	int *pjob;
	int next = 0, done = 0, active = 0, capped = 0, i;

	if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("MC_NOASLR")) {
		setenv("MC_NOASLR", "1", 1);
		if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) >= 0)
			execv("/proc/self/exe", argv);
	}
	for (i = 1; i < argc; i++) {
#define OPT(n) (!strcmp(argv[i], n) && i + 1 < argc)
		if (OPT("--bound")) bound = atoi(argv[++i]);
		else if (OPT("--jobs")) njobs = atoi(argv[++i]);
		else if (OPT("--timeout")) run_timeout = atof(argv[++i]);
		else if (OPT("--budget")) budget = atof(argv[++i]);
		else if (OPT("--out")) tier_out = argv[++i];
		else if (OPT("--replay")) replay = argv[++i];
		else if (OPT("--replay-out")) replay_out = argv[++i];
		else if (OPT("--param")) params[nparams++] = argv[++i];
		else if (!strcmp(argv[i], "--thorough")) thorough = 1;
		else { fprintf(stderr, "bad option %s\n", argv[i]); return 2; }
	}
	signal(SIGPIPE, SIG_IGN);
	nslots = njobs + 1;
	sh = mmap(NULL, sizeof(*sh), PROT_READ | PROT_WRITE,
		  MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	slots = mmap(NULL, sizeof(*slots) * nslots, PROT_READ | PROT_WRITE,
		     MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (sh == MAP_FAILED || slots == MAP_FAILED)
		return 2;
	t_start = now();
	cur = &slots[njobs];
	/* mc_setup may run the code under check, which may crash or hang: everything
	 * happens in a child, and a setup that dies twice is a failure */
	for (i = 0;; i++) {
		int st;
		pid_t p = fork();
		if (p < 0) {
			perror("fork");
			return 2;
		}
		if (!p) {
			prctl(PR_SET_PDEATHSIG, SIGKILL);
			break;
		}
		while (waitpid(p, &st, 0) < 0 && errno == EINTR)
			;
		if (sh->setup_done)
			return WIFEXITED(st) ? WEXITSTATUS(st) : 2;
		if (WIFEXITED(st) && (WEXITSTATUS(st) == 2 || WEXITSTATUS(st) == 3))
			return WEXITSTATUS(st);
		if (i) {
			struct slot *s = &slots[njobs];
			int said = s->status == ST_FAIL;
			s->nch = 0;
			s->status = ST_FAIL;
			if (said)
				;
			else if (WIFEXITED(st))
				snprintf(s->msg, MSGLEN, "the preparation of the executions ended the process: exit status %d (sanitizer report, abort or exit)", WEXITSTATUS(st));
			else if (is_alarm(st))
				snprintf(s->msg, MSGLEN, "the preparation of the executions does not terminate within %.0f s", run_timeout);
			else
				snprintf(s->msg, MSGLEN, "the preparation of the executions crashed: signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
			if (replay) {
				printf("replay: FAIL %s\n", s->msg);
				return 1;
			}
			write_replay(replay_out, s, s->msg);
			fprintf(stderr, "mc: FAIL: %s\n", s->msg);
			summary(1, s->msg, 0, 0);
			return 1;
		}
	}
	set_alarm(run_timeout);
	mc_setup();
	set_alarm(0);
	sh->setup_done = 1;

	if (replay) {
		FILE *f = fopen(replay, "r");
		char line[512];
		int n = 0, v;
		if (!f)
			return 2;
		while (fgets(line, sizeof(line), f))
			/* choices the bound suppressed are not in the file */
			if (sscanf(line, "# bound %d", &v) == 1)
				bound = v;
			else if (line[0] != '#' && sscanf(line, "%d", &v) == 1 && n < MAXC)
				pre[n++] = v;
		fclose(f);
		replaying = 1;
		run_one(&slots[njobs], pre, n, 1, run_timeout * 3);
		printf("replay: %s %s\n", slots[njobs].status == ST_FAIL ? "FAIL" :
		       slots[njobs].status == ST_OK ? "ok" : "other",
		       slots[njobs].msg);
		return slots[njobs].status == ST_FAIL;
	}

	expand(&slots[njobs], pre, 0);
	pids = calloc(njobs, sizeof(*pids));
	pjob = calloc(njobs, sizeof(*pjob));
	while (next < njob || active) {
		int st, w;
		pid_t p;
		while (active < njobs && next < njob && !sh->stop) {
			for (w = 0; w < njobs && pids[w]; w++)
				;
			struct slot *s = &slots[w];
			s->runs = 0;
			s->subtree_done = s->capped = 0;
			s->status = ST_IDLE;
			s->msg[0] = 0;
			p = fork();
			if (p < 0) {
				perror("fork");
				return 2;
			}
			if (!p) {
				prctl(PR_SET_PDEATHSIG, SIGKILL);
				explore(s, jobs[next].ch, jobs[next].n);
				_exit(0);
			}
			pids[w] = p;
			pjob[w] = next++;
			active++;
		}
		if (!active)
			break;
		p = wait(&st);
		if (p < 0)
			break;
		for (w = 0; w < njobs && pids[w] != p; w++)
			;
		if (w == njobs)
			continue;
		struct slot *s = &slots[w];
		pids[w] = 0;
		active--;
		if (s->status == ST_RUNNING && !s->subtree_done && !s->capped) {
			/* in-process execution killed its worker */
			if (is_alarm(st)) {
				s->timed_out = 1;
				snprintf(s->msg, MSGLEN, "execution does not terminate within %.0f s", run_timeout);
			} else if (WIFSIGNALED(st))
				snprintf(s->msg, MSGLEN, "execution crashed: signal %d", WTERMSIG(st));
			else
				snprintf(s->msg, MSGLEN, "execution ended the process: exit status %d (sanitizer report, abort or exit)", WEXITSTATUS(st));
			s->status = ST_FAIL;
		}
		if (s->status == ST_DIVERGE) {
			fprintf(stderr, "mc: %s\n", s->msg);
			summary(0, s->msg, 0, done);
			sh->stop = 1;
			return 2;
		}
		if (s->status == ST_FAIL && !sh->stop) {
			int n = s->nch;
			static char msg[MSGLEN];
			memcpy(msg, s->msg, MSGLEN);
			for (i = 0; i < n; i++)
				pre[i] = s->ch[i];
			/* stop the others, then replay alone */
			sh->stop = 1;
			for (i = 0; i < njobs; i++)
				if (pids[i])
					kill(pids[i], SIGKILL);
			while (wait(NULL) > 0)
				;
			if (!confirm(&slots[njobs], pre, n, s->timed_out)) {
				fprintf(stderr, "mc: failure did not reproduce: %s\n", msg);
				summary(0, "failure did not reproduce", 0, done);
				return 2;
			}
			write_replay(replay_out, &slots[njobs], slots[njobs].msg);
			fprintf(stderr, "mc: FAIL: %s\n", slots[njobs].msg);
			describe(&slots[njobs], samples[0], sizeof(samples[0]));
			fprintf(stderr, "mc: choices: %s\n", samples[0]);
			nsamples = 1;
			summary(1, slots[njobs].msg, 0, done);
			return 1;
		}
		if (s->subtree_done)
			done++;
		if (s->capped)
			capped++;
		if (nsamples < 6 && (s->status == ST_OK || s->status == ST_PRUNE) &&
		    (nsamples == 0 || done % (njob / 6 + 1) == 0))
			describe(s, samples[nsamples++], sizeof(samples[0]));
		if (now() - t_start > budget)
			sh->stop = 1;
	}
	summary(0, "", done == njob, done);
	fprintf(stderr, "mc: %llu executions, %llu choice points, %llu outcomes, %llu states, %d/%d subtrees%s, %.1f s\n",
		(unsigned long long)sh->runs, (unsigned long long)sh->points,
		(unsigned long long)sh->n_outcome,
		(unsigned long long)(sh->n_state + sh->states_add), done, njob,
		done == njob ? "" : " (CAPPED)", now() - t_start);
	return 0;
}
