/*
 * mc - a small stateless model checker for C code.
 *
 * A harness supplies mc_body(), one complete execution of the system under
 * check.  Every nondeterministic decision in it is taken by mc_choose() (a
 * free choice: all alternatives are enumerated) or mc_env() (an environment
 * answer: alternative 0 is the default, each other answer costs one deviation
 * and the number of deviations per execution is bounded).  The explorer runs
 * mc_body() once per leaf of the resulting choice tree.
 */
#ifndef MC_H
#define MC_H

#include <stdint.h>
#include <stddef.h>

/* --- supplied by the harness --- */
extern const char *mc_property;		/* property id, for messages */
extern int mc_fork_per_run;		/* 1: fresh process image per execution */
extern int mc_split_depth;		/* choices distributed over the workers */
void mc_body(void);			/* one execution */
void mc_setup(void);			/* once, before exploring (weak default) */

/* --- choices --- */
int mc_choose(int n, const char *label);
int mc_env(int n, const char *label);
int mc_env_cost(int n, int cost, const char *label);
int mc_deviations(void);
/* for code that must run outside of the explored region */
void mc_quiet(int on);

/* --- verdicts and observations --- */
void mc_fail(const char *fmt, ...) __attribute__((noreturn, format(printf,1,2)));
void mc_prune(void) __attribute__((noreturn));	/* abandon: not a behaviour */
#define MC_ASSERT(c, ...) do { if (!(c)) mc_fail(__VA_ARGS__); } while (0)
void mc_outcome(uint64_t h);		/* distinct observed outcome */
void mc_state(uint64_t h);		/* distinct visited state */
void mc_states_add(uint64_t states, uint64_t transitions);
void mc_transition(void);
void mc_note(const char *fmt, ...) __attribute__((format(printf,1,2)));
int mc_replaying(void);

long mc_param(const char *name, long dflt);
int mc_thorough(void);

uint64_t mc_hash(const void *p, size_t n, uint64_t seed);
#define MC_HASH_INIT 0xcbf29ce484222325ULL

#endif
