/*
 * mc: a small stateless/explicit-state model checker for C code.
 *
 * A check supplies run(): one execution of the system under a controlled
 * environment.  Every source of nondeterminism is a call to mc_choose(n).  The
 * engine enumerates ALL choice vectors depth first, in parallel, each in a
 * forked executor so that a crash, an assertion, a sanitizer report or a hang
 * is attributed to the exact choice vector that caused it.  mc_state() offers
 * state-hash pruning: a state already expanded with at least as much depth
 * left is not expanded again.
 */
#ifndef VERIF_MC_H
#define VERIF_MC_H
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>

#define MC_MAXCHOICE 4096

struct mc_check {
	const char *id;
	/* Called once in the master before any fork. */
	void (*init)(void);
	/* One execution. */
	void (*run)(void);
	/* Executions per forked executor (1 = complete isolation). */
	int batch;
	/* Seconds before an execution counts as hung. */
	int hang_secs;
	/* text: what was enumerated (goes to evidence) */
	const char *rule;
};

extern int mc_tier;          /* 0 quick, 1 thorough */
extern int mc_verbose;       /* replaying */

/* nondeterministic choice 0..n-1; n >= 1 */
int mc_choose(int n);
int mc_choose_l(int n, const char *label);
/* record a property violation on this execution; does not return */
void mc_fail(const char *fmt, ...) __attribute__((format(printf,1,2), noreturn));
#define MC_ASSERT(c, ...) do { if (!(c)) mc_fail(__VA_ARGS__); } while (0)
/* this execution alters process-wide state: the next one gets a fresh process */
void mc_isolate(void);
/* Silent end of this execution (e.g. infeasible branch) */
void mc_done(void) __attribute__((noreturn));
/* report a state digest; returns 1 when the caller should stop expanding
 * (already expanded with >= remaining depth). */
int mc_state(uint64_t digest, int remaining);
/* count a distinct observed outcome */
void mc_outcome(uint64_t digest);
/* count a transition (operation executed on the implementation) */
void mc_step(void);
void mc_steps(long n);
/* human readable trace of this execution */
void mc_trace(const char *fmt, ...) __attribute__((format(printf,1,2)));
/* count a named coverage class (printed in evidence) */
void mc_cover(const char *name);

uint64_t mc_hash(const void *p, size_t n, uint64_t h);
uint64_t mc_hash_str(const char *s, uint64_t h);
#define MC_H0 0xcbf29ce484222325ULL

int mc_main(int argc, char **argv, const struct mc_check *chk);

#endif
