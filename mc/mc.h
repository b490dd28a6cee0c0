/* mc: a small stateless model-checking engine for sequential C code.
 *
 * A driver body is run once per complete choice sequence.  mc_choose(n) is the only source of
 * nondeterminism; the engine enumerates *every* choice sequence depth-first (no sampling), in W forked
 * worker processes that partition the tree at mc_shard().  Crashes, sanitizer reports, failed asserts,
 * exit() inside the library and hangs are caught, replayed in a fresh process and reported.           */
#ifndef MC_H
#define MC_H
#include <stddef.h>
#include <stdint.h>

typedef struct { const char *name; void (*body)(void); int sharded; int tiers; } mc_driver;
#define MC_QUICK 1
#define MC_THOROUGH 2
#define MC_BOTH 3
extern const mc_driver mc_drivers[];          /* ends with {0} */
extern const char *mc_property;
extern int mc_thorough;                       /* 1 in the thorough tier: larger domains */
extern const char *mc_scratch;                /* private scratch directory of this worker */

int  mc_choose(int n, const char *label);     /* 0..n-1, exhaustively enumerated */
void mc_shard(void);                          /* call once, after the first few choices */
void mc_skip(void);                           /* infeasible combination: prune, do not count */
void mc_step(void);                           /* one operation of the real code was executed */
void mc_steps(long n);
void mc_state(uint64_t h);                    /* canonical form of a reached state */
void mc_note(const char *fmt, ...);           /* append to the trace of this execution */
void mc_key(const char *fmt, ...);            /* identifies the specific input, becomes part of a finding's id */
void mc_fail(const char *site, const char *fmt, ...) __attribute__((noreturn));
void mc_cmp(const char *site, double got, double want, double tol);
void mc_expect(const char *site, int cond, const char *fmt, ...);
void mc_srand(unsigned seed);                 /* seed of the interposed rand() for this execution */
extern int (*mc_rand_hook)(void);             /* if set, answers rand() */

/* hashing helpers for canonical states */
uint64_t mc_h0(void);
uint64_t mc_hu(uint64_t h, uint64_t v);
uint64_t mc_hd(uint64_t h, double v);         /* quantised: equal up to ~1e-7 relative hash alike (mostly) */
uint64_t mc_hda(uint64_t h, size_t n, const double *v);
uint64_t mc_hb(uint64_t h, const void *p, size_t n);
#endif
