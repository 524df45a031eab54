// Exploration runtime shared by all harnesses.
// A harness registers "units" (independent, deterministic pieces of the
// bounded state space).  run.py executes every unit in its own process.
#ifndef VH_H
#define VH_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdarg.h>
#include <stdio.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include <unistd.h>
#include <gmp.h>
#ifdef __cplusplus
extern "C" {
#endif

extern int vh_thorough;              // 0 quick, 1 thorough
extern unsigned long vh_states, vh_trans, vh_checks, vh_traces;
extern const char *vh_repo;          // path of the repository under test
extern const char *vh_scratch;       // private scratch directory of this unit

// Harness entry point: registers all units for the current tier.
void vh_register(void);
typedef void (*vh_fn)(long a, long b, long c);
void vh_unit(vh_fn fn, long a, long b, long c, const char *namefmt, ...)
  __attribute__((format(printf, 5, 6)));

// Deferred-format context describing the case being executed (longs / char*).
extern const char *vh_ctx_fmt;
extern long vh_ctx_arg[8];
#define VH_A0_(a0,a1,a2,a3,a4,a5,a6,a7,...) \
  (vh_ctx_arg[0]=(long)(a0),vh_ctx_arg[1]=(long)(a1),vh_ctx_arg[2]=(long)(a2),\
   vh_ctx_arg[3]=(long)(a3),vh_ctx_arg[4]=(long)(a4),vh_ctx_arg[5]=(long)(a5),\
   vh_ctx_arg[6]=(long)(a6),vh_ctx_arg[7]=(long)(a7))
#define CTX(fmt, ...) (vh_ctx_fmt = (fmt), VH_A0_(__VA_ARGS__ __VA_OPT__(,) 0,0,0,0,0,0,0,0,0))
// second, outer context
extern char vh_outer[1024];
void vh_outerf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

void vh_fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void vh_sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define CHECK(cond, ...) do { vh_checks++; if (!(cond)) vh_fail(__VA_ARGS__); } while (0)
#define STATE() (vh_states++)
#define STEP() (vh_trans++)
#define TRACE() (vh_traces++)

// Controlled randomness: installed by vh_main through pbc_random_set_function.
// Values come from the script (taken mod limit) first, then from a
// deterministic counter-based stream.
extern mpz_t vh_rng_script[64];
extern int vh_rng_n, vh_rng_pos;
extern unsigned long vh_rng_calls;
void vh_rng_reset(void);
void vh_rng_seed(unsigned long s);
void vh_rng_push_ui(unsigned long v);
void vh_rng_push(mpz_t v);
unsigned long vh_mix(unsigned long x);   // splitmix64

// Allowing a region in which process exit (pbc_die) is the specified outcome.
extern int vh_exit_expected;

// misc helpers
char *vh_slurp(const char *path, size_t *len);
char *vh_mpzs(mpz_t z);        // ring of static buffers, hex
char *vh_hex(const unsigned char *d, int n);
#ifdef __cplusplus
}
#endif
#endif
