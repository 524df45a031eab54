// Moduli and boundary alphabets for multi-limb prime fields.
#ifndef FPMOD_H
#define FPMOD_H
#include "vh.h"
#include <pbc.h>
static void prev_prime(mpz_t p) { do mpz_sub_ui(p, p, 1); while (!mpz_probab_prime_p(p, 25)); }
static void next_prime_4(mpz_t p, int m) { do mpz_nextprime(p, p); while (m && mpz_fdiv_ui(p, 4) != (unsigned) m); }
// kind: 0 largest below 2^(64L); 1 just above 2^(64L-1); 2 just above 2^(64(L-1)) (tiny top limb);
// 3 pattern 0xAAAA.. ; 4 3/4 of range, = 1 mod 4; 5 low limbs zero-ish (2^(64L-1)+2^(64L-2) + small)
#define NMODKIND 6
static void make_modulus(mpz_t p, int L, int kind) {
  mpz_set_ui(p, 0);
  switch (kind) {
    case 0: mpz_setbit(p, 64 * L); prev_prime(p); break;
    case 1: mpz_setbit(p, 64 * L - 1); next_prime_4(p, 0); break;
    case 2: mpz_setbit(p, 64 * (L - 1)); next_prime_4(p, 0); break;
    case 3: for (int i = 1; i < 64 * L; i += 2) mpz_setbit(p, i); next_prime_4(p, 3); break;
    case 4: mpz_setbit(p, 64 * L - 1); mpz_setbit(p, 64 * L - 2); next_prime_4(p, 1); break;
    case 9: mpz_setbit(p, 64 * L); mpz_sub_ui(p, p, 1); mpz_clrbit(p, 64 * L - 70); mpz_clrbit(p, 64 * (L / 2)); break; // odd, not prime
    case 5: mpz_setbit(p, 64 * L - 1); for (int i = 1; i < L; i++) { mpz_setbit(p, 64 * i - 1); } next_prime_4(p, 1); break;
  }
}
#define MAXALPHA 160
typedef struct { mpz_t v[MAXALPHA]; int n; } alpha_t;
static void alpha_add(alpha_t *A, mpz_t z, mpz_t p) {
  mpz_t t; mpz_init(t); mpz_mod(t, z, p);
  for (int i = 0; i < A->n; i++) if (!mpz_cmp(A->v[i], t)) { mpz_clear(t); return; }
  if (A->n < MAXALPHA) { mpz_init_set(A->v[A->n], t); A->n++; }
  mpz_clear(t);
}
static void alpha_ui(alpha_t *A, unsigned long x, mpz_t p) { mpz_t t; mpz_init_set_ui(t, x); alpha_add(A, t, p); mpz_neg(t, t); alpha_add(A, t, p); mpz_clear(t); }
// level 0: compact (~30), level 1: rich (~70+)
static void make_alpha(alpha_t *A, mpz_t p, int level) {
  mpz_t t, u; mpz_init(t); mpz_init(u);
  int bits = mpz_sizeinbase(p, 2), L = mpz_size(p);
  A->n = 0;
  alpha_ui(A, 0, p); alpha_ui(A, 1, p); alpha_ui(A, 2, p); alpha_ui(A, 3, p);
  mpz_sub_ui(t, p, 1); mpz_fdiv_q_2exp(t, t, 1); alpha_add(A, t, p); mpz_add_ui(t, t, 1); alpha_add(A, t, p);
  // limb boundaries
  for (int k = 1; k < L; k++) {
    if (level == 0 && k != 1 && k != L - 1) continue;
    mpz_set_ui(t, 0); mpz_setbit(t, 64 * k); alpha_add(A, t, p);
    mpz_sub_ui(t, t, 1); alpha_add(A, t, p);
    if (level) { mpz_set_ui(t, 0); mpz_setbit(t, 64 * k - 1); alpha_add(A, t, p); mpz_neg(t, t); alpha_add(A, t, p);
      mpz_set_ui(t, 0); mpz_setbit(t, 64 * k); mpz_neg(t, t); alpha_add(A, t, p); }
  }
  mpz_set_ui(t, 0); mpz_setbit(t, bits - 1); alpha_add(A, t, p); mpz_sub_ui(t, t, 1); alpha_add(A, t, p); mpz_neg(t, t); alpha_add(A, t, p);
  // Montgomery-relevant: R, R^-1, -R^-1, R^2, values stored with special limbs
  mpz_set_ui(t, 0); mpz_setbit(t, 64 * L); mpz_mod(t, t, p); alpha_add(A, t, p);
  if (mpz_odd_p(p)) {
    mpz_invert(u, t, p); alpha_add(A, u, p);
    mpz_mul_ui(t, u, 2); alpha_add(A, t, p); mpz_neg(t, u); alpha_add(A, t, p);
    mpz_mul_2exp(t, u, 64 * (L - 1)); alpha_add(A, t, p);            // stored top limb = 1
    mpz_set_ui(t, 0); mpz_setbit(t, 64); mpz_sub_ui(t, t, 1); mpz_mul(t, t, u); alpha_add(A, t, p);
    if (level) { mpz_set_ui(t, 0); mpz_setbit(t, bits - 1); mpz_mul(t, t, u); alpha_add(A, t, p);
      mpz_sub_ui(t, p, 1); mpz_fdiv_q_2exp(t, t, 1); mpz_mul(t, t, u); alpha_add(A, t, p);
      mpz_mul(t, u, u); alpha_add(A, t, p); }
  }
  // dense / alternating patterns
  mpz_set_ui(t, 0); for (int i = 0; i < bits; i += 2) mpz_setbit(t, i); alpha_add(A, t, p);
  mpz_set_ui(t, 0); for (int i = 1; i < bits; i += 2) mpz_setbit(t, i); alpha_add(A, t, p);
  mpz_set_ui(t, 0); for (int i = 0; i < L; i++) for (int j = 0; j < 64; j++) if (i & 1) mpz_setbit(t, 64 * i + j); alpha_add(A, t, p);
  mpz_fdiv_q_ui(t, p, 3); alpha_add(A, t, p); mpz_fdiv_q_ui(t, p, 7); alpha_add(A, t, p);
  mpz_sqrt(t, p); alpha_add(A, t, p); mpz_add_ui(t, t, 1); alpha_add(A, t, p);
  if (level) {
    alpha_ui(A, 4, p); alpha_ui(A, 5, p); alpha_ui(A, 10, p); alpha_ui(A, 255, p); alpha_ui(A, 256, p); alpha_ui(A, 65537, p);
    alpha_ui(A, ULONG_MAX, p); alpha_ui(A, LONG_MAX, p);
    for (int i = 0; i < 8; i++) {   // fixed dense values
      unsigned long b[L]; for (int j = 0; j < L; j++) b[j] = vh_mix(i * 100 + j);
      mpz_import(t, L, -1, 8, 0, 0, b); alpha_add(A, t, p);
    }
  }
  mpz_clear(t); mpz_clear(u);
}
static void alpha_clear(alpha_t *A) { for (int i = 0; i < A->n; i++) mpz_clear(A->v[i]); A->n = 0; }

enum { IMPL_NAIVE, IMPL_FAST, IMPL_FASTER, IMPL_MONT, IMPL_DEFAULT, NIMPL };
static const char *impl_name[] = { "naive", "fast", "faster", "mont", "default" };
static void impl_init(field_ptr f, int impl, mpz_t p) {
  switch (impl) {
    case IMPL_NAIVE: field_init_naive_fp(f, p); break;
    case IMPL_FAST: field_init_fast_fp(f, p); break;
    case IMPL_FASTER: field_init_faster_fp(f, p); break;
    case IMPL_MONT: field_init_mont_fp(f, p); break;
    default: field_init_fp(f, p);
  }
}
#endif
