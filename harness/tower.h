// Builds library extension fields together with their reference model.
#ifndef TOWER_H
#define TOWER_H
#include "ref.h"
#include "fpmod.h"
#include <pbc_fp.h>
#include <pbc_fieldquadratic.h>
#include <pbc_poly.h>
typedef struct { int n; field_t f[5]; rf *r[5]; field_t px[5]; int haspx[5]; int isfi; } tower;
#define TOP(T) ((T)->f[(T)->n - 1])
#define RTOP(T) ((T)->r[(T)->n - 1])
static void tw_base(tower *T, mpz_t p, int impl) { memset(T, 0, sizeof(*T)); impl_init(T->f[0], impl, p); T->r[0] = rf_prime(p); T->n = 1; }
static void tw_quadratic(tower *T, vec nqr) {
  field_ptr b = TOP(T); rf *R = RTOP(T); element_t e; element_init(e, b); el_put(e, R, nqr);
  field_set_nqr(b, e); element_clear(e);
  field_init_quadratic(T->f[T->n], b);
  vec m = vec_new(2 * R->dim); vec z = vec_new(R->dim); rf_sub(R, m, z, nqr);
  T->r[T->n] = rf_ext(R, 2, m); T->n++; vec_free(m, 2 * R->dim); vec_free(z, R->dim);
}
static void tw_fi(tower *T) {
  field_init_fi(T->f[T->n], TOP(T)); rf *R = RTOP(T); vec m = vec_new(2 * R->dim); mpz_set_ui(m[0], 1);
  T->r[T->n] = rf_ext(R, 2, m); T->n++; vec_free(m, 2 * R->dim); T->isfi = 1;
}
static void tw_polymod(tower *T, int d, vec mod) {
  int n = T->n; rf *R = RTOP(T); field_init_poly(T->px[n], T->f[n - 1]); T->haspx[n] = 1;
  element_t e, c; element_init(e, T->px[n]); element_init(c, T->f[n - 1]);
  poly_set_coeff1(e, d);
  for (int i = 0; i < d; i++) { el_put(c, R, mod + i * R->dim); poly_set_coeff(e, c, i); }
  field_init_polymod(T->f[n], e); element_clear(e); element_clear(c);
  T->r[n] = rf_ext(R, d, mod); T->n++;
}
static void tw_clear(tower *T) { for (int i = T->n - 1; i >= 0; i--) { field_clear(T->f[i]); if (T->haspx[i]) field_clear(T->px[i]); rf_free(T->r[i]); } }
// smallest c such that c is not an l-th power in R (R->order = 1 mod l); walks vectors deterministically
static int not_lth_power(rf *R, vec c, int l) {
  mpz_t e; mpz_init(e); mpz_sub_ui(e, R->order, 1);
  int r = 0;
  if (!vec_is0(c, R->dim) && mpz_divisible_ui_p(e, l)) { mpz_divexact_ui(e, e, l); vec t = vec_new(R->dim); rf_pow(R, t, c, e); r = !rf_is1(R, t); vec_free(t, R->dim); }
  mpz_clear(e); return r;
}
// finds c (skip-th) that is no l-th power for each prime l | d (and order = 1 mod 4 when 4 | d): X^d - c irreducible
static int find_nonpower(rf *R, vec c, int d, int skip) {
  for (long n = 1; n < 4000; n++) {
    long m = n; mpz_t q; mpz_init(q);
    for (int i = 0; i < R->dim; i++) { if (mpz_cmp_ui(R->p, 9) > 0) { mpz_set_ui(c[i], m % 9); m /= 9; } else { long pp = mpz_get_ui(R->p); mpz_set_ui(c[i], m % pp); m /= pp; } }
    mpz_clear(q);
    int ok = 1;
    for (int l = 2; l <= d; l++) if (d % l == 0) { int pr = 1; for (int k = 2; k < l; k++) if (l % k == 0) pr = 0; if (pr && !not_lth_power(R, c, l)) ok = 0; }
    if (d % 4 == 0 && mpz_fdiv_ui(R->order, 4) != 1) ok = 0;
    if (ok && !skip--) return 1;
  }
  return 0;
}
// dense irreducible: (X+s)^d - c
static void shifted_binomial(rf *R, vec mod, int d, vec c, long s) {
  int D = R->dim; vec pw = vec_new((d + 1) * D); mpz_t t, b; mpz_init(t); mpz_init(b);
  for (int i = 0; i < d; i++) { mpz_set_si(t, s); mpz_pow_ui(t, t, d - i); mpz_bin_uiui(b, d, i); mpz_mul(t, t, b); mpz_mod(pw[i * D], t, R->p); }
  rf_sub(R, pw, pw, c);
  for (int i = 0; i < d * D; i++) mpz_set(mod[i], pw[i]);
  vec_free(pw, (d + 1) * D); mpz_clear(t); mpz_clear(b);
}
// smallest prime >= lo with p = 1 mod d (and optional p mod 4)
static void prime_1_mod(mpz_t p, int d, int mod4) {
  do mpz_nextprime(p, p); while (mpz_fdiv_ui(p, d) != 1 || (mod4 && mpz_fdiv_ui(p, 4) != (unsigned) mod4));
}

// Named configurations ------------------------------------------------------
enum { K_QUAD, K_FI, K_POLY, K_QUAD_POLY, K_POLY_QUAD, K_QUAD_QUAD, K_QUAD_POLYQUAD };
static const char *kname[] = { "quad", "fi", "poly", "quad-poly", "poly-quad", "quad-quad", "quad-polyquad" };
// p tiny (p < 2^20) or big by (limbs,kind); variant selects nqr / polynomial
static int tw_build(tower *T, int kind, mpz_t p, int impl, int d, int variant) {
  tw_base(T, p, impl);
  int big = mpz_cmp_ui(p, 200) > 0;
  vec c = vec_new(16), m = vec_new(200); int ok = 1;
  if (kind == K_QUAD) { ok = find_nonpower(RTOP(T), c, 2, variant); if (ok) tw_quadratic(T, c); }
  else if (kind == K_FI) { ok = mpz_fdiv_ui(p, 4) == 3; if (ok) tw_fi(T); }
  else if (kind == K_POLY || kind == K_QUAD_POLY) {
    if (!big) { long cc[16]; ok = tiny_irred_kth(cc, d, mpz_get_ui(p), variant); if (ok) for (int i = 0; i < d; i++) mpz_set_si(m[i], cc[i]); }
    else { ok = find_nonpower(RTOP(T), c, d, variant / 3); if (ok) shifted_binomial(RTOP(T), m, d, c, variant % 3 == 0 ? 0 : variant % 3 == 1 ? 1 : 12345); }
    if (ok) tw_polymod(T, d, m);
    if (ok && kind == K_QUAD_POLY) { for (int i = 0; i < 16; i++) mpz_set_ui(c[i], 0); ok = find_nonpower(RTOP(T), c, 2, variant); if (ok) tw_quadratic(T, c); }
  } else if (kind == K_POLY_QUAD || kind == K_QUAD_QUAD || kind == K_QUAD_POLYQUAD) {
    ok = find_nonpower(RTOP(T), c, 2, 0); if (ok) tw_quadratic(T, c);
    for (int i = 0; i < 16; i++) mpz_set_ui(c[i], 0);
    if (ok && kind == K_QUAD_QUAD) { ok = find_nonpower(RTOP(T), c, 2, variant); if (ok) tw_quadratic(T, c); }
    else if (ok) { ok = find_nonpower(RTOP(T), c, d, variant / 2); if (ok) { shifted_binomial(RTOP(T), m, d, c, variant % 2); tw_polymod(T, d, m); } }
    if (ok && kind == K_QUAD_POLYQUAD) { vec c2 = vec_new(RTOP(T)->dim); ok = find_nonpower(RTOP(T), c2, 2, 0); if (ok) tw_quadratic(T, c2); }
  }
  vec_free(c, 16); vec_free(m, 200);
  if (!ok) tw_clear(T);
  return ok;
}
// Element alphabets: all elements if order <= limit, otherwise structured vectors.
typedef struct { vec *v; int n; } valpha;
static void va_add(valpha *A, rf *R, vec x) { for (int i = 0; i < A->n; i++) if (vec_eq(A->v[i], x, R->dim)) return; A->v = realloc(A->v, sizeof(vec) * (A->n + 1)); A->v[A->n] = vec_new(R->dim); vec_set(A->v[A->n], x, R->dim); A->n++; }
static void va_build2(valpha *A, rf *R, long limit, long want) {
  A->v = NULL; A->n = 0; int D = R->dim; vec x = vec_new(D);
  if (mpz_cmp_ui(R->order, limit) <= 0) {
    long N = mpz_get_ui(R->order), p = mpz_get_ui(R->p);
    A->v = malloc(sizeof(vec) * N);
    for (long n = 0; n < N; n++) { long m = n; A->v[n] = vec_new(D); for (int i = 0; i < D; i++) { mpz_set_ui(A->v[n][i], m % p); m /= p; } }
    A->n = N; vec_free(x, D); return;
  }
  // structured: 0, +-basis vectors, sums with dense values, coordinate patterns over {0,1,p-1,dense}
  unsigned long seed = 1;
  #define DENSE(z) do { unsigned long b_[24]; for (int q_ = 0; q_ < 24; q_++) b_[q_] = vh_mix(seed++); mpz_import(z, 24, 1, 8, 0, 0, b_); mpz_mod(z, z, R->p); } while (0)
  long pat = 1; int base = 4; for (int i = 0; i < D; i++) { pat *= base; if (pat > 1000000) break; }

  long stride = pat <= want ? 1 : pat / (want / 2) + 1; if (stride > 1 && stride % 2 == 0) stride++;
  va_add(A, R, x);
  for (int i = 0; i < D; i++) { for (int j = 0; j < D; j++) mpz_set_ui(x[j], i == j); va_add(A, R, x); mpz_sub_ui(x[i], R->p, 1); va_add(A, R, x); }
  for (long n = 0; n < pat && A->n < want; n += stride) {
    long m = n; for (int i = 0; i < D; i++) { switch (m % base) { case 0: mpz_set_ui(x[i], 0); break; case 1: mpz_set_ui(x[i], 1); break; case 2: mpz_sub_ui(x[i], R->p, 1); break; default: DENSE(x[i]); } m /= base; }
    va_add(A, R, x);
  }
  for (int k = 0; k < 6; k++) { for (int i = 0; i < D; i++) DENSE(x[i]); va_add(A, R, x); }
  for (int i = 0; i < D; i++) mpz_set_ui(x[i], 1); va_add(A, R, x);
  for (int i = 0; i < D; i++) mpz_sub_ui(x[i], R->p, 1); va_add(A, R, x);
  vec_free(x, D);
}
static void va_build(valpha *A, rf *R, long limit) { va_build2(A, R, limit, limit); }
#endif
