// Reference model of finite extension rings: elements are flat coordinate
// vectors over Z/p, multiplication is a table of structure constants.
#ifndef REF_H
#define REF_H
#include "vh.h"
#include <pbc.h>
typedef mpz_t *vec;
typedef struct rf_s {
  struct rf_s *base;   // NULL for the prime field
  int deg, dim;
  mpz_t p, order;
  mpz_t *sc;           // dim^3 structure constants, sc[(i*dim+j)*dim+k]
  unsigned char *nz;   // nonzero markers
  vec mod;             // deg*base->dim coefficients of the monic modulus (low part)
  mpz_t t0;
} rf;
static vec vec_new(int n) { vec v = malloc(sizeof(mpz_t) * n); for (int i = 0; i < n; i++) mpz_init(v[i]); return v; }
static void vec_free(vec v, int n) { for (int i = 0; i < n; i++) mpz_clear(v[i]); free(v); }
static void vec_set(vec c, vec a, int n) { for (int i = 0; i < n; i++) mpz_set(c[i], a[i]); }
static int vec_eq(vec a, vec b, int n) { for (int i = 0; i < n; i++) if (mpz_cmp(a[i], b[i])) return 0; return 1; }
static int vec_is0(vec a, int n) { for (int i = 0; i < n; i++) if (mpz_sgn(a[i])) return 0; return 1; }
static void rf_set_si(rf *R, vec c, long x) { mpz_set_si(c[0], x); mpz_mod(c[0], c[0], R->p); for (int i = 1; i < R->dim; i++) mpz_set_ui(c[i], 0); }
static int rf_is1(rf *R, vec a) { if (mpz_cmp_ui(a[0], 1)) return 0; for (int i = 1; i < R->dim; i++) if (mpz_sgn(a[i])) return 0; return 1; }
static void rf_add(rf *R, vec c, vec a, vec b) { for (int i = 0; i < R->dim; i++) { mpz_add(c[i], a[i], b[i]); mpz_mod(c[i], c[i], R->p); } }
static void rf_sub(rf *R, vec c, vec a, vec b) { for (int i = 0; i < R->dim; i++) { mpz_sub(c[i], a[i], b[i]); mpz_mod(c[i], c[i], R->p); } }
static void rf_smul(rf *R, vec c, vec a, mpz_t z) { for (int i = 0; i < R->dim; i++) { mpz_mul(c[i], a[i], z); mpz_mod(c[i], c[i], R->p); } }
static void rf_mul(rf *R, vec c, vec a, vec b) {
  int D = R->dim; mpz_t acc[D], t; mpz_init(t);
  for (int k = 0; k < D; k++) mpz_init(acc[k]);
  for (int i = 0; i < D; i++) if (mpz_sgn(a[i])) for (int j = 0; j < D; j++) if (mpz_sgn(b[j])) {
    mpz_mul(t, a[i], b[j]);
    for (int k = 0; k < D; k++) { int x = (i * D + j) * D + k; if (R->nz[x] == 1) mpz_add(acc[k], acc[k], t); else if (R->nz[x]) mpz_addmul(acc[k], t, R->sc[x]); }
  }
  for (int k = 0; k < D; k++) { mpz_mod(c[k], acc[k], R->p); mpz_clear(acc[k]); }
  mpz_clear(t);
}
static void rf_pow(rf *R, vec c, vec a, mpz_t n) {
  vec r = vec_new(R->dim); rf_set_si(R, r, 1);
  for (long i = (long) mpz_sizeinbase(n, 2) - 1; i >= 0; i--) { rf_mul(R, r, r, r); if (mpz_tstbit(n, i)) rf_mul(R, r, r, a); }
  vec_set(c, r, R->dim); vec_free(r, R->dim);
}
static rf *rf_prime(mpz_t p) {
  rf *R = calloc(1, sizeof(*R)); R->deg = R->dim = 1; mpz_init_set(R->p, p); mpz_init_set(R->order, p); mpz_init(R->t0);
  R->sc = vec_new(1); mpz_set_ui(R->sc[0], 1); R->nz = malloc(1); R->nz[0] = 1; return R;
}
// mod: deg elements of base (flattened): X^deg + mod[deg-1] X^(deg-1) + ... + mod[0] = 0
static rf *rf_ext(rf *B, int deg, vec mod) {
  rf *R = calloc(1, sizeof(*R)); int D = deg * B->dim, Db = B->dim;
  R->base = B; R->deg = deg; R->dim = D; mpz_init_set(R->p, B->p); mpz_init(R->order); mpz_pow_ui(R->order, B->order, deg); mpz_init(R->t0);
  R->mod = vec_new(D); vec_set(R->mod, mod, D);
  R->sc = vec_new(D * D * D); R->nz = calloc(D * D * D, 1);
  // xp[n]: coordinates (deg base elements) of X^n
  int N = 2 * deg - 1; vec xp[N]; vec t = vec_new(Db), u = vec_new(Db);
  for (int n = 0; n < N; n++) {
    xp[n] = vec_new(D);
    if (n < deg) { mpz_set_ui(xp[n][n * Db], 1); continue; }
    // X * xp[n-1]
    for (int i = deg - 1; i >= 1; i--) vec_set(xp[n] + i * Db, xp[n - 1] + (i - 1) * Db, Db);
    for (int i = 0; i < deg; i++) { rf_mul(B, t, xp[n - 1] + (deg - 1) * Db, mod + i * Db); rf_sub(B, xp[n] + i * Db, xp[n] + i * Db, t); }
  }
  vec eu = vec_new(Db), ev = vec_new(Db);
  for (int a = 0; a < deg; a++) for (int x = 0; x < Db; x++) for (int b = 0; b < deg; b++) for (int y = 0; y < Db; y++) {
    for (int i = 0; i < Db; i++) { mpz_set_ui(eu[i], i == x); mpz_set_ui(ev[i], i == y); }
    rf_mul(B, t, eu, ev);
    for (int k = 0; k < deg; k++) {
      rf_mul(B, u, t, xp[a + b] + k * Db);
      for (int i = 0; i < Db; i++) {
        int id = ((a * Db + x) * D + (b * Db + y)) * D + k * Db + i;
        mpz_set(R->sc[id], u[i]);
        R->nz[id] = !mpz_sgn(u[i]) ? 0 : !mpz_cmp_ui(u[i], 1) ? 1 : 2;
      }
    }
  }
  for (int n = 0; n < N; n++) vec_free(xp[n], D);
  vec_free(t, Db); vec_free(u, Db); vec_free(eu, Db); vec_free(ev, Db);
  return R;
}
static void rf_free(rf *R) { int D = R->dim; vec_free(R->sc, D * D * D); free(R->nz); if (R->mod) vec_free(R->mod, D); mpz_clear(R->p); mpz_clear(R->order); mpz_clear(R->t0); free(R); }
// element <-> vector through the public item interface
static int vec_put_(element_ptr e, rf *R, vec v) {
  if (!R->base) { element_set_mpz(e, v[0]); return 1; }
  int k = 0; for (int i = 0; i < R->deg; i++) k += vec_put_(element_item(e, i), R->base, v + i * R->base->dim);
  return k;
}
static void el_put(element_ptr e, rf *R, vec v) { vec_put_(e, R, v); }
static void el_get(vec v, element_ptr e, rf *R) {
  if (!R->base) { element_to_mpz(v[0], e); return; }
  for (int i = 0; i < R->deg; i++) el_get(v + i * R->base->dim, element_item(e, i), R->base);
}
static char *vec_str(vec v, int n) {
  static char *b[8]; static int ix; ix = (ix + 1) & 7; free(b[ix]);
  size_t len = 8; for (int i = 0; i < n; i++) len += mpz_sizeinbase(v[i], 16) + 4;
  char *s = b[ix] = malloc(len), *q = s; *q++ = '[';
  for (int i = 0; i < n; i++) { if (i) *q++ = ','; mpz_get_str(q, 16, v[i]); q += strlen(q); }
  *q++ = ']'; *q = 0; return s;
}

// ---- irreducible polynomials over prime fields (independent of the library)
// trial division over tiny p: f = monic deg d, c[0..d-1]
static int tiny_irred(const long *c, int d, long p) {
  for (int e = 1; 2 * e <= d; e++) {
    long cnt = 1; for (int i = 0; i < e; i++) cnt *= p;
    for (long n = 0; n < cnt; n++) {
      long g[16], r[16]; long m = n; for (int i = 0; i < e; i++) { g[i] = m % p; m /= p; }
      for (int i = 0; i < d; i++) r[i] = c[i];
      r[d] = 1;
      for (int i = d; i >= e; i--) { long q = r[i]; if (q) { for (int j = 0; j < e; j++) r[i - e + j] = ((r[i - e + j] - q * g[j]) % p + p) % p; r[i] = 0; } }
      int z = 1; for (int i = 0; i < e; i++) if (r[i]) z = 0;
      if (z) return 0;
    }
  }
  return 1;
}
// k-th monic irreducible polynomial of degree d over tiny p, -> c; returns 0 if none
static int tiny_irred_kth(long *c, int d, long p, int k) {
  long cnt = 1; for (int i = 0; i < d; i++) cnt *= p;
  for (long n = 0; n < cnt; n++) { long m = n; for (int i = 0; i < d; i++) { c[i] = m % p; m /= p; } if (tiny_irred(c, d, p) && !k--) return 1; }
  return 0;
}
#endif
