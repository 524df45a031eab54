// Pairing groups for exploration: toy parameter sets (whole groups enumerated)
// and the parameter files shipped with the library (scalar alphabets).
#ifndef PAIR_H
#define PAIR_H
#include "vh.h"
#include <pbc.h>
#include <pbc_curve.h>
#include "toys.h"
static const char *real_names[] = { "a", "a1", "d159", "d201", "d224", "d105171-196-185", "d277699-175-167", "d278027-190-181", "e", "f", "g149", "i" };
static const char *real_types[] = { "a", "a1", "d", "d", "d", "d", "d", "d", "e", "f", "g", "i" };
#define NREAL 12
#define REAL_I 11
// ids: 0..NTOYS-1 toys, NTOYS.. real
static const char *ps_name(int id) { return id < NTOYS ? toys[id].name : real_names[id - NTOYS]; }
static const char *ps_type(int id) { return id < NTOYS ? toys[id].type : real_types[id - NTOYS]; }
static char *ps_text(int id) {
  if (id < NTOYS) return strdup(toys[id].text);
  char p[600]; snprintf(p, sizeof p, "%s/param/%s.param", vh_repo, real_names[id - NTOYS]); size_t n; return vh_slurp(p, &n);
}
// Value of a numeric field of a parameter text.
static int ps_field(mpz_t z, const char *text, const char *key) {
  size_t k = strlen(key); const char *p = text;
  while (p && *p) { if (!strncmp(p, key, k) && p[k] == ' ') { char b[4096]; int i = 0; p += k + 1; while (*p && *p != '\n' && i < 4095) b[i++] = *p++; b[i] = 0; return !mpz_set_str(z, b, 10); } p = strchr(p, '\n'); if (p) p++; }
  return 0;
}
// Solinas-type loops assume 2^exp2 P != +-2^exp1 P; true for every real-size r, not for some toys.
static int ps_degenerate(int id) {
  if (id >= NTOYS || (strcmp(toys[id].type, "a") && strcmp(toys[id].type, "e"))) return 0;
  mpz_t z; mpz_init(z); long e2, e1;
  ps_field(z, toys[id].text, "exp2"); e2 = mpz_get_si(z); ps_field(z, toys[id].text, "exp1"); e1 = mpz_get_si(z);
  mpz_clear(z); long d = 1L << (e2 - e1); long r = toys[id].r;
  return (d - 1) % r == 0 || (d + 1) % r == 0;
}
// Coprime to the order for composite r
static const char *ps_methods(int id, int k) {
  const char *t = ps_type(id);
  static const char *ma[] = { "miller", "miller-affine", "shipsey-stange" };
  int n = !strcmp(t, "a") || !strcmp(t, "a1") || !strcmp(t, "e") || !strcmp(t, "g") ? 3 : !strcmp(t, "d") ? 2 : 0;
  return k >= 0 && k < n ? ma[k] : NULL;
}
// A generator of a group of order r (element of exact order r); r = n may be composite.
static int grp_gen(element_t g, mpz_t r, unsigned long seed) {
  element_t t, o; mpz_t e, p, n; element_init_same_as(t, g); element_init_same_as(o, g); element_set0(o); mpz_init(e); mpz_init(p); mpz_init(n); int ok = 0;
  for (int tries = 0; tries < 400 && !ok; tries++) {
    vh_rng_reset(); vh_rng_seed(seed * 1000 + tries); element_random(g);
    if (!element_cmp(g, o)) { if (tries > 40) break; continue; }
    ok = 1;
    if (!mpz_probab_prime_p(r, 20) && mpz_fits_slong_p(r)) {
      mpz_set(n, r);
      for (unsigned long q = 2; mpz_cmp_ui(n, 1) > 0; q++) if (mpz_divisible_ui_p(n, q)) {
        while (mpz_divisible_ui_p(n, q)) mpz_divexact_ui(n, n, q);
        mpz_divexact_ui(e, r, q); element_mul_mpz(t, g, e); if (!element_cmp(t, o)) ok = 0;
      }
    }
  }
  element_clear(t); element_clear(o); mpz_clear(e); mpz_clear(p); mpz_clear(n);
  return ok;
}
// Opens a parameter set.  The library picks a random generator of each group
// at initialisation (the identity with probability 1/r, which only matters for
// toy orders), so seeds are tried in order until the generators are usable.
static int ps_open(pairing_t pr, int id) {
  char *s = ps_text(id);
  for (int seed = 0; seed < 60; seed++) {
    vh_rng_reset(); vh_rng_seed(seed);
    int rc = pairing_init_set_str(pr, s);
    if (rc) { CHECK(0, "parameter set %s rejected", ps_name(id)); free(s); return rc; }
    element_t a, b; element_init_G1(a, pr); element_init_G2(b, pr);
    int ok = grp_gen(a, pr->r, 1) && grp_gen(b, pr->r, 2);
    if (ok && !strcmp(ps_type(id), "e")) { curve_set_gen_no_cofac(a); element_mul_mpz(a, a, pr->r); ok = !element_is0(a); }
    element_clear(a); element_clear(b);
    if (ok) { free(s); return 0; }
    pairing_clear(pr);
  }
  CHECK(0, "parameter set %s: no usable generators for any of 60 seeds", ps_name(id)); free(s); return 1;
}
// Double-and-add loops over the bits of n assume that no proper prefix of n is
// 0 or +-1/2 modulo the order of P.  For n = p1 p2 of real size no such prefix
// exists; for a toy n it may.  True if P of order o is outside the loop's domain.
static int a1_order_degenerate(long n, long o) {
  int top = 0; while ((n >> top) > 1) top++;
  long k = 1;
  for (int i = top - 1; i >= 0; i--) {
    if (k % o == 0) return 1;
    k = 2 * k; if (k % o == 0) return 1;
    if ((n >> i) & 1) { if (i && ((k + 1) % o == 0 || (k - 1) % o == 0)) return 1; if (!i && (k - 1) % o == 0) return 1; k++; }
  }
  return 0;
}
static long gcdl(long a, long b) { while (b) { long t = a % b; a = b; b = t; } return a; }
// Scalar alphabet for a large order r.
typedef struct { int n; mpz_t z[64]; } zalpha;
static void za_put(zalpha *A, mpz_t z) { for (int i = 0; i < A->n; i++) if (!mpz_cmp(A->z[i], z)) return; if (A->n < 64) { mpz_init_set(A->z[A->n], z); A->n++; } }
static void za_build(zalpha *A, mpz_t r, int level) {
  mpz_t t; mpz_init(t); A->n = 0; long bits = mpz_sizeinbase(r, 2);
  unsigned long sm[] = { 0, 1, 2, 3 }; for (int i = 0; i < 4; i++) { mpz_set_ui(t, sm[i]); mpz_mod(t, t, r); za_put(A, t); }
  mpz_sub_ui(t, r, 1); za_put(A, t); mpz_sub_ui(t, r, 2); mpz_mod(t, t, r); za_put(A, t);
  mpz_add_ui(t, r, 1); mpz_fdiv_q_2exp(t, t, 1); za_put(A, t);
  for (int i = 0; i < (level ? 6 : 1); i++) { mpz_set_ui(t, 0); for (int j = 0; j < 12; j++) { mpz_mul_2exp(t, t, 64); mpz_add_ui(t, t, vh_mix(77 + 100 * i + j)); } mpz_mod(t, t, r); za_put(A, t); }
  if (level) {
    for (int i = 4; i < 10; i++) { mpz_set_ui(t, i); mpz_mod(t, t, r); za_put(A, t); }
    mpz_set_ui(t, 1); mpz_mul_2exp(t, t, bits - 1); mpz_mod(t, t, r); za_put(A, t);
    mpz_set_ui(t, 1); mpz_mul_2exp(t, t, bits / 2); mpz_mod(t, t, r); za_put(A, t); mpz_sub_ui(t, t, 1); mpz_mod(t, t, r); za_put(A, t);
    mpz_set_ui(t, 1); mpz_mul_2exp(t, t, 64); mpz_mod(t, t, r); za_put(A, t); mpz_sub_ui(t, t, 1); mpz_mod(t, t, r); za_put(A, t);
  }
  mpz_clear(t);
}
static void za_clear(zalpha *A) { for (int i = 0; i < A->n; i++) mpz_clear(A->z[i]); }
#endif
