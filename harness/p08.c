// P08: preprocessed pairings and products of pairings equal the plain pairing,
// including identity inputs, repeated use, and the empty/one-factor product.
#include "pair.h"
static element_t O1, O2;
// --- toys: pp for every first input, applied to every second input
static void toy(long id, long m, long c) {
  pairing_t pr; if (ps_open(pr, id)) return;
  long r = toys[id].r; const char *me = ps_methods(id, m); if (me) pairing_option_set(pr, "method", (char *) me);
  vh_outerf("toy %s method %s", toys[id].name, me ? me : "default");
  int a1 = !strcmp(toys[id].type, "a1"), sym = pairing_is_symmetric(pr);
  element_t *A = malloc(sizeof(element_t) * r), *B = malloc(sizeof(element_t) * r);
  for (long i = 0; i < r; i++) { element_init_G1(A[i], pr); element_init_G2(B[i], pr); }
  grp_gen(A[1], pr->r, 1); grp_gen(B[1], pr->r, 2); element_set0(A[0]); element_set0(B[0]);
  for (long i = 2; i < r; i++) { element_add(A[i], A[i - 1], A[1]); element_add(B[i], B[i - 1], B[1]); }
  element_t t, u, g; element_init_GT(t, pr); element_init_GT(u, pr); element_init_GT(g, pr);
  element_t *T = malloc(sizeof(element_t) * r); vh_rng_seed(3); element_pairing(g, A[1], B[1]);
  for (long i = 0; i < r; i++) { element_init_GT(T[i], pr); if (i) element_mul(T[i], T[i - 1], g); else element_set1(T[0]); }
  long si = r > 60 && !vh_thorough ? r / 37 : 1, sj = r > 120 && !vh_thorough ? 3 : 1;
  for (long i = 0; i < r; i += si) {
    if (a1 && i && a1_order_degenerate(r, r / gcdl(i, r))) continue;
    pairing_pp_t pp; element_t in; element_init_G1(in, pr); element_set(in, A[i]); pairing_pp_init(pp, in, pr);
    // the preprocessed data stands on its own: the input may change or go away
    if (i + 1 < r) element_set(in, A[i + 1]); else element_set0(in);
    element_clear(in);
    for (long j = 0; j < r; j += sj) {
      STATE(); CTX("pp(%ldP) applied to %ldQ", i, j); element_set(t, T[(i + 2 * j + 1) % r]); pairing_pp_apply(t, B[j], pp); STEP();
      CHECK(!element_cmp(t, T[i * j % r]), "preprocessed pairing differs from the pairing");
    }
    for (long j = 0; j < 2 && j < r; j++) { pairing_pp_apply(t, B[j], pp); CHECK(!element_cmp(t, T[i * j % r]), "second application differs"); }
    pairing_pp_clear(pp);
  }
  // products: all vectors of length n over a small alphabet of multiples
  long al[6] = { 0, 1, 2, r - 1, r / 2, 3 % r }; int na = 0; long av[6];
  for (int i = 0; i < 6; i++) { if (a1 && al[i] && a1_order_degenerate(r, r / gcdl(al[i], r))) continue; int dup = 0; for (int k = 0; k < na; k++) if (av[k] == al[i]) dup = 1; if (!dup) av[na++] = al[i]; }
  for (int n = 1; n <= 3 + vh_thorough; n++) {
    int use = n <= 2 ? na : n == 3 ? (na < 4 ? na : 4) : (na < 3 ? na : 3); long tot = 1; for (int k = 0; k < 2 * n; k++) tot *= use;
    long stride = 1; if (n == 3 && !vh_thorough) stride = 11;
    for (long v = 0; v < tot; v += stride) {
      element_t X[4], Y[4]; long w = v, e = 0; STATE(); CTX("product of %ld pairings, code %ld", n, v);
      for (int k = 0; k < n; k++) { long a = av[w % use]; w /= use; long b = av[w % use]; w /= use; e = (e + a * b) % r; element_init_G1(X[k], pr); element_init_G2(Y[k], pr); element_set(X[k], A[a]); element_set(Y[k], B[b]); }
      element_prod_pairing(t, X, Y, n); STEP();
      CHECK(!element_cmp(t, T[e]), "product of pairings differs from the product of the pairings (expected exponent %ld)", e);
      for (int k = 0; k < n; k++) { element_clear(X[k]); element_clear(Y[k]); }
    }
  }
  for (int n = 5; n <= (vh_thorough ? 70 : 40); n += n < 20 ? 1 : 7) for (int v = 0; v < 3; v++) { // long products; v == 1: no identities, v == 2: one in the middle
    element_t X[80], Y[80]; long e = 0; STATE(); CTX("product of %ld pairings, pattern %ld", n, v);
    for (int k = 0; k < n; k++) { long a = av[(k * (v + 1) + n) % na], b = av[(k / 2 + v) % na]; if (v) { if (!a) a = av[1 % na]; if (!b) b = av[1 % na]; } if (v == 2 && k == n / 2) a = 0; e = (e + a * b) % r; element_init_G1(X[k], pr); element_init_G2(Y[k], pr); element_set(X[k], A[a]); element_set(Y[k], B[b]); }
    element_prod_pairing(t, X, Y, n); STEP(); CHECK(!element_cmp(t, T[e]), "product of pairings differs from the product of the pairings (expected exponent %ld)", e);
    for (int k = 0; k < n; k++) { element_clear(X[k]); element_clear(Y[k]); }
  }
  vh_sample("%s/%s: pp over %ld first inputs, products up to length %d", toys[id].name, me ? me : "default", r, 3 + vh_thorough);
  for (long i = 0; i < r; i++) { element_clear(A[i]); element_clear(B[i]); element_clear(T[i]); }
  free(A); free(B); free(T); element_clear(t); element_clear(u); element_clear(g); pairing_clear(pr);
}
static void real(long id, long m, long c) {
  pairing_t pr; if (ps_open(pr, id)) return;
  const char *me = ps_methods(id, m); if (me) pairing_option_set(pr, "method", (char *) me);
  vh_outerf("%s.param method %s", ps_name(id), me ? me : "default");
  zalpha Z; za_build(&Z, pr->r, vh_thorough);
  element_t P, Q, t, u, w; element_init_G1(P, pr); element_init_G2(Q, pr); element_init_GT(t, pr); element_init_GT(u, pr); element_init_GT(w, pr);
  grp_gen(P, pr->r, 1); grp_gen(Q, pr->r, 2); int n = Z.n;
  element_t X[64], Y[64]; for (int i = 0; i < n; i++) { element_init_G1(X[i], pr); element_init_G2(Y[i], pr); element_mul_mpz(X[i], P, Z.z[i]); element_mul_mpz(Y[i], Q, Z.z[i]); }
  for (int i = 0; i < n; i++) {
    pairing_pp_t pp; pairing_pp_init(pp, X[i], pr);
    for (int j = 0; j < n; j += (vh_thorough ? 1 : 1 + (i > 2))) { STATE(); CTX("pp #%ld #%ld", i, j); pairing_pp_apply(t, Y[j], pp); element_pairing(u, X[i], Y[j]); STEP(); CHECK(!element_cmp(t, u), "preprocessed pairing differs"); }
    pairing_pp_clear(pp);
  }
  for (int len = 1; len <= 4; len++) for (int s = 0; s < n; s++) {
    element_t A[4], B[4]; STATE(); CTX("product len %ld start %ld", len, s); element_set1(u);
    for (int k = 0; k < len; k++) { element_init_G1(A[k], pr); element_init_G2(B[k], pr); element_set(A[k], X[(s + k) % n]); element_set(B[k], Y[(2 * s + 3 * k + 1) % n]); element_pairing(w, A[k], B[k]); element_mul(u, u, w); }
    element_prod_pairing(t, A, B, len); STEP(); CHECK(!element_cmp(t, u), "product of pairings differs");
    for (int k = 0; k < len; k++) { element_clear(A[k]); element_clear(B[k]); }
  }
  for (int len = 17; len <= (vh_thorough ? 65 : 33); len += 16) { element_t A[80], B[80]; STATE(); CTX("product len %ld", len); element_set1(u);
    for (int k = 0; k < len; k++) { element_init_G1(A[k], pr); element_init_G2(B[k], pr); int i = k % n, j = (3 * k + 1) % n; while (element_is0(X[i])) i = (i + 1) % n; while (element_is0(Y[j])) j = (j + 1) % n; element_set(A[k], X[i]); element_set(B[k], Y[j]); element_pairing(w, A[k], B[k]); element_mul(u, u, w); }
    element_prod_pairing(t, A, B, len); STEP(); CHECK(!element_cmp(t, u), "product of %d pairings differs", len);
    for (int k = 0; k < len; k++) { element_clear(A[k]); element_clear(B[k]); } }
  vh_sample("%s.param/%s: pp and products over %d scalars", ps_name(id), me ? me : "default", n);
  for (int i = 0; i < n; i++) { element_clear(X[i]); element_clear(Y[i]); }
  za_clear(&Z); element_clear(P); element_clear(Q); element_clear(t); element_clear(u); element_clear(w); pairing_clear(pr);
}
void vh_register(void) {
  for (int i = NTOYS; i < NTOYS + NREAL; i++) { vh_unit(real, i, -1, 0, "real/%s/default", ps_name(i)); for (int m = 0; ps_methods(i, m); m++) vh_unit(real, i, m, 0, "real/%s/%s", ps_name(i), ps_methods(i, m)); }
  for (int i = NTOYS - 1; i >= 0; i--) { if (ps_degenerate(i)) continue; vh_unit(toy, i, -1, 0, "toy/%s/default", toys[i].name); for (int m = 0; ps_methods(i, m); m++) vh_unit(toy, i, m, 0, "toy/%s/%s", toys[i].name, ps_methods(i, m)); }
}
