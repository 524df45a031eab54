// P04: square detection and square roots.  For every element a of every
// explored field: is_sqr(a) iff a = b*b for some b, and sqrt(a)^2 = a; under
// every choice of nonresidue and of the first random values used by the search.
#include "tower.h"
static tower T; static rf *R; static field_ptr F; static int D;
static void one(vec x, int is_square, int al) {
  element_t a, c; vec w = vec_new(D), z = vec_new(D);
  element_init(a, F); element_init(c, F); el_put(a, R, x); STEP(); STATE();
  int s = element_is_sqr(a); 
  CHECK(!s == !is_square, "is_sqr=%d, expected %d, a=%s", s, is_square, vec_str(x, D));
  el_get(w, a, R); CHECK(vec_eq(w, x, D), "is_sqr changed its operand");
  if (is_square && s) {
    element_sqrt(al ? a : c, a); el_get(w, al ? a : c, R); rf_mul(R, z, w, w);
    CHECK(vec_eq(z, x, D), "sqrt: root %s squares to %s, want %s", vec_str(w, D), vec_str(z, D), vec_str(x, D));
    if (!al) { el_get(w, a, R); CHECK(vec_eq(w, x, D), "sqrt changed its operand"); }
  }
  element_clear(a); element_clear(c); vec_free(w, D); vec_free(z, D);
}
static long vidx(vec v) { long r = 0, p = mpz_get_ui(R->p); for (int i = D - 1; i >= 0; i--) r = r * p + mpz_get_ui(v[i]); return r; }
static void explore_all(int scripts) {
  valpha A; va_build2(&A, R, 1L << 20, 10); vec z = vec_new(D);
  char *sq = calloc(A.n, 1);
  for (int i = 0; i < A.n; i++) { rf_mul(R, z, A.v[i], A.v[i]); sq[vidx(z)] = 1; }
  for (int i = 0; i < A.n; i++) for (int s = 0; s < scripts; s++) for (int al = 0; al < 2; al++) {
    CTX("a=#%ld script=%ld", i, s); vh_rng_reset(); vh_rng_seed(i);
    long m = s; long p = mpz_get_ui(R->p); if (scripts > 1) for (int k = 0; k < D; k++) { vh_rng_push_ui(m % p); m /= p; }
    one(A.v[i], sq[vidx(A.v[i])], al);
  }
  free(sq);
}
static void structured(int want) {
  valpha A; va_build2(&A, R, 0, want); vec z = vec_new(D); mpz_t e; mpz_init(e); mpz_sub_ui(e, R->order, 1); mpz_fdiv_q_2exp(e, e, 1);
  for (int i = 0; i < A.n; i++) for (int al = 0; al < 2; al++) {
    CTX("a=#%ld", i); vh_rng_seed(i);
    rf_pow(R, z, A.v[i], e); one(A.v[i], vec_is0(A.v[i], D) || rf_is1(R, z), al);
    rf_mul(R, z, A.v[i], A.v[i]); one(z, 1, al);
  }
}
static void prime(long p, long nq, long c_) {
  (void) c_; mpz_t P; mpz_init_set_ui(P, p); tw_base(&T, P, IMPL_DEFAULT); R = RTOP(&T); F = TOP(&T); D = 1;
  vh_outerf("p=%ld nqr choice %ld", p, nq);
  if (nq) { element_t e; element_init(e, F); element_set_si(e, nq); field_set_nqr(F, e); element_clear(e); explore_all(1); }
  else explore_all(p <= 31 ? (int) p : 3);
  vh_sample("all residues mod %ld, nonresidue %ld", p, nq);
}
static void ext(long kind, long pd, long variant) {
  mpz_t p; mpz_init_set_ui(p, pd / 100); 
  if (!tw_build(&T, kind, p, IMPL_DEFAULT, pd % 100, variant)) return;
  R = RTOP(&T); F = TOP(&T); D = R->dim; vh_outerf("%s p=%ld d=%ld variant=%ld", kname[kind], pd / 100, pd % 100, variant);
  long o = mpz_get_ui(R->order);
  if (o > (vh_thorough ? 50000 : 2500)) { structured(150); return; }
  explore_all(o <= 130 ? (int) o : o <= (vh_thorough ? 2500 : 350) ? 30 : 2);
  vh_sample("all %ld elements of %s p=%ld", o, kname[kind], pd / 100);
}
static void big(long kind, long Ld, long variant) {
  mpz_t p; mpz_init(p); int impl = Ld / 10000 ? Ld / 10000 - 1 : IMPL_DEFAULT; Ld %= 10000; int d = Ld % 100, L = Ld / 100;
  if (d != 17) make_modulus(p, L, variant);
  if (kind == K_FI) next_prime_4(p, 3); else if (d == 17) { // high 2-adicity
    mpz_set_ui(p, 0); mpz_setbit(p, 64 * L - 10); mpz_t st; mpz_init(st); mpz_setbit(st, variant); mpz_add_ui(p, p, 1); do mpz_add(p, p, st); while (!mpz_probab_prime_p(p, 20)); mpz_clear(st); d = 1; }
  else if (d > 1) prime_1_mod(p, d % 3 == 0 ? 6 : d, 0);
  if (kind == -1) { tw_base(&T, p, impl); } else if (!tw_build(&T, kind, p, impl, d, 0)) return;
  R = RTOP(&T); F = TOP(&T); D = R->dim; vh_outerf("big %s p=%s d=%d", kind < 0 ? "prime" : kname[kind], vh_mpzs(p), d);
  structured(vh_thorough ? 200 : D > 2 ? 20 : 60);
}
void vh_register(void) {
  static const int ps[] = { 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 41, 43, 97, 113, 127, 193, 241, 257, 0 };
  for (int i = 0; ps[i]; i++) {
    int p = ps[i]; vh_unit(prime, p, 0, 0, "prime-%d", p);
    int cnt = 0;
    for (int n = 2; n < p && cnt < (p < 50 || vh_thorough ? 1000 : 4); n++) { int s = 0; for (int k = 1; k < p; k++) if (k * k % p == n) s = 1; if (!s) { cnt++; vh_unit(prime, p, n, 0, "prime-%d-nqr%d", p, n); } }
    if (p <= 31) for (int v = 0; v < 3 && v < (p - 1) / 2; v++) vh_unit(ext, K_QUAD, p * 100, v, "quad-p%d-v%d", p, v);
    if (p <= 43 && p % 4 == 3) vh_unit(ext, K_FI, p * 100, 0, "fi-p%d", p);
    for (int d = 2; d <= 7; d++) { double o = 1; for (int k = 0; k < d; k++) o *= p; if (o > (vh_thorough ? 20000 : 2500)) continue;
      for (int v = 0; v < 2; v++) vh_unit(ext, K_POLY, p * 100 + d, v, "poly-p%d-d%d-v%d", p, d, v); }
  }
  for (int v = 0; v < 3; v++) {
    vh_unit(ext, K_QUAD_QUAD, 300, v, "quadquad-p3-v%d", v); vh_unit(ext, K_QUAD_QUAD, 500, v, "quadquad-p5-v%d", v);
    vh_unit(ext, K_QUAD_POLY, 303, v, "quadpoly-p3-d3-v%d", v); vh_unit(ext, K_QUAD_POLY, 503, v, "quadpoly-p5-d3-v%d", v);
    vh_unit(ext, K_POLY_QUAD, 503, v, "polyquad-p5-d3-v%d", v);
  }
  for (int im = 0; im < 4; im++) for (int L = 2; L <= 3; L++) for (int k = 0; k < 5; k++) { long b = (im + 1) * 10000; vh_unit(big, -1, b + L * 100 + 1, k, "impl%d-prime-L%d-k%d", im, L, k); if (k < 2) vh_unit(big, -1, b + L * 100 + 17, k ? 33 : 66, "impl%d-2adic%d-L%d", im, k ? 33 : 66, L); if (L == 2 && k < 2) { vh_unit(big, K_QUAD, b + L * 100 + 1, k, "impl%d-quad-k%d", im, k); vh_unit(big, K_FI, b + L * 100 + 1, k, "impl%d-fi-k%d", im, k); vh_unit(big, K_POLY, b + L * 100 + 3, k, "impl%d-poly3-k%d", im, k); } }
  for (int L = 1; L <= 8; L += L < 3 ? 1 : 5) for (int k = 0; k < 5; k++) {
    if (L == 1 && k == 2) continue;
    vh_unit(big, -1, L * 100 + 1, k, "big-prime-L%d-k%d", L, k); 
    static const int ad[] = { 20, 33, 47, 66, 110 }; if (ad[k] < 64 * L - 12) vh_unit(big, -1, L * 100 + 17, ad[k], "big-prime-2adic%d-L%d", ad[k], L);
    vh_unit(big, K_QUAD, L * 100 + 1, k, "big-quad-L%d-k%d", L, k); vh_unit(big, K_FI, L * 100 + 1, k, "big-fi-L%d-k%d", L, k);
    if (L <= 3 && k < 2) { vh_unit(big, K_POLY, L * 100 + 3, k, "big-poly3-L%d-k%d", L, k); if (L <= 2) vh_unit(big, K_POLY, L * 100 + 5, k, "big-poly5-L%d-k%d", L, k); vh_unit(big, K_QUAD_POLY, L * 100 + 3, k, "big-quadpoly3-L%d-k%d", L, k); }
  }
}
