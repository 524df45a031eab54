// P07: the pairing is a non-degenerate bilinear map into the order-r group GT,
// for every parameter type, every evaluation method, every pair of inputs.
#include "pair.h"
// All multiples of a generator pair: e(iP, jQ) == e(P,Q)^(ij), tabulated.
static void toy(long id, long m, long c) {
  pairing_t pr; if (ps_open(pr, id)) return;
  long r = toys[id].r; const char *me = ps_methods(id, m);
  if (me) pairing_option_set(pr, "method", (char *) me);
  vh_outerf("toy %s method %s", toys[id].name, me ? me : "default");
  CHECK(!mpz_cmp_ui(pr->r, r), "group order reported as %s", vh_mpzs(pr->r));
  int sym = pairing_is_symmetric(pr);
  element_t *A = malloc(sizeof(element_t) * r), *B = sym ? A : malloc(sizeof(element_t) * r);
  for (long i = 0; i < r; i++) { element_init_G1(A[i], pr); if (!sym) element_init_G2(B[i], pr); }
  int isE = !strcmp(toys[id].type, "e");
  CHECK(grp_gen(A[1], pr->r, 1), "no generator of G1 found");
  if (!sym) CHECK(grp_gen(B[1], pr->r, 2), "no generator of G2 found");
  if (isE) { // G1 = E[r]: pair P with an independent point
    B = malloc(sizeof(element_t) * r); for (long i = 0; i < r; i++) element_init_G2(B[i], pr);
    int ok = 0; element_t t; element_init_G1(t, pr);
    for (int s = 0; s < 200 && !ok; s++) { element_from_hash(B[1], &s, sizeof(int)); if (element_is0(B[1])) continue; ok = 1; element_set0(t); for (long i = 0; i < r; i++) { if (!element_cmp(t, B[1])) ok = 0; element_add(t, t, A[1]); } }
    CHECK(ok, "G1 has no second independent point"); element_clear(t);
  }
  element_set0(A[0]); if (B != A) element_set0(B[0]);
  for (long i = 2; i < r; i++) { element_add(A[i], A[i - 1], A[1]); if (B != A) element_add(B[i], B[i - 1], B[1]); }
  element_t g, t, u; element_init_GT(g, pr); element_init_GT(t, pr); element_init_GT(u, pr);
  int L = pairing_length_in_bytes_GT(pr);
  unsigned char *T = malloc(L * r), *buf = malloc(L), *p0 = malloc(L);
  vh_rng_reset(); vh_rng_seed(7);
  element_pairing(g, A[1], B[1]); STEP();
  CHECK(!element_is1(g), "e(P,Q) = 1 for generators P, Q");
  element_set1(t); for (long k = 0; k < r; k++) { element_to_bytes(T + k * L, t); element_mul(t, t, g); for (long q = 0; q < k; q++) if (!memcmp(T + q * L, T + k * L, L)) { CHECK(0, "e(P,Q) has order %ld, not r", k - q); q = k; k = r; } }
  CHECK(element_is1(t), "e(P,Q)^r != 1");
  int a1 = !strcmp(toys[id].type, "a1"); unsigned char *skip = calloc(r, 1);
  if (a1) for (long i = 1; i < r; i++) skip[i] = a1_order_degenerate(r, r / gcdl(i, r));
  long step = r > 90 && !vh_thorough ? 7 : 1;
  for (long i = 0; i < r; i++) for (long j = 0; j < r; j += (i % step == 0 ? 1 : step == 1 ? 1 : 11)) {
    if (skip[i]) continue;
    STATE(); CTX("e(%ldP,%ldQ)", i, j);
    element_pairing(t, A[i], B[j]); STEP();
    element_to_bytes(buf, t);
    CHECK(!memcmp(buf, T + (i * j % r) * L, L), "e(iP,jQ) != e(P,Q)^(ij): got %s", vh_hex(buf, L));
    CHECK(element_is1(t) == (i * j % r == 0), "e(iP,jQ) = 1 iff ij = 0 mod r");
  }
  // other representatives of the same element of a quotient group
  if (!sym) {
    element_t y, z; element_init_G2(y, pr); element_init_G2(z, pr); element_mul_mpz(z, B[1], pr->r);
    for (long k = 1; k <= 3; k++) for (long i = 0; i < r; i += (r > 40 ? 5 : 1)) {
      STATE(); CTX("representative jQ + k(rQ), j=%ld k=%ld", i, k); element_set(y, B[i]); for (long q = 0; q < k; q++) element_add(y, y, z);
      CHECK(!element_cmp(y, B[i]), "jQ + rQ is not equal to jQ"); element_pairing(t, A[1], y); STEP(); element_to_bytes(buf, t);
      CHECK(!memcmp(buf, T + i * L, L), "value depends on the representative");
    }
    element_clear(y); element_clear(z);
  }
  free(skip);
  // inputs are not modified
  for (long i = 0; i < r; i++) { CTX("input %ldP after the sweep", i); element_t x; element_init_G1(x, pr); mpz_t z; mpz_init_set_si(z, i); element_mul_mpz(x, A[1], z); CHECK(!element_cmp(x, A[i]), "input modified by pairing"); element_clear(x); mpz_clear(z); }
  vh_sample("%s/%s: all %ld x %ld pairs against powers of e(P,Q)=%s", toys[id].name, me ? me : "default", r, r, vh_hex(T + L, L > 24 ? 24 : L));
  // E: alternating/complete bilinearity over all r^2 points
  if (isE && r <= 7 + 6 * vh_thorough) {
    element_t *Z = malloc(sizeof(element_t) * r * r); long n = r * r;
    for (long i = 0; i < n; i++) { element_init_G1(Z[i], pr); element_add(Z[i], A[i % r], B[i / r]); }
    long d[4]; for (int k = 0; k < 4; k++) { element_pairing(t, k & 1 ? B[1] : A[1], k & 2 ? B[1] : A[1]); element_to_bytes(buf, t); d[k] = -1; for (long q = 0; q < r; q++) if (!memcmp(T + q * L, buf, L)) d[k] = q; CHECK(d[k] >= 0, "value of order not dividing r"); }
    for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) {
      STATE(); CTX("all points i=%ld j=%ld", i, j); element_pairing(t, Z[i], Z[j]); STEP(); element_to_bytes(buf, t);
      long a = i % r, b = i / r, c1 = j % r, d1 = j / r; long e = (a * c1 * d[0] + b * c1 * d[1] + a * d1 * d[2] + b * d1 * d[3]) % r;
      CHECK(!memcmp(buf, T + e * L, L), "not bilinear on E[r] x E[r]");
    }
    for (long i = 0; i < n; i++) element_clear(Z[i]);
    free(Z);
  }
  // output aliasing with previous contents and repeated evaluation
  for (long i = 0; i < r; i += (r > 20 ? r / 10 : 1)) { CTX("repeat %ld", i); element_pairing(u, A[i], B[1]); element_set(t, u); element_pairing(u, A[i], B[1]); STEP(); CHECK(!element_cmp(t, u), "repeated evaluation differs"); }
  for (long i = 0; i < r; i++) { if (B != A) element_clear(B[i]); element_clear(A[i]); }
  if (B != A) free(B);
  free(A); free(T); free(buf); free(p0); element_clear(g); element_clear(t); element_clear(u); pairing_clear(pr);
}
static void real(long id, long m, long c) {
  pairing_t pr; if (ps_open(pr, id)) return;
  const char *me = ps_methods(id, m); if (me) pairing_option_set(pr, "method", (char *) me);
  vh_outerf("%s.param method %s", ps_name(id), me ? me : "default");
  element_t P, Q, X, Y, g, t, u; element_init_G1(P, pr); element_init_G2(Q, pr); element_init_G1(X, pr); element_init_G2(Y, pr); element_init_GT(g, pr); element_init_GT(t, pr); element_init_GT(u, pr);
  for (int gen = 0; gen < (vh_thorough ? 3 : 1); gen++) {
    CTX("generators %ld", gen);
    CHECK(grp_gen(P, pr->r, 11 + gen), "no G1 generator"); CHECK(grp_gen(Q, pr->r, 12 + gen), "no G2 generator");
    element_pairing(g, P, Q); CHECK(!element_is1(g), "e(P,Q)=1");
    element_pow_mpz(t, g, pr->r); CHECK(element_is1(t), "e(P,Q)^r != 1");
    zalpha A; za_build(&A, pr->r, vh_thorough); mpz_t ab; mpz_init(ab);
    for (int i = 0; i < A.n; i++) for (int j = 0; j < A.n; j++) {
      if (!vh_thorough && i > 3 && j > 3 && i != j && (i + j) % 3) continue;
      STATE(); CTX("scalars #%ld #%ld", i, j);
      element_mul_mpz(X, P, A.z[i]); element_mul_mpz(Y, Q, A.z[j]); element_pairing(t, X, Y); STEP();
      mpz_mul(ab, A.z[i], A.z[j]); mpz_mod(ab, ab, pr->r); element_pow_mpz(u, g, ab);
      CHECK(!element_cmp(t, u), "e(aP,bQ) != e(P,Q)^(ab) a=%s b=%s", vh_mpzs(A.z[i]), vh_mpzs(A.z[j]));
      CHECK(element_is1(t) == !mpz_sgn(ab), "e(aP,bQ)=1 iff ab=0");
    }
    za_clear(&A); mpz_clear(ab);
  }
  vh_sample("%s.param/%s: scalar alphabet products", ps_name(id), me ? me : "default");
  element_clear(P); element_clear(Q); element_clear(X); element_clear(Y); element_clear(g); element_clear(t); element_clear(u); pairing_clear(pr);
}
// All methods (and the default one) give the same value on the same inputs.
static void agree(long id, long b, long c) {
  pairing_t pr; if (ps_open(pr, id)) return;
  vh_outerf("%s methods agree", ps_name(id));
  element_t P, Q, t, u; element_init_G1(P, pr); element_init_G2(Q, pr); element_init_GT(t, pr); element_init_GT(u, pr);
  int n = id < NTOYS ? 30 : 2;
  for (int s = 0; s < n; s++) {
    grp_gen(P, pr->r, 21 + s); grp_gen(Q, pr->r, 91 + s);
    int first = 1;
    for (int m0 = 0; ps_methods(id, m0); m0++) for (int m = 0; ps_methods(id, m); m++) {
      if (id < NTOYS && !strcmp(ps_type(id), "a1") && !mpz_probab_prime_p(pr->r, 10)) { element_set0(t); continue; }
      CTX("seed %ld method %s then %s", s, ps_methods(id, m0), ps_methods(id, m)); pairing_option_set(pr, "method", (char *) ps_methods(id, m0)); pairing_option_set(pr, "method", (char *) ps_methods(id, m)); element_pairing(t, P, Q); STEP(); STATE();
      if (first) { element_set(u, t); first = 0; } else CHECK(!element_cmp(t, u), "methods disagree");
    }
    // the same on dependent inputs: the second a small multiple of the first
    if (pairing_is_symmetric(pr)) for (long k = -3; k <= 3; k++) {
      if (id < NTOYS && !strcmp(ps_type(id), "a1") && !mpz_probab_prime_p(pr->r, 10)) continue;
      element_t y; element_init_G2(y, pr); mpz_t z; mpz_init_set_si(z, k); mpz_mod(z, z, pr->r); element_mul_mpz(y, P, z); first = 1;
      for (int m = 0; ps_methods(id, m); m++) {
        CTX("seed %ld e(P,%ldP) method %s", s, k, ps_methods(id, m)); pairing_option_set(pr, "method", (char *) ps_methods(id, m)); element_pairing(t, P, y); STEP(); STATE();
        if (first) { element_set(u, t); first = 0; } else CHECK(!element_cmp(t, u), "methods disagree");
      }
      element_clear(y); mpz_clear(z);
    }
  }
  element_clear(P); element_clear(Q); element_clear(t); element_clear(u); pairing_clear(pr);
}
// n = p1 p2: bilinearity, and subgroups of coprime order are orthogonal (the BGN use of type A1)
static void bgn(long id, long m, long c) {
  pairing_t pr; vh_rng_reset(); vh_rng_seed(4); CHECK(!pairing_init_set_str(pr, bgns[id].text), "rejected");
  static const char *me[] = { NULL, "miller", "miller-affine", "shipsey-stange" };
  if (me[m]) pairing_option_set(pr, "method", (char *) me[m]);
  vh_outerf("%s method %s", bgns[id].name, me[m] ? me[m] : "default");
  mpz_t p1, p2, z; mpz_init_set_str(p1, bgns[id].p1, 10); mpz_init_set_str(p2, bgns[id].p2, 10); mpz_init(z);
  element_t P[4], g[3], t, u; for (int i = 0; i < 4; i++) element_init_G1(P[i], pr);
  for (int i = 0; i < 3; i++) element_init_GT(g[i], pr);
  element_init_GT(t, pr); element_init_GT(u, pr);
  grp_gen(P[0], pr->r, 3); element_mul_mpz(P[1], P[0], p2); element_mul_mpz(P[2], P[0], p1); // orders n, p1, p2
  element_pairing(g[0], P[0], P[0]); CHECK(!element_is1(g[0]), "degenerate");
  element_pow_mpz(t, g[0], p1); CHECK(!element_is1(t), "e(P,P) has order p1"); element_pow_mpz(t, g[0], p2); CHECK(!element_is1(t), "e(P,P) has order p2");
  element_pow_mpz(t, g[0], pr->r); CHECK(element_is1(t), "e(P,P)^n != 1");
  mpz_t mult[3]; mpz_init_set_ui(mult[0], 1); mpz_init_set(mult[1], p2); mpz_init_set(mult[2], p1);
  zalpha A; za_build(&A, pr->r, vh_thorough);
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int k = 0; k < A.n; k++) {
    STATE(); CTX("order classes %ld %ld scalar #%ld", i, j, k); element_mul_mpz(P[3], P[j], A.z[k]); element_pairing(t, P[i], P[3]); STEP();
    mpz_mul(z, mult[i], mult[j]); mpz_mul(z, z, A.z[k]); mpz_mod(z, z, pr->r); element_pow_mpz(u, g[0], z);
    CHECK(!element_cmp(t, u), "e(aP,bP) != e(P,P)^(ab) in a subgroup of composite order"); if (i + j == 3) CHECK(element_is1(t), "subgroups of coprime order are not orthogonal");
  }
  za_clear(&A); for (int i = 0; i < 4; i++) element_clear(P[i]);
  for (int i = 0; i < 3; i++) { element_clear(g[i]); mpz_clear(mult[i]); }
  element_clear(t); element_clear(u); mpz_clear(p1); mpz_clear(p2); mpz_clear(z); pairing_clear(pr);
}
void vh_register(void) {
  for (int i = 0; i < NBGN; i++) for (int m = 0; m < 4; m++) vh_unit(bgn, i, m, 0, "bgn/%s/%d", bgns[i].name, m);
  for (int i = NTOYS; i < NTOYS + NREAL; i++) { vh_unit(real, i, -1, 0, "real/%s/default", ps_name(i)); for (int m = 0; ps_methods(i, m); m++) vh_unit(real, i, m, 0, "real/%s/%s", ps_name(i), ps_methods(i, m)); if (ps_methods(i, 0)) vh_unit(agree, i, 0, 0, "agree/%s", ps_name(i)); }
  for (int i = NTOYS - 1; i >= 0; i--) { if (ps_degenerate(i)) continue; if (!vh_thorough && strstr(toys[i].name, "r349") && !strstr(toys[i].name, "b6_beta2")) continue; vh_unit(toy, i, -1, 0, "toy/%s/default", toys[i].name); for (int m = 0; ps_methods(i, m); m++) vh_unit(toy, i, m, 0, "toy/%s/%s", toys[i].name, ps_methods(i, m)); if (ps_methods(i, 0)) vh_unit(agree, i, 0, 0, "agree/%s", toys[i].name); }
}
