// P02: extension-field arithmetic equals arithmetic of polynomials modulo the
// defining polynomial(s), for every operand and aliasing pattern.
#include "tower.h"
static tower T; static rf *R; static field_ptr F; static int D;
static vec got, w1;
static void expect(element_ptr e, vec want, const char *op) {
  STEP(); el_get(got, e, R);
  CHECK(vec_eq(got, want, D), "%s: got %s want %s", op, vec_str(got, D), vec_str(want, D));
  CHECK(!element_is0(e) == !vec_is0(want, D), "%s: is0 wrong", op);
  CHECK(!element_is1(e) == !rf_is1(R, want), "%s: is1 wrong", op);
}
static const char *bn[] = { "add", "sub", "mul", "div" };
static void bdo(int op, element_t c, element_t a, element_t b) { switch (op) { case 0: element_add(c, a, b); break; case 1: element_sub(c, a, b); break; case 2: element_mul(c, a, b); break; case 3: element_div(c, a, b); } }
static void pairs(valpha *A, int part, int parts) {
  element_t a, b, c, junk; element_init(a, F); element_init(b, F); element_init(c, F); element_init(junk, F);
  vec w = vec_new(D), z = vec_new(D); vec_set(z, A->v[A->n - 1], D); el_put(junk, R, z);
  for (int i = part; i < A->n; i += parts) for (int j = 0; j < A->n; j++) {
    STATE(); CTX("a=#%ld b=#%ld", i, j);
    vec x = A->v[i], y = A->v[j];
    for (int op = 0; op < 4; op++) {
      if (op == 3 && vec_is0(y, D)) continue;
      if (op == 0) rf_add(R, w, x, y); else if (op == 1) rf_sub(R, w, x, y); else if (op == 2) rf_mul(R, w, x, y);
      el_put(a, R, x); el_put(b, R, y);
      if (op == 3) {
        element_set(c, junk); element_div(c, a, b); el_get(w, c, R); rf_mul(R, z, w, y);
        CHECK(vec_eq(z, x, D), "div: (a/b)*b != a, a=%s b=%s a/b=%s", vec_str(x, D), vec_str(y, D), vec_str(w, D));
      } else { if ((i + j) & 1) element_set0(c); else element_set(c, junk); bdo(op, c, a, b); }
      expect(c, w, bn[op]); expect(a, x, "operand a preserved"); expect(b, y, "operand b preserved");
      bdo(op, a, a, b); expect(a, w, bn[op]); expect(b, y, "operand b preserved");
      el_put(a, R, x); bdo(op, b, a, b); expect(b, w, bn[op]);
      if (i == j) { el_put(a, R, x); bdo(op, c, a, a); expect(c, w, bn[op]); bdo(op, a, a, a); expect(a, w, bn[op]); }
    }
    el_put(a, R, x); el_put(b, R, y); int r = element_cmp(a, b);
    CHECK(!r == (i == j), "cmp=%d", r);
  }
  element_clear(a); element_clear(b); element_clear(c); element_clear(junk); vec_free(w, D); vec_free(z, D);
}
static const long SI[] = { 0, 1, -1, 2, -2, 3, 5, -7, 12345, LONG_MAX, LONG_MIN + 1 };
static void singles(valpha *A) {
  element_t a, c, e; element_init(a, F); element_init(c, F); element_init(e, T.f[T.n - 2]);
  vec w = vec_new(D), z = vec_new(D); mpz_t n; mpz_init(n);
  rf_set_si(R, w, 0); expect(a, w, "init");
  rf_set_si(R, w, 1); element_set1(a); expect(a, w, "set1");
  CHECK(!mpz_cmp(F->order, R->order), "field order");
  for (unsigned k = 0; k < sizeof(SI) / sizeof(*SI); k++) {
    el_put(a, R, A->v[A->n - 1]); element_set_si(a, SI[k]); rf_set_si(R, w, SI[k]); expect(a, w, "set_si");
    el_put(a, R, A->v[A->n - 1]); mpz_set_si(n, SI[k]); mpz_addmul_ui(n, R->p, 3); element_set_mpz(a, n); expect(a, w, "set_mpz");
    element_to_mpz(n, a); CHECK(!mpz_cmp(n, w[0]), "to_mpz");
  }
  // embedding of the base field
  rf *B = R->base; valpha BA; va_build(&BA, B, 100);
  for (int i = 0; i < BA.n; i++) {
    el_put(e, B, BA.v[i]); el_put(a, R, A->v[A->n - 1]);
    for (int k = 0; k < D; k++) mpz_set_ui(w[k], 0);
    vec_set(w, BA.v[i], B->dim);
    if (T.px[T.n - 1]->data && T.haspx[T.n - 1]) element_field_to_polymod(a, e);
    else if (T.isfi) element_field_to_fi(a, e); else element_field_to_quadratic(a, e);
    expect(a, w, "embed base field");
    if (T.haspx[T.n - 1]) for (int j = 0; j < A->n && j < 40; j++) {
      el_put(a, R, A->v[j]); polymod_const_mul(c, e, a); rf_mul(R, z, w, A->v[j]); expect(c, z, "const_mul");
      polymod_const_mul(a, e, a); expect(a, z, "const_mul alias");
    }
  }
  for (int i = 0; i < A->n; i++) {
    STATE(); CTX("a=%s", vec_str(A->v[i], D)); vec x = A->v[i];
    for (int al = 0; al < 3; al++) {          // 0 fresh dest, 1 alias, 2 dirty dest
      #define DEST() (al == 1 ? a : c)
      #define PRE() do { el_put(a, R, x); if (al == 0) { element_clear(c); element_init(c, F); } if (al == 2) el_put(c, R, A->v[A->n - 1 - i]); } while (0)
      PRE(); element_neg(DEST(), a); rf_set_si(R, z, 0); rf_sub(R, w, z, x); expect(DEST(), w, "neg");
      PRE(); element_double(DEST(), a); rf_add(R, w, x, x); expect(DEST(), w, "double");
      PRE(); element_square(DEST(), a); rf_mul(R, w, x, x); expect(DEST(), w, "square");
      PRE(); element_set(DEST(), a); expect(DEST(), x, "set");
      if (mpz_odd_p(R->p)) { PRE(); element_halve(DEST(), a); el_get(w, DEST(), R); rf_add(R, z, w, w); CHECK(vec_eq(z, x, D), "halve: twice the result differs"); expect(DEST(), w, "halve"); }
      if (!vec_is0(x, D)) { PRE(); element_invert(DEST(), a); el_get(w, DEST(), R); rf_mul(R, z, w, x); CHECK(rf_is1(R, z), "invert: a*a^-1 != 1"); expect(DEST(), w, "invert"); }
      for (unsigned k = 0; k < sizeof(SI) / sizeof(*SI); k++) {
        mpz_set_si(n, SI[k]); rf_smul(R, w, x, n);
        PRE(); element_mul_si(DEST(), a, SI[k]); expect(DEST(), w, "mul_si");
        PRE(); element_mul_mpz(DEST(), a, n); expect(DEST(), w, "mul_mpz");
      }
      static const unsigned long ex[] = { 0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 255, 256, 1000003 };
      for (unsigned k = 0; k < sizeof(ex) / sizeof(*ex) + 3; k++) {
        if (k < sizeof(ex) / sizeof(*ex)) mpz_set_ui(n, ex[k]);
        else if (i > (mpz_sizeinbase(R->order, 2) > 40 ? 5 : 60)) break;
        else if (k == sizeof(ex) / sizeof(*ex)) mpz_set(n, R->order);
        else if (k == sizeof(ex) / sizeof(*ex) + 1) mpz_sub_ui(n, R->order, 2);
        else mpz_set(n, R->p);
        if (vec_is0(x, D) && !mpz_sgn(n)) continue;
        rf_pow(R, w, x, n); PRE(); element_pow_mpz(DEST(), a, n); expect(DEST(), w, "pow_mpz");
      }
    }
    el_put(a, R, x); int s = element_sign(a); element_neg(c, a); int sn = element_sign(c);
    if (vec_is0(x, D)) CHECK(s == 0, "sign(0)=%d", s);
    else if (mpz_cmp_ui(R->p, 2) > 0) CHECK(s && sn && (s > 0) == (sn < 0), "sign(a)=%d sign(-a)=%d", s, sn);
  }
  element_clear(a); element_clear(c); element_clear(e); vec_free(w, D); vec_free(z, D); mpz_clear(n);
}
static void run(int kind, mpz_t p, int impl, int d, int variant, long lim, long want) {
  if (!tw_build(&T, kind, p, impl, d, variant)) return;
  R = RTOP(&T); F = TOP(&T); D = R->dim; got = vec_new(D); w1 = vec_new(D);
  vh_outerf("%s p=%s d=%d variant=%d", kname[kind], vh_mpzs(p), d, variant);
  valpha A; va_build2(&A, R, lim, want);
  singles(&A);
  pairs(&A, 0, 1);
  vh_sample("%s over F_%s degree %d: %d elements, all ordered pairs", kname[kind], vh_mpzs(p), D, A.n);
  tw_clear(&T);
}
static void tiny(long kind, long pd, long variant) {
  mpz_t p; mpz_init_set_ui(p, pd / 100);
  run(kind, p, IMPL_DEFAULT, pd % 100, variant, vh_thorough ? 2500 : variant ? 250 : 740, vh_thorough ? 400 : 90);
}
static void bigu(long kind, long Ld, long variant) {
  mpz_t p; mpz_init(p); int d = Ld % 100, L = Ld / 100;
  make_modulus(p, L, variant % 10 % NMODKIND);
  if (kind == K_FI) next_prime_4(p, 3);
  else if (d > 1) { int m = d % 3 ? d : d > 12 ? 2 * d : 6; prime_1_mod(p, m, d % 4 == 0 ? 1 : 0); }
  run(kind, p, IMPL_DEFAULT, d, variant / 10, 0, vh_thorough ? (d > 12 ? 60 : 220) : d * (kind == K_POLY || kind == K_QUAD || kind == K_FI ? 1 : 2) > 6 ? 40 : 64);
}
void vh_register(void) {
  static const int ps[] = { 3, 5, 7, 11, 13, 17, 19, 23, 0 };
  for (int i = 0; ps[i]; i++) {
    int p = ps[i];
    for (int v = 0; v < (vh_thorough ? 8 : 3); v++) if (v < (p - 1) / 2) vh_unit(tiny, K_QUAD, p * 100, v, "tiny-quad-p%d-n%d", p, v);
    if (p % 4 == 3) vh_unit(tiny, K_FI, p * 100, 0, "tiny-fi-p%d", p);
    for (int d = 2; d <= 7; d++) { double o = 1; for (int k = 0; k < d; k++) o *= p; if (o > (vh_thorough ? 20000 : 2500)) continue;
      for (int v = 0; v < (d == 3 || d == 6 ? 4 : 2) * (vh_thorough ? 3 : 1); v++) vh_unit(tiny, K_POLY, p * 100 + d, v, "tiny-poly-p%d-d%d-v%d", p, d, v); }
  }
  for (int v = 0; v < 3; v++) {
    vh_unit(tiny, K_POLY, 200 + 3 + v, 0, "tiny-poly-p2-d%d", 3 + v);
    vh_unit(tiny, K_QUAD_QUAD, 300, v, "tiny-quadquad-p3-v%d", v); vh_unit(tiny, K_QUAD_QUAD, 500, v, "tiny-quadquad-p5-v%d", v);
    vh_unit(tiny, K_QUAD_POLY, 303, v, "tiny-quadpoly-p3-d3-v%d", v); vh_unit(tiny, K_QUAD_POLY, 503, v, "tiny-quadpoly-p5-d3-v%d", v);
    vh_unit(tiny, K_QUAD_POLY, 305, v, "tiny-quadpoly-p3-d5-v%d", v); vh_unit(tiny, K_QUAD_POLY, 703, v, "tiny-quadpoly-p7-d3-v%d", v);
    vh_unit(tiny, K_POLY_QUAD, 503, v, "tiny-polyquad-p5-d3-v%d", v); vh_unit(tiny, K_POLY_QUAD, 506, v, "tiny-polyquad-p5-d6-v%d", v); vh_unit(tiny, K_POLY_QUAD, 706, v, "tiny-polyquad-p7-d6-v%d", v);
    vh_unit(tiny, K_QUAD_POLYQUAD, 703, v, "tiny-quadpolyquad-p7-d3-v%d", v);
  }
  static const int Ls[] = { 1, 2, 3, 8, 0 };
  for (int i = 0; Ls[i]; i++) for (int k = 0; k < 4; k++) {
    int L = Ls[i] * 100; if (Ls[i] == 1 && k == 2) continue;
    if (!vh_thorough && Ls[i] == 8 && k > 1) continue;
    vh_unit(bigu, K_QUAD, L + 1, k, "big-quad-L%d-k%d", Ls[i], k); vh_unit(bigu, K_FI, L + 1, k, "big-fi-L%d-k%d", Ls[i], k);
    vh_unit(bigu, K_POLY, L + 3, k + 10, "big-poly3-L%d-k%d", Ls[i], k); vh_unit(bigu, K_POLY, L + 3, k, "big-poly3b-L%d-k%d", Ls[i], k);
    vh_unit(bigu, K_POLY, L + 5, k + 10, "big-poly5-L%d-k%d", Ls[i], k);
    vh_unit(bigu, K_POLY, L + 6, k + 10, "big-poly6-L%d-k%d", Ls[i], k); vh_unit(bigu, K_POLY, L + 2, k + 10, "big-poly2-L%d-k%d", Ls[i], k);
    vh_unit(bigu, K_QUAD_POLY, L + 3, k + 10, "big-quadpoly3-L%d-k%d", Ls[i], k);
    if (Ls[i] <= 3) { vh_unit(bigu, K_QUAD_POLY, L + 5, k + 10, "big-quadpoly5-L%d-k%d", Ls[i], k); vh_unit(bigu, K_POLY_QUAD, L + 6, k, "big-polyquad6-L%d-k%d", Ls[i], k); vh_unit(bigu, K_POLY_QUAD, L + 6, k + 10, "big-polyquad6s-L%d-k%d", Ls[i], k); }
  }
  static const int ds[] = { 7, 8, 9, 11, 12, 16, 17, 22, 33, 0 }; // 33: thorough only
  for (int i = 0; ds[i] && (vh_thorough || ds[i] < 30); i++) for (int L = 1; L <= 2; L++) for (int v = 0; v < 2; v++) vh_unit(bigu, K_POLY, L * 100 + ds[i], v * 10 + L % 2, "deep-poly%d-L%d-v%d", ds[i], L, v);
}
