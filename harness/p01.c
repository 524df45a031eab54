// P01: arithmetic modulo n is exact, for every implementation, operand and
// aliasing pattern.  Reference: GMP integers reduced modulo n.
#include "fpmod.h"
#include <pbc_fp.h>

static field_t F;
static mpz_t P, W, T;
// Junk-filled destination: result must not depend on what it held.
// jk 0: freshly initialised, 1: zeroed after holding a value, 2: holds p-1, 3: holds 1
#define NJUNK 4
static void prep(element_t c, int jk) {
  mpz_sub_ui(T, P, 1);
  if (jk) element_set_mpz(c, T);
  if (jk == 1) element_set0(c);
  if (jk == 3) element_set1(c);
}
static void expect(element_t e, mpz_t w, const char *op) {
  mpz_t z; mpz_init(z);
  mpz_mod(w, w, P);
  element_to_mpz(z, e);
  STEP();
  CHECK(!mpz_cmp(z, w), "%s: got %s want %s (mod %s)", op, vh_mpzs(z), vh_mpzs(w), vh_mpzs(P));
  CHECK(!element_is0(e) == !!mpz_sgn(w), "%s: is0 wrong for value %s", op, vh_mpzs(w));
  CHECK(!element_is1(e) == !!mpz_cmp_ui(w, 1), "%s: is1 wrong for value %s", op, vh_mpzs(w));
  mpz_clear(z);
}
static void expect_unchanged(element_t e, mpz_t v, const char *op) {
  mpz_t z; mpz_init(z); element_to_mpz(z, e);
  CHECK(!mpz_cmp(z, v), "%s: input operand changed to %s from %s", op, vh_mpzs(z), vh_mpzs(v));
  mpz_clear(z);
}

enum { B_ADD, B_SUB, B_MUL, B_DIV, NB };
static const char *bname[] = { "add", "sub", "mul", "div" };
static void bref(int op, mpz_t w, mpz_t a, mpz_t b) {
  switch (op) {
    case B_ADD: mpz_add(w, a, b); break;
    case B_SUB: mpz_sub(w, a, b); break;
    case B_MUL: mpz_mul(w, a, b); break;
    case B_DIV: mpz_invert(w, b, P); mpz_mul(w, w, a); break;
  }
  mpz_mod(w, w, P);
}
static void bdo(int op, element_t c, element_t a, element_t b) {
  switch (op) {
    case B_ADD: element_add(c, a, b); break;
    case B_SUB: element_sub(c, a, b); break;
    case B_MUL: element_mul(c, a, b); break;
    case B_DIV: element_div(c, a, b); break;
  }
}
static int invertible(mpz_t a) { int r; mpz_gcd(T, a, P); r = !mpz_cmp_ui(T, 1); return r; }

static void binops(alpha_t *A) {
  element_t a, b, c; mpz_t w; mpz_init(w);
  element_init(a, F); element_init(b, F); element_init(c, F);
  for (int i = 0; i < A->n; i++) for (int j = 0; j < A->n; j++) {
    STATE();
    CTX("a=%s b=%s", vh_mpzs(A->v[i]), vh_mpzs(A->v[j]));
    for (int op = 0; op < NB; op++) {
      if (op == B_DIV && !invertible(A->v[j])) continue;
      for (int jk = 0; jk < NJUNK; jk++) {
        if (jk == 0) { element_clear(c); element_init(c, F); }
        prep(c, jk);
        element_set_mpz(a, A->v[i]); element_set_mpz(b, A->v[j]);
        bdo(op, c, a, b); bref(op, w, A->v[i], A->v[j]);
        expect(c, w, bname[op]);
        expect_unchanged(a, A->v[i], bname[op]); expect_unchanged(b, A->v[j], bname[op]);
      }
      // c == a, c == b
      bref(op, w, A->v[i], A->v[j]);
      element_set_mpz(a, A->v[i]); element_set_mpz(b, A->v[j]);
      bdo(op, a, a, b); expect(a, w, bname[op]); expect_unchanged(b, A->v[j], bname[op]);
      element_set_mpz(a, A->v[i]); element_set_mpz(b, A->v[j]);
      bdo(op, b, a, b); expect(b, w, bname[op]); expect_unchanged(a, A->v[i], bname[op]);
      if (i == j) {
        prep(c, 1); element_set_mpz(a, A->v[i]);
        bdo(op, c, a, a); expect(c, w, bname[op]);
        bdo(op, a, a, a); expect(a, w, bname[op]);
      }
    }
    element_set_mpz(a, A->v[i]); element_set_mpz(b, A->v[j]);
    int r = element_cmp(a, b); STEP();
    CHECK(!r == (i == j), "cmp=%d for a %s b", r, i == j ? "==" : "!=");
    // scalar multiplication by an integer
    element_mul_mpz(c, a, A->v[j]); mpz_mul(w, A->v[i], A->v[j]); expect(c, w, "mul_mpz");
    mpz_neg(T, A->v[j]); mpz_mul(w, A->v[i], T); mpz_mod(w, w, P); element_mul_mpz(a, a, T); expect(a, w, "mul_mpz neg");
    // power
    if (mpz_sgn(A->v[i]) || mpz_sgn(A->v[j])) {
      element_set_mpz(a, A->v[i]); mpz_powm(w, A->v[i], A->v[j], P);
      prep(c, (i + j) % NJUNK);
      element_pow_mpz(c, a, A->v[j]); expect(c, w, "pow_mpz");
      element_pow_mpz(a, a, A->v[j]); expect(a, w, "pow_mpz alias");
    }
  }
  element_clear(a); element_clear(b); element_clear(c); mpz_clear(w);
}
static const long SI[] = { 0, 1, -1, 2, -2, 3, -3, 4, -4, 5, 7, 10, 255, 256, -256, 65535, 65537, INT_MAX, INT_MIN, 4294967295L, 4294967296L, -4294967296L, LONG_MAX, LONG_MIN, LONG_MIN + 1, 1000000007L };
#define NSI (int)(sizeof(SI)/sizeof(SI[0]))

enum { U_NEG, U_DBL, U_SQ, U_INV, U_HALVE, U_SET, U_CUBE, NU };
static const char *uname[] = { "neg", "double", "square", "invert", "halve", "set", "cubic" };
static void udo(int op, element_t c, element_t a) {
  switch (op) {
    case U_NEG: element_neg(c, a); break;
    case U_DBL: element_double(c, a); break;
    case U_SQ: element_square(c, a); break;
    case U_INV: element_invert(c, a); break;
    case U_HALVE: element_halve(c, a); break;
    case U_SET: element_set(c, a); break;
  }
}
static void uref(int op, mpz_t w, mpz_t a) {
  switch (op) {
    case U_NEG: mpz_neg(w, a); break;
    case U_DBL: mpz_mul_ui(w, a, 2); break;
    case U_SQ: mpz_mul(w, a, a); break;
    case U_INV: mpz_invert(w, a, P); break;
    case U_HALVE: { mpz_set_ui(w, 2); mpz_invert(w, w, P); mpz_mul(w, w, a); break; }
    case U_SET: mpz_set(w, a); break;
  }
  mpz_mod(w, w, P);
}
static void unops(alpha_t *A) {
  element_t a, c; mpz_t w, z; mpz_init(w); mpz_init(z);
  element_init(a, F); element_init(c, F);
  expect(a, (mpz_set_ui(w, 0), w), "init");
  element_set0(a); expect(a, (mpz_set_ui(w, 0), w), "set0");
  element_set1(a); expect(a, (mpz_set_ui(w, 1), w), "set1");
  for (int k = 0; k < NSI; k++) for (int jk = 0; jk < NJUNK; jk++) {
    STATE(); CTX("si=%ld junk=%ld", SI[k], jk);
    prep(c, jk);
    element_set_si(c, SI[k]); mpz_set_si(w, SI[k]); expect(c, w, "set_si");
    for (int n = -3; n <= 3; n++) {           // set_mpz outside [0,n)
      mpz_set_si(z, SI[k]); mpz_addmul_ui(z, P, n < 0 ? -n : n); if (n < 0) mpz_neg(z, z);
      prep(c, jk); element_set_mpz(c, z); mpz_set(w, z); expect(c, w, "set_mpz");
    }
  }
  for (int i = 0; i < A->n; i++) {
    STATE();
    CTX("a=%s", vh_mpzs(A->v[i]));
    for (int op = 0; op < NU; op++) {
      if (op == U_CUBE) continue;  // only defined for ternary fields
      if (op == U_INV && !invertible(A->v[i])) continue;
      if (op == U_HALVE && !mpz_odd_p(P)) continue;
      uref(op, w, A->v[i]);
      for (int jk = 0; jk < NJUNK; jk++) {
        if (jk == 0) { element_clear(c); element_init(c, F); }
        prep(c, jk); element_set_mpz(a, A->v[i]);
        udo(op, c, a); expect(c, w, uname[op]); expect_unchanged(a, A->v[i], uname[op]);
      }
      element_set_mpz(a, A->v[i]); udo(op, a, a); expect(a, w, uname[op]);
    }
    for (int k = 0; k < NSI; k++) {
      CTX("a=%s si=%ld", vh_mpzs(A->v[i]), SI[k]);
      for (int jk = 0; jk < NJUNK; jk++) {
        prep(c, jk); element_set_mpz(a, A->v[i]);
        element_mul_si(c, a, SI[k]); mpz_mul_si(w, A->v[i], SI[k]); expect(c, w, "mul_si"); expect_unchanged(a, A->v[i], "mul_si");
      }
      element_mul_si(a, a, SI[k]); expect(a, w, "mul_si alias");
      element_set_mpz(a, A->v[i]);
      element_add_ui(c, a, (unsigned long) SI[k]); mpz_add_ui(w, A->v[i], (unsigned long) SI[k]); expect(c, w, "add_ui");
      element_add_ui(a, a, (unsigned long) SI[k]); mpz_add_ui(w, A->v[i], (unsigned long) SI[k]); expect(a, w, "add_ui alias");
      if (SI[k] >= 0 && (SI[k] || mpz_sgn(A->v[i]))) {
        element_set_mpz(a, A->v[i]);
        mpz_set_si(z, SI[k]); mpz_powm(w, A->v[i], z, P);
        element_pow_mpz(c, a, z); expect(c, w, "pow small");
      }
    }
    element_set_mpz(a, A->v[i]);
    if (mpz_fits_slong_p(A->v[i])) CHECK(element_to_si(a) == mpz_get_si(A->v[i]), "to_si");
    int s = element_sign(a), s2 = element_sgn(a);
    element_neg(c, a);
    int sn = element_sign(c);
    mpz_mul_ui(w, A->v[i], 2); mpz_mod(w, w, P); // own negation?
    STEP();
    CHECK(s == s2, "sign != sgn");
    if (!mpz_sgn(A->v[i])) CHECK(s == 0, "sign(0)=%d", s);
    else if (mpz_sgn(w)) { CHECK(s != 0, "sign nonzero element is 0"); CHECK((s > 0) == (sn < 0) && sn != 0, "sign(a)=%d sign(-a)=%d", s, sn); }
  }
  element_clear(a); element_clear(c); mpz_clear(w); mpz_clear(z);
}
static void small(long impl, long p, long full) {
  (void) full;
  mpz_init_set_ui(P, p); mpz_init(W); mpz_init(T);
  impl_init(F, impl, P);
  vh_outerf("impl=%s modulus=%ld", impl_name[impl], p);
  alpha_t A; A.n = 0;
  CHECK(!mpz_cmp(F->order, P), "order");
  for (long i = 0; i < p && A.n < MAXALPHA; i++) { mpz_set_ui(W, i); alpha_add(&A, W, P); }
  unops(&A); binops(&A);
  vh_sample("all %d x %d operand pairs mod %ld, %s", A.n, A.n, p, impl_name[impl]);
  alpha_clear(&A); field_clear(F);
}
static void big(long impl, long L, long kind) {
  mpz_init(P); mpz_init(W); mpz_init(T);
  make_modulus(P, L, kind % 10);
  if (kind >= 10) { // composite: product of two primes of L/2 limbs each
    mpz_t q; mpz_init(q); make_modulus(P, (L + 1) / 2, 1); make_modulus(q, L / 2, 0); mpz_mul(P, P, q); mpz_clear(q);
    if (kind == 11) mpz_mul_ui(P, P, 2);
    if (kind == 12) mpz_mul_ui(P, P, 9);
  }
  impl_init(F, impl, P);
  alpha_t A; make_alpha(&A, P, vh_thorough || L <= 3);
  if (kind >= 10) {  // zero divisors
    mpz_t q; mpz_init(q); make_modulus(q, (L + 1) / 2, 1); alpha_add(&A, q, P); mpz_mul_ui(q, q, 3); alpha_add(&A, q, P);
    make_modulus(q, L / 2, 0); alpha_add(&A, q, P); mpz_mul_ui(q, q, 6); alpha_add(&A, q, P); mpz_mul_ui(q, q, 3); alpha_add(&A, q, P);
    mpz_fdiv_q_ui(q, P, 2); alpha_add(&A, q, P); mpz_clear(q);
  }
  vh_outerf("impl=%s limbs=%ld kind=%ld p=%s", impl_name[impl], L, kind, vh_mpzs(P));
  unops(&A); binops(&A);
  vh_sample("%d boundary operands pairwise mod %s (%s)", A.n, vh_mpzs(P), impl_name[impl]);
  alpha_clear(&A); field_clear(F);
}
// very long moduli (odd, not necessarily prime) and very long integers
static void huge(long impl, long L, long kind) {
  mpz_init(P); mpz_init(W); mpz_init(T); mpz_setbit(P, 64 * L - (kind == 1)); mpz_sub_ui(P, P, 1); mpz_clrbit(P, 64 * L - 70); mpz_clrbit(P, 64 * (L / 2)); if (kind == 2) { mpz_set_ui(P, 0); mpz_setbit(P, 64 * (L - 1)); mpz_add_ui(P, P, 9); } impl_init(F, impl, P); vh_outerf("impl=%s limbs=%ld kind=%ld (long)", impl_name[impl], L, kind);
  mpz_t v[14], w; mpz_init(w); int n = 0; for (int i = 0; i < 14; i++) mpz_init(v[i]); mpz_set_ui(v[1], 1); mpz_set_ui(v[2], 2); mpz_sub_ui(v[3], P, 1); mpz_sub_ui(v[4], P, 2); mpz_fdiv_q_2exp(v[5], P, 1); mpz_add_ui(v[6], v[5], 1); mpz_setbit(v[7], 64 * L - 65); mpz_sub_ui(v[8], v[7], 1); mpz_fdiv_q_ui(v[9], P, 3); mpz_setbit(v[10], 64 * (L / 2)); mpz_sub(v[11], P, v[10]); mpz_fdiv_q_ui(v[12], P, 7); mpz_mul_ui(v[12], v[12], 5); mpz_setbit(v[13], 64); n = 14; for (int i = 0; i < n; i++) mpz_mod(v[i], v[i], P);
  element_t a, b, c; element_init(a, F); element_init(b, F); element_init(c, F);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int al = 0; al < 3; al++) { CTX("operands %ld %ld aliasing %ld", i, j, al); STATE(); element_ptr o = al == 0 ? c : al == 1 ? a : b;
    for (int op = 0; op < 5; op++) { prep(c, (i + j) & 3); element_set_mpz(a, v[i]); element_set_mpz(b, v[j]); if (op == 0) { element_add(o, a, b); mpz_add(w, v[i], v[j]); expect(o, w, "add"); } else if (op == 1) { element_sub(o, a, b); mpz_sub(w, v[i], v[j]); expect(o, w, "sub"); } else if (op == 2) { element_mul(o, a, b); mpz_mul(w, v[i], v[j]); expect(o, w, "mul"); } else if (op == 3) { CHECK(!element_cmp(a, b) == (i == j || !mpz_cmp(v[i], v[j])), "cmp"); } else { element_mul_mpz(o, a, v[j]); mpz_mul(w, v[i], v[j]); expect(o, w, "mul_mpz"); } } }
  for (int i = 0; i < n; i++) for (int al = 0; al < 2; al++) { CTX("operand %ld aliasing %ld", i, al); STATE(); element_ptr o = al ? a : c; 
    for (int op = 0; op < 8; op++) { prep(c, i & 3); element_set_mpz(a, v[i]); switch (op) { case 0: element_neg(o, a); mpz_neg(w, v[i]); expect(o, w, "neg"); break; case 1: element_double(o, a); mpz_mul_2exp(w, v[i], 1); expect(o, w, "double"); break; case 2: element_halve(o, a); mpz_set(w, v[i]); if (mpz_odd_p(w)) mpz_add(w, w, P); mpz_fdiv_q_2exp(w, w, 1); expect(o, w, "halve"); break; case 3: element_square(o, a); mpz_mul(w, v[i], v[i]); expect(o, w, "square"); break; case 4: if (!mpz_invert(w, v[i], P)) break; element_invert(o, a); expect(o, w, "invert"); break; case 5: element_mul_si(o, a, i & 1 ? -1234567890123L : 977L); mpz_mul_si(w, v[i], i & 1 ? -1234567890123L : 977L); expect(o, w, "mul_si"); break; case 6: mpz_set_ui(T, 0x12345); element_pow_mpz(o, a, T); mpz_powm_ui(w, v[i], 0x12345, P); expect(o, w, "pow"); break; case 7: { mpz_mul_2exp(w, v[i], 1); int s = mpz_sgn(v[i]) ? (mpz_cmp(w, P) > 0 ? 1 : -1) : 0, g = element_sgn(a); CHECK(!s == !g, "sign of zero"); element_neg(c, a); CHECK(!s || (element_sgn(c) > 0) != (g > 0), "signs of x and -x"); } } } }
  for (int k = 0; k < 9; k++) for (int i = 0; i < n; i++) for (int sg = 0; sg < 2; sg++) { CTX("integer of %ld limbs, residue %ld, sign %ld", k * k * 9, i, sg); STATE(); mpz_mul_2exp(w, P, 64 * k * k * 9); mpz_add_ui(w, w, k); mpz_mul(w, w, P); mpz_add(w, w, v[i]); if (sg) mpz_neg(w, w); mpz_set(W, w); element_set_mpz(c, W); CHECK(!mpz_cmp(w, W), "set_mpz changed its operand"); expect(c, w, "set_mpz of a long integer"); }
  vh_sample("%d operands modulo a number of %ld limbs (%s)", n, L, impl_name[impl]);
}
// moduli of the distributed parameter files are covered by P07/P09; here q of a.param etc.
void vh_register(void) {
  static const int sp[] = { 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 61, 127, 4, 6, 9, 15, 16, 21, 25, 27, 35, 64, 105, 128, 0 };
  static const int sL[] = { 2, 3, 4, 5, 8, 9, 16, 17, 0 };
  for (int i = 0; sp[i]; i++) {
    vh_unit(small, IMPL_NAIVE, sp[i], 0, "small-naive-%d", sp[i]);
    if (sp[i] < 64) vh_unit(small, IMPL_DEFAULT, sp[i], 0, "small-default-%d", sp[i]);
  }
  for (int i = 0; sL[i]; i++) for (int k = 0; k < NMODKIND; k++) for (int im = 0; im < NIMPL; im++) {
    if (im == IMPL_DEFAULT && (k || i > 2)) continue;
    if (!vh_thorough && sL[i] >= 8 && k >= 3) continue;
    vh_unit(big, im, sL[i], k, "big-%s-L%d-k%d", impl_name[im], sL[i], k);
  }
  static const int hL[] = { 2, 7, 12, 18, 20, 21, 24, 32, 33, 48, 64, 65, 128, 0 }; for (int i = 0; hL[i]; i++) for (int k = 0; k < 3; k++) for (int im = 0; im < NIMPL; im++) vh_unit(huge, im, hL[i], k, "long-%s-L%d-k%d", impl_name[im], hL[i], k);
  for (int k = 0; k < NMODKIND; k++) if (k != 2) vh_unit(big, IMPL_NAIVE, 1, k, "big-naive-L1-k%d", k);
  for (int im = 0; im < NIMPL; im++) for (int k = 10; k <= 12; k++) for (int L = 2; L <= (vh_thorough ? 8 : 4); L++) {
    if (im == IMPL_MONT && k == 11) continue;   // odd moduli only
    vh_unit(big, im, L, k, "composite-%s-L%d-k%d", impl_name[im], L, k);
  }
}
