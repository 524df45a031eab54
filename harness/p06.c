// P06: points of an elliptic curve form the group the theory says they form.
#include "crv.h"
#include "pair.h"
static int find_pt(rf *R, rpt *P, int n, rpt *q) { for (int i = 0; i < n; i++) if (rp_eq(R, &P[i], q)) return i; return -1; }
static void whole_curve(tower *T, vec a, vec b, int deep) {
  rf *R = RTOP(T); rpt *P; int n = curve_points(R, &P, a, b); rpt q = rp_new(R);
  int *add = malloc(sizeof(int) * n * n), *neg = malloc(sizeof(int) * n);
  for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) { rp_add(R, &q, &P[i], &P[j], a); add[i * n + j] = find_pt(R, P, n, &q); } rp_neg(R, &q, &P[i]); neg[i] = find_pt(R, P, n, &q); }
  element_t ea, eb; element_init(ea, TOP(T)); element_init(eb, TOP(T)); el_put(ea, R, a); el_put(eb, R, b);
  field_t E; mpz_t N, z; mpz_init_set_ui(N, n); mpz_init(z); vh_rng_reset(); vh_rng_seed(1);
  field_init_curve_ab(E, ea, eb, N, NULL);
  element_t *X = malloc(sizeof(element_t) * n); for (int i = 0; i < n; i++) { element_init(X[i], E); pt_put(X[i], R, &P[i]); CTX("point %ld", i); CHECK(pt_is(X[i], R, &P[i]), "decoded point differs"); STATE(); }
  element_t c, d; element_init(c, E); element_init(d, E); CHECK(element_is0(c) && element_is1(c), "a new point is not the identity");
  int cyc = n == 1;
  #define IS(e, k) pt_is(e, R, &P[k])
  for (int i = 0; i < n; i++) {
    CTX("unary on point %ld of %ld", i, n);
    for (int pre = 0; pre < 2; pre++) { int k = pre ? 0 : n - 1;
      element_set(c, X[k]); element_set(c, X[i]); CHECK(IS(c, i), "set");
      element_set(c, X[k]); element_neg(c, X[i]); CHECK(IS(c, neg[i]), "neg"); element_set(c, X[k]); element_invert(c, X[i]); CHECK(IS(c, neg[i]), "invert");
      element_set(c, X[k]); element_double(c, X[i]); CHECK(IS(c, add[i * n + i]), "double"); element_set(c, X[k]); element_square(c, X[i]); CHECK(IS(c, add[i * n + i]), "square"); STEP();
    }
    element_set(c, X[i]); element_neg(c, c); CHECK(IS(c, neg[i]), "neg in place"); element_set(c, X[i]); element_double(c, c); CHECK(IS(c, add[i * n + i]), "double in place");
    CHECK((element_is0(X[i]) != 0) == (i == 0) && (element_is1(X[i]) != 0) == (i == 0), "identity test"); CHECK(element_item_count(X[i]) == (i ? 2 : 0), "item count");
    if (n % 2) { element_halve(c, X[i]); element_double(d, c); CHECK(IS(d, i), "2*(P/2) != P"); }
    int ord = 1, w = i; while (w) { w = add[w * n + i]; ord++; }
    int s = 0;
    for (long k = 0; k <= (deep ? 2 * n + 2 : n + 1); k++) {
      CTX("%ld * point %ld", k, i); mpz_set_si(z, k);
      element_mul_mpz(c, X[i], z); CHECK(IS(c, s), "mul_mpz"); element_set(c, X[i]); element_pow_mpz(c, c, z); CHECK(IS(c, s), "pow_mpz in place");
      element_mul_si(c, X[i], k); CHECK(IS(c, s), "mul_si"); element_mul_si(c, X[i], -k); CHECK(IS(c, neg[s]), "mul_si of a negative integer"); STEP();
      s = add[s * n + i];
    }
    if (ord == n) cyc = 1;
    if (i) { CHECK(!element_cmp(element_x(X[i]), curve_x_coord(X[i])) && !element_cmp(element_y(X[i]), curve_y_coord(X[i])) && element_item(X[i], 0) == curve_x_coord(X[i]) && element_item(X[i], 1) == curve_y_coord(X[i]), "coordinate accessors");
      CHECK(!element_cmp(curve_a_coeff(X[i]), ea) && !element_cmp(curve_b_coeff(X[i]), eb) && !element_cmp(curve_field_a_coeff(E), ea) && !element_cmp(curve_field_b_coeff(E), eb), "coefficient accessors");
      int s0 = element_sign(X[i]); element_neg(c, X[i]); int s1 = element_sign(c); CHECK(neg[i] == i ? !s0 : s0 && (s0 > 0) != (s1 > 0), "signs of P and -P: %d %d", s0, s1); element_add(d, X[i], X[0]); CHECK(element_sign(d) == s0, "sign depends on history");
      element_set(c, X[n - 1]); curve_from_x(c, curve_x_coord(X[i])); CHECK(IS(c, i) || IS(c, neg[i]), "curve_from_x"); element_set0(c); curve_from_x(c, curve_x_coord(X[i])); CHECK(IS(c, i) || IS(c, neg[i]), "curve_from_x into the identity"); }
  }
  for (int i = 0; i < n; i++) { CTX("is_sqr of point %ld", i); int dbl = 0; for (int j = 0; j < n; j++) if (add[j * n + j] == i) dbl = 1; if (cyc) CHECK(!element_is_sqr(X[i]) == !dbl, "element_is_sqr says %d, double of a point: %d", element_is_sqr(X[i]), dbl); }
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
    CTX("points %ld %ld of %ld", i, j, n); STATE(); int s = add[i * n + j], m = add[i * n + neg[j]];
    element_set(c, X[(i + j) % n]); element_add(c, X[i], X[j]); CHECK(IS(c, s), "add"); element_set(c, X[(i + 2 * j) % n]); element_sub(c, X[i], X[j]); CHECK(IS(c, m), "sub"); STEP();
    element_mul(c, X[i], X[j]); CHECK(IS(c, s), "mul"); element_div(c, X[i], X[j]); CHECK(IS(c, m), "div");
    element_set(c, X[i]); element_add(c, c, X[j]); CHECK(IS(c, s), "add c=a"); element_set(c, X[j]); element_add(c, X[i], c); CHECK(IS(c, s), "add c=b");
    element_set(c, X[i]); element_sub(c, c, X[j]); CHECK(IS(c, m), "sub c=a"); element_set(c, X[j]); element_sub(c, X[i], c); CHECK(IS(c, m), "sub c=b");
    CHECK(!element_cmp(X[i], X[j]) == (i == j), "comparison");
    if (i == j) { element_set(c, X[i]); element_add(c, c, c); CHECK(IS(c, s), "add c=a=b"); element_set(c, X[i]); element_sub(c, c, c); CHECK(IS(c, 0), "sub c=a=b"); }
  }
  // batches: all vectors of length <=2, then length 3 over a small set of special points
  int sp[8], ns = 0; sp[ns++] = 0; for (int i = 1; i < n && ns < 3; i++) if (neg[i] == i) sp[ns++] = i;
  for (int i = 1; i < n && ns < 6; i++) if (neg[i] != i) sp[ns++] = i;
  int full = n <= 12;
  for (int L = 1; L <= 3; L++) { int base = full && L <= 2 ? n : ns; long tot = 1; for (int k = 0; k < 2 * L; k++) tot *= base;
    if (L == 3 && tot > 20000 && !vh_thorough) { base = ns < 5 ? ns : 5; tot = 1; for (int k = 0; k < 6; k++) tot *= base; }
    for (long v = 0; v < tot; v++) {
      element_t A[3], B[3], C[3]; int ia[3], ib[3]; long w = v; CTX("batch length %ld code %ld", L, v); STATE();
      for (int k = 0; k < L; k++) { ia[k] = w % base; w /= base; ib[k] = w % base; w /= base; if (!(full && L <= 2)) { ia[k] = sp[ia[k]]; ib[k] = sp[ib[k]]; } element_init(A[k], E); element_init(B[k], E); element_init(C[k], E); element_set(A[k], X[ia[k]]); element_set(B[k], X[ib[k]]); if (v & 1) element_set(C[k], X[n - 1]); }
      element_multi_add(C, A, B, L); STEP(); for (int k = 0; k < L; k++) CHECK(IS(C[k], add[ia[k] * n + ib[k]]), "multi_add entry %d", k);
      element_multi_double(C, A, L); for (int k = 0; k < L; k++) { CHECK(IS(C[k], add[ia[k] * n + ia[k]]), "multi_double entry %d", k); CHECK(IS(A[k], ia[k]), "batch input modified"); }
      element_multi_add(A, A, B, L); for (int k = 0; k < L; k++) CHECK(IS(A[k], add[ia[k] * n + ib[k]]), "multi_add in place entry %d", k);
      element_multi_double(B, B, L); for (int k = 0; k < L; k++) CHECK(IS(B[k], add[ib[k] * n + ib[k]]), "multi_double in place entry %d", k);
      for (int k = 0; k < L; k++) { element_clear(A[k]); element_clear(B[k]); element_clear(C[k]); }
    }
  }
  // long batches
  for (int L = 4; L <= 39; L = L < 17 ? L + 1 : L + 11) for (int v = 0; v < 6; v++) {
    element_t A[40], B[40], C[40]; int ia[40], ib[40]; CTX("long batch of length %ld pattern %ld", L, v); STATE();
    for (int k = 0; k < L; k++) { ia[k] = v < 3 ? (k * (2 * v + 1) + v) % n : v == 3 ? sp[k % ns] : v == 4 ? (k == L / 2 ? 0 : (k + 1) % n) : (L - k) % n; ib[k] = v == 0 ? (ia[k] * 2 + 1) % n : v == 1 ? neg[ia[k]] : v == 2 ? ia[k] : v == 3 ? sp[(k / ns) % ns] : v == 4 ? (k == L - 1 ? neg[ia[k]] : (3 * k + 2) % n) : (k % 5 == 0 ? 0 : (k * 2 + 3) % n);
      element_init(A[k], E); element_init(B[k], E); element_init(C[k], E); element_set(A[k], X[ia[k]]); element_set(B[k], X[ib[k]]); if (k & 1) element_set(C[k], X[n - 1]); }
    element_multi_add(C, A, B, L); STEP(); for (int k = 0; k < L; k++) CHECK(IS(C[k], add[ia[k] * n + ib[k]]), "multi_add entry %d", k);
    element_multi_double(C, A, L); for (int k = 0; k < L; k++) { CHECK(IS(C[k], add[ia[k] * n + ia[k]]), "multi_double entry %d", k); CHECK(IS(A[k], ia[k]), "batch input modified"); }
    element_multi_add(A, A, B, L); for (int k = 0; k < L; k++) CHECK(IS(A[k], add[ia[k] * n + ib[k]]), "multi_add in place entry %d", k);
    element_multi_double(B, B, L); for (int k = 0; k < L; k++) CHECK(IS(B[k], add[ib[k] * n + ib[k]]), "multi_double in place entry %d", k);
    for (int k = 0; k < L; k++) { element_clear(A[k]); element_clear(B[k]); element_clear(C[k]); }
  }
  for (int i = 0; i < n; i++) CHECK(IS(X[i], i), "operand modified");
  vh_sample("curve over order-%s field with %d points: full addition table", vh_mpzs(R->order), n);
  for (int i = 0; i < n; i++) { element_clear(X[i]); rp_free(R, &P[i]); }
  element_clear(c); element_clear(d); element_clear(ea); element_clear(eb); field_clear(E); mpz_clear(N); mpz_clear(z); free(X); free(P); free(add); free(neg); rp_free(R, &q);
}
static void tiny(long p, long lo, long hi) {
  mpz_t P; mpz_init_set_ui(P, p); tower T; tw_base(&T, P, 0); vec a = vec_new(1), b = vec_new(1);
  for (long ai = lo; ai < hi; ai++) for (long bi = 0; bi < p; bi += (p > 13 && !vh_thorough ? 4 : 1)) {
    mpz_set_ui(a[0], ai); mpz_set_ui(b[0], bi); if (curve_singular(T.r[0], a, b)) continue;
    vh_outerf("Y^2=X^3+%ldX+%ld over F_%ld", ai, bi, p); whole_curve(&T, a, b, p <= 11);
  }
  vec_free(a, 1); vec_free(b, 1); tw_clear(&T); mpz_clear(P);
}
static void ext(long kind, long p, long c) {
  mpz_t P; mpz_init_set_ui(P, p); tower T; if (!tw_build(&T, kind, P, 0, 3, 0)) { mpz_clear(P); return; }
  rf *R = RTOP(&T); vec a = vec_new(R->dim), b = vec_new(R->dim);
  for (long s = 0; s < 3; s++) {
    for (int i = 0; i < R->dim; i++) { mpz_set_ui(a[i], vh_mix(c * 77 + s * 10 + i) % p); mpz_set_ui(b[i], vh_mix(c * 177 + s * 10 + i + 5) % p); }
    if (c == 0 && s == 0) for (int i = 0; i < R->dim; i++) mpz_set_ui(a[i], 0);
    if (c == 0 && s == 1) for (int i = 0; i < R->dim; i++) mpz_set_ui(b[i], 0);
    if (curve_singular(R, a, b)) continue;
    vh_outerf("curve over %s(p=%ld) #%ld/%ld", kname[kind], p, c, s); whole_curve(&T, a, b, 0);
  }
  vec_free(a, R->dim); vec_free(b, R->dim); tw_clear(&T); mpz_clear(P);
}
// multi-limb base fields: group words over a few points, against the reference
static void big(long limbs, long kind, long impl) {
  mpz_t p, z; mpz_init(p); mpz_init(z); make_modulus(p, limbs, kind); mpz_t q; mpz_init_set(q, p); 
  tower T; tw_base(&T, q, impl); rf *R = T.r[0]; vec a = vec_new(1), b = vec_new(1), t = vec_new(1);
  for (int cv = 0; cv < 3; cv++) {
    mpz_set_ui(a[0], cv == 0 ? 0 : cv == 1 ? 1 : vh_mix(3)); mpz_set_ui(b[0], cv == 1 ? 0 : 7); if (cv == 2) { mpz_sub_ui(a[0], q, 3); }
    vh_outerf("limbs %ld kind %ld impl %ld curve %d", limbs, kind, impl, cv);
    element_t ea, eb; element_init(ea, T.f[0]); element_init(eb, T.f[0]); el_put(ea, R, a); el_put(eb, R, b);
    field_t E; mpz_t N; mpz_init_set_ui(N, 7); vh_rng_reset(); vh_rng_seed(1); field_init_curve_ab(E, ea, eb, N, NULL);
    rpt P[8]; int n = 0; P[n++] = rp_new(R);
    element_t fx, fy; element_init(fx, T.f[0]); element_init(fy, T.f[0]);
    for (long x = 0; x < 400 && n < 5; x++) { vec xv = vec_new(1); if (n < 3) mpz_set_ui(xv[0], x); else { mpz_sub_ui(xv[0], q, x + 1); } rhs(R, t, xv, a, b);
      if (mpz_legendre(t[0], q) == 1 || !mpz_sgn(t[0])) { el_put(fx, R, t); element_sqrt(fy, fx); P[n] = rp_new(R); P[n].inf = 0; vec_set(P[n].x, xv, 1); el_get(P[n].y, fy, R); mpz_mul(z, P[n].y[0], P[n].y[0]); mpz_mod(z, z, q); CHECK(!mpz_cmp(z, t[0]), "square root wrong"); n++; } vec_free(xv, 1); }
    P[n] = rp_new(R); rp_neg(R, &P[n], &P[n - 1]); n++;
    P[n] = rp_new(R); rp_add(R, &P[n], &P[n - 1], &P[n - 1], a); n++;
    element_t X[8], c; element_init(c, E); for (int i = 0; i < n; i++) { element_init(X[i], E); pt_put(X[i], R, &P[i]); CHECK(pt_is(X[i], R, &P[i]), "decode"); }
    rpt r = rp_new(R), s = rp_new(R);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < n; k++) { CTX("(P%ld + P%ld) - P%ld", i, j, k); STATE(); STEP(); rp_add(R, &r, &P[i], &P[j], a); rp_neg(R, &s, &P[k]); rp_add(R, &r, &r, &s, a); element_add(c, X[i], X[j]); element_sub(c, c, X[k]); CHECK(pt_is(c, R, &r), "group word"); element_double(c, c); rp_add(R, &r, &r, &r, a); CHECK(pt_is(c, R, &r), "double of word"); }
    zalpha Z; za_build(&Z, q, 1);
    for (int i = 0; i < n; i++) for (int k = 0; k < Z.n; k++) { CTX("scalar #%ld * P%ld", k, i); STATE(); STEP(); rp_mul(R, &r, &P[i], Z.z[k], a); element_mul_mpz(c, X[i], Z.z[k]); CHECK(pt_is(c, R, &r), "mul_mpz"); }
    za_clear(&Z); rp_free(R, &r); rp_free(R, &s);
    for (int i = 0; i < n; i++) { element_clear(X[i]); rp_free(R, &P[i]); }
    element_clear(c); element_clear(fx); element_clear(fy); element_clear(ea); element_clear(eb); field_clear(E); mpz_clear(N);
  }
  vec_free(a, 1); vec_free(b, 1); vec_free(t, 1); tw_clear(&T); mpz_clear(p); mpz_clear(q); mpz_clear(z);
}
// The groups of a pairing: order, identity, quotient representatives, GT's additive and multiplicative notations.
static void groups(long id, long b, long c) {
  pairing_t pr; if (ps_open(pr, id)) return; vh_outerf("groups of %s", ps_name(id)); mpz_t z, r1; mpz_init(z); mpz_init(r1);
  zalpha Z; za_build(&Z, pr->r, vh_thorough); mpz_sub_ui(r1, pr->r, 1);
  for (int g = 0; g < 3; g++) {
    element_t P, o, x, y, w; field_ptr F = g == 0 ? pr->G1 : g == 1 ? pr->G2 : pr->GT; int curve = g < 2 && strcmp(ps_type(id), "i");
    element_init(P, F); element_init(o, F); element_init(x, F); element_init(y, F); element_init(w, F); element_set0(o);
    grp_gen(P, pr->r, 31 + g); CTX("group %ld", g); CHECK(!mpz_cmp(F->order, pr->r), "order"); CHECK(element_is0(o) && element_is1(o), "identity");
    element_mul_mpz(x, P, pr->r); CHECK(!element_cmp(x, o), "r*P is not the identity"); element_mul_mpz(x, P, r1); element_neg(y, P); CHECK(!element_cmp(x, y), "(r-1)P != -P");
    for (int i = 0; i < Z.n; i++) for (int j = 0; j < Z.n; j++) {
      if (!vh_thorough && (i + j) % 2) continue;
      CTX("group %ld scalars #%ld #%ld", g, i, j); STATE(); STEP(); element_mul_mpz(x, P, Z.z[i]); element_mul_mpz(y, P, Z.z[j]); element_add(w, x, y); mpz_add(z, Z.z[i], Z.z[j]); mpz_mod(z, z, pr->r);
      element_mul_mpz(o, P, z); CHECK(!element_cmp(w, o), "aP + bP != (a+b)P"); element_mul(o, x, y); CHECK(!element_cmp(w, o), "additive and multiplicative notation differ");
      element_sub(w, x, y); element_add(w, w, y); CHECK(!element_cmp(w, x), "(x-y)+y != x"); element_div(w, x, y); element_mul(w, w, y); CHECK(!element_cmp(w, x), "(x/y)*y != x");
      element_neg(w, x); element_add(w, w, x); element_set0(o); CHECK(!element_cmp(w, o), "x + (-x)"); element_double(w, x); element_add(o, x, x); CHECK(!element_cmp(w, o), "double"); element_square(w, x); CHECK(!element_cmp(w, o), "square");
      if (g < 2 || 1) { element_mul_si(w, x, 3); element_add(o, o, x); CHECK(!element_cmp(w, o), "mul_si by 3"); element_mul_si(w, x, -2); element_add(w, w, x); element_add(w, w, x); element_set0(o); CHECK(!element_cmp(w, o), "mul_si by -2"); }
      if (mpz_odd_p(pr->r)) { element_halve(w, x); element_double(w, w); CHECK(!element_cmp(w, x), "halve"); }
    }
    element_clear(P); element_clear(o); element_clear(x); element_clear(y); element_clear(w);
  }
  za_clear(&Z); mpz_clear(z); mpz_clear(r1); pairing_clear(pr);
}
void vh_register(void) {
  static const int ps[] = { 5, 7, 11, 13, 17, 19, 23, 31 };
  for (int i = 7; i >= 0; i--) { int p = ps[i]; int st = p <= 7 ? p : p <= 13 ? 2 : 1; for (int a = 0; a < p; a += (p > 13 && !vh_thorough ? 5 : st)) vh_unit(tiny, p, a, a + st > p ? p : a + st, "tiny/p%d/a%d", p, a); }
  for (int c = 0; c < (vh_thorough ? 8 : 2); c++) { vh_unit(ext, K_QUAD, 5, c, "ext/quad5/%d", c); vh_unit(ext, K_QUAD, 7, c, "ext/quad7/%d", c); vh_unit(ext, K_FI, 7, c, "ext/fi7/%d", c); vh_unit(ext, K_POLY, 5, c, "ext/poly5/%d", c); vh_unit(ext, K_QUAD, 11, c, "ext/quad11/%d", c); }
  for (int l = 1; l <= 4 + 4 * vh_thorough; l++) for (int k = 0; k < 3; k++) for (int im = 0; im < 4; im++) { if (l < 2 && (im || k == 2)) continue; vh_unit(big, l, k, im, "big/limbs%d/kind%d/impl%d", l, k, im); }
  for (int i = NTOYS; i < NTOYS + NREAL; i++) vh_unit(groups, i, 0, 0, "groups/%s", ps_name(i));
  for (int i = 0; i < NTOYS; i += (vh_thorough || !strchr("a", toys[i].type[0]) ? 1 : 5)) vh_unit(groups, i, 0, 0, "groups/%s", ps_name(i));
}
