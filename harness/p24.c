// P24: polynomial rings R[x] and their quotients R[x]/(f) against coefficient
// arithmetic done by hand, for all polynomials up to a degree over small rings.
#include "vh.h"
#include "pbc.h"
#include "pbc_poly.h"
#include "pbc_fp.h"
#include "pbc_fieldquadratic.h"
#include "pbc_multiz.h"
#include "pbc_z.h"
#include <fcntl.h>
#define MD 50
// base rings: prime fields, F4 = F2[t]/(t^2+t+1), F9 = F3[i]/(i^2+1)
static int q, p, ext; static int AD[64][64], MU[64][64], NG[64];
static field_t B, F0, X0, RX; static element_t C[64]; static int kind;
static int badd(int a, int b) { return ext == 1 ? (a + b) % p : (a % p + b % p) % p + p * ((a / p + b / p) % p); }
static int bmul(int a, int b) { if (ext == 1) return a * b % p; int x = a % p, y = a / p, u = b % p, v = b / p, c0 = x * u, c1 = x * v + y * u, c2 = y * v; if (p == 2) { c0 += c2; c1 += c2; } else c0 += (p - 1) * c2; return c0 % p + p * (c1 % p); }
__attribute__((unused)) static void (*const fpi[])(field_ptr, mpz_t) = { field_init_mont_fp, field_init_faster_fp, field_init_fast_fp, field_init_naive_fp, field_init_fp };
static const char *fpn[] = { "mont", "faster", "fast", "naive", "default" };
static void base_open(int qq, int impl) {
  q = qq; ext = q == 4 || q == 9 ? 2 : 1; p = q == 4 ? 2 : q == 9 ? 3 : q; kind = impl; mpz_t z; mpz_init_set_ui(z, p);
  if (p == 2) impl = 3; field_init_fp(F0, z); field_clear(F0); if (impl == 3) field_init_naive_fp(F0, z); else field_init_fp(F0, z);
  if (ext == 1) memcpy(B, F0, sizeof B);
  else if (q == 4) { field_init_poly(X0, F0); element_t e; element_init(e, X0); poly_set_coeff1(e, 0); poly_set_coeff1(e, 1); poly_set_coeff1(e, 2); field_init_polymod(B, e); element_clear(e); }
  else field_init_fi(B, F0);
  for (int i = 0; i < q; i++) { element_init(C[i], B); if (ext == 1) element_set_si(C[i], i); else { element_set_si(element_item(C[i], 0), i % p); element_set_si(element_item(C[i], 1), i / p); } }
  for (int i = 0; i < q; i++) for (int j = 0; j < q; j++) { AD[i][j] = badd(i, j); MU[i][j] = bmul(i, j); if (!AD[i][j]) NG[i] = j; }
  field_init_poly(RX, B); mpz_clear(z);
}
static int bidx(element_ptr e) { for (int i = 0; i < q; i++) if (!element_cmp(e, C[i])) return i; return -1; }
typedef struct { int n, c[2 * MD]; } rp; // n coefficients, leading one nonzero
static rp norm(rp a) { while (a.n && !a.c[a.n - 1]) a.n--; return a; }
static rp rnth(long k) { rp a; a.n = 0; while (k) { a.c[a.n++] = k % q; k /= q; } return a; }
static rp radd(rp a, rp b) { rp r; r.n = a.n > b.n ? a.n : b.n; for (int i = 0; i < r.n; i++) r.c[i] = AD[i < a.n ? a.c[i] : 0][i < b.n ? b.c[i] : 0]; return norm(r); }
static rp rneg(rp a) { for (int i = 0; i < a.n; i++) a.c[i] = NG[a.c[i]]; return a; }
static rp rsub(rp a, rp b) { return radd(a, rneg(b)); }
static rp rmul(rp a, rp b) { rp r; r.n = a.n && b.n ? a.n + b.n - 1 : 0; for (int i = 0; i < r.n; i++) r.c[i] = 0; for (int i = 0; i < a.n; i++) for (int j = 0; j < b.n; j++) r.c[i + j] = AD[r.c[i + j]][MU[a.c[i]][b.c[j]]]; return norm(r); }
static rp rsi(rp a, long m) { m %= p; if (m < 0) m += p; rp r; r.n = 0; for (long i = 0; i < m; i++) r = radd(r, a); return r; }
static int binv(int a) { for (int i = 0; i < q; i++) if (MU[a][i] == 1) return i; return 0; }
static rp rmod(rp a, rp f) { int li = binv(f.c[f.n - 1]); while (a.n >= f.n) { int m = MU[NG[a.c[a.n - 1]]][li], s = a.n - f.n; for (int i = 0; i < f.n; i++) a.c[i + s] = AD[a.c[i + s]][MU[m][f.c[i]]]; a = norm(a); } return a; }
static int rcoprime(rp a, rp b) { while (b.n) { rp t = rmod(a, b); a = b; b = t; } return a.n == 1; }
static int rcmp(rp a, rp b) { if (a.n != b.n) return 1; for (int i = 0; i < a.n; i++) if (a.c[i] != b.c[i]) return 1; return 0; }
static void pset(element_ptr e, rp a) { element_set0(e); for (int i = 0; i < a.n; i++) poly_set_coeff(e, C[a.c[i]], i); }
static int peq(element_ptr e, rp a) { if (element_item_count(e) != a.n || poly_degree(e) != a.n - 1) return 0; for (int i = 0; i < a.n; i++) if (element_cmp(element_item(e, i), C[a.c[i]])) return 0; return 1; }
#define EQ(e, r, ...) do { rp _r = (r); CHECK(peq(e, _r), __VA_ARGS__); CHECK(!element_is0(e) == (_r.n != 0), "is0 wrong after the operation"); } while (0)
static void pair_ops(long f, long g) {
  rp a = rnth(f), b = rnth(g), s = radd(a, b), d = rsub(a, b), m = rmul(a, b), big = rnth(q * q * q * (long) q - 1); big.n = 4; for (int i = 0; i < 4; i++) big.c[i] = q - 1;
  element_t x, y, z; element_init(x, RX); element_init(y, RX); element_init(z, RX); STATE();
  CTX("f=%ld g=%ld (base-%ld digits)", f, g, q);
  for (int op = 0; op < 3; op++) for (int al = 0; al < 4; al++) { rp w = op == 0 ? s : op == 1 ? d : m; pset(x, a); pset(y, b); if (al & 1) pset(z, big); else element_set0(z); element_ptr o = al < 2 ? z : al == 2 ? x : y; STEP(); if (op == 0) element_add(o, x, y); else if (op == 1) element_sub(o, x, y); else element_mul(o, x, y); EQ(o, w, "%s%s is wrong", op == 0 ? "sum" : op == 1 ? "difference" : "product", al > 1 ? " (in place)" : ""); if (al != 2) CHECK(peq(x, a), "operand changed"); if (al != 3) CHECK(peq(y, b), "operand changed"); }
  pset(x, a); pset(y, b); CHECK(!element_cmp(x, y) == (f == g), "cmp wrong"); pset(z, big); element_set(z, x); EQ(z, a, "copy wrong");
  element_clear(x); element_clear(y); element_clear(z);
}
static void single(long f) {
  rp a = rnth(f); element_t x, z; element_init(x, RX); element_init(z, RX); STATE(); CTX("f=%ld (base-%ld digits)", f, q); mpz_t n; mpz_init(n);
  for (int al = 0; al < 2; al++) { element_ptr o = al ? x : z;
    pset(x, a); element_neg(o, x); EQ(o, rneg(a), "negative wrong"); pset(x, a); element_double(o, x); EQ(o, rsi(a, 2), "double wrong"); pset(x, a); element_square(o, x); EQ(o, rmul(a, a), "square wrong"); if (al) { element_add(x, x, x); EQ(x, rsi(rmul(a, a), 2), "sum with itself"); element_sub(x, x, x); EQ(x, rnth(0), "difference with itself"); }
    static const long ms[] = { -8, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 15, LONG_MAX, -LONG_MAX };
    for (int i = 0; i < 17; i++) { STEP(); pset(x, a); element_mul_si(o, x, ms[i]); EQ(o, rsi(a, ms[i]), "%ld times wrong", ms[i]); mpz_set_si(n, ms[i]); pset(x, a); element_mul_mpz(o, x, n); EQ(o, rsi(a, ms[i]), "%ld times (mpz) wrong", ms[i]); mpz_mul_2exp(n, n, 66); mpz_mul_ui(n, n, p); mpz_add_ui(n, n, i); pset(x, a); element_mul_mpz(o, x, n); EQ(o, rsi(a, i), "big multiple wrong"); }
    for (int c = 0; c < q; c++) { rp cc; cc.n = 1; cc.c[0] = c; pset(x, a); poly_const_mul(o, C[c], x); EQ(o, rmul(a, norm(cc)), "constant multiple wrong"); }
    if (a.n <= 3) { rp w = rnth(1); for (int k = 0; k < 6; k++) { STEP(); mpz_set_ui(n, k); pset(x, a); element_pow_mpz(o, x, n); EQ(o, w, "power %d wrong", k); w = rmul(w, a); if (w.n > 14) break; } }
  }
  pset(x, a); CHECK(!element_is1(x) == !(f == 1), "is1 wrong"); element_to_mpz(n, x); if (ext == 1) CHECK(!mpz_cmp_ui(n, a.n ? a.c[0] : 0), "to_mpz is not the constant term");
  // coefficients
  for (int i = 0; i <= a.n + 1; i++) for (int c = -2; c < q; c++) { rp w = a; while (w.n <= i) w.c[w.n++] = 0; w.c[i] = c == -2 ? 0 : c == -1 ? 1 : c; w = norm(w); pset(x, a); if (c == -2) poly_set_coeff0(x, i); else if (c == -1) poly_set_coeff1(x, i); else poly_set_coeff(x, C[c], i); EQ(x, w, "setting coefficient %d", i); }
  for (int c = 0; c < q; c++) { rp w; w.n = 1; w.c[0] = c; pset(x, a); element_field_to_poly(x, C[c]); EQ(x, norm(w), "constant polynomial"); }
  pset(x, a); element_set1(x); EQ(x, rnth(1), "set1"); pset(x, a); element_set0(x); EQ(x, rnth(0), "set0"); pset(x, a); poly_setx(x); EQ(x, rnth(q), "set to x");
  for (int v = -10; v <= 10; v++) { pset(x, a); element_set_si(x, v); EQ(x, rsi(rnth(1), v), "set_si %d", v); mpz_set_si(n, v); pset(x, a); element_set_mpz(x, n); EQ(x, rsi(rnth(1), v), "set_mpz %d", v); }
  // text and bytes
  { char w[400], o[400]; int k = 0; k += sprintf(w + k, "["); for (int i = 0; i < a.n; i++) { char t[40]; element_snprint(t, 40, C[a.c[i]]); k += sprintf(w + k, "%s%s", i ? ", " : "", t); } k += sprintf(w + k, "]"); pset(x, a); for (int l = 0; l <= k + 2; l++) { memset(o, 7, sizeof o); int r = element_snprint(o, l, x); CHECK(r == k, "snprint(%d) returns %d, not %d", l, r, k); if (l) { int m = l - 1 < k ? l - 1 : k; CHECK(!memcmp(o, w, m) && !o[m], "snprint(%d) wrote %.40s", l, o); } for (int j = l; j < 40 && j > l; j++) CHECK(o[j] == 7, "snprint wrote too far"); CHECK(o[l] == 7, "snprint(%d) wrote past its buffer", l); }
    FILE *fp = tmpfile(); size_t r = element_out_str(fp, 10, x); rewind(fp); size_t g = fread(o, 1, 399, fp); fclose(fp); CHECK(g == (size_t) k && r == g && !memcmp(o, w, g), "out_str wrote %.40s and returned %ld", o, (long) r); }
  { pset(x, a); int bl = element_length_in_bytes(C[0]), l = element_length_in_bytes(x); CHECK(l == 2 + bl * a.n, "length in bytes"); unsigned char u[300]; memset(u, 9, 300); CHECK(element_to_bytes(u, x) == l && u[l] == 9, "to_bytes length"); CHECK(u[0] == a.n && u[1] == 0, "term count"); for (int v = 0; v < 2; v++) { if (v) poly_setx(z); else element_set0(z); CHECK(element_from_bytes(z, u) == l, "from_bytes length"); EQ(z, a, "bytes do not decode to the polynomial"); } 
    for (int extra = 1; extra < 3; extra++) { memset(u + l, 0, bl * extra); u[0] = a.n + extra; CHECK(element_from_bytes(z, u) == l + bl * extra, "padded length"); EQ(z, a, "bytes with %d leading zero terms", extra); } }
  element_clear(x); element_clear(z); mpz_clear(n);
}
static void ring(long qq, long deg, long impl) {
  base_open(qq, impl); long N = 1; for (int i = 0; i <= deg; i++) N *= q;
  for (long f = 0; f < N; f++) { single(f); for (long g = 0; g < N; g++) pair_ops(f, g); }
}
static void irred(long qq, long deg, long impl) {
  base_open(qq, impl); long N = 1; for (int i = 0; i <= deg; i++) N *= q; unsigned char *comp = calloc(N, 1); element_t x; element_init(x, RX);
  for (long f = q; f < N; f++) { rp a = rnth(f); if (a.c[a.n - 1] != 1) continue; for (long g = f; g < N; g++) { rp b = rnth(g); if (b.c[b.n - 1] != 1) continue; if (a.n + b.n - 2 > deg) break; rp m = rmul(a, b); long k = 0; for (int i = m.n - 1; i >= 0; i--) k = k * q + m.c[i]; comp[k] = 1; } }
  for (long f = 0; f < N; f++) { rp a = rnth(f); int r = a.n >= 2 && !comp[f]; if (a.n > 2 && a.c[a.n - 1] != 1) continue; STATE(); STEP(); CTX("f=%ld (base-%ld digits)", f, q); pset(x, a); CHECK(!poly_is_irred(x) == !r, "poly_is_irred is wrong, expected %d", r); CHECK(peq(x, a), "polynomial changed"); }
  element_clear(x); free(comp);
}
static int reval(rp a, int x) { int r = 0; for (int i = a.n - 1; i >= 0; i--) r = AD[MU[r][x]][a.c[i]]; return r; }
static void roots(long qq, long deg, long impl) {
  base_open(qq, impl); long N = 1; for (int i = 0; i <= deg; i++) N *= q; element_t x, r; element_init(x, RX); element_init(r, B); int dn = open("/dev/null", 1); fflush(stdout); int sv = dup(1); dup2(dn, 1);
  for (long f = q; f < N; f++) { rp a = rnth(f); if (a.n > 2 && a.c[a.n - 1] != 1) continue; int has = 0; for (int i = 0; i < q; i++) if (!reval(a, i)) has = 1; STATE();
    int R = a.n > 2 && has ? q * q : 1; for (int s = 0; s < R; s++) { CTX("f=%ld (base-%ld digits), random choices %ld", f, q, s); STEP(); vh_rng_reset(); vh_rng_seed(s + 1); if (ext == 1) { vh_rng_push_ui(s % q); vh_rng_push_ui(s / q); } pset(x, a); element_set0(r); int k = poly_findroot(r, x); fflush(stdout); CHECK((k == 0) == has, "poly_findroot returns %d, roots exist: %d", k, has); if (!k) { int v = bidx(r); CHECK(v >= 0 && !reval(a, v), "poly_findroot gives a value that is no root"); } CHECK(peq(x, a), "polynomial changed"); } }
  fflush(stdout); dup2(sv, 1); close(sv); close(dn); element_clear(x); element_clear(r);
}
// R[x]/(f) for every monic f
static rp qcur; static int qn;
static int meq(element_ptr e, rp a) { if (element_item_count(e) != qn) return 0; for (int i = 0; i < qn; i++) if (element_cmp(element_item(e, i), C[i < a.n ? a.c[i] : 0])) return 0; return 1; }
static void mset(element_ptr e, rp a) { for (int i = 0; i < qn; i++) element_set(element_item(e, i), C[i < a.n ? a.c[i] : 0]); }
static void quot(long qq, long f0, long impl) {
  base_open(qq, impl & 15); int st = impl >> 4; rp f = rnth(f0); qcur = f; qn = f.n - 1; long N = 1; for (int i = 0; i < qn; i++) N *= q; field_t M; element_t e; element_init(e, RX); pset(e, f); field_init_polymod(M, e); mpz_t n; mpz_init(n); mpz_ui_pow_ui(n, q, qn); CHECK(!mpz_cmp(M->order, n), "order of the quotient is not q^n"); CHECK(polymod_field_degree(M) == qn, "degree");
  element_t x, y, z; element_init(x, M); element_init(y, M); element_init(z, M); int bl = element_length_in_bytes(C[0]); 
  for (long i = 0; i < N; i++) { rp a = rnth(i); STATE(); CTX("f=%ld a=%ld (base-%ld digits)", f0, i, q); 
    for (int al = 0; al < 2; al++) { element_ptr o = al ? x : z; mset(x, a); element_neg(o, x); CHECK(meq(o, rneg(a)), "negative"); mset(x, a); element_double(o, x); CHECK(meq(o, rsi(a, 2)), "double"); mset(x, a); STEP(); element_square(o, x); CHECK(meq(o, rmod(rmul(a, a), f)), "square"); mset(x, a); element_mul_si(o, x, -5); CHECK(meq(o, rsi(a, -5)), "mul_si"); mset(x, a); mpz_set_si(n, 7); element_mul_mpz(o, x, n); CHECK(meq(o, rsi(a, 7)), "mul_mpz"); for (int c = 0; c < q; c++) { rp cc; cc.n = 1; cc.c[0] = c; mset(x, a); polymod_const_mul(o, C[c], x); CHECK(meq(o, rmul(a, norm(cc))), "constant multiple"); }
      rp w = rnth(1); for (int k = 0; k < 9; k++) { mset(x, a); mpz_set_ui(n, k); STEP(); element_pow_mpz(o, x, n); CHECK(meq(o, w), "power %d", k); w = rmod(rmul(w, a), f); }
      if (a.n && rcoprime(f, a)) { mset(x, a); STEP(); element_invert(o, x); mset(y, a); element_mul(y, y, o); CHECK(element_is1(y) && meq(y, rnth(1)), "inverse of a unit"); } }
    mset(x, a); CHECK(!element_is0(x) == !(i == 0) && !element_is1(x) == !(i == 1), "is0/is1"); unsigned char u[300]; memset(u, 9, 300); CHECK(element_length_in_bytes(x) == bl * qn && element_to_bytes(u, x) == bl * qn && u[bl * qn] == 9, "byte length"); element_set1(z); CHECK(element_from_bytes(z, u) == bl * qn && meq(z, a), "bytes"); 
    if (i < q) { element_set1(z); element_field_to_polymod(z, C[i]); CHECK(meq(z, a), "constant"); }
    for (long j = i % st; j < N; j += st) { rp b = rnth(j), s = radd(a, b), d = rsub(a, b), m = rmod(rmul(a, b), f); CTX("f=%ld a=%ld b=%ld (base-%ld digits)", f0, i, j, q);
      for (int op = 0; op < 3; op++) for (int al = 0; al < 3; al++) { element_ptr o = al == 0 ? z : al == 1 ? x : y; mset(x, a); mset(y, b); STEP(); if (op == 0) element_add(o, x, y); else if (op == 1) element_sub(o, x, y); else element_mul(o, x, y); CHECK(meq(o, op == 0 ? s : op == 1 ? d : m), "%s%s", op == 0 ? "sum" : op == 1 ? "difference" : "product", al ? " in place" : ""); } mset(x, a); mset(y, b); CHECK(!element_cmp(x, y) == (i == j), "cmp"); }
  }
  element_clear(x); element_clear(y); element_clear(z); field_clear(M); element_clear(e); mpz_clear(n);
}
static void quots(long qq, long deg, long impl) { // impl: implementation + 16 * stride
  q = qq; long N = 1; for (int i = 0; i < deg; i++) N *= q; for (long k = 0; k < N; k++) quot(qq, N + k, impl);
}
static void quots_part(long qq, long deg, long sel) { // a thin slice of the moduli: sel = first + 1000 * step
  q = qq; long N = 1; for (int i = 0; i < deg; i++) N *= q; for (long k = sel % 1000; k < N; k += sel / 1000) quot(qq, N + k, 0 + 16 * (N / 27 + 1));
}
// long polynomials: every pair of lengths, four coefficient patterns each
static rp pat(int n, int k) { rp a; a.n = n; for (int i = 0; i < n; i++) a.c[i] = k == 0 ? 1 + i % (q - 1) : k == 1 ? (i * i + 3 * i + 1) % q : k == 2 ? (i == n - 1 || i == 0) : (i % 7 == 3 ? 1 + i % (q - 1) : 0); if (n && !a.c[n - 1]) a.c[n - 1] = 1; return a; }
static void longs(long qq, long n1, long impl) {
  base_open(qq, impl); element_t x, y, z; element_init(x, RX); element_init(y, RX); element_init(z, RX); int bl = element_length_in_bytes(C[0]);
  for (int k = 0; k < 4; k++) { rp a = pat(n1, k); CTX("length %ld pattern %ld", n1, k); STATE();
    pset(x, a); CHECK(peq(x, a), "setting coefficients"); element_neg(z, x); EQ(z, rneg(a), "negative"); element_double(z, x); EQ(z, rsi(a, 2), "double"); element_square(z, x); EQ(z, rmul(a, a), "square"); element_mul_si(z, x, -5); EQ(z, rsi(a, -5), "mul_si"); element_set(z, x); EQ(z, a, "copy"); element_set0(z); element_set(z, x); EQ(z, a, "copy into zero");
    { int l = element_length_in_bytes(x); CHECK(l == 2 + bl * a.n, "length in bytes"); unsigned char u[2000]; memset(u, 9, 2000); CHECK(element_to_bytes(u, x) == l && u[l] == 9, "to_bytes"); element_set1(z); CHECK(element_from_bytes(z, u) == l, "from_bytes"); EQ(z, a, "bytes"); }
    { char w[3000], o[3000]; int m = sprintf(w, "["); for (int i = 0; i < a.n; i++) { char t[40]; element_snprint(t, 40, C[a.c[i]]); m += sprintf(w + m, "%s%s", i ? ", " : "", t); } m += sprintf(w + m, "]"); CHECK(element_snprint(o, 3000, x) == m && !strcmp(o, w), "text"); CHECK(element_snprint(o, m / 2, x) == m && !strncmp(o, w, m / 2 - 1), "clipped text"); }
    for (int n2 = 0; n2 < MD; n2++) for (int j = 0; j < 4; j++) { rp b = pat(n2, j); CTX("lengths %ld, %ld patterns %ld", n1, n2, 10 * k + j); STATE(); pset(x, a); pset(y, b); 
      STEP(); element_add(z, x, y); EQ(z, radd(a, b), "sum"); STEP(); element_sub(z, x, y); EQ(z, rsub(a, b), "difference"); STEP(); element_mul(z, x, y); EQ(z, rmul(a, b), "product"); CHECK(!element_cmp(x, y) == !rcmp(a, b), "cmp"); CHECK(peq(x, a) && peq(y, b), "operand changed"); element_mul(x, x, y); EQ(x, rmul(a, b), "product in place"); pset(x, a); element_sub(y, x, y); EQ(y, rsub(a, b), "difference in place"); element_add(x, x, y); EQ(x, radd(a, rsub(a, b)), "sum in place"); } }
  element_clear(x); element_clear(y); element_clear(z);
}
// quotients of high degree, reduced by long division
static void quotlong(long qq, long deg, long impl) {
  base_open(qq, impl); mpz_t n; mpz_init(n);
  for (int m = 0; m < 4; m++) { rp f = pat(deg + 1, m); f.c[deg] = 1; qn = deg; field_t M; element_t e; element_init(e, RX); pset(e, f); field_init_polymod(M, e); element_t x, y, z; element_init(x, M); element_init(y, M); element_init(z, M); mpz_ui_pow_ui(n, q, qn); CHECK(!mpz_cmp(M->order, n), "order of the quotient"); int bl = element_length_in_bytes(C[0]);
    for (int k = 0; k < 12; k++) { rp a = norm(pat(deg - k / 4, k & 3)); CTX("degree %ld modulus pattern %ld operand %ld", deg, m, k); mset(x, a); STEP(); element_square(z, x); CHECK(meq(z, rmod(rmul(a, a), f)), "square"); element_neg(z, x); CHECK(meq(z, rneg(a)), "negative"); element_double(z, x); CHECK(meq(z, rsi(a, 2)), "double"); unsigned char u[2000]; CHECK(element_to_bytes(u, x) == bl * qn && element_from_bytes(z, u) == bl * qn && meq(z, a), "bytes"); { rp w = rnth(1); for (int t = 0; t < 6; t++) { mpz_set_ui(n, t); element_pow_mpz(z, x, n); CHECK(meq(z, w), "power %d", t); w = rmod(rmul(w, a), f); } }
      if (a.n && rcoprime(f, a)) { STEP(); element_invert(z, x); mset(y, a); element_mul(y, y, z); CHECK(meq(y, rnth(1)), "inverse of a unit"); }
      for (int j = 0; j < 16; j++) { rp b = norm(pat(1 + (deg - 1) * (j / 4) / 3, j & 3)); CTX("degree %ld modulus pattern %ld operands %ld", deg, m, 100 * k + j); STATE(); mset(x, a); mset(y, b); STEP(); element_mul(z, x, y); CHECK(meq(z, rmod(rmul(a, b), f)), "product"); element_mul(y, x, y); CHECK(meq(y, rmod(rmul(a, b), f)), "product in place"); mset(y, b); element_add(z, x, y); CHECK(meq(z, radd(a, b)), "sum"); element_sub(z, x, y); CHECK(meq(z, rsub(a, b)), "difference"); CHECK(meq(x, a) && meq(y, b), "operand changed"); } }
    element_clear(x); element_clear(y); element_clear(z); field_clear(M); element_clear(e); }
  mpz_clear(n);
}
// high degrees: binomials and Artin-Schreier polynomials known to be irreducible, their shifts and products
static rp shift(rp f, int c) { rp r; r.n = 0; rp l; l.n = 2; l.c[0] = c; l.c[1] = 1; l = c ? l : l; for (int i = f.n - 1; i >= 0; i--) { r = rmul(r, l); rp k; k.n = 1; k.c[0] = f.c[i]; r = radd(r, norm(k)); } return r; }
static rp binom(int n, int a) { rp r; r.n = n + 1; for (int i = 0; i <= n; i++) r.c[i] = 0; r.c[n] = 1; r.c[0] = (q - a) % q; return r; }
static void irlong(long qq, long b_, long c_) {
  base_open(qq, 4); rp I[40]; int n = 0; element_t x; element_init(x, RX); int g; for (g = 2; g < q; g++) { int o = 1, v = g; while (v != 1) { v = v * g % q; o++; } if (o == q - 1) break; } // g: a primitive root; x^n - g^j is irreducible when the primes of n divide q-1, j prime to n (and q = 1 mod 4 if 4 | n)
  for (int d = 2; d <= 40 && n < 12; d++) { int ok = 1, m = d; for (int l = 2; l <= m; l++) if (m % l == 0) { if ((q - 1) % l) ok = 0; while (m % l == 0) m /= l; } if (d % 4 == 0 && q % 4 != 1) ok = 0; if (ok) I[n++] = binom(d, g); } if (q <= 37) { rp a = binom(q, 1); a.c[1] = q - 1; I[n++] = a; }
  element_t r; element_init(r, B); int dn = open("/dev/null", 1); fflush(stdout); int sv = dup(1); dup2(dn, 1);
  for (int i = 0; i < n; i++) for (int c = 0; c < 3; c++) { rp f = shift(I[i], c * 2 % q); CTX("irreducible of degree %ld shifted by %ld", f.n - 1, c * 2); STATE(); STEP(); pset(x, f); CHECK(poly_is_irred(x), "an irreducible polynomial of degree %d was called reducible", f.n - 1); vh_rng_reset(); vh_rng_seed(i); CHECK(poly_findroot(r, x) != 0, "a root of an irreducible polynomial of degree %d", f.n - 1); }
  for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { if (I[i].n + I[j].n - 2 > 46) continue; rp f = rmul(I[i], shift(I[j], (i + j) % 3)); CTX("product of degrees %ld and %ld", I[i].n - 1, I[j].n - 1); STATE(); STEP(); pset(x, f); CHECK(!poly_is_irred(x), "a product of polynomials of degrees %d and %d was called irreducible", I[i].n - 1, I[j].n - 1); vh_rng_reset(); vh_rng_seed(i + j); CHECK(poly_findroot(r, x) != 0, "a root of a product of irreducible polynomials"); }
  // products of linear factors, alone and with an irreducible factor
  for (int k = 1; k <= 40 && k <= q; k++) for (int w = 0; w < 4; w++) { rp f = binom(1, 1 + w); for (int i = 1; i < k; i++) f = rmul(f, binom(1, (1 + w + i * (w + 1)) % q)); if (w & 1 && I[0].n + f.n < 46) f = rmul(f, I[0]); if (w == 2 && I[n - 1].n + f.n < 46) f = rmul(f, I[n - 1]); CTX("%ld linear factors, way %ld", k, w); STATE(); pset(x, f); if (f.n > 2) CHECK(!poly_is_irred(x), "a polynomial with a root was called irreducible"); for (int s = 0; s < 3; s++) { STEP(); vh_rng_reset(); vh_rng_seed(s + 1); int rc = poly_findroot(r, x); CHECK(!rc, "no root of a product of %d linear factors", k); if (!rc) { int v = bidx(r); CHECK(v >= 0 && !reval(f, v), "%d is not a root", v); } CHECK(peq(x, f), "root finding changed the polynomial"); } }
  fflush(stdout); dup2(sv, 1); close(sv); close(dn); vh_sample("F%d: %d irreducible polynomials of degree up to %d", q, n, I[n - 1].n - 1);
}
// coefficients in a multi-word prime field: boundary coefficients, reference in GMP
static mpz_t BP; static mpz_t ba[6];
static void bigring(long impl, long L, long part) {
  mpz_init(BP); mpz_setbit(BP, 64 * L - (impl & 1)); mpz_sub_ui(BP, BP, 1); while (!mpz_probab_prime_p(BP, 20)) mpz_sub_ui(BP, BP, 2); fpi[impl](B, BP); field_init_poly(RX, B);
  for (int i = 0; i < 6; i++) mpz_init(ba[i]); mpz_set_ui(ba[1], 1); mpz_sub_ui(ba[2], BP, 1); mpz_fdiv_q_2exp(ba[3], BP, 1); mpz_setbit(ba[4], 64); mpz_sub_ui(ba[5], BP, 77);
  element_t x, y, z; element_init(x, RX); element_init(y, RX); element_init(z, RX); mpz_t w[8], v; mpz_init(v); for (int i = 0; i < 8; i++) mpz_init(w[i]); element_t cf; element_init(cf, B);
  for (int f = 0; f < 216; f++) for (int g = part; g < 216; g += 4) { int a[3] = { f % 6, f / 6 % 6, f / 36 }, b[3] = { g % 6, g / 6 % 6, g / 36 }; STATE(); CTX("f=%ld g=%ld (digits index the boundary coefficients)", f, g);
    for (int op = 0; op < 8; op++) for (int al = 0; al < 2; al++) { element_set0(x); element_set0(y); element_set0(z); for (int i = 0; i < 3; i++) { element_set_mpz(cf, ba[a[i]]); poly_set_coeff(x, cf, i); element_set_mpz(cf, ba[b[i]]); poly_set_coeff(y, cf, i); poly_set_coeff1(z, i + 1); } for (int i = 0; i < 8; i++) mpz_set_ui(w[i], 0); element_ptr o = al ? x : z; STEP(); static const long ms[] = { -1, 0, 2 }; if (op > 4 && g > 3) break;
      switch (op) { case 0: element_add(o, x, y); for (int i = 0; i < 3; i++) mpz_add(w[i], ba[a[i]], ba[b[i]]); break; case 1: element_sub(o, x, y); for (int i = 0; i < 3; i++) mpz_sub(w[i], ba[a[i]], ba[b[i]]); break; case 2: element_mul(o, x, y); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) mpz_addmul(w[i + j], ba[a[i]], ba[b[j]]); break; case 3: element_double(o, x); for (int i = 0; i < 3; i++) mpz_mul_ui(w[i], ba[a[i]], 2); break; case 4: element_neg(o, x); for (int i = 0; i < 3; i++) mpz_neg(w[i], ba[a[i]]); break;
        case 5: element_mul_mpz(o, x, BP); break; case 6: element_mul_si(o, x, ms[g % 3]); for (int i = 0; i < 3; i++) mpz_mul_si(w[i], ba[a[i]], ms[g % 3]); break; case 7: mpz_add_ui(v, BP, g); element_mul_mpz(o, x, v); for (int i = 0; i < 3; i++) mpz_mul_ui(w[i], ba[a[i]], g); break; }
      int n = 0; for (int i = 0; i < 8; i++) { mpz_mod(w[i], w[i], BP); if (mpz_sgn(w[i])) n = i + 1; } int ok = element_item_count(o) == n; for (int i = 0; i < n && ok; i++) { element_to_mpz(v, element_item(o, i)); ok = !mpz_cmp(v, w[i]); } CHECK(ok, "operation %d%s is wrong", op, al ? " in place" : ""); CHECK(!element_is0(o) == !(n == 0), "is0 after operation %d", op); unsigned char u[300]; int l = element_to_bytes(u, o); CHECK(l == element_length_in_bytes(o) && element_from_bytes(y, u) == l && !element_cmp(y, o), "bytes after operation %d", op); } }
  element_clear(x); element_clear(y); element_clear(z); element_clear(cf);
}
void vh_register(void) {
  static const struct { int q, d, D; } R[] = { { 2, 4, 5 }, { 3, 2, 4 }, { 4, 2, 2 }, { 5, 2, 2 }, { 7, 1, 2 }, { 9, 1, 2 } };
  for (unsigned i = 0; i < 6; i++) for (int k = 3; k < 5; k++) vh_unit(ring, R[i].q, vh_thorough ? R[i].D : R[i].d, k, "ring/F%d/%s", R[i].q, fpn[k]);
  static const struct { int q, d, D; } I[] = { { 2, 9, 12 }, { 3, 6, 7 }, { 4, 4, 5 }, { 5, 4, 5 }, { 7, 3, 4 }, { 9, 3, 3 } };
  for (unsigned i = 0; i < 6; i++) vh_unit(irred, I[i].q, vh_thorough ? I[i].D : I[i].d, 4, "irreducible/F%d", I[i].q);
  static const struct { int q, d, D; } T[] = { { 3, 5, 6 }, { 5, 4, 5 }, { 7, 3, 4 }, { 9, 3, 3 }, { 11, 2, 3 }, { 13, 2, 3 }, { 17, 2, 2 } };
  for (unsigned i = 0; i < 7; i++) vh_unit(roots, T[i].q, vh_thorough ? T[i].D : T[i].d, 4, "roots/F%d", T[i].q);
  for (int k = 3; k < 5; k++) { vh_unit(quots, 3, 2, k + 16, "quotient/F3/2/%s", fpn[k]); vh_unit(quots, 5, 2, k + 16, "quotient/F5/2/%s", fpn[k]); vh_unit(quots, 3, 3, k + 16, "quotient/F3/3/%s", fpn[k]); }
  if (vh_thorough) for (int s = 0; s < 16; s++) { if (!s) vh_unit(quots, 7, 2, 4 + 16, "quotient/F7/2"); if (!s) vh_unit(quots, 3, 4, 4 + 16, "quotient/F3/4"); if (!s) vh_unit(quots, 5, 3, 4 + 16 * 5, "quotient/F5/3"); }
  for (int d = 2; d <= (vh_thorough ? 6 : 5); d++) vh_unit(quots, 2, d, 3 + 16, "quotient/F2/%d", d);
  vh_unit(quots, 4, 2, 3 + 16, "quotient/F4/2"); vh_unit(quots, 9, 2, 4 + 16 * (vh_thorough ? 1 : 9), "quotient/F9/2"); if (vh_thorough) vh_unit(quots, 4, 3, 3 + 16, "quotient/F4/3");
  for (int s = 0; s < (vh_thorough ? 40 : 8); s++) { vh_unit(quots_part, 3, 6, s * 17 + 1000 * (vh_thorough ? 80 : 400), "quotient/F3/6/part%d", s); if (!(s & 1)) vh_unit(quots_part, 3, 5, s * 7 + 1000 * 101, "quotient/F3/5/part%d", s); }
  for (int k = 0; k < 5; k++) for (int L = 2; L < (vh_thorough ? 5 : 3); L++) for (int s = 0; s < 4; s++) vh_unit(bigring, k, L, s, "bigring/%s/%d/part%d", fpn[k], L, s);
  for (int n = 8; n < MD; n += n < 20 || vh_thorough ? 1 : 6) { vh_unit(longs, 7, n, 4, "long/F7/%d", n); if (vh_thorough) vh_unit(longs, 9, n, 4, "long/F9/%d", n); if (vh_thorough || n < 17) vh_unit(longs, 3, n, 3, "long/F3/%d", n); }
  { static const int iq[] = { 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 61, 0 }; for (int i = 0; iq[i]; i++) vh_unit(irlong, iq[i], 0, 0, "irreducible-long/F%d", iq[i]); }
  for (int d = 7; d < 41; d += vh_thorough || d < 19 ? 1 : 7) { vh_unit(quotlong, 7, d, 4, "quotient-long/F7/%d", d); if (vh_thorough || (d & 1)) vh_unit(quotlong, 3, d, 4, "quotient-long/F3/%d", d); }
}
