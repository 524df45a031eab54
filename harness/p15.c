// P15: parameter generators.  Every answer of the random sources within the
// bounds is enumerated; each generated set is judged by independent arithmetic.
#include "mem.h"
#include "pair.h"
#include "ref.h"
#include <pbc_mnt.h>
static unsigned rscript[16]; static int rn, rpos; static unsigned long rctr;
int rand(void) { if (rpos < rn) return rscript[rpos++]; return (int) (vh_mix(rctr++) >> 33); } // the library's generators draw signs and exponents here
static void rreset(unsigned long seed) { rn = rpos = 0; rctr = seed * 1000003UL; vh_rng_reset(); vh_rng_seed(seed); }
static char obuf[60000];
static mpz_t q, r, h, t, u, n; static void zinit(void) { static int d; if (d++) return; mpz_init(q); mpz_init(r); mpz_init(h); mpz_init(t); mpz_init(u); mpz_init(n); }
static void outp(pbc_param_t p) { memset(obuf, 0, 64); FILE *f = fmemopen(obuf, sizeof obuf, "w"); pbc_param_out_str(f, p); long k = ftell(f); fclose(f); obuf[k] = 0; }
static long fieldl(const char *k) { mpz_t z; mpz_init(z); CHECK(ps_field(z, obuf, k), "no field %s printed", k); long v = mpz_get_si(z); mpz_clear(z); return v; }
// bilinear and non-degenerate on generators
static void bilin(pbc_param_t p, int bigorder) {
  pairing_t pr; int ok = 0;
  for (int s = 0; s < 40 && !ok; s++) {
    vh_rng_reset(); vh_rng_seed(s); pairing_init_pbc_param(pr, p);
    element_t P, Q, a, b, e0, e1, e2; element_init_G1(P, pr); element_init_G2(Q, pr); element_init_Zr(a, pr); element_init_Zr(b, pr); element_init_GT(e0, pr); element_init_GT(e1, pr); element_init_GT(e2, pr);
    int g = grp_gen(P, pr->r, 11) && grp_gen(Q, pr->r, 12); if (g && strstr(obuf, "type e\n")) { curve_set_gen_no_cofac(P); element_mul_mpz(P, P, pr->r); g = !element_is0(P) && grp_gen(P, pr->r, 11); }
    if (g) { ok = 1; pairing_apply(e0, P, Q, pr); STEP(); CHECK(!element_is1(e0), "pairing of generators is 1"); element_pow_mpz(e1, e0, pr->r); CHECK(element_is1(e1), "pairing value not of order r"); element_mul_mpz(P, P, pr->r); CHECK(element_is0(P), "G1 element not of order r"); grp_gen(P, pr->r, 11); 
      long sc[] = { 2, 3, -1, 12345 }; for (int i = 0; i < 4; i++) for (int j = 0; j < (bigorder ? 2 : 4); j++) { element_t P2, Q2; element_init_G1(P2, pr); element_init_G2(Q2, pr); element_set_si(a, sc[i]); element_set_si(b, sc[j]); element_mul_zn(P2, P, a); element_mul_zn(Q2, Q, b); pairing_apply(e1, P2, Q2, pr); element_mul(a, a, b); element_pow_zn(e2, e0, a); STEP(); CHECK(!element_cmp(e1, e2), "e(%ld P, %ld Q) != e(P,Q)^%ld", sc[i], sc[j], sc[i] * sc[j]); element_clear(P2); element_clear(Q2); } }
    element_clear(P); element_clear(Q); element_clear(a); element_clear(b); element_clear(e0); element_clear(e1); element_clear(e2); pairing_clear(pr);
  }
  CHECK(ok, "no generators for 40 seeds");
}
static int solinas(int rbits) { long e2 = fieldl("exp2"), e1 = fieldl("exp1"), s1 = fieldl("sign1"), s0 = fieldl("sign0"); CHECK(labs(s1) == 1 && labs(s0) == 1 && e1 > 0 && e1 < e2, "bad exponents or signs %ld %ld %ld %ld", e2, e1, s1, s0); mpz_set_ui(t, 0); mpz_setbit(t, e2); mpz_set_ui(u, 0); mpz_setbit(u, e1); if (s1 > 0) mpz_add(t, t, u); else mpz_sub(t, t, u); if (s0 > 0) mpz_add_ui(t, t, 1); else mpz_sub_ui(t, t, 1); CHECK(!mpz_cmp(t, r), "r is not 2^%ld %+ld*2^%ld %+ld", e2, s1, e1, s0); long b = mpz_sizeinbase(r, 2); CHECK(b == rbits || b == rbits - 1, "r has %ld bits instead of %d", b, rbits); mpz_set_ui(t, 0); mpz_setbit(t, e2 - e1); mpz_sub_ui(u, t, 1); mpz_add_ui(t, t, 1); return mpz_divisible_p(t, r) || mpz_divisible_p(u, r); }
static long ndeg, nset;
static void judge_a(pbc_param_t p, int rbits, int qbits, int pair) {
  outp(p); STATE(); nset++; ps_field(q, obuf, "q"); ps_field(r, obuf, "r"); ps_field(h, obuf, "h"); CHECK(strstr(obuf, "type a\n"), "type");
  CHECK(mpz_probab_prime_p(q, 25) && mpz_cmp_ui(q, 3) > 0, "q not prime"); CHECK(mpz_probab_prime_p(r, 25), "r not prime"); mpz_mul(t, r, h); mpz_sub_ui(t, t, 1); CHECK(!mpz_cmp(t, q), "q + 1 != r h"); CHECK(mpz_divisible_ui_p(h, 12), "h not a multiple of 12"); int deg = solinas(rbits);
  long qb = mpz_sizeinbase(q, 2), lim = qbits > rbits + 6 ? qbits : rbits + 6; CHECK(qb <= lim + 1, "q has %ld bits instead of about %ld", qb, lim); if (rbits >= 100) CHECK(qb >= lim - 30, "q has only %ld bits", qb);
  if (pair) { if (deg || mpz_divisible_p(h, r) || mpz_cmp_ui(r, 5) < 0) ndeg++; else bilin(p, rbits > 60); }
}
static void a_small(long rbits, long qbits, long first) {
  zinit(); pbc_param_t p; int bit = qbits - rbits - 3; if (bit < 3) bit = 3; int exp2 = first ? rbits - 1 : rbits;
  for (int e = 0; e < exp2 - 1; e++) for (int s = 0; s < 2; s++) for (int hh = 0; hh < 1 << bit; hh++) {
    CTX("rbits %ld qbits %ld draws %ld %ld %ld h %ld", rbits, qbits, first, e, s, hh); rreset(7); rn = 3; rscript[0] = first; rscript[1] = e; rscript[2] = s; vh_rng_push_ui(hh); pbc_param_init_a_gen(p, rbits, qbits); STEP(); judge_a(p, rbits, qbits, rpos == 3 && rctr == 7 * 1000003UL); pbc_param_clear(p);
  }
  mem_verify("heap"); vh_sample("type a rbits %ld qbits %ld: %ld sets, %ld outside the domain of the pairing loop", rbits, qbits, nset, ndeg);
}
static void a_big(long rbits, long qbits, long seed) { zinit(); pbc_param_t p; CTX("seed %ld", seed); rreset(seed); pbc_param_init_a_gen(p, rbits, qbits); STEP(); judge_a(p, rbits, qbits, 1); pbc_param_clear(p); vh_sample("type a %ld/%ld: q of %ld bits", rbits, qbits, (long) mpz_sizeinbase(q, 2)); }
static void judge_e(pbc_param_t p, int rbits, int pair) {
  outp(p); STATE(); nset++; ps_field(q, obuf, "q"); ps_field(r, obuf, "r"); ps_field(h, obuf, "h"); CHECK(strstr(obuf, "type e\n"), "type");
  CHECK(mpz_probab_prime_p(q, 25), "q not prime"); CHECK(mpz_probab_prime_p(r, 25), "r not prime"); mpz_mul(t, r, r); mpz_mul(t, t, h); mpz_add_ui(t, t, 1); CHECK(!mpz_cmp(t, q), "q - 1 != r^2 h"); int deg = solinas(rbits);
  mpz_t a, b; mpz_init(a); mpz_init(b); ps_field(a, obuf, "a"); ps_field(b, obuf, "b"); CHECK(!mpz_sgn(a) && mpz_sgn(b) > 0 && mpz_cmp(b, q) < 0, "curve is not Y^2 = X^3 + b");
  if (mpz_cmp_ui(q, 400000) < 0) { long Q = mpz_get_ui(q), B = mpz_get_ui(b), c = 1; char *cnt = calloc(Q, 1); for (long y = 0; y < Q; y++) cnt[y * y % Q]++; for (long x = 0; x < Q; x++) c += cnt[(x * x % Q * x + B) % Q]; free(cnt); CHECK(c == Q - 1, "curve has %ld points instead of %ld", c, Q - 1); }
  else { element_t A, Bb, P; field_t F, C; field_init_fp(F, q); element_init(A, F); element_init(Bb, F); element_set0(A); element_set_mpz(Bb, b); mpz_sub_ui(n, q, 1); field_init_curve_ab(C, A, Bb, n, NULL); element_init(P, C); for (int i = 0; i < 3; i++) { element_random(P); element_mul_mpz(P, P, n); CHECK(element_is0(P), "curve order is not q - 1"); } element_clear(P); element_clear(A); element_clear(Bb); field_clear(C); field_clear(F); }
  mpz_clear(a); mpz_clear(b);
  if (pair) { if (deg || mpz_divisible_p(h, r) || mpz_cmp_ui(r, 5) < 0) ndeg++; else bilin(p, rbits > 60); }
}
static void e_small(long rbits, long qbits, long first) {
  zinit(); pbc_param_t p; int hb = (qbits - 2) / 2 - rbits; if (hb < 3) hb = 3; int exp2 = first ? rbits - 1 : rbits;
  for (int e = 0; e < exp2 - 1; e++) for (int s = 0; s < 2; s++) for (int hh = 0; hh < 1 << (hb + 1); hh++) {
    CTX("rbits %ld qbits %ld draws %ld %ld %ld h %ld", rbits, qbits, first, e, s, hh); rreset(7); rn = 3; rscript[0] = first; rscript[1] = e; rscript[2] = s; vh_rng_push_ui(hh); pbc_param_init_e_gen(p, rbits, qbits); STEP(); int fst = rpos == 3 && rctr == 7 * 1000003UL; outp(p); ps_field(q, obuf, "q"); judge_e(p, rbits, fst && !(hh & 2)); pbc_param_clear(p);
  }
  mem_verify("heap"); vh_sample("type e rbits %ld qbits %ld: %ld sets, %ld outside the domain of the pairing loop", rbits, qbits, nset, ndeg);
}
static void e_big(long rbits, long qbits, long seed) { zinit(); pbc_param_t p; CTX("seed %ld", seed); rreset(seed); pbc_param_init_e_gen(p, rbits, qbits); STEP(); judge_e(p, rbits, 1); long b = mpz_sizeinbase(q, 2); CHECK(b <= qbits + 3 && b >= qbits - 30, "q has %ld bits instead of about %ld", b, qbits); pbc_param_clear(p); }
// A1: every order of a range
static void judge_a1(mpz_t N, int pair) {
  pbc_param_t p; rreset(1); pbc_param_init_a1_gen(p, N); STEP(); STATE(); outp(p); CHECK(strstr(obuf, "type a1\n"), "type"); ps_field(q, obuf, "p"); ps_field(n, obuf, "n"); long l = fieldl("l"); CHECK(!mpz_cmp(n, N), "order changed"); CHECK(mpz_probab_prime_p(q, 25), "p not prime"); mpz_mul_si(t, N, l); mpz_sub_ui(t, t, 1); CHECK(!mpz_cmp(t, q), "p + 1 != l n"); CHECK(l > 0 && l % 4 == 0, "l not a multiple of 4");
  // "a few bits longer": no smaller multiple of 4 works
  for (long k = 4; k < l; k += 4) { mpz_mul_si(t, N, k); mpz_sub_ui(t, t, 1); CHECK(!mpz_probab_prime_p(t, 25), "l is %ld although %ld works", l, k); }
  if (pair) bilin(p, 1); pbc_param_clear(p);
}
static void a1_small(long lo, long hi, long c) { zinit(); mpz_t N; mpz_init(N); for (long k = lo; k < hi; k++) { CTX("order %ld", k); mpz_set_ui(N, k); judge_a1(N, 0); } mpz_clear(N); mem_verify("heap"); }
static void a1_big(long bits, long parts, long seed) { zinit(); mpz_t N, f; mpz_init(N); mpz_init(f); mpz_set_ui(N, 1); for (int i = 0; i < parts; i++) { mpz_set_ui(f, 0); mpz_setbit(f, bits); mpz_add_ui(f, f, vh_mix(seed * 10 + i) >> 40); mpz_nextprime(f, f); mpz_mul(N, N, f); } CTX("%ld primes of %ld bits", parts, bits); judge_a1(N, 1); mpz_clear(N); mpz_clear(f); }
// order of E(F_q^k) from the trace
static void curve_order_k(mpz_t out, mpz_t Q, mpz_t N, int k) { mpz_t a, b, c, tr; mpz_init(tr); mpz_init_set_ui(a, 2); mpz_init(b); mpz_init(c); mpz_sub(tr, Q, N); mpz_add_ui(tr, tr, 1); mpz_set(b, tr); for (int i = 1; i < k; i++) { mpz_mul(c, tr, b); mpz_submul(c, Q, a); mpz_set(a, b); mpz_set(b, c); } mpz_pow_ui(out, Q, k); mpz_add_ui(out, out, 1); mpz_sub(out, out, b); mpz_clear(a); mpz_clear(b); mpz_clear(c); mpz_clear(tr); }
static void judge_cm(pbc_param_t p, pbc_cm_ptr cm, int pair) {
  outp(p); STATE(); int k = cm->k, d = k / 2; ps_field(q, obuf, "q"); ps_field(n, obuf, "n"); ps_field(h, obuf, "h"); ps_field(r, obuf, "r"); CHECK(!mpz_cmp(q, cm->q) && !mpz_cmp(n, cm->n) && !mpz_cmp(h, cm->h) && !mpz_cmp(r, cm->r), "q, n, h or r changed"); if (k == 6) CHECK(fieldl("k") == 6, "embedding degree");
  curve_order_k(t, q, n, k); ps_field(u, obuf, "nk"); CHECK(!mpz_cmp(t, u), "nk is not the order of the curve over F_q^%d", k); mpz_mul(t, r, r); ps_field(h, obuf, "hk"); mpz_mul(t, t, h); CHECK(!mpz_cmp(t, u), "hk r^2 != nk");
  // curve of order n
  { element_t A, B, P; field_t F, C; field_init_fp(F, q); element_init(A, F); element_init(B, F); ps_field(t, obuf, "a"); CHECK(mpz_cmp(t, q) < 0 && mpz_sgn(t) >= 0, "a"); element_set_mpz(A, t); ps_field(t, obuf, "b"); element_set_mpz(B, t); field_init_curve_ab(C, A, B, n, NULL); element_init(P, C); int hit = 0; for (int i = 0; i < 4; i++) { element_random(P); element_mul_mpz(P, P, cm->h); if (!element_is0(P)) hit = 1; element_mul_mpz(P, P, r); CHECK(element_is0(P), "a point does not have order dividing n"); } CHECK(hit, "no point of order r"); element_clear(P); element_clear(A); element_clear(B); field_clear(C); field_clear(F); }
  // irreducible polynomial of prime degree d, nqr a nonresidue
  { rf *B = rf_prime(q); vec m = vec_new(d), x = vec_new(d), y = vec_new(d); for (int i = 0; i < d; i++) { char s[20]; sprintf(s, "coeff%d", i); CHECK(ps_field(m[i], obuf, s), "no %s", s); CHECK(mpz_sgn(m[i]) >= 0 && mpz_cmp(m[i], q) < 0, "%s out of range", s); } rf *R = rf_ext(B, d, m); mpz_set_ui(x[1], 1); rf_pow(R, y, x, q); CHECK(!vec_eq(x, y, d), "modulus polynomial splits"); for (int i = 1; i < d; i++) rf_pow(R, y, y, q); CHECK(vec_eq(x, y, d), "modulus polynomial not irreducible"); rf_free(R); rf_free(B); vec_free(m, d); vec_free(x, d); vec_free(y, d); }
  ps_field(t, obuf, "nqr"); CHECK(mpz_legendre(t, q) == -1, "nqr is a square"); if (pair) bilin(p, 1);
}
static int cmtype; static long cm_min, cm_max, cm_seen; static int cm_pair, cm_per;
static int cm_cb(pbc_cm_ptr cm, void *d) {
  long b = mpz_sizeinbase(cm->r, 2); if (b < cm_min || mpz_sizeinbase(cm->q, 2) > (size_t) cm_max) return 0; mpz_sqrt(t, cm->q); mpz_mul_ui(t, t, 4); mpz_add_ui(t, t, 4); if (mpz_cmp(cm->r, t) <= 0) return 0;
  if (cm_per++ >= (vh_thorough ? 4 : 2)) return 0;
  pbc_param_t p; rreset(5); CTX("D %ld, q of %ld bits", cm->D, mpz_sizeinbase(cm->q, 2)); if (cmtype == 'd') pbc_param_init_d_gen(p, cm); else pbc_param_init_g_gen(p, cm); STEP(); judge_cm(p, cm, cm_pair); pbc_param_clear(p); cm_seen++; if (cm_seen > (vh_thorough ? 400 : 40)) return 1; return 0;
}
static void cmgen(long ty, long D0, long D1) { zinit(); cmtype = ty; cm_min = ty == 'g' ? 7 : 24; cm_max = ty == 'g' ? 310 : vh_thorough ? 260 : 170; cm_pair = 1; for (long D = D0; D < D1; D++) { if (D % 4 != 0 && D % 4 != 3) continue; CTX("D %ld", D); cm_per = 0; int rc = ty == 'd' ? pbc_cm_search_d(cm_cb, NULL, D, cm_max) : pbc_cm_search_g(cm_cb, NULL, D, cm_max); if (rc) break; } mem_verify("heap"); vh_sample("type %c from CM with D in [%ld, %ld): %ld sets", (int) ty, D0, D1, cm_seen); }
// F
static void fgen(long bits, long seed, long c) {
  zinit(); pbc_param_t p; CTX("bits %ld seed %ld", bits, seed); rreset(seed); pbc_param_init_f_gen(p, bits); STEP(); STATE(); outp(p); CHECK(strstr(obuf, "type f\n"), "type"); ps_field(q, obuf, "q"); ps_field(r, obuf, "r"); CHECK(mpz_probab_prime_p(q, 25) && mpz_probab_prime_p(r, 25), "q or r not prime"); long b = mpz_sizeinbase(q, 2); CHECK(b >= bits - 8 && b <= bits + 8, "q has %ld bits instead of about %ld", b, bits);
  mpz_pow_ui(t, q, 12); mpz_sub_ui(t, t, 1); CHECK(mpz_divisible_p(t, r), "embedding degree is not 12"); for (int k = 1; k < 12; k++) { mpz_pow_ui(t, q, k); mpz_sub_ui(t, t, 1); CHECK(!mpz_divisible_p(t, r), "embedding degree %d", k); }
  ps_field(t, obuf, "beta"); CHECK(mpz_legendre(t, q) == -1, "beta is a square"); { element_t A, B, P; field_t F, C; field_init_fp(F, q); element_init(A, F); element_init(B, F); ps_field(t, obuf, "b"); element_set_mpz(B, t); field_init_curve_ab(C, A, B, r, NULL); element_init(P, C); for (int i = 0; i < 4; i++) { element_random(P); element_mul_mpz(P, P, r); CHECK(element_is0(P), "curve order is not r"); } element_clear(P); element_clear(A); element_clear(B); field_clear(C); field_clear(F); }
  // -alpha is neither a square nor a cube in F_q^2: X^6 + alpha irreducible
  { rf *Bq = rf_prime(q); vec md = vec_new(2), x = vec_new(2), y = vec_new(2); ps_field(md[0], obuf, "beta"); mpz_neg(md[0], md[0]); mpz_mod(md[0], md[0], q); rf *R = rf_ext(Bq, 2, md); ps_field(x[0], obuf, "alpha0"); ps_field(x[1], obuf, "alpha1"); for (int i = 0; i < 2; i++) { mpz_neg(x[i], x[i]); mpz_mod(x[i], x[i], q); } mpz_mul(u, q, q); mpz_sub_ui(u, u, 1); mpz_divexact_ui(t, u, 2); rf_pow(R, y, x, t); CHECK(!rf_is1(R, y), "-alpha is a square"); mpz_divexact_ui(t, u, 3); rf_pow(R, y, x, t); CHECK(!rf_is1(R, y), "-alpha is a cube"); rf_free(R); rf_free(Bq); vec_free(md, 2); vec_free(x, 2); vec_free(y, 2); }
  bilin(p, 1); pbc_param_clear(p); mem_verify("heap");
}
// I: trinomials over F_3
static void p3_red(signed char *f, int m, int tt, int top) { for (int i = top; i >= m; i--) if (f[i]) { int c = f[i]; f[i] = 0; f[i - m + tt] = (f[i - m + tt] + 2 * c) % 3; f[i - m] = (f[i - m] + c) % 3; } }
static int p3_gcd1(const signed char *a0, int m, int tt) { // gcd(a, x^m+x^t+2) == 1 ?
  signed char *a = calloc(m + 1, 1), *b = calloc(m + 1, 1); memcpy(a, a0, m); b[m] = 1; b[tt] = 1; b[0] = 2; int da = m - 1, db = m; while (da >= 0 && !a[da]) da--; 
  while (da >= 0) { while (db >= da) { int c = b[db] * a[da] % 3; for (int i = 0; i <= da; i++) b[db - da + i] = (b[db - da + i] + (3 - c) * a[i]) % 3; while (db >= 0 && !b[db]) db--; } signed char *x = a; a = b; b = x; int y = da; da = db; db = y; }
  free(a); free(b); return db == 0; }
static int p3_irred(int m, int tt) { signed char *f = calloc(3 * m + 3, 1), *g = calloc(3 * m + 3, 1), *d = calloc(3 * m + 3, 1); f[1] = 1; int ok = 1; for (int i = 1; i <= m && ok; i++) { memset(g, 0, 3 * m + 3); for (int j = 0; j < m; j++) g[3 * j] = f[j]; p3_red(g, m, tt, 3 * m); memcpy(f, g, m); if (i < m && m % i == 0) { int pr = 1, e = m / i; for (int k = 2; k * k <= e; k++) if (e % k == 0) pr = 0; if (pr) { memcpy(d, f, m); d[1] = (d[1] + 2) % 3; ok = p3_gcd1(d, m, tt); } } } for (int j = 0; j < m && ok; j++) ok = f[j] == (j == 1); free(f); free(g); free(d); return ok; }
static void igen(long lo, long hi, long pair) {
  zinit(); long lastm = 0; for (long g = lo; g <= hi; g++) { pbc_param_t p; CTX("group size %ld", g); rreset(1); pbc_param_init_i_gen(p, g); STEP(); STATE(); outp(p); ps_field(n, obuf, "n"); CHECK(mpz_sizeinbase(n, 2) > (size_t) g, "group order has %ld bits for group size %ld", (long) mpz_sizeinbase(n, 2), g); long m = fieldl("m"), tt = fieldl("t");
    if (m != lastm) { lastm = m; CHECK(mpz_probab_prime_p(n, 25), "order not prime"); ps_field(h, obuf, "n2"); mpz_mul(t, n, h); mpz_ui_pow_ui(u, 3, m); mpz_add_ui(u, u, 1); mpz_sub(t, t, u); mpz_ui_pow_ui(u, 3, (m + 1) / 2); CHECK(!mpz_cmpabs(t, u), "n n2 is not 3^m +- 3^((m+1)/2) + 1"); CHECK(p3_irred(m, tt), "x^%ld + x^%ld + 2 is reducible", m, tt); if (pair) bilin(p, 1); }
    pbc_param_clear(p); }
}
void vh_register(void) {
  for (int rb = 3; rb <= (vh_thorough ? 14 : 10); rb++) for (int ex = 0; ex < 2; ex++) for (int f = 0; f < 2; f++) vh_unit(a_small, rb, rb + (ex ? 7 : 5), f, "a/r%d-q+%d-%d", rb, ex ? 7 : 5, f);
  for (int s = 0; s < (vh_thorough ? 12 : 3); s++) { vh_unit(a_big, 160, 512, s, "a/160-512-%d", s); vh_unit(a_big, 30 + s, 70, s, "a/%d-70", 30 + s); vh_unit(a_big, 224, 1024, s, "a/224-1024-%d", s); vh_unit(a_big, 62 + s, 68, s, "a/%d-68", 62 + s); }
  for (int rb = 3; rb <= (vh_thorough ? 9 : 7); rb++) for (int f = 0; f < 2; f++) vh_unit(e_small, rb, 2 * rb + 8, f, "e/r%d-%d", rb, f);
  for (int s = 0; s < (vh_thorough ? 8 : 2); s++) { vh_unit(e_big, 160, 1024, s, "e/160-1024-%d", s); vh_unit(e_big, 40 + s, 100, s, "e/%d-100", 40 + s); }
  int hi = vh_thorough ? 4000 : 1000; for (int k = 2; k < hi; k += hi / 8) vh_unit(a1_small, k, k + hi / 8, 0, "a1/%d", k);
  int nb[] = { 40, 64, 130, 512 }; for (int i = 0; i < 4; i++) for (int pt = 1; pt <= 3; pt++) if (nb[i] < 512 || vh_thorough || pt == 2) vh_unit(a1_big, nb[i], pt, 3, "a1/%dx%d", pt, nb[i]);
  int Dmax = vh_thorough ? 6000 : 2000; for (int D = 3; D < Dmax; D += Dmax / 16) vh_unit(cmgen, 'd', D, D + Dmax / 16, "d/D%d", D);
  for (int D = 3; D < 4 * Dmax; D += Dmax / 4) vh_unit(cmgen, 'g', D, D + Dmax / 4, "g/D%d", D);
  static const int gD[] = { 43, 4003, 18883, 28267, 29707, 35707 }; for (int i = 0; i < 6; i++) if (gD[i] >= 4 * Dmax) vh_unit(cmgen, 'g', gD[i], gD[i] + 1, "g/D%d", gD[i]);
  for (int b = 40; b <= (vh_thorough ? 260 : 170); b += vh_thorough ? 4 : 10) for (int s = 0; s < (b < 100 ? 3 : 1); s++) vh_unit(fgen, b, s, 0, "f/%d-%d", b, s);
  static const int ib[] = { 0, 150, 206, 259, 316, 376, 430, 484, 552, 644, 696, 803, 892 }; for (int i = 0; i < 12; i++) vh_unit(igen, ib[i] + 1, ib[i + 1], 1, "i/%d", ib[i + 1]);
}
