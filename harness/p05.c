// P05: every way of raising to a power (or multiplying by an integer in a
// group) gives the same result as repeated multiplication.
#include "zoo.h"
static void refpow(element_t out, element_t a, mpz_t n) { element_set1(out); for (long i = (long) mpz_sizeinbase(n, 2) - 1; i >= 0; i--) { element_mul(out, out, out); if (mpz_tstbit(n, i)) element_mul(out, out, a); } }
static mpz_t X[400]; static int nx;
static void xadd(mpz_t z) { for (int i = 0; i < nx; i++) if (!mpz_cmp(X[i], z)) return; if (nx < 400) mpz_init_set(X[nx++], z); }
static void exps(zoo *Z, int level) {
  mpz_t z, o; mpz_init(z); mpz_init_set(o, Z->f->order); nx = 0;
  for (int i = 0; i < 9; i++) { mpz_set_ui(z, i); xadd(z); }
  mpz_sub_ui(z, o, 1); xadd(z); xadd(o); mpz_add_ui(z, o, 1); xadd(z); mpz_add(z, o, o); xadd(z); mpz_mul_ui(z, o, 3); mpz_add_ui(z, z, 2); xadd(z); mpz_mul(z, o, o); mpz_add_ui(z, z, 1); xadd(z); mpz_sub_ui(z, z, 2); xadd(z);
  mpz_set_ui(z, 0); mpz_setbit(z, mpz_sizeinbase(o, 2)); xadd(z); mpz_sub_ui(z, z, 1); xadd(z);
  static const int bits[] = { 5, 10, 15, 31, 32, 47, 48, 63, 64, 65, 157, 158, 474, 475, 1324, 1325, 3529, 3530, 9065, 9066 };
  int nb = level == 0 ? 14 : level == 1 ? 16 : 20;
  for (int i = 0; i < nb; i++) {
    int b = bits[i]; mpz_set_ui(z, 0); mpz_setbit(z, b - 1); xadd(z); mpz_add_ui(z, z, 1); xadd(z);
    mpz_set_ui(z, 0); mpz_setbit(z, b); mpz_sub_ui(z, z, 1); xadd(z);
    mpz_set_ui(z, 0); mpz_setbit(z, b - 1); for (int k = 0; k < b; k++) if (vh_mix(b * 1000 + k) & 1) mpz_setbit(z, k); xadd(z);
  }
  mpz_clear(z); mpz_clear(o);
}
static void forms(zoo *Z, element_t a, int k, element_pp_t pp, element_t c, element_t w, int group) {
  STATE(); mpz_ptr n = X[k]; refpow(w, a, n);
  element_pow_mpz(c, a, n); STEP(); CHECK(!element_cmp(c, w), "pow_mpz, exponent %s", vh_mpzs(n));
  element_set(c, a); element_pow_mpz(c, c, n); CHECK(!element_cmp(c, w), "pow_mpz in place, exponent %s", vh_mpzs(n));
  element_pp_pow(c, n, pp); STEP(); CHECK(!element_cmp(c, w), "pp_pow, exponent %s", vh_mpzs(n));
  if (group) { element_mul_mpz(c, a, n); STEP(); CHECK(!element_cmp(c, w), "mul_mpz, exponent %s", vh_mpzs(n)); element_set(c, a); element_mul_mpz(c, c, n); CHECK(!element_cmp(c, w), "mul_mpz in place, exponent %s", vh_mpzs(n)); }
}
// powers by an element of Zn standing for its residue
static void zn_forms(zoo *Z, element_t a, element_t b, element_t e3, element_pp_t pp, field_ptr zn, element_t c, element_t w, element_t t, int group) {
  element_t x, y, v; element_init(x, zn); element_init(y, zn); element_init(v, zn); mpz_t m1, m2, m3; mpz_init(m1); mpz_init(m2); mpz_init(m3); zalpha A; za_build(&A, zn->order, 0);
  for (int i = 0; i < A.n; i++) {
    element_set_mpz(x, A.z[i]); mpz_mod(m1, A.z[i], zn->order); refpow(w, a, m1); STATE(); CTX("zn power #%ld", i);
    element_pow_zn(c, a, x); STEP(); CHECK(!element_cmp(c, w), "pow_zn by %s", vh_mpzs(m1)); element_pp_pow_zn(c, x, pp); CHECK(!element_cmp(c, w), "pp_pow_zn by %s", vh_mpzs(m1));
    if (group) { element_mul_zn(c, a, x); CHECK(!element_cmp(c, w), "mul_zn by %s", vh_mpzs(m1)); }
    for (int j = 0; j < A.n; j += 2) { element_set_mpz(y, A.z[j]); mpz_mod(m2, A.z[j], zn->order); refpow(t, b, m2); element_mul(t, t, w); element_pow2_zn(c, a, x, b, y); STEP(); CHECK(!element_cmp(c, t), "pow2_zn"); 
      element_set_mpz(v, A.z[(i + j) % A.n]); mpz_mod(m3, A.z[(i + j) % A.n], zn->order); refpow(c, e3, m3); element_mul(t, t, c); element_pow3_zn(c, a, x, b, y, e3, v); STEP(); CHECK(!element_cmp(c, t), "pow3_zn"); }
  }
  element_clear(x); element_clear(y); element_clear(v); mpz_clear(m1); mpz_clear(m2); mpz_clear(m3); za_clear(&A);
}
static void unit(long id, long lo, long hi) {
  zoo Z; if (zoo_open(&Z, id, vh_thorough ? (zoo_list[id].cost ? 30 : 260) : zoo_list[id].cost == 2 ? 5 : zoo_list[id].cost ? 6 : zoo_list[id].kind == ZK_TOWER ? 30 : 40)) return; vh_outerf("%s", Z.s.name);
  int group = (Z.s.kind & ZK_GROUP) != 0; exps(&Z, Z.s.cost == 2 ? vh_thorough : vh_thorough ? 2 : Z.s.cost == 0 ? 2 : 0); 
  element_t c, w, t, u; element_init(c, Z.f); element_init(w, Z.f); element_init(t, Z.f); element_init(u, Z.f);
  int full = !Z.s.cost; 
  for (int i = 0; i < Z.n; i += (!vh_thorough && Z.n > 45 ? 3 : !vh_thorough && Z.s.kind == ZK_TOWER && !Z.s.cost ? (RTOP(&Z.T)->dim > 2 ? 5 : 2) : !vh_thorough && Z.s.kind == ZK_TOWER && RTOP(&Z.T)->dim > 8 ? 4 : !vh_thorough && Z.s.cost == 2 && !strcmp(ps_type(Z.s.a), "i") && Z.s.kind == ZK_GT ? 3 : 1)) {
    element_pp_t pp; element_set(u, Z.el[i]); element_pp_init(pp, u); element_set(u, Z.el[Z.n - 1]);
    for (int k = 0; k < nx; k++) {
      if (!vh_thorough && Z.s.cost == 2 && (k + i) % 4 && mpz_cmp(X[k], Z.f->order) > 0) continue;
      if (!vh_thorough && Z.s.cost == 2 && (k + i) % 2 && k > 12) continue;
      if (!vh_thorough && Z.s.cost == 1 && (k + i) % 2 && k > 12) continue;
      if (!vh_thorough && !Z.s.cost && (i > 4 || (Z.s.kind == ZK_TOWER && RTOP(&Z.T)->dim > 2 && (i + k) % 3)) && mpz_sizeinbase(X[k], 2) > 300) continue; if (!vh_thorough && !Z.s.cost && i > 2 && mpz_sizeinbase(X[k], 2) > 1000) continue;
      CTX("element #%ld exponent #%ld", i, k); forms(&Z, Z.el[i], k, pp, c, w, group); }
    // every exponent up to a bound, against the running product
    if (full) { mpz_t n; mpz_init(n); element_set1(w); int top = i < (vh_thorough ? 12 : 4) ? 520 : 70; for (int k = 0; k < top; k++) { CTX("element #%ld exponent %ld", i, k); STATE(); mpz_set_ui(n, k); element_pow_mpz(c, Z.el[i], n); STEP(); CHECK(!element_cmp(c, w), "pow_mpz against the running product"); element_pp_pow(c, n, pp); CHECK(!element_cmp(c, w), "pp_pow against the running product"); element_mul(w, w, Z.el[i]); } mpz_clear(n); }
    if (i < (Z.s.cost == 2 ? 2 : 6)) { field_t zn; mpz_t m; mpz_init(m); if (Z.haspr) zn_forms(&Z, Z.el[i], Z.el[(i + 1) % Z.n], Z.el[(i + 2) % Z.n], pp, Z.pr->Zr, c, w, t, group); else { mpz_set_ui(m, 1009); field_init_fp(zn, m); zn_forms(&Z, Z.el[i], Z.el[(i + 1) % Z.n], Z.el[(i + 2) % Z.n], pp, zn, c, w, t, group); field_clear(zn); } mpz_clear(m); }
    element_pp_clear(pp); CHECK(!element_cmp(u, Z.el[Z.n - 1]), "preprocessing changed its operand");
  }
  // simultaneous powers: pairs/triples of small exponents exhaustively, boundary exponents, all aliasings of the result
  static const int se[] = { 0, 1, 2, 3, 5, 6, 7, 8 }; int ne = Z.s.cost == 2 ? 4 : Z.s.cost && !vh_thorough ? 5 : 8; mpz_t n1, n2, n3; mpz_init(n1); mpz_init(n2); mpz_init(n3);
  int bs[4] = { 0, 1, Z.n / 2, Z.n - 1 };
  for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) {
    element_ptr a = Z.el[bs[i]], b = Z.el[bs[j]], e = Z.el[bs[(i + 2 * j + 1) % 4]];
    for (int x = 0; x < ne; x++) for (int y = 0; y < ne; y++) {
      CTX("pow2 elements %ld %ld exponents %ld %ld", bs[i], bs[j], se[x], se[y]); STATE(); mpz_set_ui(n1, se[x]); mpz_set_ui(n2, se[y]);
      if (x == ne - 1 && y < 4) mpz_set(n1, X[nx - 1 - y * 3]); if (y == ne - 1 && x < 4) { mpz_sub_ui(n2, Z.f->order, 1); }
      if (!vh_thorough && mpz_sizeinbase(n1, 2) > 200) mpz_fdiv_r_2exp(n1, n1, 200);
      refpow(w, a, n1); refpow(t, b, n2); element_mul(w, w, t);
      element_pow2_mpz(c, a, n1, b, n2); STEP(); CHECK(!element_cmp(c, w), "pow2_mpz");
      element_set(c, a); element_pow2_mpz(c, c, n1, b, n2); CHECK(!element_cmp(c, w), "pow2_mpz into first base"); element_set(c, b); element_pow2_mpz(c, a, n1, c, n2); CHECK(!element_cmp(c, w), "pow2_mpz into second base");
      if (Z.s.cost && !vh_thorough && (x + y) % 2) continue;
      for (int q = Z.s.cost && !vh_thorough ? 1 : 0; q < 3; q++) { mpz_set_ui(n3, q == 2 ? 5 : q); refpow(t, e, n3); element_mul(t, t, w); element_pow3_mpz(c, a, n1, b, n2, e, n3); STEP(); CHECK(!element_cmp(c, t), "pow3_mpz");
        element_set(c, a); element_pow3_mpz(c, c, n1, b, n2, e, n3); CHECK(!element_cmp(c, t), "pow3_mpz into first base"); element_set(c, b); element_pow3_mpz(c, a, n1, c, n2, e, n3); CHECK(!element_cmp(c, t), "pow3_mpz into second base"); element_set(c, e); element_pow3_mpz(c, a, n1, b, n2, c, n3); CHECK(!element_cmp(c, t), "pow3_mpz into third base"); }
    }
  }
  vh_sample("%s: %d elements x %d exponents, all forms", Z.s.name, Z.n, nx);
  mpz_clear(n1); mpz_clear(n2); mpz_clear(n3); element_clear(c); element_clear(w); element_clear(t); element_clear(u); zoo_close(&Z);
}
// each window size: every ending and every beginning of the exponent
static void windows(long id, long k, long c_) {
  static const int th[] = { 9, 12, 48, 158, 475, 1325, 3530, 9066 }; zoo Z; if (zoo_open(&Z, id, 8)) return; vh_outerf("%s window %ld", Z.s.name, k); int B = th[k - 1]; mpz_t n; mpz_init(n); element_t c, w, h, t[2]; element_init(c, Z.f); element_init(w, Z.f); element_init(h, Z.f); element_ptr a = Z.el[Z.n - 1]; element_init(t[0], Z.f);
  for (int e = 0; e < 2; e++) for (int B1 = B; B1 < B + (k < 6 ? 4 : 2); B1++) { mpz_set_ui(n, 0); mpz_setbit(n, B1 - 1); refpow(h, a, n); element_set1(t[0]); for (long x = 0; x < (2L << k); x++) { CTX("%ld-bit exponent, %s word %ld", (long) B1, (long) (e ? "first" : "last"), x); STATE(); mpz_set_ui(n, 0); if (!e) { mpz_set_ui(n, x); mpz_setbit(n, B1 - 1); if (B1 - 1 > k) { element_mul(w, h, t[0]); } else refpow(w, a, n); element_mul(t[0], t[0], a); } else { if (!x) continue; mpz_set_ui(n, x); mpz_mul_2exp(n, n, B1 - mpz_sizeinbase(n, 2)); mpz_add_ui(n, n, x % 5); refpow(w, a, n); }
    element_pow_mpz(c, a, n); STEP(); CHECK(!element_cmp(c, w), "power by %s", vh_mpzs(n)); } if (e && k > 6) break; }
  mpz_clear(n); element_clear(c); element_clear(w); element_clear(h); element_clear(t[0]); zoo_close(&Z);
}
void vh_register(void) {
  zoo_init();
  { int seen[3] = { 0 }; for (int i = 0; i < zoo_n; i++) { zspec *s = &zoo_list[i]; int q = s->kind == ZK_CURVE ? 0 : s->kind == ZK_TOWER ? 1 : s->kind == ZK_GT ? 2 : -1; if (q < 0 || s->cost || seen[q]++ >= (vh_thorough ? 6 : 2)) continue; for (int k = 8; k >= 2; k--) vh_unit(windows, i, k, 0, "window%d/%s", k, s->name); } }
  for (int i = zoo_n - 1; i >= 0; i--) if (vh_thorough || !((zoo_list[i].kind & (ZK_GROUP | ZK_ZR)) && zoo_list[i].cost == 1 && zoo_list[i].e > 2)) vh_unit(unit, i, 0, 0, "%s", zoo_list[i].name);
}
