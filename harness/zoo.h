// A catalogue of algebraic structures: prime fields in every implementation,
// residue rings, extension towers, curves, and the groups of pairings, each
// with a deterministic set of elements (all of them when there are few).
#ifndef ZOO_H
#define ZOO_H
#include "crv.h"
#include "pair.h"
enum { ZK_PRIME = 1, ZK_RING = 2, ZK_TOWER = 4, ZK_CURVE = 8, ZK_G1 = 16, ZK_G2 = 32, ZK_GT = 64, ZK_ZR = 128 };
#define ZK_FIELD (ZK_PRIME | ZK_TOWER | ZK_ZR)
#define ZK_GROUP (ZK_CURVE | ZK_G1 | ZK_G2 | ZK_GT)
typedef struct { int kind; char name[80]; int a, b, c, d, e; int cost; } zspec;
typedef struct { zspec s; field_ptr f; tower T; int hasT; field_t cv; int hascv; vec ca, cb; rpt *rp; int nrp; pairing_t pr; int haspr; int n; element_t *el; int whole; } zoo;
static zspec zoo_list[2000]; static int zoo_n;
static zspec *zadd(int kind, int a, int b, int c, int d, int e, int cost, const char *fmt, ...) {
  zspec *s = &zoo_list[zoo_n++]; s->kind = kind; s->a = a; s->b = b; s->c = c; s->d = d; s->e = e; s->cost = cost;
  va_list ap; va_start(ap, fmt); vsnprintf(s->name, sizeof s->name, fmt, ap); va_end(ap); return s;
}
// cost: 0 tiny (whole structure), 1 multi-limb or toy, 2 shipped parameters
static int zoo_huge; // also very long moduli
static void zoo_init(void) {
  if (zoo_n) return;
  if (zoo_huge) for (int L = 17; L <= 140; L = L * 2 + 1) { for (int im = 0; im < NIMPL; im++) zadd(ZK_RING, 0, L, 9, im, 0, 1, "long-L%d-%s", L, impl_name[im]); zadd(ZK_TOWER, K_FI, 0, 2, 0, L * 10 + 9, 1, "fi-long-L%d", L); }
  static const int tp[] = { 2, 3, 5, 7, 11, 13, 17, 31, 127, 251, 257, 0 };
  for (int i = 0; tp[i]; i++) zadd(ZK_PRIME, tp[i], 0, 0, IMPL_DEFAULT, 0, 0, "F%d", tp[i]);
  static const int tn[] = { 4, 6, 9, 15, 35, 256, 0 };
  for (int i = 0; tn[i]; i++) zadd(ZK_RING, tn[i], 0, 0, IMPL_DEFAULT, 0, 0, "Z%d", tn[i]);
  for (int L = 1; L <= 8; L += L < 3 ? 1 : 5) for (int k = 0; k < 4; k++) { if (L == 1 && k == 2) continue;
    for (int im = 0; im < NIMPL; im++) { if (L < 2 && im != IMPL_NAIVE && im != IMPL_DEFAULT) continue; zadd(ZK_PRIME, 0, L, k, im, 0, 1, "prime-L%d-k%d-%s", L, k, impl_name[im]); } }
  static const int tk[][4] = { { K_QUAD, 3, 0, 0 }, { K_QUAD, 7, 0, 1 }, { K_QUAD, 11, 0, 0 }, { K_FI, 3, 0, 0 }, { K_FI, 7, 0, 0 }, { K_FI, 11, 0, 0 }, { K_POLY, 2, 3, 0 }, { K_POLY, 2, 5, 0 }, { K_POLY, 3, 2, 0 }, { K_POLY, 3, 3, 1 }, { K_POLY, 5, 3, 0 }, { K_POLY, 3, 5, 0 }, { K_QUAD_POLY, 3, 3, 0 }, { K_QUAD_QUAD, 3, 0, 0 }, { K_POLY_QUAD, 5, 3, 0 }, { -1 } };
  for (int i = 0; tk[i][0] >= 0; i++) { int *k = (int *) tk[i]; zadd(ZK_TOWER, k[0], k[1], k[2], k[3], 0, 0, "%s-p%d-d%d-v%d", kname[k[0]], k[1], k[2], k[3]); }
  for (int L = 1; L <= 3; L++) for (int k = 0; k < 2; k++) { zadd(ZK_TOWER, K_QUAD, 0, 2, 0, L * 10 + k, 1, "quad-L%d-k%d", L, k); zadd(ZK_TOWER, K_FI, 0, 2, 0, L * 10 + k, 1, "fi-L%d-k%d", L, k); zadd(ZK_TOWER, K_POLY, 0, 3, 1, L * 10 + k, 1, "poly3-L%d-k%d", L, k); zadd(ZK_TOWER, K_QUAD_POLY, 0, 3, 0, L * 10 + k, 1, "quad-poly3-L%d-k%d", L, k); }
  zadd(ZK_TOWER, K_POLY, 0, 5, 1, 20, 1, "poly5-L2-k0"); zadd(ZK_TOWER, K_POLY_QUAD, 0, 6, 0, 20, 1, "poly6-quad-L2-k0");
  static const int cv[][3] = { { 5, 1, 1 }, { 5, 4, 0 }, { 7, 1, 0 }, { 7, 0, 3 }, { 11, 1, 6 }, { 11, 1, 0 }, { 13, 2, 3 }, { 17, 0, 5 }, { 19, 7, 11 }, { 31, 1, 0 }, { 0 } };
  for (int i = 0; cv[i][0]; i++) zadd(ZK_CURVE, cv[i][0], cv[i][1], cv[i][2], -1, 0, 0, "curve-p%d-a%d-b%d", cv[i][0], cv[i][1], cv[i][2]);
  zadd(ZK_CURVE, 5, 1, 1, K_QUAD, 0, 0, "curve-quad-p5"); zadd(ZK_CURVE, 7, 0, 1, K_FI, 0, 0, "curve-fi-p7"); zadd(ZK_CURVE, 3 + 2, 1, 0, K_POLY, 0, 0, "curve-poly3-p5");
  static const int gk[] = { ZK_G1, ZK_G2, ZK_GT, ZK_ZR }; static const char *gn[] = { "G1", "G2", "GT", "Zr" };
  static const char *ty[] = { "a", "a1", "d", "e", "f", "g" };
  for (int t = 0; t < 6; t++) { int seen = 0, last = -1; for (int i = 0; i < NTOYS; i++) if (!strcmp(toys[i].type, ty[t]) && !ps_degenerate(i) && toys[i].r >= 5) {
      int take = seen == 0 || seen == 1 || (t >= 2 && seen < 6) || (t < 2 && seen % 16 == 8); seen++; last = i; (void) last;
      if (take) for (int g = 0; g < 4; g++) zadd(gk[g], i, 0, 0, 0, seen, 1, "%s-%s", toys[i].name, gn[g]); } }
  for (int i = NTOYS; i < NTOYS + NREAL; i++) for (int g = 0; g < 4; g++) zadd(gk[g], i, 0, 0, 0, 0, 2, "%s.param-%s", ps_name(i), gn[g]);
}
static void zput(zoo *Z) { Z->el = realloc(Z->el, sizeof(element_t) * (Z->n + 1)); element_init(Z->el[Z->n], Z->f); Z->n++; }
static int zoo_open(zoo *Z, int id, int want) {
  zoo_init(); memset(Z, 0, sizeof *Z); Z->s = zoo_list[id]; zspec *s = &Z->s; mpz_t p; mpz_init(p); int ok = 1; vh_rng_reset(); vh_rng_seed(1);
  if (s->kind & (ZK_PRIME | ZK_RING)) { if (s->a) mpz_set_ui(p, s->a); else make_modulus(p, s->b, s->c); tw_base(&Z->T, p, s->d); Z->hasT = 1; Z->f = TOP(&Z->T); }
  else if (s->kind == ZK_TOWER) {
    if (s->b) mpz_set_ui(p, s->b); else { make_modulus(p, s->e / 10, s->e % 10); if (s->e % 10 == 9) ; else if (s->a == K_FI) next_prime_4(p, 3); else if (s->c > 2) prime_1_mod(p, 6 * (s->c % 5 ? 1 : 5), 0); }
    ok = tw_build(&Z->T, s->a, p, IMPL_DEFAULT, s->c, s->d); Z->hasT = ok; if (ok) Z->f = TOP(&Z->T);
  } else if (s->kind == ZK_CURVE) {
    mpz_set_ui(p, s->a); if (s->d < 0) tw_base(&Z->T, p, IMPL_DEFAULT); else ok = tw_build(&Z->T, s->d, p, IMPL_DEFAULT, 3, 0);
    if (ok) { Z->hasT = 1; rf *R = RTOP(&Z->T); Z->ca = vec_new(R->dim); Z->cb = vec_new(R->dim); mpz_set_ui(Z->ca[0], s->b); mpz_set_ui(Z->cb[R->dim - 1], s->c); if (!s->c) mpz_set_ui(Z->ca[R->dim - 1], s->b);
      if (curve_singular(R, Z->ca, Z->cb)) { fprintf(stderr, "singular zoo curve %s\n", s->name); abort(); }
      Z->nrp = curve_points(R, &Z->rp, Z->ca, Z->cb); element_t a, b; element_init(a, TOP(&Z->T)); element_init(b, TOP(&Z->T)); el_put(a, R, Z->ca); el_put(b, R, Z->cb); mpz_set_ui(p, Z->nrp); field_init_curve_ab(Z->cv, a, b, p, NULL); element_clear(a); element_clear(b); Z->f = Z->cv; Z->hascv = 1; }
  } else { ok = !ps_open(Z->pr, s->a); Z->haspr = ok; if (ok) Z->f = s->kind == ZK_G1 ? Z->pr->G1 : s->kind == ZK_G2 ? Z->pr->G2 : s->kind == ZK_GT ? Z->pr->GT : Z->pr->Zr; }
  mpz_clear(p); if (!ok) return 1;
  // elements
  if (s->kind == ZK_CURVE) { rf *R = RTOP(&Z->T); for (int i = 0; i < Z->nrp; i++) { zput(Z); pt_put(Z->el[i], R, &Z->rp[i]); } Z->whole = 1; }
  else if (Z->hasT) { rf *R = RTOP(&Z->T); 
    if (R->dim == 1 && !s->a) { alpha_t A; make_alpha(&A, R->p, 0); for (int i = 0; i < A.n && i < want; i++) { zput(Z); element_set_mpz(Z->el[i], A.v[i]); } alpha_clear(&A); }
    else { valpha A; va_build2(&A, R, s->cost == 0 ? (want < 30 ? 30 : want) : 0, want); Z->whole = !mpz_cmp_ui(R->order, A.n); for (int i = 0; i < A.n; i++) { zput(Z); el_put(Z->el[i], R, A.v[i]); vec_free(A.v[i], R->dim); } free(A.v); } }
  else { zalpha A; mpz_t z; mpz_init(z); za_build(&A, Z->pr->r, want > 20); int small = mpz_cmp_ui(Z->pr->r, want) <= 0; int m = small ? (int) mpz_get_ui(Z->pr->r) : A.n < want ? A.n : want; Z->whole = small;
    element_t g; element_init(g, Z->f); if (s->kind != ZK_ZR) { if (s->kind == ZK_GT) { element_t x, y; element_init_G1(x, Z->pr); element_init_G2(y, Z->pr); grp_gen(x, Z->pr->r, 1); grp_gen(y, Z->pr->r, 2); element_pairing(g, x, y); element_clear(x); element_clear(y); } else grp_gen(g, Z->pr->r, 1); }
    for (int i = 0; i < m; i++) { if (small) mpz_set_ui(z, i); else mpz_set(z, A.z[i]); zput(Z); if (s->kind == ZK_ZR) element_set_mpz(Z->el[i], z); else if (!mpz_sgn(z)) element_set1(Z->el[i]); else { element_set(Z->el[i], g); int k = mpz_sizeinbase(z, 2) - 1; while (--k >= 0) { element_mul(Z->el[i], Z->el[i], Z->el[i]); if (mpz_tstbit(z, k)) element_mul(Z->el[i], Z->el[i], g); } } }
    element_clear(g); mpz_clear(z); za_clear(&A); }
  return 0;
}
static void zoo_close(zoo *Z) {
  for (int i = 0; i < Z->n; i++) element_clear(Z->el[i]); free(Z->el);
  if (Z->hascv) { rf *R = RTOP(&Z->T); for (int i = 0; i < Z->nrp; i++) rp_free(R, &Z->rp[i]); free(Z->rp); vec_free(Z->ca, R->dim); vec_free(Z->cb, R->dim); field_clear(Z->cv); }
  if (Z->hasT) tw_clear(&Z->T);
  if (Z->haspr) pairing_clear(Z->pr);
}
// Membership, judged independently of the code that produced the element:
// curve equation and order for points, r-th power for GT, range for residues.
static int el_on_curve(element_t e) {
  if (element_item_count(e) != 2) return element_is0(e);
  element_ptr a = curve_a_coeff(e), b = curve_b_coeff(e); element_t l, r; element_init_same_as(l, element_item(e, 1)); element_init_same_as(r, l);
  element_mul(l, element_item(e, 1), element_item(e, 1)); element_mul(r, element_item(e, 0), element_item(e, 0)); element_add(r, r, a); element_mul(r, r, element_item(e, 0)); element_add(r, r, b);
  int ok = !element_cmp(l, r); element_clear(l); element_clear(r); return ok;
}
#endif
