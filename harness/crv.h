// Reference model of short Weierstrass groups over the reference fields.
#ifndef CRV_H
#define CRV_H
#include "tower.h"
#include <pbc_curve.h>
typedef struct { int inf; vec x, y; } rpt;
static rpt rp_new(rf *R) { rpt p; p.inf = 1; p.x = vec_new(R->dim); p.y = vec_new(R->dim); return p; }
static void rp_free(rf *R, rpt *p) { vec_free(p->x, R->dim); vec_free(p->y, R->dim); }
static void rp_set(rf *R, rpt *c, const rpt *a) { c->inf = a->inf; vec_set(c->x, a->x, R->dim); vec_set(c->y, a->y, R->dim); }
static int rp_eq(rf *R, const rpt *a, const rpt *b) { if (a->inf || b->inf) return a->inf && b->inf; return vec_eq(a->x, b->x, R->dim) && vec_eq(a->y, b->y, R->dim); }
static void rf_inv(rf *R, vec c, vec a) { mpz_t e; mpz_init(e); mpz_sub_ui(e, R->order, 2); if (R->dim == 1) mpz_invert(c[0], a[0], R->p); else rf_pow(R, c, a, e); mpz_clear(e); }
static void rhs(rf *R, vec t, vec x, vec a, vec b) { rf_mul(R, t, x, x); rf_add(R, t, t, a); rf_mul(R, t, t, x); rf_add(R, t, t, b); }
static void rp_add(rf *R, rpt *c, const rpt *p, const rpt *q, vec a) {
  if (p->inf) { rp_set(R, c, q); return; }
  if (q->inf) { rp_set(R, c, p); return; }
  int D = R->dim; vec l = vec_new(D), t = vec_new(D), u = vec_new(D);
  int same = vec_eq(p->x, q->x, D); rpt r = rp_new(R);
  rf_add(R, t, p->y, q->y);
  if (same && vec_is0(t, D)) { r.inf = 1; }
  else {
    if (same) { rf_mul(R, l, p->x, p->x); mpz_t z; mpz_init_set_ui(z, 3); rf_smul(R, l, l, z); mpz_clear(z); rf_add(R, l, l, a); rf_inv(R, t, t); }
    else { rf_sub(R, l, q->y, p->y); rf_sub(R, t, q->x, p->x); rf_inv(R, t, t); }
    rf_mul(R, l, l, t); rf_mul(R, t, l, l); rf_sub(R, t, t, p->x); rf_sub(R, t, t, q->x);
    rf_sub(R, u, p->x, t); rf_mul(R, u, u, l); rf_sub(R, u, u, p->y); r.inf = 0; vec_set(r.x, t, D); vec_set(r.y, u, D);
  }
  rp_set(R, c, &r); rp_free(R, &r); vec_free(l, D); vec_free(t, D); vec_free(u, D);
}
static void rp_neg(rf *R, rpt *c, const rpt *p) { vec z = vec_new(R->dim); rp_set(R, c, p); rf_sub(R, c->y, z, c->y); vec_free(z, R->dim); }
static void rp_mul(rf *R, rpt *c, const rpt *p, mpz_t k, vec a) {
  rpt r = rp_new(R); for (long i = (long) mpz_sizeinbase(k, 2) - 1; i >= 0; i--) { rp_add(R, &r, &r, &r, a); if (mpz_tstbit(k, i)) rp_add(R, &r, &r, p, a); }
  rp_set(R, c, &r); rp_free(R, &r);
}
// transfer to and from the library through the public byte encoding / coordinates
static void pt_put(element_t e, rf *R, const rpt *p) {
  if (p->inf) { element_set0(e); return; }
  field_ptr F = curve_x_coord(e)->field; element_t x; element_init(x, F); int n = element_length_in_bytes(x); unsigned char buf[2 * n];
  el_put(x, R, p->x); element_to_bytes(buf, x); el_put(x, R, p->y); element_to_bytes(buf + n, x); element_clear(x); element_from_bytes(e, buf);
}
static int pt_is(element_t e, rf *R, const rpt *p) {
  if (element_is0(e) || p->inf) return (element_is0(e) != 0) && p->inf;
  vec v = vec_new(R->dim); el_get(v, element_item(e, 0), R); int ok = vec_eq(v, p->x, R->dim); el_get(v, element_item(e, 1), R); ok &= vec_eq(v, p->y, R->dim); vec_free(v, R->dim); return ok;
}
// all points of the curve (reference enumeration) for small fields
static int curve_points(rf *R, rpt **out, vec a, vec b) {
  valpha A; va_build2(&A, R, 100000, 100000); int n = 1, cap = 4 + 2 * A.n; rpt *P = malloc(sizeof(rpt) * cap); P[0] = rp_new(R); vec t = vec_new(R->dim);
  vec *sq = malloc(sizeof(vec) * A.n); for (int i = 0; i < A.n; i++) { sq[i] = vec_new(R->dim); rf_mul(R, sq[i], A.v[i], A.v[i]); }
  for (int i = 0; i < A.n; i++) { rhs(R, t, A.v[i], a, b); for (int j = 0; j < A.n; j++) if (vec_eq(sq[j], t, R->dim)) { P[n] = rp_new(R); P[n].inf = 0; vec_set(P[n].x, A.v[i], R->dim); vec_set(P[n].y, A.v[j], R->dim); n++; } }
  for (int i = 0; i < A.n; i++) { vec_free(A.v[i], R->dim); vec_free(sq[i], R->dim); }
  free(A.v); free(sq); vec_free(t, R->dim); *out = P; return n;
}
static int curve_singular(rf *R, vec a, vec b) { int D = R->dim; vec t = vec_new(D), u = vec_new(D); mpz_t z; mpz_init(z); rf_mul(R, t, a, a); rf_mul(R, t, t, a); mpz_set_ui(z, 4); rf_smul(R, t, t, z); rf_mul(R, u, b, b); mpz_set_ui(z, 27); rf_smul(R, u, u, z); rf_add(R, t, t, u); int r = vec_is0(t, D); vec_free(t, D); vec_free(u, D); mpz_clear(z); return r; }
#endif
