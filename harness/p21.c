// P21: objects in use at the same time do not disturb each other.  Every
// interleaving of the steps of two (three) scripts, each working with its own
// pairing, field or generator, is run; each script must log what it logs alone.
#include "pair.h"
#include <pbc_hilbert.h>
#include <pbc_fp.h>
#include <pbc_poly.h>
#include <pbc_fieldquadratic.h>
#define NS 7
typedef struct { int kind; long arg; } actor; // kind 0 toy/real pairing, 1 generators and Hilbert polynomials, 2 fields
typedef struct { pairing_t pr; element_t P, Q, S, g, h, z; pairing_pp_t pp; element_pp_t ep; int log_n; unsigned char log[6000]; pbc_param_t par; field_t f, x, e, k; element_t a, b, c, p, d; int skip; } st;
static void lg(st *s, const void *d, int n) { if (s->log_n + n > (int) sizeof s->log) n = sizeof s->log - s->log_n; memcpy(s->log + s->log_n, d, n); s->log_n += n; }
static void lge(st *s, element_ptr e) { unsigned char b[2000]; int n = element_length_in_bytes(e); if (n > 2000) return; element_to_bytes(b, e); lg(s, b, n); }
static void lgi(st *s, int v) { lg(s, &v, sizeof v); }
static void seed(long k) { srand(k); vh_rng_reset(); vh_rng_seed(k); }
static void pstep(actor *a, st *s, int k) {
  int I = !strcmp(ps_type(a->arg), "i");
  switch (k) {
    case 0: { seed(3); char *t = ps_text(a->arg); lgi(s, pairing_init_set_str(s->pr, t)); free(t); lgi(s, pairing_is_symmetric(s->pr)); lg(s, s->pr->r->_mp_d, 8); if (!I) { lgi(s, pairing_length_in_bytes_G1(s->pr)); lgi(s, pairing_length_in_bytes_x_only_G2(s->pr)); lgi(s, pairing_length_in_bytes_GT(s->pr)); } } break;
    case 1: element_init_G1(s->P, s->pr); element_init_G2(s->Q, s->pr); element_init_G1(s->S, s->pr); element_init_GT(s->g, s->pr); element_init_GT(s->h, s->pr); element_init_Zr(s->z, s->pr); if (I) { seed(5); element_random(s->P); seed(6); element_random(s->Q); } else { grp_gen(s->P, s->pr->r, 1); grp_gen(s->Q, s->pr->r, 2); lge(s, s->P); lge(s, s->Q); } element_set(s->S, s->P); break;
    case 2: if (ps_methods(a->arg, 0)) pairing_option_set(s->pr, "method", (char *) ps_methods(a->arg, a->arg & 1)); pairing_apply(s->g, s->P, s->Q, s->pr); if (!I) lge(s, s->g); else { element_pow_mpz(s->h, s->g, s->pr->r); lgi(s, element_is1(s->h)); } break;
    case 3: pairing_pp_init(s->pp, s->P, s->pr); element_pp_init(s->ep, s->P); break;
    case 4: pairing_pp_apply(s->h, s->Q, s->pp); lgi(s, element_cmp(s->g, s->h)); { element_t u[2], v[2]; for (int i = 0; i < 2; i++) { element_init_G1(u[i], s->pr); element_init_G2(v[i], s->pr); element_set(u[i], s->P); element_set(v[i], s->Q); } element_double(v[1], v[1]); element_prod_pairing(s->h, u, v, 2); if (!I) lge(s, s->h); for (int i = 0; i < 2; i++) { element_clear(u[i]); element_clear(v[i]); } } break;
    case 5: seed(8); element_random(s->z); if (!I) lge(s, s->z); element_pp_pow_zn(s->S, s->z, s->ep); element_mul_zn(s->P, s->P, s->z); lgi(s, element_cmp(s->P, s->S)); element_pow_zn(s->g, s->g, s->z); if (!I) { lge(s, s->P); lge(s, s->g); unsigned char b[400]; int n = element_to_bytes_compressed(b, s->P); lg(s, b, n); lgi(s, element_from_bytes_compressed(s->S, b)); lge(s, s->S); element_from_hash(s->Q, "some text", 9); lge(s, s->Q); element_from_hash(s->z, "other", 5); lge(s, s->z); char t[300]; element_snprint(t, 300, s->P); lg(s, t, strlen(t)); lgi(s, element_set_str(s->P, t, 10)); lge(s, s->P); } break;
    case 6: pairing_pp_clear(s->pp); element_pp_clear(s->ep); element_clear(s->P); element_clear(s->Q); element_clear(s->S); element_clear(s->g); element_clear(s->h); element_clear(s->z); pairing_clear(s->pr); break;
  }
}
static void lgp(st *s, pbc_param_ptr p) { char *b; size_t n; FILE *f = open_memstream(&b, &n); pbc_param_out_str(f, p); fclose(f); lg(s, b, n); free(b); }
static void gstep(actor *a, st *s, int k) {
  switch (k) {
    case 0: case 3: { mpz_t *c; size_t n = pbc_hilbert(&c, k ? 23 + a->arg * 8 : 71); for (size_t i = 0; i < n; i++) { char *t = mpz_get_str(NULL, 16, c[i]); lg(s, t, strlen(t)); free(t); } pbc_hilbert_free(c, n); } break;
    case 1: seed(11); pbc_param_init_a_gen(s->par, 20, 60 + a->arg); break;
    case 2: lgp(s, s->par); break;
    case 4: seed(12); pairing_init_pbc_param(s->pr, s->par); element_init_G1(s->P, s->pr); element_random(s->P); lge(s, s->P); break;
    case 5: pbc_param_clear(s->par); { mpz_t n; mpz_init_set_ui(n, 1009 * 1013); pbc_param_init_a1_gen(s->par, n); mpz_clear(n); } lgp(s, s->par); break;
    case 6: element_clear(s->P); pairing_clear(s->pr); pbc_param_clear(s->par); break;
  }
}
static void fstep(actor *a, st *s, int k) {
  mpz_t z; mpz_init(z);
  switch (k) {
    case 0: if (a->arg == 2) mpz_set_str(z, "340282366920938463463374607431768211507", 10); else mpz_set_ui(z, a->arg ? 10007 : 19); field_init_fp(s->f, z); field_init_poly(s->x, s->f); element_init(s->p, s->x); break;
    case 1: seed(21); do poly_random_monic(s->p, 3); while (!poly_is_irred(s->p)); lge(s, s->p); field_init_polymod(s->e, s->p); field_init_quadratic(s->k, s->f); element_init(s->a, s->e); element_init(s->b, s->e); element_init(s->c, s->k); element_init(s->d, s->k); break;
    case 2: seed(22); element_random(s->a); element_random(s->c); lge(s, s->a); element_square(s->b, s->a); element_invert(s->b, s->b); lge(s, s->b); break;
    case 3: lgi(s, element_is_sqr(s->b)); seed(23); element_sqrt(s->b, s->b); lge(s, s->b); element_square(s->d, s->c); seed(24); element_sqrt(s->d, s->d); lge(s, s->d); break;
    case 4: mpz_set_ui(z, 12345); element_pow_mpz(s->a, s->a, z); lge(s, s->a); element_mul(s->c, s->c, s->d); lge(s, s->c); { char t[400]; element_snprintf(t, 400, "%B|%B", s->a, s->c); lg(s, t, strlen(t)); } break;
    case 5: element_from_hash(s->a, "abcdefghijk", 11); lge(s, s->a); if (a->arg < 2) { element_t h; element_init(h, s->f); element_set_si(h, 5); element_set_si(element_item(s->a, 0), 0); element_t g; element_init(g, s->f); element_set_si(g, 3); mpz_t e; mpz_init_set_ui(e, 11); element_pow_mpz(h, g, e); element_dlog_brute_force(g, g, h); lge(s, g); mpz_clear(e); element_clear(g); element_clear(h); } break;
    case 6: element_clear(s->a); element_clear(s->b); element_clear(s->c); element_clear(s->d); element_clear(s->p); field_clear(s->e); field_clear(s->k); field_clear(s->x); field_clear(s->f); break;
  }
  mpz_clear(z);
}
static void step(actor *a, st *s, int k) { STEP(); if (a->kind == 0) pstep(a, s, k); else if (a->kind == 1) gstep(a, s, k); else fstep(a, s, k); }
static actor A[40]; static int nA;
static int firsttoy(const char *t, int nth) { for (int i = 0; i < NTOYS; i++) if (!strcmp(toys[i].type, t) && !ps_degenerate(i) && toys[i].r >= 5 && (strcmp(t, "a1") || (toys[i].r % 2 && toys[i].r % 3)) && !nth--) return i; return -1; }
static void actors(void) { static const char *ty[] = { "a", "a1", "d", "e", "f", "g" }; nA = 0; for (int n = 0; n < 2; n++) for (int t = 0; t < 6; t++) { int i = firsttoy(ty[t], n * 3); if (i < 0) i = firsttoy(ty[t], 0); A[nA++] = (actor) { 0, i }; } for (int i = 0; i < 2; i++) A[nA++] = (actor) { 1, i }; for (int i = 0; i < 3; i++) A[nA++] = (actor) { 2, i }; A[nA++] = (actor) { 0, NTOYS + REAL_I }; A[nA++] = (actor) { 0, NTOYS }; A[nA++] = (actor) { 0, NTOYS + 2 }; }
static const char *an(actor *a) { static char b[4][80]; static int k; k = (k + 1) & 3; if (a->kind) snprintf(b[k], 80, "%s%ld", a->kind == 1 ? "generators" : "fields", a->arg); else snprintf(b[k], 80, "%s", ps_name(a->arg)); return b[k]; }
static st S[3], solo[3];
static void solorun(actor *a, st *s) { s->log_n = 0; for (int k = 0; k < NS; k++) step(a, s, k); }
// groups: the NS steps are bundled into runs of grp steps
static void check(actor **a, int n, const char *w) { for (int i = 0; i < n; i++) CHECK(S[i].log_n == solo[i].log_n && !memcmp(S[i].log, solo[i].log, solo[i].log_n), "%s: other results than alone", an(a[i])); (void) w; }
static void two(long i, long j, long grp) {
  actors(); actor *a[2] = { &A[i], &A[j] }; solorun(a[0], &solo[0]); solorun(a[1], &solo[1]); CHECK(solo[0].log_n > 8 && solo[1].log_n > 8, "nothing logged"); int m = (NS + grp - 1) / grp;
  for (unsigned w = 0; w < 1u << (2 * m); w++) { if (__builtin_popcount(w) != m) continue; if (i == j && (w & 1)) continue; STATE(); int p[2] = { 0, 0 }; S[0].log_n = S[1].log_n = 0; char wb[40]; for (int t = 0; t < 2 * m; t++) wb[t] = '0' + ((w >> t) & 1); wb[2 * m] = 0; vh_outerf("%s with %s, turns %s", an(a[0]), an(a[1]), wb);
    for (int t = 0; t < 2 * m; t++) { int x = (w >> t) & 1; for (int g = 0; g < grp && p[x] < NS; g++) step(a[x], &S[x], p[x]++); } check(a, 2, wb); TRACE(); }
}
static void three(long i, long j, long l) { // 3 turns each
  actors(); actor *a[3] = { &A[i], &A[j], &A[l] }; for (int k = 0; k < 3; k++) solorun(a[k], &solo[k]); static const int cut[4] = { 0, 3, 5, 7 };
  for (int w = 0; w < 19683; w++) { int c[3] = { 0, 0, 0 }, t[9], v = w; for (int k = 0; k < 9; k++) { t[k] = v % 3; c[t[k]]++; v /= 3; } if (c[0] != 3 || c[1] != 3) continue; STATE(); int p[3] = { 0, 0, 0 }; for (int k = 0; k < 3; k++) S[k].log_n = 0; vh_outerf("%s, %s, %s, turns %d", an(a[0]), an(a[1]), an(a[2]), w); for (int k = 0; k < 9; k++) { int x = t[k]; for (int q = cut[p[x]]; q < cut[p[x] + 1]; q++) step(a[x], &S[x], q); p[x]++; } check(a, 3, ""); TRACE(); }
}
void vh_register(void) {
  actors(); int nt = 17; // cheap actors first; the last three are real-size
  for (int i = 0; i < nA; i++) for (int j = i; j < nA; j++) { int g = i >= nt || j >= nt || ((A[i].kind == 1 || A[j].kind == 1) && !vh_thorough) ? 3 : 1; if (!vh_thorough) { if (i >= 6 && i < 12 && j >= 6 && j < 12) continue; if (i >= 6 && i < 12 && j >= nt) continue; if (g == 1) g = i == j || j == i + 6 || A[i].kind == 2 ? 1 : 2; if (g == 1 && (i % 6 > 3 && i < 12)) g = 2; if (g == 1 && (j % 6 > 3 && j < 12)) g = 2; } vh_unit(two, i, j, g, "two/%s+%s", an(&A[i]), an(&A[j])); }
  for (int i = 0; i < (vh_thorough ? 6 : 3); i++) for (int j = i; j < (vh_thorough ? 6 : 4); j++) vh_unit(three, i, j, vh_thorough ? (i + j) % 6 : 12 + (i + j) % 5, "three/%d-%d", i, j);
}
