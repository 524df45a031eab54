// P28: ternary fields GF(3^m), their towers, and the type I pairing, against
// coefficient-by-coefficient reference arithmetic.
#include <pbc.h>
#include <pbc_ternary_extension_field.h>
#include "vh.h"
#define MX 700
typedef struct lv { int m, t, dim, n; struct lv *sub; field_t f; } lv; // n = 1: base, 2: s^2 = -1, 3: p^3 = p + 1
static void rmul(lv *L, const signed char *a, const signed char *b, signed char *c) {
  if (L->n == 1) { int w[2 * MX] = { 0 }, m = L->m; for (int i = 0; i < m; i++) if (a[i]) for (int j = 0; j < m; j++) w[i + j] += a[i] * b[j]; for (int d = 2 * m - 2; d >= m; d--) { int k = w[d] % 3; w[d] = 0; w[d - m + L->t] -= k; w[d - m] -= 2 * k; } for (int i = 0; i < m; i++) c[i] = ((w[i] % 3) + 3) % 3; return; }
  int n = L->n, d = L->sub->dim; int w[5][MX]; memset(w, 0, sizeof w); signed char t[MX];
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { rmul(L->sub, a + i * d, b + j * d, t); for (int k = 0; k < d; k++) w[i + j][k] += t[k]; }
  if (n == 2) for (int k = 0; k < d; k++) w[0][k] -= w[2][k]; else for (int e = 4; e >= 3; e--) for (int k = 0; k < d; k++) { w[e - 2][k] += w[e][k]; w[e - 3][k] += w[e][k]; }
  for (int i = 0; i < n; i++) for (int k = 0; k < d; k++) c[i * d + k] = ((w[i][k] % 3) + 3) % 3;
}
static void put(lv *L, element_t e, const signed char *v) { if (L->n == 1) { unsigned char b[MX]; memset(b, 0, sizeof b); for (int i = 0; i < L->m; i++) if (v[i]) b[2 * (i / 8) + (v[i] == 2)] |= 1 << (i & 7); element_from_bytes(e, b); return; } for (int i = 0; i < L->n; i++) put(L->sub, element_item(e, i), v + i * L->sub->dim); }
static int get(lv *L, element_t e, signed char *v) { if (L->n == 1) { unsigned char b[MX]; memset(b, 0, sizeof b); int l = element_length_in_bytes(e), k = element_to_bytes(b, e); if (l != k) return 0; int ok = 1; for (int i = 0; i < 4 * l; i++) { int x = b[2 * (i / 8)] >> (i & 7) & 1, y = b[2 * (i / 8) + 1] >> (i & 7) & 1; if ((x && y) || (i >= L->m && (x || y))) ok = 0; else if (i < L->m) v[i] = x ? 1 : y ? 2 : 0; } return ok; } for (int i = 0; i < L->n; i++) if (!get(L->sub, element_item(e, i), v + i * L->sub->dim)) return 0; return 1; }
static char *sh(const signed char *v, int n) { static char b[8][MX]; static int k; char *o = b[k++ & 7]; for (int i = 0; i < n; i++) o[i] = '0' + v[i]; o[n] = 0; return o; }
static lv *mk(int kind, int m, int t) { // kind: 1 GF(3^m), 2 GF(3^2m), 3 GF(3^3m), 6 GF(3^6m)
  lv *b = calloc(1, sizeof *b); b->m = m; b->t = t; b->n = 1; b->dim = m; field_init_gf3m(b->f, m, t); if (kind == 1) return b;
  lv *s = b; if (kind == 2 || kind == 6) { s = calloc(1, sizeof *s); s->n = 2; s->sub = b; s->dim = 2 * m; s->m = m; field_init_gf32m(s->f, b->f); } if (kind == 2) return s;
  lv *c = calloc(1, sizeof *c); c->n = 3; c->sub = s; c->dim = 3 * s->dim; c->m = m; field_init_gf33m(c->f, s->f); return c; }
static void fre(lv *L) { field_clear(L->f); if (L->sub) fre(L->sub); free(L); }
#define EQV(e, v, ...) do { signed char g_[MX]; memset(g_, 9, L->dim); int ok_ = get(L, e, g_); CHECK(ok_ && !memcmp(g_, v, L->dim), __VA_ARGS__); STEP(); } while (0)
static element_t A, B, C, D; static int isfield, cheap;
static void addv(int n, const signed char *a, const signed char *b, int s, signed char *c) { for (int i = 0; i < n; i++) c[i] = (a[i] + s * b[i] + 3) % 3; }
static void unary(lv *L, const signed char *a) {
  signed char r[MX], z[MX], s[MX]; int n = L->dim; memset(z, 0, n); int is0 = !memcmp(a, z, n); z[0] = 1; int is1 = !memcmp(a, z, n); z[0] = 0; STATE();
  put(L, A, a); EQV(A, a, "encoding of %s", sh(a, n)); element_set(C, A); EQV(C, a, "set %s", sh(a, n)); CHECK(!element_cmp(A, C), "cmp of equals"); CHECK(!!element_is0(A) == is0 && !!element_is1(A) == is1, "is0/is1 of %s", sh(a, n));
  addv(n, z, a, -1, r); element_neg(C, A); EQV(C, r, "-%s", sh(a, n)); element_set(C, A); element_neg(C, C); EQV(C, r, "-%s in place", sh(a, n));
  rmul(L, a, a, s); element_square(C, A); EQV(C, s, "%s^2", sh(a, n)); element_set(C, A); element_square(C, C); EQV(C, s, "%s^2 in place", sh(a, n)); element_mul(C, A, A); EQV(C, s, "%s*itself", sh(a, n)); element_set(C, A); element_mul(C, C, C); EQV(C, s, "c*c in c"); 
  rmul(L, s, a, r); element_cubic(C, A); EQV(C, r, "%s^3", sh(a, n)); element_set(C, A); element_cubic(C, C); EQV(C, r, "%s^3 in place", sh(a, n));
  addv(n, a, a, 1, r); element_double(C, A); EQV(C, r, "2*%s", sh(a, n)); element_add(C, A, A); EQV(C, r, "a+a"); element_set(C, A); element_add(C, C, C); EQV(C, r, "c+c in c"); element_sub(C, A, A); EQV(C, z, "a-a"); element_set(C, A); element_sub(C, C, C); EQV(C, z, "c-c in c");
  EQV(A, a, "operand changed");
  if (isfield && !is0) { element_invert(C, A); element_mul(D, C, A); z[0] = 1; EQV(D, z, "%s^-1", sh(a, n)); signed char iv[MX]; get(L, C, iv); rmul(L, iv, a, r); CHECK(!memcmp(r, z, n), "inverse of %s", sh(a, n)); element_set(D, A); element_invert(D, D); EQV(D, iv, "inverse in place of %s", sh(a, n)); element_div(D, C, C); EQV(D, z, "c/c"); z[0] = 0; EQV(A, a, "operand changed"); }
  if (isfield && L->n == 1 && L->m % 2 && cheap) { put(L, C, s); element_sqrt(D, C); signed char q[MX], q2[MX]; CHECK(get(L, D, q), "encoding of a root"); rmul(L, q, q, q2); CHECK(!memcmp(q2, s, n), "sqrt of %s", sh(s, n)); element_sqrt(C, C); EQV(C, q, "sqrt in place"); }
}
static void binary(lv *L, const signed char *a, const signed char *b) {
  signed char sm[MX], df[MX], pr[MX]; int n = L->dim; addv(n, a, b, 1, sm); addv(n, a, b, -1, df); rmul(L, a, b, pr); STATE();
  put(L, A, a); put(L, B, b); element_add(C, A, B); EQV(C, sm, "%s + %s", sh(a, n), sh(b, n)); element_sub(C, A, B); EQV(C, df, "%s - %s", sh(a, n), sh(b, n)); element_mul(C, A, B); EQV(C, pr, "%s * %s", sh(a, n), sh(b, n)); int e = !memcmp(a, b, n); CHECK(!element_cmp(A, B) == e && !element_cmp(B, A) == e, "cmp %s %s", sh(a, n), sh(b, n));
  element_set(D, A); element_add(D, D, B); EQV(D, sm, "in place +"); element_set(D, A); element_sub(D, D, B); EQV(D, df, "in place -"); element_set(D, A); element_mul(D, D, B); EQV(D, pr, "in place *"); element_set(D, B); element_add(D, A, D); EQV(D, sm, "in place + right"); element_set(D, B); element_sub(D, A, D); EQV(D, df, "in place - right"); element_set(D, B); element_mul(D, A, D); EQV(D, pr, "in place * right"); EQV(A, a, "operand changed"); EQV(B, b, "operand changed");
}
static void dec(long k, int n, signed char *v) { for (int i = 0; i < n; i++) { v[i] = k % 3; k /= 3; } }
static void open_(lv *L) { element_init(A, L->f); element_init(B, L->f); element_init(C, L->f); element_init(D, L->f); }
static void close_(lv *L) { element_clear(A); element_clear(B); element_clear(C); element_clear(D); fre(L); }
static void common(lv *L) { mpz_t z; mpz_init(z); mpz_ui_pow_ui(z, 3, L->dim); CHECK(!mpz_cmp(z, L->f->order), "order %s", vh_mpzs(L->f->order)); signed char v[MX]; memset(v, 0, MX); element_set0(A); EQV(A, v, "set0"); v[0] = 1; element_set1(A); EQV(A, v, "set1"); for (int i = 0; i < 40; i++) { element_random(A); CHECK(get(L, A, v), "random element not canonical"); STATE(); }
  // powers against repeated multiplication
  signed char g[MX], p[MX]; for (int q = 0; q < 3; q++) { dec(q == 0 ? 3 : q == 1 ? 7 : 14, L->dim, g); memset(p, 0, MX); p[0] = 1; put(L, A, g); for (int e = 0; e < 30; e++) { mpz_set_ui(z, e); element_pow_mpz(C, A, z); EQV(C, p, "power %d", e); rmul(L, p, g, p); } } mpz_clear(z); }
static void exh(long m, long t, long kf) { int kind = kf & 15, cap = kf >> 8; isfield = kf >> 4 & 1; cheap = 1; lv *L = mk(kind, m, t); open_(L); vh_outerf("GF(3^%d), x^%ld+x^%ld+2", L->dim, m, t); common(L); long N = 1; for (int i = 0; i < L->dim; i++) N *= 3; signed char a[MX], b[MX]; long st = N > 60000 ? N / 60000 * 2 + 1 : 1; 
  for (long i = 0; i < N; i += st) { dec(i, L->dim, a); CTX("element %ld", i); unary(L, a); }
  if (kind == 1 && N <= 20000) { unsigned char *hit = calloc(N, 1); for (long i = 0; i < N; i++) { CTX("random draw %ld", i); vh_rng_reset(); vh_rng_push_ui(i); element_set(A, B); element_random(A); STEP(); CHECK(get(L, A, a), "random element not canonical"); long k = 0; for (int j = L->dim - 1; j >= 0; j--) k = 3 * k + a[j]; CHECK(!hit[k], "random element %s arises from two draws: the distribution is not uniform", sh(a, L->dim)); hit[k] = 1; } free(hit); vh_rng_reset(); vh_rng_seed(1); }
  long lim = vh_thorough ? 3000000 : cap ? cap : 250000; st = 1; while ((N / st) * N > lim) st++; for (long i = 0, k = 0; i < N; i += st > 3 && i < 9 ? 1 : st, k++) for (long j = st > N ? k % 7 : 0; j < N; j += st > N ? N / 20 + 1 : 1) { dec(i, L->dim, a); dec(j, L->dim, b); CTX("elements %ld %ld", i, j); binary(L, a, b); }
  close_(L); }
static int special(int m, int t, signed char (*S)[MX], int mono) { int n = 0; memset(S, 0, MX * (size_t) (2 * m + 80)); 
#define SP S[n++]
  n++; SP[0] = 1; SP[0] = 2; for (int i = 0; i < m; i++) S[n][i] = 1; n++; for (int i = 0; i < m; i++) S[n][i] = 2; n++; for (int i = 0; i < m; i++) S[n][i] = i % 3; n++; for (int i = 0; i < m; i++) S[n][i] = 2 - i % 3; n++; for (int q = 0; q < 6; q++) { for (int i = 0; i < m; i++) S[n][i] = vh_mix(i * 31 + q) % 3; n++; } for (int w = 0; w * 64 < m; w++) { for (int i = 64 * w; i < m && i < 64 * w + 64; i++) S[n][i] = 1 + (i & 1); n++; } for (int q = 0; q < 4 && m > 64; q++) { int i = 62 + q; if (i < m) { S[n][i] = 1 + (q & 1); S[n][0] = 2; n++; } } { S[n][m - 1] = 2; S[n][t] = 1; n++; S[n][m - 1] = 1; S[n][m - 2] = 2; n++; }
  if (mono) for (int i = 1; i < m; i++) { S[n][i] = 1 + (i & 1); n++; } return n; }
static void big(long m, long t, long irr) { isfield = irr; lv *L = mk(1, m, t); open_(L); cheap = m < 140; vh_outerf("GF(3^%ld), x^%ld+x^%ld+2", m, m, t); common(L); signed char (*S)[MX] = malloc(MX * (size_t) (2 * m + 80)); int n = special(m, t, S, 1), ns = special(m, t, S, 0); n = special(m, t, S, 1);
  for (int i = 0; i < n; i++) { cheap = m < 140 && (i < ns || i % 8 == 0); CTX("special %ld", i); unary(L, S[i]); } for (int i = 0; i < n; i++) for (int j = 0; j < n; j += (i < ns || vh_thorough ? 1 : m > 100 ? 13 : 3)) { CTX("special %ld %ld", i, j); binary(L, S[i], S[j]); } free(S); close_(L); }
static void bigtower(long m, long t, long kf) { int kind = kf & 15; isfield = kf >> 4 & 1; cheap = 0; lv *L = mk(kind, m, t); open_(L); vh_outerf("GF(3^%d) over x^%ld+x^%ld+2", L->dim, m, t); common(L); signed char (*S)[MX] = malloc(MX * (size_t) (2 * m + 80)); int ns = special(m, t, S, 0); signed char a[MX], b[MX]; int step = vh_thorough ? 1 : 3;
  for (int i = 0; i < ns; i++) for (int j = 0; j < ns; j += step) { for (int q = 0; q < kind; q++) { memcpy(a + q * m, S[(i * (q + 1) + q * j) % ns], m); memcpy(b + q * m, S[(j * (q + 2) + i) % ns], m); } CTX("special %ld %ld", i, j); if (j < 3) unary(L, a); binary(L, a, b); } free(S); close_(L); }

// ---- the curve y^2 = x^3 - x + 1 and the type I pairing ----------------
typedef struct { int inf; signed char x[20], y[20]; } pt; static lv *F; static int m_;
static void rinv(const signed char *a, signed char *o) { // a^(3^m - 2)
  signed char r[MX] = { 1 }, b[MX]; long e = 1; for (int i = 0; i < m_; i++) e *= 3; e -= 2; memcpy(b, a, m_); for (; e; e >>= 1) { if (e & 1) rmul(F, r, b, r); rmul(F, b, b, b); } memcpy(o, r, m_); }
static int oncurve(pt *p) { if (p->inf) return 1; signed char t[MX], u[MX]; rmul(F, p->x, p->x, t); rmul(F, t, p->x, t); addv(m_, t, p->x, -1, t); t[0] = (t[0] + 1) % 3; rmul(F, p->y, p->y, u); return !memcmp(t, u, m_); }
static void radd(pt *a, pt *b, pt *c) { pt r; memset(&r, 0, sizeof r); if (a->inf) { *c = *b; return; } if (b->inf) { *c = *a; return; } signed char l[MX], t[MX]; 
  if (!memcmp(a->x, b->x, m_)) { signed char s[MX]; addv(m_, a->y, b->y, 1, s); int z = 1; for (int i = 0; i < m_; i++) if (s[i]) z = 0; if (z) { r.inf = 1; *c = r; return; } // tangent: slope (3x^2 - 1)/(2y) = -1/(2y) = 1/y
    rinv(a->y, l); } else { addv(m_, b->x, a->x, -1, t); rinv(t, l); addv(m_, b->y, a->y, -1, t); rmul(F, l, t, l); }
  rmul(F, l, l, t); addv(m_, t, a->x, -1, t); addv(m_, t, b->x, -1, t); memcpy(r.x, t, m_); addv(m_, a->x, r.x, -1, t); rmul(F, t, l, t); addv(m_, t, a->y, -1, t); memcpy(r.y, t, m_); *c = r; }
static int rd(element_t e, pt *p) { char *s = NULL; size_t n; FILE *f = open_memstream(&s, &n); memset(p, 0, sizeof *p); element_out_str(f, 10, e); fclose(f); int ok = 1; if (!strcmp(s, "O")) p->inf = 1; else { unsigned long w[4]; if (sscanf(s, "%lu,%lu,%lu,%lu,", w, w + 1, w + 2, w + 3) != 4) ok = 0; else for (int i = 0; i < 64; i++) for (int q = 0; q < 2; q++) { int a = w[2 * q] >> i & 1, b = w[2 * q + 1] >> i & 1; if ((a && b) || (i >= m_ && (a || b))) ok = 0; else if (i < m_) (q ? p->y : p->x)[i] = a ? 1 : b ? 2 : 0; } } free(s); return ok; }
#define PEQ(e, p, ...) do { pt g_; int ok_ = rd(e, &g_); CHECK(ok_ && g_.inf == (p).inf && (g_.inf || (!memcmp(g_.x, (p).x, m_) && !memcmp(g_.y, (p).y, m_))), __VA_ARGS__); STEP(); } while (0)
static void openi(pairing_t pr, long m, long t, long n, long n2) { char s[200]; sprintf(s, "type i\nm %ld\nt %ld\nn %ld\nn2 %ld\n", m, t, n, n2); CHECK(!pairing_init_set_str(pr, s), "parameters rejected"); m_ = m; F = mk(1, m, t); vh_outerf("type i m=%ld n=%ld", m, n); }
static const struct { int m, t; long n, n2; } ti[] = { { 5, 4, 217, 1 }, { 5, 4, 31, 7 }, { 5, 4, 7, 31 }, { 7, 2, 43, 49 }, { 7, 2, 301, 7 }, { 11, 2, 7, 25411 }, { 11, 8, 25411, 7 }, { 13, 4, 79, 20209 }, { 13, 6, 2887, 553 }, { 13, 12, 7, 228073 } };
static void curve(long k, long b_, long c_) { pairing_t pr; openi(pr, ti[k].m, ti[k].t, ti[k].n, ti[k].n2); long n = ti[k].n; element_t *P, g, c, d; element_init_G1(g, pr); element_init_G1(c, pr); element_init_G1(d, pr); mpz_t z; mpz_init(z);
  // a generator of the group
  for (int i = 0;; i++) { element_random(g); int full = 1; for (long q = 2; q <= n; q++) if (n % q == 0) { int prm = 1; for (long u = 2; u * u <= q; u++) if (q % u == 0) prm = 0; if (prm) { mpz_set_ui(z, n / q); element_mul_mpz(c, g, z); if (element_is0(c)) full = 0; } } if (full) break; if (i > 300) { CHECK(0, "no generator in 300 draws"); return; } }
  P = malloc(sizeof(element_t) * n); pt *R = malloc(sizeof(pt) * n); memset(R, 0, sizeof(pt)); R[0].inf = 1; CHECK(rd(g, &R[1]) && oncurve(&R[1]), "random point not on the curve");
  for (long i = 0; i < n; i++) { CTX("multiple %ld", i); element_init_G1(P[i], pr); STATE(); if (i == 0) element_set0(P[0]); else if (i == 1) element_set(P[1], g); else { element_add(P[i], P[i - 1], g); radd(&R[i - 1], &R[1], &R[i]); } PEQ(P[i], R[i], "%ld*G", i); CHECK(oncurve(&R[i]), "reference left the curve"); CHECK(!!element_is0(P[i]) == !i && !!element_is1(P[i]) == !i, "is0 of %ld*G", i); mpz_set_ui(z, i); element_mul_mpz(c, g, z); PEQ(c, R[i], "mul_mpz %ld", i); element_pow_mpz(c, g, z); PEQ(c, R[i], "pow_mpz %ld", i); element_neg(c, P[i]); element_add(d, c, P[i]); CHECK(element_is0(d), "P + (-P)"); element_invert(d, P[i]); CHECK(!element_cmp(c, d), "neg and invert"); element_double(c, P[i]); }
  element_add(c, P[n - 1], g); CHECK(element_is0(c), "order");
  long st = n > 400 && !vh_thorough ? n / 60 : n > 3000 ? n / 300 : 1; for (long i = 0; i < n; i += st) for (long j = 0; j < n; j += st) { CTX("%ld*G + %ld*G", i, j); STATE(); pt *w = &R[(i + j) % n]; element_add(c, P[i], P[j]); PEQ(c, *w, "sum"); element_mul(c, P[i], P[j]); PEQ(c, *w, "product"); element_set(c, P[i]); element_add(c, c, P[j]); PEQ(c, *w, "sum in place"); element_set(c, P[j]); element_add(c, P[i], c); PEQ(c, *w, "sum in place right"); w = &R[(i - j + n) % n]; element_sub(c, P[i], P[j]); PEQ(c, *w, "difference"); element_div(c, P[i], P[j]); PEQ(c, *w, "quotient"); CHECK(!element_cmp(P[i], P[j]) == (i == j), "cmp"); if (i == j) { w = &R[2 * i % n]; element_set(c, P[i]); element_add(c, c, c); PEQ(c, *w, "c + c in c"); element_double(c, P[i]); PEQ(c, *w, "double"); element_square(c, P[i]); PEQ(c, *w, "square"); if (n & 1) { element_halve(c, P[i]); element_double(c, c); PEQ(c, R[i], "halve"); } } element_mul_si(c, P[i], j - n / 2); PEQ(c, R[(((__int128) i * (j - n / 2)) % n + n) % n], "mul_si %ld", j - n / 2); }
  // every random draw is a point of the group
  long q = 1; for (int i = 0; i < m_; i++) q *= 3; long qs = q > 3000 ? q / (vh_thorough ? 4000 : 400) : 1; for (long x = 1; x < q; x += qs) { CTX("draw %ld", x); vh_rng_reset(); vh_rng_push_ui(x); element_random(c); pt u; CHECK(rd(c, &u) && oncurve(&u), "random point"); mpz_set_ui(z, n); element_mul_mpz(d, c, z); CHECK(element_is0(d), "order of a random point"); STATE(); }
  for (long i = 0; i < n; i++) element_clear(P[i]); free(P); free(R); element_clear(g); element_clear(c); element_clear(d); mpz_clear(z); fre(F); pairing_clear(pr); }
static void pairs(long k, long b_, long c_) { pairing_t pr; openi(pr, ti[k].m, ti[k].t, ti[k].n, ti[k].n2); long n = ti[k].n; mpz_t z; mpz_init(z); element_t g, a, b, e, u, v; element_init_G1(g, pr); element_init_G1(a, pr); element_init_G2(b, pr); element_init_GT(e, pr); element_init_GT(u, pr); element_init_GT(v, pr);
  for (int i = 0;; i++) { element_random(g); int full = 1; for (long q = 2; q <= n; q++) if (n % q == 0) { mpz_set_ui(z, n / q); int prm = 1; for (long w = 2; w * w <= q; w++) if (q % w == 0) prm = 0; element_mul_mpz(a, g, z); if (prm && element_is0(a)) full = 0; } if (full) break; if (i > 300) { CHECK(0, "no generator"); return; } }
  element_pairing(e, g, g); long T = n; element_t *E = malloc(sizeof(element_t) * T); for (long i = 0; i < T; i++) { element_init_GT(E[i], pr); if (!i) element_set1(E[0]); else element_mul(E[i], E[i - 1], e); CHECK(!!element_is1(E[i]) == !i && (!i || element_cmp(E[i], E[0])), "e(G,G) has order %ld, not %ld", i, n); STATE(); } element_mul(u, E[T - 1], e); CHECK(element_is1(u), "e(G,G)^n");
  long cap = vh_thorough ? 60000 : ti[k].m > 7 ? 700 : 2500; long st = 1; while ((n / st + 1) * (n / st + 1) > cap) st++; element_set0(a); for (long i = 0; i < n; i += st) { mpz_set_ui(z, i); element_mul_mpz(a, g, z); pairing_pp_t pp; int hp = i % 3 == 0 || n < 50; if (hp) pairing_pp_init(pp, a, pr); for (long j = 0; j < n; j += st) { CTX("e(%ld*G, %ld*G)", i, j); mpz_set_ui(z, j); element_mul_mpz(b, g, z); element_pairing(u, a, b); STEP(); STATE(); CHECK(!element_cmp(u, E[(__int128) i * j % n]), "pairing is not e(G,G)^%ld", i * j); if (hp) { pairing_pp_apply(v, b, pp); CHECK(!element_cmp(u, v), "precomputed pairing"); } if (i == j) { pairing_apply(v, a, b, pr); CHECK(!element_cmp(u, v), "pairing_apply"); element_pairing(v, b, a); CHECK(!element_cmp(u, v), "symmetry"); } 
      if (i % 5 == 1 && j % 4 == 2) { element_t in1[2], in2[2]; for (int q = 0; q < 2; q++) { element_init_G1(in1[q], pr); element_init_G2(in2[q], pr); } element_set(in1[0], a); element_set(in2[0], b); element_set(in1[1], g); element_set(in2[1], a); element_prod_pairing(v, in1, in2, 2); CHECK(!element_cmp(v, E[((__int128) i * j + i) % n]), "product of pairings"); for (int q = 0; q < 2; q++) { element_clear(in1[q]); element_clear(in2[q]); } } } if (hp) pairing_pp_clear(pp); }
  for (long i = 0; i < n; i += n > 60 ? n / 50 : 1) { CTX("GT %ld", i); mpz_set_ui(z, i); element_pow_mpz(u, e, z); CHECK(!element_cmp(u, E[i]), "power"); element_invert(v, u); CHECK(!element_cmp(v, E[(n - i) % n]), "inverse"); element_div(v, e, u); CHECK(!element_cmp(v, E[(n + 1 - i) % n]), "quotient"); element_square(v, u); CHECK(!element_cmp(v, E[2 * i % n]), "square"); element_double(v, u); CHECK(!element_cmp(v, E[2 * i % n]), "double"); element_neg(v, u); CHECK(!element_cmp(v, E[(n - i) % n]), "neg"); element_random(v); mpz_set_ui(z, n); element_pow_mpz(v, v, z); CHECK(element_is1(v), "random GT element"); STATE(); }
  for (long i = 0; i < T; i++) element_clear(E[i]); free(E); element_clear(g); element_clear(a); element_clear(b); element_clear(e); element_clear(u); element_clear(v); mpz_clear(z); fre(F); pairing_clear(pr); }
void vh_register(void) {
  static const struct { int m, t; } sm[] = { { 2, 1 }, { 3, 2 }, { 4, 1 }, { 4, 2 }, { 4, 3 }, { 5, 4 }, { 6, 1 }, { 6, 5 }, { 7, 2 }, { 8, 3 }, { 9, 4 } };
  for (int i = 0; i < 11; i++) vh_unit(exh, sm[i].m, sm[i].t, 1 | 16 | (sm[i].m > 5 ? 60000L << 8 : 0), "gf3m/%d-%d", sm[i].m, sm[i].t);
  vh_unit(exh, 5, 1, 1, "ring/5-1"); vh_unit(exh, 3, 1, 1, "ring/3-1"); vh_unit(exh, 4, 1, 2, "gf32m/ring4"); vh_unit(exh, 2, 1, 2, "gf32m/ring2"); vh_unit(exh, 3, 2, 2 | 16 | 120000L << 8, "gf32m/3"); vh_unit(exh, 5, 4, 2 | 16 | 60000L << 8, "gf32m/5");
  vh_unit(exh, 2, 1, 3 | 16 | 120000L << 8, "gf33m/2"); vh_unit(exh, 4, 3, 3 | 16 | 40000L << 8, "gf33m/4"); vh_unit(exh, 3, 2, 3 | 40000L << 8, "gf33m/ring3"); vh_unit(exh, 2, 1, 6 | 30000L << 8, "gf36m/ring2"); vh_unit(exh, 5, 4, 3 | 16 | 20000L << 8, "gf33m/5");
  static const struct { int m, t, irr; } bg[] = { { 31, 20, 1 }, { 32, 5, 1 }, { 61, 30, 1 }, { 61, 54, 1 }, { 62, 1, 0 }, { 62, 61, 0 }, { 63, 26, 1 }, { 64, 3, 1 }, { 64, 61, 1 }, { 65, 64, 0 }, { 65, 63, 0 }, { 66, 64, 0 }, { 67, 2, 1 }, { 97, 12, 1 }, { 126, 65, 1 }, { 127, 8, 1 }, { 128, 6, 1 }, { 128, 64, 1 }, { 129, 128, 0 }, { 191, 120, 1 }, { 192, 160, 1 }, { 193, 64, 1 }, { 257, 3, 0 }, { 320, 9, 0 }, { 321, 256, 0 }, { 400, 5, 0 } };
  for (int i = 0; i < (vh_thorough ? 26 : 26); i++) vh_unit(big, bg[i].m, bg[i].t, bg[i].irr, "big/%d-%d", bg[i].m, bg[i].t);
  for (int k = 2; k <= 6; k++) if (k != 4 && k != 5) { vh_unit(bigtower, 61, 30, k | 16, "tower%d/61", k); vh_unit(bigtower, 67, 2, k | 16, "tower%d/67", k); vh_unit(bigtower, 97, 12, k | 16, "tower%d/97", k); vh_unit(bigtower, 64, 3, k | (k == 3 ? 16 : 0), "tower%d/64", k); }
  for (int k = 0; k < 10; k++) { if (ti[k].n < 5000) vh_unit(curve, k, 0, 0, "curve/m%d-n%ld", ti[k].m, ti[k].n); if (k == 6 && vh_thorough) vh_unit(curve, k, 0, 0, "curve/m11-n25411"); if (ti[k].n != 301) vh_unit(pairs, k, 0, 0, "pairing/m%d-n%ld", ti[k].m, ti[k].n); }
}
