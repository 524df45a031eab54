// P17: the ring Z and integer multinomials against GMP integers and against
// evaluation at points so far apart that evaluation is injective.
#include "mem.h"
#include "zoo.h"
#include "pbc_z.h"
#include "pbc_multiz.h"
#define MAXI 400
static mpz_t I[MAXI]; static int nI;
static void ints(int full) { nI = 0; int lim = full ? 40 : 9; for (int i = -lim; i <= lim; i++) mpz_init_set_si(I[nI++], i); static const int ks[] = { 6, 7, 8, 9, 15, 16, 24, 31, 32, 33, 62, 63, 64, 65, 127, 128, 200, 0 }; for (int i = 0; ks[i]; i++) for (int d = -1; d <= 1; d++) for (int s = 0; s < 2; s++) { mpz_init(I[nI]); mpz_setbit(I[nI], ks[i]); if (d < 0) mpz_sub_ui(I[nI], I[nI], 1); if (d > 0) mpz_add_ui(I[nI], I[nI], 1); if (s) mpz_neg(I[nI], I[nI]); nI++; } }
static void ints_clear(void) { while (nI) mpz_clear(I[--nI]); }
// ---- Z
enum { ADD, SUB, MUL, DIV, DOUB, HALVE, SQR, NEG, INV, SQRT, MULMPZ, MULSI, POW, SETSI, SETMPZ, SET, ADDUI, NZ };
static const char *zn[] = { "add", "sub", "mul", "div", "double", "halve", "square", "neg", "invert", "sqrt", "mul_mpz", "mul_si", "pow_mpz", "set_si", "set_mpz", "set", "add_ui" };
static int zref(mpz_t o, int op, mpz_t a, mpz_t b) { // 0: not defined here
  switch (op) { case ADD: mpz_add(o, a, b); break; case SUB: mpz_sub(o, a, b); break; case MUL: case MULMPZ: mpz_mul(o, a, b); break; case DIV: if (!mpz_sgn(b)) return 0; mpz_tdiv_q(o, a, b); break; case DOUB: mpz_add(o, a, a); break; case HALVE: if (mpz_odd_p(a)) return 0; mpz_divexact_ui(o, a, 2); break; case SQR: mpz_mul(o, a, a); break; case NEG: mpz_neg(o, a); break; case INV: if (mpz_cmpabs_ui(a, 1)) mpz_set_ui(o, 0); else mpz_set(o, a); break; case SQRT: { if (mpz_sgn(a) < 0) return 0; mpz_sqrt(o, a); mpz_t t; mpz_init(t); mpz_mul(t, o, o); int ok = !mpz_cmp(t, a); mpz_clear(t); return ok; }
    case MULSI: if (!mpz_fits_slong_p(b)) return 0; mpz_mul(o, a, b); break; case POW: if (mpz_sgn(b) < 0 || mpz_cmp_ui(b, 40) > 0) return 0; mpz_pow_ui(o, a, mpz_get_ui(b)); break; case SETSI: if (!mpz_fits_slong_p(b)) return 0; mpz_set(o, b); break; case SETMPZ: mpz_set(o, b); break; case SET: mpz_set(o, a); break; case ADDUI: if (!mpz_fits_ulong_p(b)) return 0; mpz_add(o, a, b); break; } return 1; }
static void zdo(int op, element_ptr c, element_ptr a, element_ptr b, mpz_t bz) {
  switch (op) { case ADD: element_add(c, a, b); break; case SUB: element_sub(c, a, b); break; case MUL: element_mul(c, a, b); break; case DIV: element_div(c, a, b); break; case DOUB: element_double(c, a); break; case HALVE: element_halve(c, a); break; case SQR: element_square(c, a); break; case NEG: element_neg(c, a); break; case INV: element_invert(c, a); break; case SQRT: element_sqrt(c, a); break; case MULMPZ: element_mul_mpz(c, a, bz); break; case MULSI: element_mul_si(c, a, mpz_get_si(bz)); break; case POW: element_pow_mpz(c, a, bz); break; case SETSI: element_set_si(c, mpz_get_si(bz)); break; case SETMPZ: element_set_mpz(c, bz); break; case SET: element_set(c, a); break; case ADDUI: c->field->add_ui(c, a, mpz_get_ui(bz)); break; }
}
static void zring(long op, long multi, long c_) {
  if (multi && (op == HALVE || op == INV || op == SQRT)) return; // not provided for multinomials
  long l0 = mem_live(); field_t Z; if (multi) field_init_multiz(Z); else field_init_z(Z); ints(1); element_t x, y, z; element_init(x, Z); element_init(y, Z); element_init(z, Z); mpz_t r, t, bz; mpz_init(r); mpz_init(t); mpz_init(bz); vh_outerf("%s %s", multi ? "multinomials" : "Z", zn[op]);
  for (int i = 0; i < nI; i++) for (int j = 0; j < nI; j++) { STATE(); if ((op == DOUB || op == HALVE || op == SQR || op == NEG || op == INV || op == SQRT || op == SET) && j) break; if (!zref(r, op, I[i], I[j])) continue;
    for (int al = 0; al < 4; al++) { if (al == 3 && i != j) continue; CTX("operands %s %s, aliasing %ld", vh_mpzs(I[i]), vh_mpzs(I[j]), al); element_set_mpz(x, I[i]); element_set_mpz(y, I[j]); element_set_si(z, 77); mpz_set(bz, I[j]); element_ptr d = al == 0 ? z : al == 1 || al == 3 ? x : y; zdo(op, d, x, al == 3 ? x : y, bz); STEP(); element_to_mpz(t, d); CHECK(!mpz_cmp(t, r), "result %s, expected %s", vh_mpzs(t), vh_mpzs(r)); if (d != x) { element_to_mpz(t, x); CHECK(!mpz_cmp(t, I[i]), "first operand changed"); } if (d != y) { element_to_mpz(t, y); CHECK(!mpz_cmp(t, I[j]), "second operand changed"); } CHECK(!mpz_cmp(bz, I[j]), "integer changed"); } }
  if (op == ADD) for (int i = 0; i < nI; i++) { CTX("value %s", vh_mpzs(I[i])); element_set_mpz(x, I[i]); CHECK(!element_is0(x) == !!mpz_sgn(I[i]) && !element_is1(x) == !!mpz_cmp_ui(I[i], 1), "is0/is1"); int s = element_sign(x); CHECK(s == 0 ? !mpz_sgn(I[i]) : (s > 0) == (mpz_sgn(I[i]) > 0), "sign"); if (!multi) CHECK(!element_is_sqr(x) == !mpz_perfect_square_p(I[i]), "is_sqr says %d", element_is_sqr(x)); for (int j = 0; j < nI; j++) { element_set_mpz(y, I[j]); int c = element_cmp(x, y), e = mpz_cmp(I[i], I[j]); CHECK((c > 0) == (e > 0) && (c < 0) == (e < 0), "cmp with %s", vh_mpzs(I[j])); } element_set0(y); CHECK(element_is0(y), "set0"); element_set1(y); CHECK(element_is1(y), "set1");
      for (int base = 2; base <= 36; base++) { char *s = mpz_get_str(NULL, base, I[i]); char b2[1000]; snprintf(b2, 1000, "  %s;rest", s); if (base <= 10 && mpz_sgn(I[i]) >= 0) { int k = element_set_str(y, b2, base); CHECK(k == (int) strlen(s) + 2 && !element_cmp(x, y), "reading \"%s\" in base %d: %d characters", b2, base, k); } char *mb_ = NULL; size_t mn; FILE *f = open_memstream(&mb_, &mn); size_t k = element_out_str(f, base, x); fclose(f); CHECK(k == strlen(s) && !strcmp(s, mb_), "printed \"%s\" (%zu) for \"%s\" in base %d", mb_, k, s, base); free(mb_); void (*ff)(void *, size_t); mp_get_memory_functions(NULL, NULL, &ff); ff(s, strlen(s) + 1); } }
  mpz_clear(r); mpz_clear(t); mpz_clear(bz); element_clear(x); element_clear(y); element_clear(z); ints_clear(); field_clear(Z); CHECK(mem_live() == l0, "memory left behind: %ld blocks", mem_live() - l0); mem_verify("Z");
}
static void zbytes_one(element_t x, element_t y, mpz_t v, mpz_t t) {
  unsigned char b[200], c[200]; element_set_mpz(x, v); int n = element_length_in_bytes(x); memset(b, 0xa7, sizeof b); STATE(); STEP(); int k = element_to_bytes(b + 8, x); CHECK(k == n, "writes %d bytes, announced %d", k, n); for (int i = 0; i < 8; i++) CHECK(b[i] == 0xa7 && b[8 + n + i] == 0xa7, "writes outside the %d announced bytes", n);
  CHECK(((b[8] << 24) | (b[9] << 16) | (b[10] << 8) | b[11]) == n - 4, "length prefix"); CHECK(!!(b[12] & 128) == (mpz_sgn(v) < 0), "sign bit"); mpz_set_ui(t, 0); for (int i = 0; i < n - 4; i++) { mpz_mul_2exp(t, t, 8); mpz_add_ui(t, t, i ? b[12 + i] : b[12] & 127); } CHECK(!mpz_cmpabs(t, v), "magnitude"); CHECK(n == 5 || (b[12] & 127) || (b[13] & 128), "redundant byte");
  memcpy(c, b, sizeof b); element_set_si(y, 99); k = element_from_bytes(y, b + 8); CHECK(k == n, "reads %d bytes of %d", k, n); CHECK(!memcmp(b, c, sizeof b), "input changed"); CHECK(!element_cmp(x, y), "decodes to another value"); memset(c, 0x5a, sizeof c); k = element_to_bytes(c, y); CHECK(k == n && !memcmp(c, b + 8, n), "encodes differently the second time");
}
static void zbytes(long multi, long lo, long hi) {
  long l0 = mem_live(); field_t Z; if (multi) field_init_multiz(Z); else field_init_z(Z); element_t x, y; element_init(x, Z); element_init(y, Z); mpz_t v, t; mpz_init(v); mpz_init(t);
  for (long i = lo; i < hi; i++) { CTX("value %ld", i); mpz_set_si(v, i); zbytes_one(x, y, v, t); } ints(0); for (int i = 0; i < nI; i++) { CTX("value %s", vh_mpzs(I[i])); zbytes_one(x, y, I[i], t); } ints_clear();
  // hash: little-endian value of the bytes, whatever the history
  for (int n = 0; n < 40; n++) for (int p = 0; p < 4; p++) { unsigned char d[40]; for (int i = 0; i < n; i++) d[i] = p == 0 ? 0 : p == 1 ? 255 : p == 2 ? i : 255 - 3 * i; CTX("hash of %ld bytes, pattern %ld", n, p); if (p & 1) element_set_si(x, -5); element_from_hash(x, d, n); mpz_set_ui(v, 0); for (int i = n - 1; i >= 0; i--) { mpz_mul_2exp(v, v, 8); mpz_add_ui(v, v, d[i]); } element_to_mpz(t, x); CHECK(!mpz_cmp(t, v), "hash value"); }
  mpz_clear(v); mpz_clear(t); element_clear(x); element_clear(y); field_clear(Z); CHECK(mem_live() == l0, "memory left behind"); mem_verify("bytes");
}
// ---- multinomials: trees of depth up to 2
typedef struct tr_s { int leaf, n; long v; struct tr_s *k[40]; } tr;
static tr *T[3000]; static int nT;
static void mkel(element_ptr e, field_ptr M, tr *t) { if (t->leaf) { element_init(e, M); element_set_si(e, t->v); return; } element_ptr a = pbc_malloc(sizeof *a); mkel(a, M, t->k[0]); element_ptr l = multiz_new_list(a); pbc_free(a); for (int i = 1; i < t->n; i++) { a = pbc_malloc(sizeof *a); mkel(a, M, t->k[i]); multiz_append(l, a); pbc_free(a); } *e = *l; pbc_free(l); }
static void ev(mpz_t o, tr *t, int d) { if (t->leaf) { mpz_set_si(o, t->v); return; } mpz_t s; mpz_init(s); mpz_set_ui(o, 0); for (int i = t->n - 1; i >= 0; i--) { ev(s, t->k[i], d + 1); mpz_mul_2exp(o, o, d ? 20 : 100); mpz_add(o, o, s); } mpz_clear(s); }
static const char *pp; static void pev(mpz_t o, int d) { if (*pp != '[') { char b[200]; int n = 0; while (*pp == '-' || (*pp >= '0' && *pp <= '9')) b[n++] = *pp++; b[n] = 0; if (!n || mpz_set_str(o, b, 10)) vh_fail("unreadable output"); return; } pp++; mpz_t c[100]; int n = 0; for (;;) { mpz_init(c[n]); pev(c[n++], d + 1); if (*pp == ']') { pp++; break; } if (strncmp(pp, ", ", 2)) { vh_fail("bad separator"); break; } pp += 2; } mpz_set_ui(o, 0); for (int i = n - 1; i >= 0; i--) { mpz_mul_2exp(o, o, d ? 20 : 100); mpz_add(o, o, c[i]); mpz_clear(c[i]); } }
static char tb[20000]; static void text(element_t e) { FILE *f = fmemopen(tb, sizeof tb, "w"); size_t k = element_out_str(f, 10, e); fputc(0, f); fclose(f); CHECK(k == strlen(tb), "printing reports %zu for \"%s\"", k, tb); }
static void evel(mpz_t o, element_t e) { text(e); pp = tb; pev(o, 0); CHECK(!*pp, "trailing output \"%s\"", pp); }
static tr *leaf(long v) { tr *t = calloc(1, sizeof *t); t->leaf = 1; t->v = v; return t; }
static void trees(int full) { nT = 0; static const long vs[] = { -1, 0, 1, 3 }; int nv = full ? 4 : 3; for (int i = 0; i < nv; i++) T[nT++] = leaf(vs[i]); int a = nT; for (int i = 0; i < a; i++) { tr *t = calloc(1, sizeof *t); t->n = 1; t->k[0] = T[i]; T[nT++] = t; } for (int i = 0; i < a; i++) for (int j = 0; j < a; j++) { tr *t = calloc(1, sizeof *t); t->n = 2; t->k[0] = T[i]; t->k[1] = T[j]; T[nT++] = t; } for (int i = 0; i < a * a * a; i++) { if (!full && i % 3) continue; tr *t = calloc(1, sizeof *t); t->n = 3; t->k[0] = T[i % a]; t->k[1] = T[i / a % a]; t->k[2] = T[i / a / a]; T[nT++] = t; } int b = nT; for (int i = 0; i < b; i++) for (int j = -1; j < b; j++) { if ((T[i]->leaf && (j < 0 || T[j]->leaf)) || (!full && (i + 5 * j) % 11) ) continue; tr *t = calloc(1, sizeof *t); t->n = j < 0 ? 1 : 2; t->k[0] = T[i]; if (j >= 0) t->k[1] = T[j]; T[nT++] = t; if (nT > 2990) return; } }
static void mstr(char *o, tr *t) { if (t->leaf) { sprintf(o, "%ld", t->v); return; } strcpy(o, "["); for (int i = 0; i < t->n; i++) { if (i) strcat(o, ", "); mstr(o + strlen(o), t->k[i]); } strcat(o, "]"); }
static void multi(long lo, long step, long c_) {
  trees(vh_thorough); long l0 = mem_live(); field_t M; field_init_multiz(M); mpz_t va, vb, r, t, k; mpz_init(va); mpz_init(vb); mpz_init(r); mpz_init(t); mpz_init(k); char sa[200], sb[200];
  for (int i = lo; i < nT; i += step) { element_t a; mkel(a, M, T[i]); ev(va, T[i], 0); mstr(sa, T[i]); CTX("%s", sa); vh_outerf("multinomials"); text(a); CHECK(!strcmp(tb, sa), "prints \"%s\"", tb); CHECK(!element_is0(a) == !!mpz_sgn(va) && !element_is1(a) == !!mpz_cmp_ui(va, 1), "is0/is1"); CHECK(element_item_count(a) == (T[i]->leaf ? 0 : T[i]->n), "item count"); STATE();
    element_t z; element_init(z, M); 
    for (int s = -3; s <= 3; s += 2) { element_mul_si(z, a, s); evel(t, z); mpz_mul_si(r, va, s); CHECK(!mpz_cmp(t, r), "mul_si %d", s); mpz_set_si(k, s); element_mul_mpz(z, a, k); evel(t, z); CHECK(!mpz_cmp(t, r), "mul_mpz %d", s); STEP(); }
    element_neg(z, a); evel(t, z); mpz_neg(r, va); CHECK(!mpz_cmp(t, r), "neg"); element_double(z, a); evel(t, z); mpz_mul_ui(r, va, 2); CHECK(!mpz_cmp(t, r), "double"); element_square(z, a); evel(t, z); mpz_mul(r, va, va); CHECK(!mpz_cmp(t, r), "square"); element_set(z, a); text(z); CHECK(!strcmp(tb, sa), "set gives %s", tb); element_set_multiz(z, a->data); text(z); CHECK(!strcmp(tb, sa), "set_multiz gives %s", tb); mpz_set_ui(k, 3); element_pow_mpz(z, a, k); evel(t, z); mpz_pow_ui(r, va, 3); CHECK(!mpz_cmp(t, r), "cube");
    for (int j = 0; j < nT; j++) { element_t b; mkel(b, M, T[j]); ev(vb, T[j], 0); mstr(sb, T[j]); CTX("%s and %s", sa, sb); STATE();
      int c = element_cmp(a, b), e = mpz_cmp(va, vb); CHECK((c > 0) == (e > 0) && (c < 0) == (e < 0), "cmp is %d, expected %d", c, e);
      for (int op = 0; op < 3; op++) for (int al = 0; al < 3; al++) { if (op == 0) mpz_add(r, va, vb); else if (op == 1) mpz_sub(r, va, vb); else mpz_mul(r, va, vb); if (al == 0) { if (op == 0) element_add(z, a, b); else if (op == 1) element_sub(z, a, b); else element_mul(z, a, b); } else if (al == 1) { element_set(z, a); if (op == 0) element_add(z, z, b); else if (op == 1) element_sub(z, z, b); else element_mul(z, z, b); } else { element_set(z, b); if (op == 0) element_add(z, a, z); else if (op == 1) element_sub(z, a, z); else element_mul(z, a, z); } STEP(); evel(t, z); CHECK(!mpz_cmp(t, r), "%s gives %s (aliasing %d)", op == 0 ? "sum" : op == 1 ? "difference" : "product", tb, al); if (!vh_thorough && j % 7) break; }
      element_clear(b); }
    text(a); CHECK(!strcmp(tb, sa), "operand changed to %s", tb); element_clear(z); element_clear(a); }
  mpz_clear(va); mpz_clear(vb); mpz_clear(r); mpz_clear(t); mpz_clear(k); field_clear(M); CHECK(mem_live() == l0, "memory left behind: %ld", mem_live() - l0); mem_verify("multinomials");
}
// long lists and deep nesting
static tr *pat(int n, int k, int depth) { tr *t = calloc(1, sizeof *t); t->n = n; for (int i = 0; i < n; i++) t->k[i] = depth && i == k % n ? pat(2 + k % 3, k + 1, depth - 1) : leaf(k == 0 ? 1 : k == 1 ? (i & 1 ? -1 : 2) : k == 2 ? i + 1 : k == 3 ? (i == n - 1) : (int) (vh_mix(n * 100 + i * 7 + k) % 9) - 4); return t; }
static void longs(long n1, long maxn, long c_) {
  long l0 = mem_live(); field_t M; field_init_multiz(M); mpz_t va, vb, r, t; mpz_init(va); mpz_init(vb); mpz_init(r); mpz_init(t); char sa[2000], sb[2000]; long nowlive = 0; (void) nowlive;
  for (int k1 = 0; k1 < 6; k1++) for (int d1 = 0; d1 < 4; d1++) { tr *A = pat(n1, k1, d1 * 2); element_t a, z; element_init(z, M); mkel(a, M, A); ev(va, A, 0); mstr(sa, A); text(a); CHECK(!strcmp(tb, sa), "prints %s", tb); element_neg(z, a); evel(t, z); mpz_neg(r, va); CHECK(!mpz_cmp(t, r), "neg"); element_double(z, a); evel(t, z); mpz_mul_ui(r, va, 2); CHECK(!mpz_cmp(t, r), "double"); element_set(z, a); text(z); CHECK(!strcmp(tb, sa), "copy"); if (n1 <= 20 && d1 < 2) { element_square(z, a); evel(t, z); mpz_mul(r, va, va); CHECK(!mpz_cmp(t, r), "square"); }
    for (int n2 = 1; n2 <= maxn; n2++) for (int k2 = 0; k2 < 6; k2 += d1 ? 3 : 1) { tr *B = pat(n2, k2, (k1 + k2) % 2 * d1); element_t b; mkel(b, M, B); ev(vb, B, 0); mstr(sb, B); CTX("%s and %s", sa, sb); STATE(); int c = element_cmp(a, b), e = mpz_cmp(va, vb); CHECK(!c == !e, "cmp");
      for (int op = 0; op < 3; op++) { STEP(); if (op == 2 && (d1 > 1 || (n1 + n2) % 3)) continue; if (op == 0) mpz_add(r, va, vb), element_add(z, a, b); else if (op == 1) mpz_sub(r, va, vb), element_sub(z, a, b); else mpz_mul(r, va, vb), element_mul(z, a, b); evel(t, z); CHECK(!mpz_cmp(t, r), "%s gives %.200s", op == 0 ? "sum" : op == 1 ? "difference" : "product", tb); }
      element_clear(b); }
    text(a); CHECK(!strcmp(tb, sa), "operand changed"); element_clear(a); element_clear(z); }
  mpz_clear(va); mpz_clear(vb); mpz_clear(r); mpz_clear(t); field_clear(M); CHECK(mem_live() == l0, "memory left behind"); mem_verify("long lists");
}
// conversion into structures: coefficient by coefficient
static void putref(element_t e, tr *t); 
static void putref(element_t e, tr *t) { int n = element_item_count(e); if (t->leaf || n == 0) { while (!t->leaf) t = t->k[0]; mpz_t z; mpz_init_set_si(z, t->v); if (n == 0) element_set_mpz(e, z); else { element_set0(e); putref(element_item(e, 0), t); } mpz_clear(z); return; } element_set0(e); for (int i = 0; i < n && i < t->n; i++) putref(element_item(e, i), t->k[i]); }
static void conv(long id, long b_, long c_) {
  trees(1); zoo Z; if (zoo_open(&Z, id, 10)) return; field_t M; field_init_multiz(M); vh_outerf("conversion into %s", Z.s.name); element_t x, y; element_init(x, Z.f); element_init(y, Z.f); char sa[200]; long l0 = 0;
  for (int pass = 0; pass < 2; pass++, l0 = l0 ? l0 : mem_live()) for (int i = 0; i < nT; i++) { element_t a; mkel(a, M, T[i]); mstr(sa, T[i]); CTX("%s", sa); STATE(); STEP(); element_set(x, Z.el[i % Z.n]);
    if (Z.s.kind == ZK_CURVE || Z.s.kind == ZK_G1 || Z.s.kind == ZK_G2) { if (T[i]->leaf && T[i]->v) { element_clear(a); continue; } if (!T[i]->leaf && T[i]->n < 2) { element_clear(a); continue; } element_set_multiz(x, a->data); if (T[i]->leaf) CHECK(element_item_count(x) == 0, "0 is not the identity"); else { int on = 0; element_t p; element_init(p, Z.f); if (element_item_count(Z.el[Z.n - 1]) == 2) { element_set(p, Z.el[Z.n - 1]); putref(element_item(p, 0), T[i]->k[0]); putref(element_item(p, 1), T[i]->k[1]); on = el_on_curve(p); if (on) CHECK(element_item_count(x) == 2 && !element_cmp(element_item(p, 0), element_item(x, 0)) && !element_cmp(element_item(p, 1), element_item(x, 1)), "coordinates"); else CHECK(element_item_count(x) == 0, "a pair that is no point is accepted"); element_set0(p); } element_clear(p); } }
    else { element_set_multiz(x, a->data); putref(y, T[i]); CHECK(!element_cmp(x, y), "coefficients differ"); }
    element_clear(a); }
  CHECK(mem_live() == l0, "memory left behind"); element_clear(x); element_clear(y); field_clear(M); zoo_close(&Z); mem_verify("conversion");
}
void vh_register(void) {
  for (int m = 0; m < 2; m++) { for (int o = 0; o < NZ; o++) vh_unit(zring, o, m, 0, "%s/%s", m ? "multiz" : "Z", zn[o]); long R = vh_thorough ? 17000000 : 70000; vh_unit(zbytes, m, -70000, 70000, "%s/bytes", m ? "multiz" : "Z"); if (vh_thorough) for (int k = 0; k < 8; k++) vh_unit(zbytes, m, R / 8 * k - 300000, R / 8 * k + R / 8, "%s/bytes%d", m ? "multiz" : "Z", k); }
  for (int n = 1; n <= (vh_thorough ? 36 : 20); n++) vh_unit(longs, n, vh_thorough ? 36 : 20, 0, "long-lists/%d", n);
  for (int k = 0; k < 16; k++) vh_unit(multi, k, 16, 0, "multinomials/%d", k);
  zoo_init(); for (int i = 0; i < zoo_n; i++) if (zoo_list[i].cost < 2 || vh_thorough) { if (!strncmp(zoo_list[i].name, "i.", 2)) continue; if (zoo_list[i].kind == ZK_GT) continue; vh_unit(conv, i, 0, 0, "into/%s", zoo_list[i].name); }
}
