// P30: in a debug build (PBC_DEBUG) mixing elements of different fields ends
// the program at the call, and correct use never does.
#include <setjmp.h>
#include <signal.h>
#include "zoo.h"
#include <pbc_multiz.h>
#ifndef PBC_DEBUG
#error "this explorer needs PBC_DEBUG"
#endif
static sigjmp_buf jb; static void onabrt(int s) { (void) s; siglongjmp(jb, 1); }
static struct sigaction keep;
static void guard(void) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onabrt; sa.sa_flags = SA_NODEFER | SA_ONSTACK; sigaction(SIGABRT, &sa, &keep); }
static void unguard(void) { sigaction(SIGABRT, &keep, NULL); }
// ---- the pool of structures -------------------------------------------
#define NP 17
static field_ptr F[NP]; static element_t E[NP][3]; static const char *nm[NP]; static int np; static pairing_t P1, P2, P3;
static void pool_add(field_ptr f, const char *name, int k) { F[np] = f; nm[np] = name; for (int i = 0; i < 3; i++) { element_init(E[np][i], f); vh_rng_seed(100 * k + i); if (k >= 0) do element_random(E[np][i]); while (element_is0(E[np][i])); else element_set_si(E[np][i], 3 + i); } np++; }
static void pool(void) {
  static field_t f7, f11, fbig, q7, q11, c11, z; static element_t a, b; mpz_t p; mpz_init_set_ui(p, 7); field_init_fp(f7, p); mpz_set_ui(p, 11); field_init_fp(f11, p); make_modulus(p, 2, 0); field_init_fp(fbig, p); field_init_quadratic(q7, f7); field_init_fi(q11, f11); element_init(a, f11); element_init(b, f11); element_set_si(a, 1); element_set_si(b, 6); mpz_set_ui(p, 13); vh_rng_seed(1); field_init_curve_ab(c11, a, b, p, NULL); field_init_z(z);
  static int tid; for (tid = 0; tid < NTOYS; tid++) if (!strcmp(toys[tid].type, "a") && !ps_degenerate(tid) && toys[tid].r >= 11) break; ps_open(P1, NTOYS + 2); ps_open(P2, tid); ps_open(P3, NTOYS + 3);
  pool_add(f7, "F7", 1); pool_add(f11, "F11", 2); pool_add(fbig, "Fbig", 3); pool_add(q7, "F7^2", 4); pool_add(q11, "F11^2", 5); pool_add(c11, "curve/F11", 6); pool_add(z, "Z", -1);
  pool_add(P1->G1, "d159.G1", 7); pool_add(P1->G2, "d159.G2", 8); pool_add(P1->GT, "d159.GT", 9); pool_add(P1->Zr, "d159.Zr", 10); pool_add(P2->G1, "a.G1", 11); pool_add(P2->GT, "a.GT", 12); pool_add(P2->Zr, "a.Zr", 13); pool_add(P3->G1, "d201.G1", 14); pool_add(P3->G2, "d201.G2", 15); pool_add(P3->GT, "d201.GT", 16); mpz_clear(p);
}
static mpz_t zz; static int isgrp(int k) { return (k == 5) || k == 7 || k == 8 || k == 9 || k == 11 || k == 12 || k >= 14; }
static const char *on[] = { "set", "add", "sub", "mul", "div", "mul_mpz", "mul_si", "mul_zn", "double", "halve", "square", "pow_mpz", "pow_zn", "neg", "invert", "cmp", "multi_double", "multi_add", "sqrt" };
#define NOP 19
static int arity(int op) { return op == 1 || op == 2 || op == 3 || op == 4 || op == 17 ? 3 : 2; }
static int hasop(int op, int k) { if (op == 16 || op == 17) return k == 5 || k == 7 || k == 8 || k == 11 || k == 14 || k == 15; if (op == 18) return k < 5 || k == 10; if (op == 4 || op == 14) return k != 6; if (op == 9) return k != 6; return 1; }
static void doop(int op, element_ptr n, element_ptr a, element_ptr b) {
  element_t N[2], A[2], B[2];
  switch (op) { case 0: element_set(n, a); break; case 1: element_add(n, a, b); break; case 2: element_sub(n, a, b); break; case 3: element_mul(n, a, b); break; case 4: element_div(n, a, b); break; case 5: element_mul_mpz(n, a, zz); break; case 6: element_mul_si(n, a, 5); break; case 7: element_mul_zn(n, a, E[10][0]); break; case 8: element_double(n, a); break; case 9: element_halve(n, a); break; case 10: element_square(n, a); break; case 11: element_pow_mpz(n, a, zz); break; case 12: element_pow_zn(n, a, E[1][0]); break; case 13: element_neg(n, a); break; case 14: element_invert(n, a); break; case 15: element_cmp(n, a); break;
    case 16: *N[0] = *E[5][0]; *A[0] = *E[5][1]; *N[1] = *n; *A[1] = *a; if (n->field != F[5]) *N[0] = *n, *A[0] = *n; element_multi_double(N, A, 2); break;
    case 17: *N[0] = *n; *A[0] = *n; *B[0] = *n; *N[1] = *n; *A[1] = *a; *B[1] = *b; element_multi_add(N, A, B, 2); break;
    case 18: element_sqrt(n, a); break; }
}
static void mismatch(long op, long b_, long c_) {
  pool(); mpz_init_set_ui(zz, 5); vh_outerf("%s", on[op]);
  element_t n[NP]; for (int i = 0; i < np; i++) { element_init(n[i], F[i]); element_set(n[i], E[i][0]); }
  for (int i = 0; i < np; i++) for (int j = 0; j < np; j++) for (int k = 0; k < (arity(op) == 3 ? np : 1); k++) {
    int same = i == j && (arity(op) == 2 || i == k); STATE(); STEP(); CTX("%s of %s, %s, %s", (long) on[op], (long) nm[i], (long) nm[j], (long) nm[arity(op) == 3 ? k : j]); volatile int ab = 0;
    if (same && !hasop(op, i)) continue; if (!same && (op == 16 || op == 17) && !hasop(op, i)) continue; if (op == 18 && same) { element_square(E[j][1], E[j][1]); }
    if ((op == 7 || op == 11) && same && i == 6) continue; // integers: huge powers and multiples
    guard(); if (!sigsetjmp(jb, 1)) doop(op, n[i], E[j][1], E[k][2]); else ab = 1; unguard();
    CHECK(ab == !same, same ? "the program was ended although all elements are from the same field" : "elements of different fields were accepted");
    if (same) element_set(n[i], E[i][0]);
  }
}
// pairing calls: every choice of the three fields
static void pairmis(long fn, long b_, long c_) {
  pool(); vh_outerf("%s", fn == 0 ? "element_pairing" : fn == 1 ? "pairing_apply" : "element_prod_pairing");
  for (int pi = 0; pi < (fn == 1 ? 3 : 1); pi++) { pairing_ptr pr = pi == 0 ? P1 : pi == 1 ? P2 : P3;
  for (int i = 0; i < np; i++) { if (fn == 2 && !F[i]->pairing) continue; element_t n; element_init(n, F[i]);
    for (int j = 0; j < np; j++) for (int k = 0; k < np; k++) { pairing_ptr q = fn == 1 ? pr : F[i]->pairing; int ok = q && q->GT == F[i] && q->G1 == F[j] && q->G2 == F[k]; STATE(); STEP(); CTX("pairing %ld into %s of %s and %s", pi, (long) nm[i], (long) nm[j], (long) nm[k]); volatile int ab = 0;
      guard(); if (!sigsetjmp(jb, 1)) { if (fn == 0) element_pairing(n, E[j][0], E[k][1]); else if (fn == 1) pairing_apply(n, E[j][0], E[k][1], pr); else { element_t A[2], B[2]; int jj = j, kk = k; *A[1] = *E[jj][0]; *B[1] = *E[kk][0]; pairing_ptr r = F[i]->pairing; element_t g1, g2; element_init(g1, r->G1); element_init(g2, r->G2); element_random(g1); element_random(g2); *A[0] = *g1; *B[0] = *g2; element_prod_pairing(n, A, B, 2); } } else ab = 1; unguard();
      CHECK(ab == !ok, ok ? "the program was ended although the elements are from the right groups" : "elements of wrong groups were accepted"); }
    element_clear(n); } }
}
// correct use: every operation on every structure; SIGABRT is a violation
static void valid(long id, long b_, long c_) {
  zoo Z; if (zoo_open(&Z, id, vh_thorough ? (zoo_list[id].cost ? 20 : 60) : zoo_list[id].cost == 2 ? 6 : zoo_list[id].cost ? 10 : 24)) return; vh_outerf("%s", Z.s.name); int typi = strstr(Z.s.name, "i.param") == Z.s.name && Z.s.kind != ZK_ZR, group = Z.s.kind & ZK_GROUP, field = (Z.s.kind & ZK_FIELD) && mpz_probab_prime_p(Z.s.kind == ZK_ZR ? Z.f->order : Z.T.r[0]->p, 10), curve = (Z.s.kind & (ZK_CURVE | ZK_G1 | ZK_G2)) && !typi;
  element_t c, d; element_init(c, Z.f); element_init(d, Z.f); mpz_t z; mpz_init(z); unsigned char b[8192]; char s[20000];
  for (int i = 0; i < Z.n; i++) { element_ptr a = Z.el[i]; CTX("unary on #%ld", i); STATE(); element_set(c, a); element_neg(c, a); element_double(c, a); element_square(c, a); element_mul_si(c, a, -7); mpz_set_si(z, 12345); element_mul_mpz(c, a, z); element_pow_mpz(c, a, z); element_set(c, a); element_is0(c); element_is1(c); if (mpz_odd_p(Z.f->order)) element_halve(c, a); STEP();
    if (group || (field && !element_is0(a))) element_invert(c, a); if (field && mpz_odd_p(Z.f->order)) { element_square(d, a); element_is_sqr(d); element_sqrt(c, d); }
    if (!typi) { element_to_bytes(b, a); element_from_bytes(c, b); element_snprint(s, sizeof s, a); element_set_str(c, s, 10); } if (!typi && (!group || Z.s.cost == 2)) { element_from_hash(c, "abc", 3); element_from_hash(c, "a hash value that is longer than anything that follows it, so that it is cut somewhere in the middle, whatever the size of the group", 130); } element_random(c); element_set0(c); element_set1(c); if (!group) element_set_si(c, -3);
    if (curve) { element_to_bytes_compressed(b, a); element_from_bytes_compressed(c, b); element_to_bytes_x_only(b, a); element_from_bytes_x_only(c, b); }
    element_pp_t pp; element_pp_init(pp, a); element_pp_pow(c, z, pp); element_pp_clear(pp); int n = element_item_count(a); for (int k = 0; k < n; k++) element_item(a, k);
    for (int j = 0; j < Z.n; j++) { element_ptr e = Z.el[j]; CTX("binary on #%ld #%ld", i, j); STATE(); STEP(); element_add(c, a, e); element_sub(c, a, e); element_mul(c, a, e); element_add(c, c, c); element_cmp(a, e); if (group || (field && !element_is0(e))) element_div(c, a, e); if (j < 4) { mpz_set_ui(z, 77 + j); mpz_t w; mpz_init_set_ui(w, 1000003); element_pow2_mpz(c, a, z, e, w); element_pow3_mpz(c, a, z, e, w, a, z); mpz_clear(w); if (curve && Z.f->multi_add) { element_t A[2], B[2], C[2]; *A[0] = *a; *A[1] = *e; *B[0] = *e; *B[1] = *a; *C[0] = *c; *C[1] = *d; element_multi_add(C, A, B, 2); element_multi_double(C, A, 2); *c = *C[0]; *d = *C[1]; } } } }
  if (Z.haspr && Z.s.kind == ZK_G1) { element_t h, u; element_init_G2(h, Z.pr); element_init_GT(u, Z.pr); for (int i = 0; i < Z.n; i++) { CTX("pairing of #%ld", i); STATE(); STEP(); element_random(h); element_pairing(u, Z.el[i], h); pairing_apply(u, Z.el[i], h, Z.pr); pairing_pp_t pp; pairing_pp_init(pp, Z.el[i], Z.pr); pairing_pp_apply(u, h, pp); pairing_pp_clear(pp); element_t A[1], B[1]; *A[0] = *Z.el[i]; *B[0] = *h; element_prod_pairing(u, A, B, 1); if (typi == 0) { element_snprint(s, sizeof s, u); } } element_clear(h); element_clear(u); }
  vh_sample("%s: %d elements, no assertion fired", Z.s.name, Z.n); CHECK(1, "-"); element_clear(c); element_clear(d); mpz_clear(z); zoo_close(&Z);
}
// the rest of the library in a debug build: generators, searches, polynomials, integer lists
static void gens(long k, long b_, long c_) { vh_outerf("generator %ld", k); pbc_param_t p; vh_rng_seed(k); srand(k); pbc_cm_t cm; (void) cm; STATE(); STEP(); CTX("generator %ld", k);
  if (k < 3) pbc_param_init_a_gen(p, 20 + 20 * k, 80 + 40 * k); else if (k < 6) pbc_param_init_e_gen(p, 10 + 10 * k, 80 + 40 * k); else if (k < 9) pbc_param_init_f_gen(p, 40 + 10 * k); else { mpz_t n; mpz_init_set_ui(n, 1009 * 1013); pbc_param_init_a1_gen(p, n); mpz_clear(n); }
  pairing_t pr; pairing_init_pbc_param(pr, p); element_t x, y, e; element_init_G1(x, pr); element_init_G2(y, pr); element_init_GT(e, pr); for (int i = 0; i < 3; i++) { element_random(x); element_random(y); element_pairing(e, x, y); STEP(); } CHECK(1, "-"); element_clear(x); element_clear(y); element_clear(e); pairing_clear(pr); pbc_param_clear(p); }
static void multi(long a_, long b_, long c_) { field_t m; field_init_multiz(m); static const char *t[] = { "0", "1", "-5", "[1]", "[1, 2]", "[0, [1, 2], 3]", "[[[7]], 8]", "[3, [4, 5], [6, [7, 8]]]", "123456789012345678901234567890" }; element_t x, y, w; element_init(x, m); element_init(y, m); element_init(w, m);
  for (int i = 0; i < 9; i++) for (int j = 0; j < 9; j++) { CTX("lists %ld %ld", i, j); STATE(); STEP(); element_set_str(x, t[i], 10); element_set_str(y, t[j], 10); element_add(w, x, y); element_sub(w, x, y); element_mul(w, x, y); element_neg(w, w); element_set(w, x); element_cmp(w, y); element_square(w, x); element_double(w, x); char s[2000]; element_snprint(s, sizeof s, w); CHECK(1, "-"); } element_clear(x); element_clear(y); element_clear(w); field_clear(m); }
void vh_register(void) {
  zoo_init();
  for (int i = 0; i < NOP; i++) vh_unit(mismatch, i, 0, 0, "mismatch/%s", on[i]);
  for (int i = 0; i < 3; i++) vh_unit(pairmis, i, 0, 0, "mismatch/pairing%d", i);
  for (int i = zoo_n - 1; i >= 0; i--) vh_unit(valid, i, 0, 0, "valid/%s", zoo_list[i].name);
  for (int i = 0; i < 10; i++) vh_unit(gens, i, 0, 0, "valid/generator%d", i);
  vh_unit(multi, 0, 0, 0, "valid/multiz");
}
