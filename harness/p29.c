// P29: which implementation of F_p is in use (pbc_tweak_use_fp) cannot be seen
// in any result: histories of choices and field creations behave as residues,
// and the transcript of everything a pairing offers is the same for each.
#include "pair.h"
#include "fpmod.h"
static char *impl[] = { "mont", "naive", "fast", "faster", "nosuch" };
typedef struct { unsigned char *d; size_t n, cap; int nm; struct { size_t at; char what[40]; } m[40000]; } tr;
static tr T[4]; static tr *C;
static void put(const void *d, size_t n) { if (C->n + n > C->cap) C->d = realloc(C->d, C->cap = 2 * (C->n + n) + 4096); memcpy(C->d + C->n, d, n); C->n += n; STEP(); }
static void mark(const char *f, ...) { if (C->nm == 40000) return; va_list ap; va_start(ap, f); vsnprintf(C->m[C->nm].what, 40, f, ap); va_end(ap); C->m[C->nm++].at = C->n; }
static int notbytes;
static void el(element_t e, const char *what) { unsigned char b[8192]; mark("%s", what); if (notbytes && e->field->pairing && e->field != e->field->pairing->Zr) { char *s; size_t k; FILE *f = open_memstream(&s, &k); element_out_str(f, 16, e); fclose(f); put(s, k); free(s); return; } int n = element_to_bytes(b, e); put(b, n); int z = element_is0(e) ? 1 : 0, o = element_is1(e) ? 1 : 0; put(&z, 1); put(&o, 1); }
static void txt(element_t e) { char b[16384]; int n = element_snprint(b, sizeof b, e); mark("snprint"); put(b, n); char *s; size_t k; FILE *f = open_memstream(&s, &k); element_out_str(f, 16, e); fclose(f); mark("out_str"); put(s, k); element_t c; element_init_same_as(c, e); element_set_str(c, s, 16); el(c, "set_str"); element_clear(c); free(s); }
static int nosign;
static void coords(element_t e, int depth) { int n = element_item_count(e); if (!n) { mpz_t z; mpz_init(z); element_to_mpz(z, e); char *s = mpz_get_str(NULL, 16, z); mark("to_mpz"); put(s, strlen(s)); free(s); mpz_clear(z); if (nosign) return; int g = element_sign(e); g = g > 0 ? 2 : g < 0; mark("sign"); put(&g, 1); return; } for (int i = 0; i < n; i++) coords(element_item(e, i), depth + 1); }
static void compare(const char *what) {
  for (int i = 1; i < 4; i++) { STATE(); int ok = T[i].n == T[0].n && !memcmp(T[i].d, T[0].d, T[0].n); if (!ok) { size_t k = 0; while (k < T[i].n && k < T[0].n && T[i].d[k] == T[0].d[k]) k++; int m = 0; while (m + 1 < T[0].nm && T[0].m[m + 1].at <= k) m++; CHECK(0, "%s: implementation %s differs from %s in %s (record %d, byte %zu)", what, impl[i], impl[0], T[0].nm ? T[0].m[m].what : "?", m, k); } else CHECK(1, "-"); }
  vh_sample("%s: transcripts of %zu bytes identical", what, T[0].n); for (int i = 0; i < 4; i++) { T[i].n = 0; T[i].nm = 0; }
}
static int deep;
static void scenario(int id) {
  pairing_t pr; char *s = ps_text(id); vh_rng_reset(); vh_rng_seed(3); int rc = pairing_init_set_str(pr, s); free(s); CHECK(!rc, "parameters rejected"); if (rc) return;
  int typi = !strcmp(ps_type(id), "i"), nocoord = 0; (void) nocoord; notbytes = typi; unsigned char b[8192]; char *hs[] = { "", "a", "pairing", "a longer message that spans more than one block of the hash input, really", "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" }; int nh = deep ? 5 : 3;
  element_t x, y, e, u, v, zr, w; element_init_G1(x, pr); element_init_G1(w, pr); element_init_G2(y, pr); element_init_GT(e, pr); element_init_GT(u, pr); element_init_GT(v, pr); element_init_Zr(zr, pr);
  for (int i = 0; i < 4; i++) { element_random(x); element_random(y); element_random(e); element_random(zr); if (!typi) { el(x, "random G1"); el(y, "random G2"); } else { char t[4000]; int k = element_snprint(t, sizeof t, x); mark("G1 text"); put(t, k > 3999 ? 3999 : k); } el(e, "random GT"); el(zr, "random Zr"); txt(zr); if (i == 0 && !typi) { txt(x); txt(y); txt(e); } if (!typi) { coords(x, 0); coords(y, 0); } }
  for (int i = 0; i < nh; i++) { int l = strlen(hs[i]); if (!typi) { element_from_hash(x, hs[i], l ? l : 1); el(x, "G1 from_hash"); coords(x, 0); element_from_hash(y, hs[i], l ? l : 1); el(y, "G2 from_hash"); int n = element_to_bytes_compressed(b, x); mark("compressed"); put(b, n); element_from_bytes_compressed(w, b); el(w, "from compressed"); n = element_to_bytes_x_only(b, x); mark("x only"); put(b, n); element_from_bytes_x_only(w, b); el(w, "from x only"); n = element_to_bytes_compressed(b, y); mark("G2 compressed"); put(b, n); element_from_bytes_compressed(y, b); el(y, "G2 from compressed"); }
    else { element_random(x); element_random(y); } element_from_hash(zr, hs[i], l ? l : 1); el(zr, "Zr from_hash"); coords(zr, 0);
    element_pairing(e, x, y); el(e, "pairing"); if (!typi) { nosign = 1; coords(e, 0); nosign = 0; } element_pow_zn(u, e, zr); el(u, "GT power"); element_invert(v, u); el(v, "GT inverse"); element_mul(v, v, e); el(v, "GT product"); element_pow_zn(w, x, zr); element_pairing(v, w, y); el(v, "pairing of a multiple"); CHECK(!element_cmp(u, v), "bilinearity with %s", impl[0]);
    pairing_pp_t pp; pairing_pp_init(pp, x, pr); pairing_pp_apply(v, y, pp); el(v, "precomputed pairing"); pairing_pp_clear(pp); if (!typi) { element_pp_t ep; element_pp_init(ep, x); element_pp_pow_zn(w, zr, ep); el(w, "precomputed multiple"); element_pp_clear(ep); }
    element_t i1[2], i2[2]; for (int q = 0; q < 2; q++) { element_init_G1(i1[q], pr); element_init_G2(i2[q], pr); element_set(i1[q], q ? w : x); element_set(i2[q], y); } element_prod_pairing(u, i1, i2, 2); el(u, "product of pairings"); for (int q = 0; q < 2; q++) { element_clear(i1[q]); element_clear(i2[q]); }
    element_t z2; element_init_Zr(z2, pr); element_set_si(z2, -i - 2); element_pow2_zn(u, e, zr, v, z2); el(u, "GT double power"); if (!typi) { element_pow2_zn(w, x, zr, w, z2); el(w, "G1 double power"); } element_invert(z2, z2); el(z2, "Zr inverse"); element_div(z2, z2, zr); el(z2, "Zr quotient"); element_halve(z2, z2); el(z2, "Zr half"); int q = element_is_sqr(z2) ? 1 : 0; mark("Zr square test"); put(&q, 1); element_square(z2, z2); if (mpz_probab_prime_p(pr->r, 20)) { element_sqrt(z2, z2); element_square(z2, z2); el(z2, "square of the root"); } element_clear(z2); }
  element_clear(x); element_clear(w); element_clear(y); element_clear(e); element_clear(u); element_clear(v); element_clear(zr); pairing_clear(pr);
}
static void pairs(long id, long meth, long c_) { vh_outerf("%s", ps_name(id)); deep = vh_thorough; for (int i = 0; i < 4; i++) { C = &T[i]; CTX("with implementation %s", (long) impl[i]); pbc_tweak_use_fp(impl[i]); vh_traces++; scenario(id); } compare(ps_name(id)); pbc_tweak_use_fp("mont"); }
// parameter generators under a fixed random source
static void gens(long kind, long size, long c_) {
  vh_outerf("generator %c size %ld", (int) kind, size);
  for (int i = 0; i < 4; i++) { C = &T[i]; CTX("with implementation %s", (long) impl[i]); pbc_tweak_use_fp(impl[i]); pbc_param_t par; vh_rng_reset(); vh_rng_seed(size); srand(size); 
    if (kind == 'a') pbc_param_init_a_gen(par, size, 2 * size + 20); else if (kind == 'e') pbc_param_init_e_gen(par, size, 4 * size); else if (kind == 'f') pbc_param_init_f_gen(par, size); 
    char *s; size_t n; FILE *f = open_memstream(&s, &n); pbc_param_out_str(f, par); fclose(f); mark("parameters"); put(s, n); pairing_t pr; CHECK(!pairing_init_set_str(pr, s), "generated parameters rejected"); free(s); pairing_clear(pr); pbc_param_clear(par); TRACE(); }
  compare("generator"); pbc_tweak_use_fp("mont");
}
// histories: choices of an implementation and creations of fields, in every
// order up to a depth; each field created keeps computing as residues.
static void check_field(field_t F, mpz_t p, int k) {
  element_t a, b, c; element_init(a, F); element_init(b, F); element_init(c, F); mpz_t x, y, z, w; mpz_init(x); mpz_init(y); mpz_init(z); mpz_init(w); mpz_sub_ui(x, p, 1 + k); mpz_fdiv_q_ui(y, p, 3 + k); element_set_mpz(a, x); element_set_mpz(b, y); STEP();
  element_mul(c, a, b); element_to_mpz(z, c); mpz_mul(w, x, y); mpz_mod(w, w, p); CHECK(!mpz_cmp(z, w), "product"); element_add(c, a, b); element_to_mpz(z, c); mpz_add(w, x, y); mpz_mod(w, w, p); CHECK(!mpz_cmp(z, w), "sum"); element_sub(c, b, a); element_to_mpz(z, c); mpz_sub(w, y, x); mpz_mod(w, w, p); CHECK(!mpz_cmp(z, w), "difference"); if (mpz_odd_p(p)) { element_halve(c, a); element_double(c, c); CHECK(!element_cmp(c, a), "half"); } mpz_gcd(w, x, p); if (!mpz_cmp_ui(w, 1)) { element_invert(c, a); element_mul(c, c, a); CHECK(element_is1(c), "inverse"); }
  int n = element_length_in_bytes(a); CHECK(n == (int) (mpz_sizeinbase(p, 2) + 7) / 8, "length"); unsigned char bf[256]; element_to_bytes(bf, a); mpz_import(z, n, 1, 1, 1, 0, bf); CHECK(!mpz_cmp(z, x), "bytes"); CHECK(!mpz_cmp(F->order, p), "order");
  mpz_clear(x); mpz_clear(y); mpz_clear(z); mpz_clear(w); element_clear(a); element_clear(b); element_clear(c);
}
#define NOPS 10
static mpz_t mods[5];
static void hist(long op0, long depth, long c_) {
  for (int i = 0; i < 5; i++) mpz_init(mods[i]); mpz_set_ui(mods[0], 13); make_modulus(mods[1], 2, 0); make_modulus(mods[2], 3, 4); mpz_mul_ui(mods[3], mods[1], 2); mpz_mul_ui(mods[4], mods[2], 15);
  long N = 1; for (int i = 1; i < depth; i++) N *= NOPS;
  for (long w = 0; w < N; w++) { field_t F[8]; int nf = 0, fm[8]; long r = w; CTX("history %ld after operation %ld", w, op0); STATE(); vh_traces++;
    for (int d = 0; d < depth; d++) { int op = d ? r % NOPS : op0; if (d) r /= NOPS; if (op < 5) pbc_tweak_use_fp(impl[op]); else { field_init_fp(F[nf], mods[op - 5]); fm[nf] = op - 5; nf++; } for (int i = 0; i < nf; i++) check_field(F[i], mods[fm[i]], d + i); }
    for (int i = 0; i < nf; i++) field_clear(F[i]); pbc_tweak_use_fp("mont"); }
}
// every operation, from every state of its destination (never set, zero, one, minus one, other; the operands themselves), on boundary values
static void allops(long limbs, long shape, long c_) {
  mpz_t p, v[12], t; mpz_init(p); mpz_init(t); make_modulus(p, limbs, shape); vh_outerf("modulus of %ld limbs, shape %ld", limbs, shape); int nv = vh_thorough ? 12 : 8; for (int i = 0; i < 12; i++) mpz_init(v[i]);
  mpz_set_ui(v[1], 1); mpz_sub_ui(v[2], p, 1); mpz_set_ui(v[3], 2); mpz_fdiv_q_ui(v[4], p, 2); mpz_add_ui(v[5], v[4], 1); mpz_setbit(v[6], 64); mpz_fdiv_q_ui(v[7], p, 7); mpz_sub_ui(v[8], p, 2); mpz_setbit(v[9], 63); mpz_sub_ui(v[10], v[6], 1); mpz_fdiv_q_ui(v[11], p, 3);
  static const char *hs[] = { "", "a", "pairing", "a longer message that spans more than one block of the hash input, really" }; enum { NOP = 34 };
  for (int m = 0; m < 4; m++) { C = &T[m]; CTX("with implementation %s", (long) impl[m]); vh_traces++; pbc_tweak_use_fp(impl[m]); field_t F; field_init_fp(F, p); element_t a, b, c, nz; element_init(nz, F); element_init(a, F); element_init(b, F);
    for (int op = 0; op < NOP; op++) for (int i = 0; i < nv; i++) for (int j = 0; j < nv; j++) { int un = op < 26; if (un && j) break; int inva = op >= 3 && op <= 4, invb = op == 27 + 3; if (inva && !i) continue; if (invb && !j) continue; if (op == 5 && mpz_legendre(v[i], p) < 0) continue;
      for (int ds = 0; ds < 8; ds++) { STATE(); element_set_mpz(a, v[i]); element_set_mpz(b, v[j]); element_init(c, F); element_ptr d = c; switch (ds) { case 1: element_set0(c); break; case 2: element_set1(c); break; case 3: element_set_si(c, -1); break; case 4: element_set_mpz(c, v[7]); break; case 5: element_set_mpz(c, v[7]); element_sub(c, c, c); break; case 6: d = a; break; case 7: d = b; break; }
        mark("op %d ds %d operands %d %d", op, ds, i, j); vh_rng_reset(); vh_rng_seed(op * 64 + i); int r = 0; mpz_set(t, v[j]);
        switch (op) { case 0: element_set(d, a); break; case 1: element_neg(d, a); break; case 2: element_double(d, a); break; case 3: element_invert(d, a); break; case 4: element_invert(d, a); element_invert(d, d); break; case 5: element_sqrt(d, a); element_square(d, d); break; case 6: element_square(d, a); break; case 7: element_halve(d, a); break; case 8: element_set_mpz(d, v[i]); break; case 9: mpz_neg(t, v[i]); element_set_mpz(d, t); break; case 10: mpz_add(t, v[i], p); element_set_mpz(d, t); break; case 11: mpz_mul(t, v[i], p); element_set_mpz(d, t); break; case 12: element_set_si(d, i - 4); break; case 13: element_set_si(d, i & 1 ? __LONG_MAX__ : -__LONG_MAX__); break; case 14: element_from_hash(d, (void *) hs[i % 4], strlen(hs[i % 4]) + (i % 4 == 0)); break; case 15: element_random(d); break; case 16: { unsigned char bf[200]; element_to_bytes(bf, a); r = element_from_bytes(d, bf); break; } case 17: { char *s = mpz_get_str(NULL, 10, v[i]); r = element_set_str(d, s, 10); free(s); break; } case 18: { char *s = mpz_get_str(NULL, 16, v[i]); r = element_set_str(d, s, 16); free(s); break; } case 19: element_mul_si(d, a, i - 4); break; case 20: element_mul_si(d, a, __LONG_MAX__); break; case 21: element_set0(d); break; case 22: element_set1(d); break; case 23: mpz_set_ui(t, 0); element_pow_mpz(d, a, t); break; case 24: element_mul_si(d, a, -__LONG_MAX__); break; case 25: mpz_sub_ui(t, p, 2); element_pow_mpz(d, a, t); break;
          case 26: element_add(d, a, b); break; case 27: element_sub(d, a, b); break; case 28: element_mul(d, a, b); break; case 29: element_mul_mpz(d, a, t); break; case 30: element_div(d, a, b); break; case 31: element_pow_mpz(d, a, t); break; case 32: element_pow_zn(d, a, b); break; case 33: element_set(d, b); element_add(d, d, a); element_sub(d, d, a); break; }
        el(d, "-"); C->nm--; put(&r, sizeof r); element_to_mpz(t, d); char *s = mpz_get_str(NULL, 16, t); put(s, strlen(s)); free(s); int g = element_sign(d), q = element_is_sqr(d) ? 1 : 0, k = !element_cmp(d, a) | !element_cmp(d, b) << 1 | !element_cmp(b, d) << 2 | !element_cmp(nz, d) << 3; g = g > 0 ? 2 : g < 0; put(&g, 1); put(&q, 1); put(&k, 1); element_clear(c); } }
    element_clear(nz); element_clear(a); element_clear(b); field_clear(F); }
  pbc_tweak_use_fp("mont"); compare("operations"); mpz_clear(p); mpz_clear(t); for (int i = 0; i < 12; i++) mpz_clear(v[i]);
}
void vh_register(void) {
  for (int l = 2; l <= (vh_thorough ? 6 : 4); l++) for (int sh = 0; sh < 5; sh++) vh_unit(allops, l, sh, 0, "operations/%d-%d", l, sh);
  for (int o = 0; o < NOPS; o++) vh_unit(hist, o, vh_thorough ? 6 : 5, 0, "histories/%d", o);
  for (int i = NTOYS; i < NTOYS + NREAL; i++) vh_unit(pairs, i, 0, 0, "pairing/%s", ps_name(i));
  static const int as[] = { 60, 80, 100, 160, 0 }; for (int i = 0; as[i]; i++) { vh_unit(gens, 'a', as[i], 0, "gen-a/%d", as[i]); if (as[i] <= 100) vh_unit(gens, 'e', as[i] / 2, 0, "gen-e/%d", as[i] / 2); }
  for (int b = 66; b <= (vh_thorough ? 200 : 140); b += 7) vh_unit(gens, 'f', b, 0, "gen-f/%d", b);
}
