// P18: discrete logarithms against the complete table of powers, for every
// logarithm and every scripted choice of the random walk within the bounds.
#include "zoo.h"
static void table(element_t g, long r, element_t *T) { for (long k = 0; k < r; k++) { element_init_same_as(T[k], g); if (!k) element_set1(T[k]); else element_mul(T[k], T[k - 1], g); } }
static void one(int rho, element_t x, element_t g, element_t h, long k, long r, const char *w) {
  element_t g1, h1; element_init_same_as(g1, g); element_init_same_as(h1, h); element_set(g1, g); element_set(h1, h); if (k & 1) element_random(x); else element_set0(x); mpz_t z; mpz_init(z);
  STATE(); if (rho) element_dlog_pollard_rho(x, g1, h1); else element_dlog_brute_force(x, g1, h1); STEP(); element_to_mpz(z, x); CHECK(!mpz_cmp_ui(z, k % r), "%s: log of g^%ld (order %ld) is %s", w, k, r, vh_mpzs(z)); CHECK(!element_cmp(g, g1) && !element_cmp(h, h1), "inputs changed"); element_clear(g1); element_clear(h1); mpz_clear(z);
}
static void dl(field_ptr G, field_ptr Zr, element_t g, long r, int level) {
  element_t *T = malloc(sizeof(element_t) * r), x; table(g, r, T); element_init(x, Zr); element_t chk; element_init(chk, G); element_mul(chk, T[r - 1], g); CHECK(!element_cmp(chk, T[0]), "generator order"); element_clear(chk);
  long ks = r <= 60 || vh_thorough ? 1 : r / 40 + 1;
  for (long k = 0; k < r; k += ks) { CTX("brute force k %ld", k); one(0, x, g, T[k], k, r, "brute force"); }
  for (int s = 0; s < (vh_thorough ? 12 : 4); s++) for (long k = 0; k < r; k += ks) { CTX("rho seed %ld k %ld", s, k); vh_rng_reset(); vh_rng_seed(s); one(1, x, g, T[k], k, r, "Pollard rho"); }
  // scripted: all multipliers alike, every value; every start
  long m = r < 7 ? r : 3; for (long al = 0; al < m; al++) for (long be = 0; be < m; be++) for (long a0 = 0; a0 < (level ? m : 2); a0++) for (long b0 = 0; b0 < (level ? m : 2); b0++) for (long k = 0; k < r; k += r <= 12 ? 1 : r / 5) {
    CTX("rho multipliers %ld %ld start %ld %ld k %ld", al, be, a0, b0, k); vh_rng_reset(); for (int i = 0; i < 20; i++) { vh_rng_push_ui(al); vh_rng_push_ui(be); } vh_rng_push_ui(a0); vh_rng_push_ui(b0); one(1, x, g, T[k], k, r, "Pollard rho"); }
  // all words over {0,1} for which multipliers are zero in the first four positions
  for (int w = 0; w < 256; w++) { long k = w % r; CTX("rho pattern %ld k %ld", w, k); vh_rng_reset(); for (int i = 0; i < 40; i++) vh_rng_push_ui((w >> (i & 7)) & 1); vh_rng_push_ui(0); vh_rng_push_ui(w & 1); one(1, x, g, T[k], k, r, "Pollard rho"); }
  for (long k = 0; k < r; k++) element_clear(T[k]); free(T); element_clear(x);
}
static void grp(long id, long which, long level) { pairing_t pr; vh_outerf("%s G%ld", ps_name(id), which); if (ps_open(pr, id)) return; field_ptr G = which == 1 ? pr->G1 : which == 2 ? pr->G2 : pr->GT; element_t g; element_init(g, G); if (which == 3) { element_t a, b; element_init_G1(a, pr); element_init_G2(b, pr); grp_gen(a, pr->r, 1); grp_gen(b, pr->r, 2); element_pairing(g, a, b); element_clear(a); element_clear(b); } else grp_gen(g, pr->r, 3); if (!element_is1(g)) dl(G, pr->Zr, g, mpz_get_ui(pr->r), level); element_clear(g); pairing_clear(pr); }
static void mulgrp(long p, long b_, long c_) { // F_p^* and its subgroups: composite orders
  mpz_t z; mpz_init_set_ui(z, p); field_t F, Z; field_init_fp(F, z); element_t g, t; element_init(g, F); element_init(t, F); vh_outerf("F_%ld*", p);
  for (long d = 2; d < p; d++) if ((p - 1) % d == 0 && (d == p - 1 || d < 13 || vh_thorough)) { long c = 0; for (c = 2; c < p; c++) { element_set_si(g, c); mpz_set_ui(z, (p - 1) / d); element_pow_mpz(g, g, z); long o = 1; element_set(t, g); while (!element_is1(t)) { element_mul(t, t, g); o++; } if (o == d) break; } if (c == p) continue; mpz_set_ui(z, d); field_init_fp(Z, z); dl(F, Z, g, d, 0); field_clear(Z); }
  element_clear(g); element_clear(t); field_clear(F); mpz_clear(z);
}
// groups of large prime order: long walks, many snapshots
static void longwalk(long bits, long brute, long c_) {
  mpz_t p, r, k, h; mpz_inits(p, r, k, h, NULL); mpz_ui_pow_ui(r, 2, bits); do { mpz_nextprime(r, r); mpz_mul_2exp(p, r, 1); mpz_add_ui(p, p, 1); } while (!mpz_probab_prime_p(p, 20)); vh_outerf("order %s", vh_mpzs(r));
  field_t F, Z; field_init_fp(F, p); field_init_fp(Z, r); element_t g, e, x, e1; element_init(g, F); element_init(e, F); element_init(e1, F); element_init(x, Z); element_set_si(g, 4);
  for (int s = 0; s < (vh_thorough ? 24 : bits > 30 ? 2 : 6); s++) for (int c = 0; c < (bits > 30 ? 4 : 8); c++) {
    if (brute && s) break; switch (c) { case 0: mpz_fdiv_q_ui(k, r, 2 + s); break; case 1: mpz_sub_ui(k, r, 1); break; case 2: mpz_set_ui(k, 12345 + s); mpz_mod(k, k, r); break; case 3: mpz_fdiv_q_ui(k, r, 3 + s); mpz_mul_ui(k, k, 2); break; case 4: mpz_set_ui(k, 0); break; case 5: mpz_set_ui(k, 1); break; case 6: mpz_sub_ui(k, r, 2); break; default: mpz_sqrt(k, r); mpz_mul_ui(k, k, 7 + s); mpz_mod(k, k, r); }
    CTX("seed %ld case %ld", s, c); mpz_set_ui(h, 4); mpz_powm(h, h, k, p); element_set_mpz(e, h); element_set(e1, e); STATE(); STEP(); vh_rng_reset(); vh_rng_seed(s); if (brute) element_dlog_brute_force(x, g, e); else element_dlog_pollard_rho(x, g, e); element_to_mpz(h, x); CHECK(!mpz_cmp(h, k), "log of g^%s is %s", vh_mpzs(k), vh_mpzs(h)); CHECK(!element_cmp(e, e1), "input changed"); }
  element_clear(g); element_clear(e); element_clear(e1); element_clear(x); field_clear(F); field_clear(Z); mpz_clears(p, r, k, h, NULL);
}
void vh_register(void) {
  static const char *ty[] = { "a", "a1", "d", "e", "f", "g" };
  for (int t = 0; t < 6; t++) { int seen = 0; for (int i = 0; i < NTOYS; i++) if (!strcmp(toys[i].type, ty[t]) && !ps_degenerate(i) && toys[i].r >= 5) { int take = seen < (vh_thorough ? 8 : 3) || (vh_thorough && seen % 8 == 0); seen++; if (!take) continue; for (int w = 1; w <= 3; w++) vh_unit(grp, i, w, toys[i].r < 12 && (ty[t][0] != 'g' || w == 1), "%s/G%d", toys[i].name, w); } }
  static const int ps[] = { 5, 7, 11, 13, 19, 31, 61, 101, 211, 0 }; for (int i = 0; ps[i]; i++) vh_unit(mulgrp, ps[i], 0, 0, "F%d", ps[i]);
  for (int b = 12; b <= (vh_thorough ? 44 : 32); b += 4) vh_unit(longwalk, b, 0, 0, "long-walk/2^%d", b); vh_unit(longwalk, 17, 1, 0, "long-search/2^17");
}
