// P26: the co-DDH test decides exactly the tuples (g, g^x, h, h^+-x).
#include "pair.h"
#include "mem.h"
static int prime(long n) { for (long d = 2; d * d <= n; d++) if (n % d == 0) return 0; return n > 1; }
static void quads(long id, long lo, long hi) {
  pairing_t p; if (ps_open(p, id)) return; vh_outerf("%s", ps_name(id)); long r = toys[id].r; int a1 = !strcmp(ps_type(id), "a1") && !prime(r);
  element_t *A = malloc(sizeof(element_t) * r), *B = malloc(sizeof(element_t) * r), g, h, e, c1, c2; mpz_t z; mpz_init(z); element_init_G1(g, p); element_init_G2(h, p); element_init_GT(e, p); element_init_G1(c1, p); element_init_G2(c2, p);
  // generators with a pairing of full order
  int ok = 0; for (int s = 1; s < 60 && !ok; s++) { ok = grp_gen(g, p->r, s) && grp_gen(h, p->r, s + 100); if (!ok) continue; element_pairing(e, g, h); for (long q = 2; q <= r; q++) if (r % q == 0 && prime(q)) { element_t t; element_init_GT(t, p); mpz_set_ui(z, r / q); element_pow_mpz(t, e, z); if (element_is1(t)) ok = 0; element_clear(t); } }
  if (!ok && !strcmp(ps_type(id), "e")) return; CHECK(ok, "no generators with a pairing of full order");
  for (long i = 0; i < r; i++) { element_init_G1(A[i], p); element_init_G2(B[i], p); mpz_set_ui(z, i); element_mul_mpz(A[i], g, z); element_mul_mpz(B[i], h, z); }
  int live0 = mem_live(); long top = hi > r ? r : hi;
  for (long i = lo; i < top; i++) for (long j = 0; j < r; j++) for (long k = 0; k < r; k++) for (long l = 0; l < r; l++) {
    if (a1) { long v[2] = { i, j }; int skip = 0; for (int m = 0; m < 2; m++) if (v[m] && a1_order_degenerate(r, r / gcdl(v[m], r))) skip = 1; if (skip) continue; }
    if (!vh_thorough && r > 7 && (j * 5 + k * 3 + l) % (*ps_type(id) == 102 ? 11 : 3) && i && j && k && l) { long x = (i * l - j * k) % r, y = (i * l + j * k) % r; if (x && y) continue; }
    CTX("a=%ldg b=%ldg c=%ldh d=%ldh", i, j, k, l); STATE(); int w = (i * l - j * k) % r == 0 || (i * l + j * k) % r == 0, y = is_almost_coddh(A[i], A[j], B[k], B[l], p); STEP(); CHECK(!!y == w, "answer %d, expected %d", y, w); }
  CHECK(mem_live() == live0, "%ld blocks left", mem_live() - live0);
  for (long i = 0; i < r; i++) { mpz_set_ui(z, i); element_mul_mpz(c1, g, z); element_mul_mpz(c2, h, z); CHECK(!element_cmp(c1, A[i]) && !element_cmp(c2, B[i]), "operands changed"); element_clear(A[i]); element_clear(B[i]); }
  if (pairing_is_symmetric(p)) { element_t x; element_init_G1(x, p); for (long i = 0; i < r; i++) { if (a1 && i && a1_order_degenerate(r, r / gcdl(i, r))) continue; CTX("the same point four times: %ldg", i); mpz_set_ui(z, i); element_mul_mpz(x, g, z); STEP(); CHECK(is_almost_coddh(x, x, x, x, p), "refused"); element_t y; element_init_G1(y, p); p->phi(y, x, p); CHECK(!element_cmp(x, y), "phi is not the identity"); p->phi(x, x, p); CHECK(!element_cmp(x, y), "phi in place"); element_clear(y); } element_clear(x); }
  free(A); free(B); element_clear(g); element_clear(h); element_clear(e); element_clear(c1); element_clear(c2); mpz_clear(z); pairing_clear(p); mem_verify("heap");
}
static void big(long id, long b_, long c_) {
  pairing_t p; if (ps_open(p, id)) return; vh_outerf("%s", ps_name(id)); zalpha Z; za_build(&Z, p->r, 0); int n = Z.n; if (n > 7 && !vh_thorough) n = 7; element_t g, a, b, h, c, d; mpz_t u, v; mpz_init(u); mpz_init(v); element_init_G1(g, p); element_init_G1(a, p); element_init_G1(b, p); element_init_G2(h, p); element_init_G2(c, p); element_init_G2(d, p); if (!grp_gen(g, p->r, 3) || !grp_gen(h, p->r, 4)) { CHECK(0, "no generators"); return; }
  for (int i = 0; i < n; i += vh_thorough ? 1 : 3) for (int j = 0; j < n; j++) for (int k = 0; k < n; k += vh_thorough ? 1 : 3) for (int l = 0; l < n; l++) { if (!vh_thorough && (i + j + k + l) % 3) continue; CTX("scalars %ld %ld %ld %ld", i, j, k, l); STATE(); element_mul_mpz(a, g, Z.z[i]); element_mul_mpz(b, g, Z.z[j]); element_mul_mpz(c, h, Z.z[k]); element_mul_mpz(d, h, Z.z[l]); mpz_mul(u, Z.z[i], Z.z[l]); mpz_mul(v, Z.z[j], Z.z[k]); int w = mpz_congruent_p(u, v, p->r); mpz_add(u, u, v); w = w || mpz_divisible_p(u, p->r); int y = is_almost_coddh(a, b, c, d, p); STEP(); CHECK(!!y == w, "answer %d, expected %d", y, w); }
  element_clear(g); element_clear(a); element_clear(b); element_clear(h); element_clear(c); element_clear(d); mpz_clear(u); mpz_clear(v); za_clear(&Z); pairing_clear(p); mem_verify("heap");
}
void vh_register(void) {
  for (int i = 0; i < NTOYS; i++) { long r = toys[i].r; if (ps_degenerate(i) || r > (vh_thorough ? 31 : 16) || (r > 13 && !prime(r) && !vh_thorough)) continue; long st = r > 7 ? (vh_thorough ? 1 : 3) : r; for (long lo = 0; lo < r; lo += st) vh_unit(quads, i, lo, lo + st, "%s/%ld", toys[i].name, lo); }
  for (int i = 0; i < NREAL; i++) { if (!vh_thorough && (i == 5 || i == 6 || i == 7)) continue; vh_unit(big, NTOYS + i, 0, 0, "%s", real_names[i]); }
}
