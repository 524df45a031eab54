// P16: CM parameter search and class polynomials, against brute force.
#include "mem.h"
#include <pbc_mnt.h>
#include <pbc_hilbert.h>
#include "cmtab.h"
static int isp(unsigned long n) { mpz_t z; mpz_init_set_ui(z, n); int r = mpz_probab_prime_p(z, 25) != 0; mpz_clear(z); return r; }
// ---- search
typedef struct { mpz_t q, n; } rec; static rec *got; static int ngot, capgot; static long curD, curK, curBL, stopat; static long total;
static int cb(pbc_cm_ptr cm, void *data) {
  STATE(); CHECK(data == &ngot, "wrong user pointer"); CHECK(cm->D == curD && cm->k == curK, "wrong discriminant or embedding degree"); mpz_t t, u; mpz_init(t); mpz_init(u);
  CHECK(mpz_probab_prime_p(cm->q, 25), "q not prime"); CHECK(mpz_probab_prime_p(cm->r, 25), "r not prime"); mpz_mul(t, cm->h, cm->r); CHECK(!mpz_cmp(t, cm->n), "n != h r"); CHECK(mpz_sizeinbase(cm->n, 2) <= (size_t) curBL, "order has %ld bits, limit %ld", (long) mpz_sizeinbase(cm->n, 2), curBL);
  mpz_sub(t, cm->q, cm->n); mpz_add_ui(t, t, 1); mpz_mul(t, t, t); mpz_mul_ui(u, cm->q, 4); mpz_sub(u, u, t); CHECK(mpz_sgn(u) > 0 && mpz_divisible_ui_p(u, curD), "4q - t^2 is not a multiple of D"); mpz_divexact_ui(u, u, curD); CHECK(mpz_perfect_square_p(u), "4q - t^2 is not D times a square");
  if (mpz_cmp_ui(cm->r, 3) > 0) { mpz_set_ui(t, 1); for (int k = 1; k <= curK; k++) { mpz_mul(t, t, cm->q); mpz_mod(t, t, cm->r); CHECK((k == curK) == !mpz_cmp_ui(t, 1), "embedding degree is not %ld", curK); } }
  for (int i = 0; i < ngot; i++) CHECK(mpz_cmp(got[i].q, cm->q) || mpz_cmp(got[i].n, cm->n), "reported twice");
  if (ngot == capgot) { got = realloc(got, sizeof(rec) * (capgot += 64)); for (int i = ngot; i < capgot; i++) { mpz_init(got[i].q); mpz_init(got[i].n); } } mpz_set(got[ngot].q, cm->q); mpz_set(got[ngot].n, cm->n); ngot++; total++; mpz_clear(t); mpz_clear(u);
  return ngot == stopat ? 4711 + (int) stopat : 0;
}
static int search(int k, long D, long bl, long stop) { curD = D; curK = k; curBL = bl; stopat = stop; ngot = 0; CTX("k %ld D %ld bits %ld stop %ld", k, D, bl, stop); STEP(); return k == 6 ? pbc_cm_search_d(cb, &ngot, D, bl) : pbc_cm_search_g(cb, &ngot, D, bl); }
// brute force table of solutions with q below a bound
typedef struct { long D, q, n; } sol; static sol *S; static int nS;
static int sol_cmp(const void *a, const void *b) { const sol *x = a, *y = b; return x->D != y->D ? (x->D > y->D) - (x->D < y->D) : x->q != y->q ? (x->q > y->q) - (x->q < y->q) : (x->n > y->n) - (x->n < y->n); }
static void brute(int k, long qmax, long D0, long D1) {
  S = malloc(sizeof(sol) * 200000); nS = 0;
  for (long x0 = 0;; x0++) { int any = 0; for (int sg = -1; sg <= 1; sg += 2) { long x = sg * x0; if (!x0 && sg > 0) continue; long q, t; if (k == 6) { q = x * x + 1; t = 1 - x; } else { q = 25 * x * x * x * x + 25 * x * x * x + 25 * x * x + 10 * x + 3; t = 10 * x * x + 5 * x + 3; } if (q >= qmax) continue; any = 1; if (q < 5 || !isp(q)) continue; long n = q + 1 - t; if (n < 2) continue;
      long r = n; if (!isp(r)) for (long p = 2; p < 65536 && r > 1; p++) if (r % p == 0) { while (r % p == 0) r /= p; if (isp(r)) break; } if (!isp(r)) continue;
      long m = 4 * q - t * t; if (m <= 0) continue; for (long V = 1; V * V * D0 <= m; V++) if (m % (V * V) == 0) { long D = m / V / V; if (D < D0 || D >= D1 || (D % 4 && D % 4 != 3)) continue; S[nS].D = D; S[nS].q = q; S[nS++].n = n; } }
    if (!any && x0 > 10) break; }
  qsort(S, nS, sizeof(sol), sol_cmp);
}
static void complete(long k, long D0, long D1) {
  int qb = vh_thorough ? 34 : 28; if (k == 10) qb = vh_thorough ? 61 : 58; brute(k, 1L << qb, D0, D1); static const int bls[] = { 8, 12, 16, 20, 24, 28, 33, 40, 46, 60, 160, 500 };
  for (long D = D0; D < D1; D++) { if (D % 4 && D % 4 != 3) continue; for (int b = 0; b < 12; b++) { if (!vh_thorough && D > 400 && b % 3 != D % 3) continue; if (D > 8000 && b % 4 != 1 && b < 10) continue; long bl = bls[b]; long m0; search(k, D, bl, 0); m0 = mem_live(); int rc = search(k, D, bl, 0); CHECK(rc == 0, "returned %d", rc); CHECK(mem_live() == m0, "search leaks %ld blocks", mem_live() - m0);
      for (int i = 0; i < nS; i++) if (S[i].D == D) { int need = bl >= 64 || S[i].n < 1L << bl, f = 0; for (int j = 0; j < ngot; j++) if (!mpz_cmp_si(got[j].q, S[i].q) && !mpz_cmp_si(got[j].n, S[i].n)) f = 1; CHECK(f == need, "q %ld n %ld %s for D %ld", S[i].q, S[i].n, f ? "reported beyond the limit" : "missed", D); }
      int c = ngot; for (int s = 1; s <= c; s++) { rc = search(k, D, bl, s); CHECK(rc == 4711 + s, "callback value %d returned as %d", 4711 + s, rc); CHECK(ngot == s, "callback called after it asked to stop"); } } }
  mem_verify("heap"); vh_sample("k %ld D in [%ld,%ld): %d brute-force solutions, %ld reports", k, D0, D1, nS, total);
}
// exactly the curves of an independently computed table
static int nbits[64];
// every limit around the length of a solution
static void limits(long k, long D, long top) { search(k, D, top, 0); int n = ngot; if (n > 60) n = 60; for (int i = 0; i < n; i++) nbits[i] = mpz_sizeinbase(got[i].n, 2); for (int i = 0; i < n; i++) for (int d = -1; d <= 1; d++) { int bl = nbits[i] + d, want = 0; if (bl > top) continue; for (int j = 0; j < n; j++) want += nbits[j] <= bl; search(k, D, bl, 0); STATE(); CHECK(ngot == want, "%d curves of at most %d bits reported for D %ld, there are %d", ngot, bl, D, want); } }
static void table(long k, long D0, long D1) { mpz_t q, n; mpz_init(q); mpz_init(n); for (long D = D0; D < D1; D++) { if (D % 4 && D % 4 != 3) continue; search(k, D, 500, 0); int want = 0; for (unsigned i = 0; i < sizeof cmtab / sizeof *cmtab; i++) if (cmtab[i].k == k && cmtab[i].D == D) { want++; mpz_set_str(q, cmtab[i].q, 10); mpz_set_str(n, cmtab[i].n, 10); int f = 0; for (int j = 0; j < ngot; j++) f |= !mpz_cmp(got[j].q, q) && !mpz_cmp(got[j].n, n); CHECK(f, "q %s missed for D %ld", cmtab[i].q, D); } CHECK(ngot == want, "%d curves reported for D %ld, there are %d", ngot, D, want); limits(k, D, 500); } mpz_clear(q); mpz_clear(n); }
// the curves of the shipped parameter files come from known discriminants: the search must find them
static const struct { long D; const char *f; } shipped[] = { { 62003, "d159" }, { 9563, "d201" }, { 496659, "d224" }, { 105171, "d105171-196-185" }, { 277699, "d277699-175-167" }, { 278027, "d278027-190-181" }, { 1666603, "g149" } };
static void bigD(long k, long D, long bl) { search(k, D, bl, 0);
  for (int i = 0; i < 7; i++) if (shipped[i].D == D) { char fn[600]; snprintf(fn, sizeof fn, "%s/param/%s.param", vh_repo, shipped[i].f); size_t n; char *t = vh_slurp(fn, &n); mpz_t z; mpz_init(z); char *q = strstr(t, "\nq "); CHECK(q && gmp_sscanf(q + 3, "%Zd", z) == 1, "no q in %s", fn); int f = 0; for (int j = 0; j < ngot; j++) f |= !mpz_cmp(got[j].q, z); CHECK(f, "the curve of %s.param is not among the %d reports for D %ld", shipped[i].f, ngot, D); mpz_clear(z); free(t); }
  vh_sample("D %ld: %d reports", D, ngot); }
// ---- class polynomials
static int fundamental(long D) { if (D % 4 == 3) { for (long p = 3; p * p <= D; p += 2) if (D % (p * p) == 0) return 0; return 1; } if (D % 4) return 0; long m = D / 4; if (m % 4 != 1 && m % 4 != 2) return 0; for (long p = 3; p * p <= m; p += 2) if (m % (p * p) == 0) return 0; return 1; } // -D: m = 1, 2 mod 4
static long gcd_(long a, long b) { while (b) { long t = a % b; a = b; b = t; } return a; }
static int classno(long D) { int h = 0; for (long a = 1; 3 * a * a <= D; a++) for (long b = -a + 1; b <= a; b++) if ((b * b + D) % (4 * a) == 0) { long c = (b * b + D) / (4 * a); if (c < a || (c == a && b < 0)) continue; if (gcd_(gcd_(a, labs(b)), c) == 1) h++; } return h; }
static long pw(long a, long e, long p) { long r = 1; for (a %= p; e; e >>= 1, a = a * a % p) if (e & 1) r = r * a % p; return r; }
static void hilb(long D0, long D1, long c) {
  char *qr = malloc(1 << 16); long full = 0, nD = 0;
  for (long D = D0; D < D1; D++) { if (!fundamental(D)) continue; nD++; CTX("D %ld", D); STATE(); mpz_t *a; long m0 = mem_live(); size_t n = pbc_hilbert(&a, D); STEP(); int h = classno(D); CHECK((int) n == h + 1, "degree %d instead of the class number %d", (int) n - 1, h); if ((int) n != h + 1) { pbc_hilbert_free(a, n); continue; } CHECK(!mpz_cmp_ui(a[n - 1], 1), "not monic");
    size_t need = 0; for (size_t i = 0; i < n; i++) { size_t b = mpz_sizeinbase(a[i], 2); if (b > need) need = b; } double have = 0; long budget = vh_thorough ? 400000000 : 20000000;
    int s2 = D % 8 == 7; // 4p = t^2 + D s^2 with s = 1, or s = 2 where s = 1 makes p even
    for (long t = s2 ? 0 : D % 2; budget > 0; t += 2) { long p = (t * t + (s2 ? 4 : 1) * D) / 4; if (p >= 60000) break; if (p < 5 || !isp(p)) continue; budget -= p * p / 2;
      // all j with a curve of trace +-t
      memset(qr, -1, p); qr[0] = 0; for (long y = 1; y <= p / 2; y++) qr[y * y % p] = 1; long *J = malloc(sizeof(long) * (h + 3)); int nj = 0;
      for (long j = 0; j < p && nj < h + 2; j++) { long A, B; int ok = 0; if (j == 0) { if (t == 0) continue; for (long b = 1; b < p && !ok; b++) { if (b > 60) break; long tr = 0; for (long x = 0; x < p; x++) tr -= qr[(x * x % p * x + b) % p]; ok = labs(tr) == t; } if (ok && D != 3) ok = 0; if (D == 3) ok = p % 3 == 1; }
        else if (j == 1728 % p) { ok = D == 4; } else { long k = j * pw((1728 - j % p + p) % p, p - 2, p) % p; A = 3 * k % p; B = 2 * k % p; long tr = 0, z2 = 0, f = B % p, d1 = (1 + A) % p, d2 = 6 % p; for (long x = 0; x < p; x++) { tr -= qr[f]; z2 += !f; f += d1; if (f >= p) f -= p; d1 += d2; if (d1 >= p) d1 -= p; d2 += 6; if (d2 >= p) d2 -= p; } ok = labs(tr) == t && (!s2 || z2 == 3); } // full 2-torsion: endomorphism ring is the maximal order
        if (ok) J[nj++] = j; }
      if (t == 0 || p < 13) { free(J); continue; } // supersingular, or discriminants coincide
      if (nj != h) { free(J); if (D > 4) CHECK(0, "reference found %d curves for class number %d, p %ld", nj, h, p); continue; }
      long *P = calloc(h + 1, sizeof(long)); P[0] = 1; int dg = 0; for (int i = 0; i < h; i++) { for (int k = ++dg; k > 0; k--) P[k] = ((k < dg ? P[k] : 0) * ((p - J[i]) % p) + P[k - 1]) % p; P[0] = P[0] * ((p - J[i]) % p) % p; }
      for (int i = 0; i <= h; i++) CHECK(mpz_fdiv_ui(a[i], p) == (unsigned long) P[i], "coefficient %d of class polynomial wrong modulo %ld", i, p); TRACE(); STEP(); free(P); free(J); have += __builtin_log2((double) p); if (have > need + 2) { full++; break; } }
    pbc_hilbert_free(a, n); CHECK(mem_live() == m0, "leaks %ld blocks", mem_live() - m0); }
  free(qr); mem_verify("heap"); vh_sample("D in [%ld,%ld): %ld fundamental discriminants, %ld with every coefficient determined exactly by CRT", D0, D1, nD, full);
}
void vh_register(void) {
  int DM = vh_thorough ? 8000 : 2000, st = DM / 16; for (int D = 3; D < DM; D += st) { vh_unit(complete, 6, D, D + st, "mnt/D%d", D); vh_unit(complete, 10, D, D + st, "freeman/D%d", D); }
  for (int D = 3; D < 40000; D += 2000) { vh_unit(table, 10, D, D + 2000 > 40000 ? 40000 : D + 2000, "freeman/table%d", D); if (D < 8000) vh_unit(table, 6, D, D + 2000 > 8000 ? 8000 : D + 2000, "mnt/table%d", D); }
  for (int D = DM + 1; D < (vh_thorough ? 120000 : 40000); D += 4000) vh_unit(complete, 10, D, D + 4000, "freeman/D%d", D);
  for (int i = 0; i < 6; i++) { long D = (4294967296L + 5 + 12 * i) / 3; vh_unit(bigD, 6, D, 200, "mnt/D%ld", D); }
  static const int rb[] = { 62003, 9563, 496659, 105171, 277699, 278027, 0 }; for (int i = 0; rb[i]; i++) vh_unit(bigD, 6, rb[i], 500, "mnt/D%d", rb[i]); vh_unit(bigD, 10, 35707, 500, "freeman/D35707"); vh_unit(bigD, 10, 1666603, 500, "freeman/D1666603");
  int HM = vh_thorough ? 1600 : 400, hs = vh_thorough ? 25 : 10; for (int D = 3; D < HM; D += hs) vh_unit(hilb, D, D + hs, 0, "hilbert/%d", D);
}
