// P31: the bundled generator and listing programs.  Every argument list within
// the bounds is given to the program's real main(), compiled from the current
// tree, under a fixed random source; what it prints and how it ends is compared
// with what the library says under the same random source.  One explorer per
// program: TOOL selects it.
#include <signal.h>
#include <sys/wait.h>
#include "vh.h"
#include <pbc.h>
#include <pbc_mnt.h>
#include <pbc_hilbert.h>
extern int pbc_tool_main(int, char **);
static unsigned long rctr; int rand(void) { return (int) (vh_mix(rctr++) >> 33); }
static void seed(unsigned long s) { rctr = s * 1000003UL; vh_rng_reset(); vh_rng_seed(s); }
static char *got; static size_t ngot, capgot; static int ended, status, code;
// runs the program; stops it after "lines" lines if lines > 0
static void tool(unsigned long s, int lines, const char *a1, const char *a2) {
  int pi[2]; if (pipe(pi)) abort(); fflush(0); pid_t c = fork();
  if (!c) { vh_exit_expected = 1; int sg[] = { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGXCPU, SIGPIPE }; for (int i = 0; i < 7; i++) signal(sg[i], SIG_DFL); close(pi[0]); dup2(pi[1], 1); close(pi[1]); pbc_set_msg_to_stderr(0); seed(s); char *av[4] = { "program", (char *) a1, (char *) (a1 ? a2 : NULL), NULL }; exit(pbc_tool_main(a1 ? a2 ? 3 : 2 : 1, av)); }
  close(pi[1]); ngot = 0; int nl = 0; for (;;) { if (capgot < ngot + 70000) got = realloc(got, capgot = 2 * capgot + 140000); ssize_t k = read(pi[0], got + ngot, 60000); if (k <= 0) break; for (ssize_t i = 0; i < k; i++) nl += got[ngot + i] == '\n'; ngot += k; if (lines > 0 && nl >= lines) break; }
  got[ngot] = 0; if (lines > 0 && nl >= lines) kill(c, SIGKILL); close(pi[0]); waitpid(c, &status, 0); ended = WIFEXITED(status); code = ended ? WEXITSTATUS(status) : -1; STATE(); STEP(); vh_traces++;
}
static char *want; static size_t nwant; static FILE *wf;
static void wopen(void) { free(want); want = NULL; wf = open_memstream(&want, &nwant); }
static void prints(const char *w) { fclose(wf); CHECK(ended && code == 0, "%s ends with status %x", w, status); CHECK(ngot == nwant && !memcmp(got, want, ngot), "%s prints \"%.120s\" (%zu characters), expected \"%.120s\" (%zu)", w, got, ngot, want, nwant); }
static void refuses(const char *w) { CHECK(ended && code != 0, "%s is not refused: status %x", w, status); CHECK(!ngot, "%s prints \"%.80s\" although refused", w, got); }
static char b1[40], b2[40];
static void mpz_of(mpz_t z, const char *key) { char k[40]; snprintf(k, sizeof k, "\n%s ", key); char *p = strstr(got, k); CHECK(p, "no %s printed", key); mpz_set_ui(z, 0); if (p) { p += strlen(k); char *e = strchr(p, '\n'); char *t = strndup(p, e ? e - p : strlen(p)); mpz_set_str(z, t, 10); free(t); } }
#define TA 1
#define TA1 2
#define TD 3
#define TE 4
#define TF 5
#define TG 6
#define TLM 7
#define TLF 8
#define TH 9
#if TOOL == TA || TOOL == TE
static void ae(long rb, long qb, long s) { // rb, qb = 0: left to the defaults
  pbc_param_t p; sprintf(b1, "%ld", rb); sprintf(b2, "%ld", qb); CTX("arguments %ld %ld (0: none) seed %ld", rb, qb, s); tool(s, 0, rb ? b1 : NULL, qb ? b2 : NULL); if (!rb) rb = 160; if (!qb) qb = TOOL == TA ? 512 : 1024;
  wopen(); seed(s);
#if TOOL == TA
  pbc_param_init_a_gen(p, rb, qb);
#else
  pbc_param_init_e_gen(p, rb, qb);
#endif
  pbc_param_out_str(wf, p); pbc_param_clear(p); prints("the program");
  mpz_t q, r, t; mpz_init(q); mpz_init(r); mpz_init(t); mpz_of(q, "q"); mpz_of(r, "r"); CHECK(mpz_probab_prime_p(q, 20) && mpz_probab_prime_p(r, 20), "q or r not prime"); if (TOOL == TA) mpz_add_ui(t, q, 1); else mpz_sub_ui(t, q, 1); CHECK(mpz_divisible_p(t, r), "r does not divide the curve order"); mpz_clear(q); mpz_clear(r); mpz_clear(t);
}
static void sweep(long rb, long q0, long q1) { for (long q = q0; q <= q1; q++) for (int s = 0; s < (vh_thorough ? 8 : 2); s++) ae(rb, q, s); }
void vh_register(void) {
  for (int s = 0; s < (vh_thorough ? 12 : 3); s++) { vh_unit(ae, 0, 0, s, "default/%d", s); for (int r = 20; r <= 200; r += vh_thorough ? 10 : 45) vh_unit(ae, r, 0, s, "r%d/%d", r, s); vh_unit(ae, 80, 300, s, "r80-q300/%d", s); vh_unit(ae, 160, TOOL == TA ? 700 : 1100, s, "r160/%d", s); }
  for (int r = 5; r <= (vh_thorough ? 60 : 24); r++) vh_unit(sweep, r, (TOOL == TA ? r : 2 * r) + 8, (TOOL == TA ? r : 2 * r) + 24, "sweep/r%d", r);
}
#elif TOOL == TA1
static void a1(long s, long b_, long c_) {
  CTX("seed %ld", s); tool(s, 0, NULL, NULL); mpz_t p, q, n, t; mpz_inits(p, q, n, t, NULL); pbc_param_t par;
  CHECK(ended && code == 0 && !strncmp(got, "type a1\n", 8), "no type a1 parameters: status %x", status); mpz_of(n, "n"); mpz_of(p, "p"); CHECK(mpz_probab_prime_p(p, 20), "p not prime"); mpz_add_ui(t, p, 1); CHECK(mpz_divisible_p(t, n), "n does not divide p + 1"); CHECK(!mpz_probab_prime_p(n, 20), "n is prime");
  seed(s); wopen(); pbc_mpz_randomb(p, 512); pbc_mpz_randomb(q, 512); mpz_nextprime(p, p); mpz_nextprime(q, q); CHECK(mpz_cmp(p, q), "seed"); CHECK(mpz_divisible_p(n, p) && mpz_divisible_p(n, q), "n is not the product of the primes after the random numbers"); mpz_mul(t, p, q); CHECK(!mpz_cmp(n, t), "n is not the product of two primes"); pbc_param_init_a1_gen(par, t); pbc_param_out_str(wf, par); pbc_param_clear(par); prints("the program"); mpz_clears(p, q, n, t, NULL);
}
void vh_register(void) { for (int s = 0; s < (vh_thorough ? 64 : 12); s++) vh_unit(a1, s, 0, 0, "seed%d", s); }
#elif TOOL == TD || TOOL == TG
static int cb(pbc_cm_t cm, void *d) { pbc_param_t p; 
#if TOOL == TD
  pbc_param_init_d_gen(p, cm);
#else
  pbc_param_init_g_gen(p, cm);
#endif
  pbc_param_out_str(wf, p); pbc_param_clear(p); return 1; }
static void one(long D, long s) {
  CTX("D %ld seed %ld", D, s); sprintf(b1, "%ld", D); tool(s, 0, D == LONG_MIN ? NULL : b1, NULL); if (D == LONG_MIN) D = TOOL == TD ? 9563 : 35707;
  if (D <= 0 || (TOOL == TD ? D % 4 == 1 || D % 4 == 2 : D % 120 != 43 && D % 120 != 67)) { refuses("a discriminant outside the class"); return; }
  wopen(); seed(s); int found = (TOOL == TD ? pbc_cm_search_d : pbc_cm_search_g)(cb, NULL, D, 500); if (found) { prints("the program"); CHECK(!strncmp(got, TOOL == TD ? "type d\n" : "type g\n", 7), "type"); } else { fclose(wf); refuses("a discriminant without curves"); }
}
static void range(long lo, long hi, long st) { for (long D = lo; D < hi; D += st) one(D, D & 1); vh_sample("every discriminant from %ld below %ld in steps of %ld", lo, hi, st); }
static void dflt(long s, long b_, long c_) { one(LONG_MIN, s); }
void vh_register(void) {
  vh_unit(dflt, 1, 0, 0, "default"); vh_unit(range, -200, 3, 1, "not-positive");
#if TOOL == TD
  for (int D = 3; D < (vh_thorough ? 4000 : 1500); D += 60) vh_unit(range, D, D + 60, 1, "D%d", D);
#else
  for (int D = 3; D < 1000; D += 100) vh_unit(range, D, D + 100, 1, "D%d", D); for (int D = 43; D < (vh_thorough ? 150000 : 40000); D += 1200) { vh_unit(range, D, D + 1200, 120, "D%d-by120", D); vh_unit(range, D + 24, D + 1224, 120, "D%d-by120", D + 24); }
#endif
}
#elif TOOL == TF
static void f(long bits, long s, long c_) { CTX("bits %ld (0: none) seed %ld", bits, s); sprintf(b1, "%ld", bits); tool(s, 0, bits ? b1 : NULL, NULL); if (!bits) bits = 160; pbc_param_t p; wopen(); seed(s); pbc_param_init_f_gen(p, bits); pbc_param_out_str(wf, p); pbc_param_clear(p); prints("the program"); mpz_t q; mpz_init(q); mpz_of(q, "q"); long b = mpz_sizeinbase(q, 2); CHECK(b >= bits - 8 && b <= bits + 8, "q has %ld bits", b); mpz_clear(q); }
static void bad(long a, long b, long c_) { static const char *w[] = { "0", "-1", "-160", "x", "", "-x" }; for (int i = 0; i < 6; i++) { CTX("argument %s", w[i]); tool(0, 0, w[i], NULL); refuses("a size below one"); } for (long k = -300; k < 1; k++) { sprintf(b1, "%ld", k); CTX("argument %ld", k); tool(0, 0, b1, NULL); refuses("a size below one"); } }
void vh_register(void) { for (int s = 0; s < 3; s++) vh_unit(f, 0, s, 0, "default/%d", s); for (int b = 40; b <= (vh_thorough ? 256 : 180); b += vh_thorough ? 3 : 10) vh_unit(f, b, b & 3, 0, "bits%d", b); vh_unit(bad, 0, 0, 0, "refused"); }
#elif TOOL == TLM || TOOL == TLF
static int nline; static int cb(pbc_cm_t cm, void *d) { fprintf(wf, "%ld, %zu, %zu\n", *(long *) d, mpz_sizeinbase(cm->q, 2), mpz_sizeinbase(cm->r, 2)); nline++; return 0; }
static void from(long D0, long upto, long last) { // D0 < 0: no argument
  long D = D0; sprintf(b1, "%ld", D0); CTX("from %ld (negative: none)", D0); if (D < 0) D = TOOL == TLM ? 7 : 0; wopen(); fprintf(wf, "D < 1000000000, bits in q, bits in r\n"); nline = 1; seed(0);
  long lim = last ? 1000000000 : D + upto; 
  for (; D < lim; D += TOOL == TLM ? 4 : 120) for (int k = 0; k < 2; k++) { long x = D + (TOOL == TLM ? k : k ? 67 : 43); (TOOL == TLM ? pbc_cm_search_d : pbc_cm_search_g)(cb, &x, x, 500); }
  if (!last && nline == 1) { fclose(wf); return; } // nothing to see
  tool(0, last ? 0 : nline, D0 < 0 ? NULL : b1, NULL); if (last) { prints("the listing to the end"); return; } fclose(wf); CHECK(ngot >= nwant && !memcmp(got, want, nwant), "the listing from %ld starts \"%.200s\", expected \"%.200s\"", D0, got, want);
}
static void bad(long lo, long hi, long c_) { for (long D = lo; D < hi; D++) { if (TOOL == TLM ? D >= 7 && D % 4 == 3 : D % 120 == 0) continue; CTX("argument %ld", D); sprintf(b1, "%ld", D); tool(0, 1, b1, NULL); refuses("a first discriminant outside the class"); } }
void vh_register(void) {
  int N = vh_thorough ? 40000 : 4000; vh_unit(from, -1, TOOL == TLM ? N : 15 * N, 0, "default"); vh_unit(bad, 1, 400, 0, "refused"); 
  if (TOOL == TLM) { for (int k = 0; k < 24; k++) vh_unit(from, 7 + 4 * (k < 12 ? k : k * k * 37), N / 4, 0, "from%d", 7 + 4 * (k < 12 ? k : k * k * 37)); vh_unit(from, 999999999, 0, 1, "end"); for (long D = 20007; D < (vh_thorough ? 10000000 : 1000000); D = D * 8 / 5) { D += 3 - D % 4; vh_unit(from, D, vh_thorough ? 4000 : 1200, 0, "from%ld", D); } }
  else { for (int k = 1; k < 24; k++) vh_unit(from, 120 * (k < 12 ? k : k * k), 4 * N, 0, "from%d", 120 * (k < 12 ? k : k * k)); vh_unit(from, 999999960, 0, 1, "end"); for (long D = 90000; D < (vh_thorough ? 10000000 : 1000000); D = D * 8 / 5) { D -= D % 120; vh_unit(from, D, vh_thorough ? 120000 : 36000, 0, "from%ld", D); } }
}
#else
static void expectpoly(long D) { mpz_t *c; if (D % 4 == 1 || D % 4 == 2) return; int n = pbc_hilbert(&c, D); fprintf(wf, "D = %ld\n ", D); for (int i = n - 1; i >= 0; i--) { if (i < n - 1) gmp_fprintf(wf, "%s%Zd", mpz_sgn(c[i]) >= 0 ? "+" : "", c[i]); if (i == 1) fprintf(wf, "X"); else if (i) fprintf(wf, "X^%d", i); fprintf(wf, "\n"); } pbc_hilbert_free(c, n); }
static void pairs(long lo, long hi, long span) { for (long D = lo; D < hi; D++) for (long e = D - 2; e <= D + span; e++) { CTX("from %ld to %ld", D, e); sprintf(b1, "%ld", D); sprintf(b2, "%ld", e); wopen(); for (long k = D; k <= e; k++) expectpoly(k); tool(0, 0, b1, b2); prints("the program"); } }
static void single(long lo, long hi, long c_) { for (long D = lo; D < hi; D++) { CTX("D %ld (0: none)", D); sprintf(b1, "%ld", D); wopen(); expectpoly(D ? D : 3); tool(0, 0, D ? b1 : NULL, NULL); prints("the program"); } }
static void span(long lo, long hi, long c_) { CTX("from %ld to %ld", lo, hi); sprintf(b1, "%ld", lo); sprintf(b2, "%ld", hi); wopen(); for (long k = lo; k <= hi; k++) expectpoly(k); tool(0, 0, b1, b2); prints("the program"); }
static void bad(long a, long b, long c_) { static const char *w[] = { "0", "-1", "-3", "x", "", "-4" }; for (int i = 0; i < 6; i++) for (int k = 0; k < 2; k++) { CTX("argument %s", w[i]); tool(0, 0, w[i], k ? "20" : NULL); refuses("a discriminant that is not positive"); } }
void vh_register(void) { vh_unit(bad, 0, 0, 0, "refused"); vh_unit(single, 0, 1, 0, "default"); vh_unit(span, 1, 400, 0, "to400"); for (int D = 1; D < (vh_thorough ? 3000 : 700); D += 50) vh_unit(single, D, D + 50, 0, "D%d", D); for (int D = 3; D < (vh_thorough ? 400 : 120); D += 8) vh_unit(pairs, D, D + 8, vh_thorough ? 24 : 8, "range%d", D); }
#endif
