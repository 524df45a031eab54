// P13: random values.  The random source is part of the environment: all its
// answers are enumerated for small structures and the distribution counted.
#include "zoo.h"
extern void pbc_init_random(void);
static zoo Z;
static int ndraw; static mpz_t lim[256]; static mpz_t script[256]; static int nscript; static void *seen_data; static int over; static int bad_data; static char cookie;
static unsigned long tail_state;
static void src(mpz_t z, mpz_t limit, void *data) { // answers from the script; afterwards a fixed stream
  if (data != &cookie) bad_data++;
  CHECK(mpz_sgn(limit) > 0, "random number below %s requested", vh_mpzs(limit));
  if (ndraw < 256) { mpz_set(lim[ndraw], limit); }
  if (ndraw < nscript) mpz_mod(z, script[ndraw], limit); else { over++; int w = mpz_size(limit) + 1; unsigned long b[w]; for (int i = 0; i < w; i++) b[i] = vh_mix(tail_state++); mpz_import(z, w, 1, 8, 0, 0, b); mpz_mod(z, z, limit); }
  ndraw++;
}
static void start(void) { ndraw = 0; over = 0; tail_state = 99; }
static element_t c, d;
static int idx(element_t e) { for (int i = 0; i < Z.n; i++) if (!element_cmp(e, Z.el[i])) return i; return -1; }
static int rpow1(element_t e) { element_t t; element_init(t, Z.f); element_set1(t); for (int b = mpz_sizeinbase(Z.pr->r, 2) - 1; b >= 0; b--) { element_mul(t, t, t); if (mpz_tstbit(Z.pr->r, b)) element_mul(t, t, e); } element_set1(d); int ok = !element_cmp(t, d); element_clear(t); return ok; }
static void member(element_t e, const char *w) {
  int k = Z.s.kind; int typi = Z.haspr && !strcmp(ps_name(Z.s.a), "i");
  if (k == ZK_CURVE || ((k == ZK_G1 || k == ZK_G2) && !typi)) CHECK(el_on_curve(e), "%s: random point is off the curve", w);
  if (k == ZK_G1 || k == ZK_GT || (k == ZK_G2 && (typi || strchr("ae", ps_type(Z.s.a)[0])))) CHECK(rpow1(e), "%s: random element is not killed by r", w);
  if (k == ZK_GT) { element_mul(d, e, e); CHECK(element_cmp(d, e) || element_is1(e), "%s: random element of GT is zero", w); }
  if (!element_item_count(e) && (k & (ZK_PRIME | ZK_RING | ZK_ZR))) { mpz_t z; mpz_init(z); element_to_mpz(z, e); CHECK(mpz_cmp(z, Z.f->order) < 0 && mpz_sgn(z) >= 0, "%s: unreduced residue", w); mpz_clear(z); }
}
static void unit(long id, long b_, long c_) {
  if (zoo_open(&Z, id, 2600)) return; vh_outerf("%s", Z.s.name); element_init(c, Z.f); element_init(d, Z.f); for (int i = 0; i < 256; i++) { mpz_init(lim[i]); mpz_init(script[i]); }
  int k = Z.s.kind; const char *ty = Z.haspr ? ps_type(Z.s.a) : ""; int solve = (k == ZK_G1 || k == ZK_G2) && (!strcmp(ty, "a1") || !strcmp(ty, "i")); int typi = !strcmp(ty, "i");
  // how many numbers are drawn below which limits
  nscript = 0; start(); pbc_random_set_function(src, &cookie); element_set(c, Z.el[0]); element_random(c); int nd = ndraw; STATE(); STEP(); member(c, "first draw");
  mpz_t tot; mpz_init_set_ui(tot, 1); mpz_t L[64]; for (int i = 0; i < nd && i < 64; i++) { mpz_init_set(L[i], lim[i]); mpz_mul(tot, tot, lim[i]); }
  if (!solve && k != ZK_GT && !typi) CHECK(!mpz_cmp(tot, Z.f->order), "the numbers drawn have %s joint values, the structure %s elements", vh_mpzs(tot), vh_mpzs(Z.f->order));
  int unif = !solve && !typi; long N = mpz_fits_slong_p(tot) ? mpz_get_si(tot) : 0; if (N > (vh_thorough ? 700000 : 60000)) N = 0;
  if (unif && N && Z.whole && nd < 64) { // every joint answer
    long *cnt = calloc(Z.n, sizeof(long)); long redraw = 0, runs = 0;
    for (long v = 0; v < N; v++) { CTX("answer #%ld of the random source", v); long m = v; for (int i = 0; i < nd; i++) { long l = mpz_get_si(L[i]); mpz_set_si(script[i], m % l); m /= l; } nscript = nd; start(); element_set(c, Z.el[(v + 1) % Z.n]); element_random(c); STATE(); STEP(); CHECK(ndraw >= nd, "fewer numbers drawn on some values"); member(c, "enumerated"); if (over) { redraw++; continue; } int j = idx(c); CHECK(j >= 0, "random element is not in the structure"); if (j >= 0) cnt[j]++; runs++; 
      if (v < 50) { start(); element_t f; element_init(f, Z.f); element_random(f); CHECK(!element_cmp(f, c), "the same answers gave different elements"); element_clear(f); } }
    if (k == ZK_GT) CHECK(redraw == 1, "%ld answers were rejected, only zero should be", redraw); else CHECK(!redraw, "%ld answers were rejected", redraw);
    if (k != ZK_CURVE) for (int i = 0; i < Z.n; i++) CHECK(cnt[i] * Z.n == runs, "not uniform: element #%d is drawn for %ld of %ld answers, out of %d elements", i, cnt[i], runs, Z.n);
    else { long v = 0; for (int i = 0; i < Z.n; i++) if (cnt[i]) { if (!v) v = cnt[i]; CHECK(cnt[i] == v, "multiples of the generator are not equally likely"); } }
    free(cnt); vh_sample("%s: all %ld answers, %d elements", Z.s.name, N, Z.n);
  } else { // boundary answers: distinct answers give distinct elements
    int nv = 0; element_t *res = 0; mpz_t z; mpz_init(z);
    for (int w = 0; w < (nd < 6 ? nd : 6) && w < 64; w++) for (int v = 0; v < (Z.s.cost == 2 && !vh_thorough ? 7 : 14); v++) { CTX("answer %ld to draw %ld", v, w);
      mpz_set(z, L[w]); if (v < 4) mpz_set_ui(z, v); else if (v < 7) mpz_sub_ui(z, z, v - 3); else if (v == 7) mpz_fdiv_q_2exp(z, z, 1); else { mpz_set_ui(z, 1); mpz_mul_2exp(z, z, 31 + (v - 8) * 33); if (v & 1) mpz_sub_ui(z, z, 1); } if (mpz_cmp(z, L[w]) >= 0 || mpz_sgn(z) < 0) continue;
      nscript = nd < 64 ? nd : 64; for (int i = 0; i < nscript; i++) mpz_set_ui(script[i], 5 + i); mpz_set(script[w], z); int dup = 0; if (v >= 4 && mpz_cmp_ui(z, 4) < 0) dup = 1; if (!mpz_cmp_ui(z, 5 + w)) dup = 1; for (int i = 0; i < nscript; i++) if (mpz_cmp_ui(script[i], 5 + i) < 0) {} 
      start(); element_set(c, Z.el[v % Z.n]); element_random(c); STATE(); STEP(); member(c, "boundary");
      start(); element_set(d, Z.el[(v + 1) % Z.n]); element_t f; element_init(f, Z.f); element_random(f); CHECK(!element_cmp(f, c), "the same answers gave different elements"); element_clear(f);
      if (unif && !dup && k != ZK_GT) { mpz_t key; mpz_init(key); int small = 0; for (int i = 0; i < nscript; i++) if (mpz_cmp_ui(L[i], 64) < 0) small = 1; mpz_clear(key); if (!small) { for (int i = 0; i < nv; i++) CHECK(element_cmp(res[i], c), "two different answers gave the same element"); res = realloc(res, sizeof(element_t) * (nv + 1)); element_init(res[nv], Z.f); element_set(res[nv++], c); } } }
    mpz_clear(z); vh_sample("%s: %d boundary answers, %d numbers drawn", Z.s.name, nv, nd);
  }
  CHECK(!bad_data, "the random function got another data pointer");
}
// ---- the sources themselves
static char fname[700];
#include <fcntl.h>
static int pfd = -1, plen = -1;
static void put(const unsigned char *b, int n) { if (pfd < 0) pfd = open(fname, O_RDWR | O_CREAT | O_TRUNC, 0600); if (n != plen) ftruncate(pfd, n); plen = n; if (n && pwrite(pfd, b, n, 0) != n) abort(); }
static void unit_file(long limit, long blocks, long c_) {
  snprintf(fname, sizeof fname, "%s/rnd", vh_scratch); pbc_random_set_file(fname); freopen("/dev/null", "w", stderr); pbc_set_msg_to_stderr(0);
  mpz_t L, z; mpz_init_set_ui(L, limit); mpz_init(z); int bytes = (mpz_sizeinbase(L, 2) + 7) / 8; unsigned char b[16]; long *cnt = calloc(limit, sizeof(long)); long total = 1, fails = 0, ok = 0; for (int i = 0; i < bytes * blocks; i++) total *= 256;
  long step = 1; if (bytes * blocks > 1 && blocks == 2) step = 1;
  for (long v = 0; v < total; v += step) { CTX("file with content %ld of %ld bytes, limit %ld", v, bytes * blocks, limit); long m = v; for (int i = 0; i < bytes * blocks; i++) { b[i] = m; m >>= 8; } put(b, bytes * blocks); mpz_set_si(z, -77); pbc_mpz_random(z, L); STATE(); STEP();
    if (!mpz_cmp_si(z, -77)) { fails++; continue; } CHECK(mpz_sgn(z) >= 0 && mpz_cmp(z, L) < 0, "value %s out of range", vh_mpzs(z)); if (mpz_sgn(z) >= 0 && mpz_cmp(z, L) < 0) cnt[mpz_get_si(z)]++; ok++;
    if (v % 97 == 0) { mpz_t y; mpz_init(y); pbc_mpz_random(y, L); CHECK(!mpz_cmp(y, z), "same file, different value"); mpz_clear(y); } }
  for (long i = 0; i < limit; i++) CHECK(cnt[i] * limit == ok, "limit %ld: value %ld arises from %ld of %ld files", limit, i, cnt[i], ok);
  CHECK(ok > 0 && fails * 2 <= total, "limit %ld: %ld of %ld files gave no number", limit, fails, total);
  vh_sample("limit %ld, files of %ld bytes: %ld numbers, %ld too short", limit, (long) bytes * blocks, ok, fails);
}
static void unit_trunc(long bits, long b_, long c_) { // a source that ends early never yields a number
  snprintf(fname, sizeof fname, "%s/rnd", vh_scratch); pbc_random_set_file(fname); pbc_set_msg_to_stderr(0); freopen("/dev/null", "w", stderr);
  mpz_t L, z; mpz_init(L); mpz_init(z); unsigned char b[600];
  for (int sh = 0; sh < 3; sh++) { mpz_set_ui(L, 1); mpz_mul_2exp(L, L, bits); if (sh == 1) mpz_sub_ui(L, L, 1); if (sh == 2) mpz_add_ui(L, L, 1); if (mpz_sgn(L) <= 0) continue; int n = (mpz_sizeinbase(L, 2) + 7) / 8;
    for (int fill = 0; fill < 4; fill++) for (int len = 0; len <= 3 * n + 1; len++) { CTX("limit 2^%ld%+ld, %ld bytes, fill %ld", bits, sh == 1 ? -1 : sh == 2, len, fill); for (int i = 0; i < len; i++) b[i] = fill == 0 ? 0 : fill == 1 ? 0xff : fill == 2 ? i * 37 + 11 : (i / n) % 2 ? i * 5 + 1 : 0xff; put(b, len); mpz_set_si(z, -77); pbc_mpz_random(z, L); STATE(); STEP();
      if (len < n) CHECK(!mpz_cmp_si(z, -77), "a source of %d bytes gave a number needing %d: %s", len, n, vh_mpzs(z)); else CHECK(!mpz_cmp_si(z, -77) || (mpz_sgn(z) >= 0 && mpz_cmp(z, L) < 0), "out of range: %s", vh_mpzs(z));
      if (fill == 0 && len >= n) CHECK(!mpz_sgn(z), "zero bytes gave %s", vh_mpzs(z));
      if (mpz_sgn(z) >= 0) { mpz_t y; mpz_init(y); for (int i = len; i < len + 3; i++) b[i] = 0x5a; put(b, len + 3); pbc_mpz_random(y, L); CHECK(!mpz_cmp(y, z), "bytes after the number changed it"); mpz_clear(y); } } }
  unlink(fname); mpz_set_si(z, -77); pbc_mpz_random(z, L); CHECK(!mpz_cmp_si(z, -77), "a missing source gave a number");
}
static void unit_bigfile(long bits, long b_, long c_) { // long numbers: in range, of full length, every bit varies, also with a first block out of range
  snprintf(fname, sizeof fname, "%s/rnd", vh_scratch); pbc_random_set_file(fname); pbc_set_msg_to_stderr(0); freopen("/dev/null", "w", stderr); mpz_t L, z, any, all; mpz_init(L); mpz_init(z); mpz_init(any); mpz_init(all); static unsigned char b[40000];
  for (int sh = 0; sh < 3; sh++) { mpz_set_ui(L, 1); mpz_mul_2exp(L, L, bits); if (sh == 0) mpz_sub_ui(L, L, 1); if (sh == 1) { mpz_mul_ui(L, L, 3); mpz_fdiv_q_2exp(L, L, 2); } int n = (mpz_sizeinbase(L, 2) + 7) / 8; mpz_set_ui(any, 0); mpz_set_ui(all, 1); mpz_mul_2exp(all, all, mpz_sizeinbase(L, 2)); mpz_sub_ui(all, all, 1); int got = 0, full = 0;
    for (int k = 0; k < 60; k++) { CTX("limit of %ld bits, variant %ld, file %ld", bits, sh, k); STATE(); int len = 8 * n; for (int i = 0; i < len; i++) b[i] = vh_mix(k * 100003L + i) >> 13; if (k % 4 == 3) memset(b, 0xff, n); put(b, len); mpz_set_si(z, -77); pbc_mpz_random(z, L); STEP(); if (!mpz_cmp_si(z, -77)) continue; got++; CHECK(mpz_sgn(z) >= 0 && mpz_cmp(z, L) < 0, "out of range: %s", vh_mpzs(z)); if (mpz_sizeinbase(z, 2) + 24 > bits) full++; mpz_ior(any, any, z); mpz_and(all, all, z); mpz_t y; mpz_init(y); pbc_mpz_random(y, L); CHECK(!mpz_cmp(y, z), "same file, different value"); mpz_clear(y); }
    CHECK(got > 40, "%d of 60 files gave a number", got); CHECK(full == got, "%d of %d numbers below a limit of %ld bits are shorter than %ld bits", got - full, got, bits, bits - 24);
    int k0 = 0, k1 = 0; for (int i = 0; i < bits - (sh == 1); i++) { if (!mpz_tstbit(any, i)) k0++; if (mpz_tstbit(all, i)) k1++; } CHECK(!k0 && !k1, "%d bits are never set, %d always", k0, k1); }
  unlink(fname);
}
static int fn_calls; static mpz_t fn_lim; static void *fn_data;
static void fn(mpz_t z, mpz_t l, void *d_) { fn_calls++; mpz_set(fn_lim, l); fn_data = d_; mpz_sub_ui(z, l, 1); }
static void unit_det(long depth, long b_, long c_) { // all words over {seed a, seed b, draw with 3 limits, other source}
  mpz_t L[3], z, y; mpz_init_set_ui(L[0], 1); mpz_init_set_ui(L[1], 10); mpz_init(L[2]); mpz_ui_pow_ui(L[2], 2, 200); mpz_init(z); mpz_init(y); mpz_init(fn_lim);
  long words = 1; for (int i = 0; i < depth; i++) words *= 6;
  for (long w = 0; w < words; w++) { CTX("word #%ld of length %ld", w, depth); TRACE(); mpz_t rec[2][12]; int nr[2]; for (int run = 0; run < 2; run++) { nr[run] = 0; pbc_random_set_deterministic(7); long m = w; int det = 1;
      for (int i = 0; i < depth; i++) { int op = m % 6; m /= 6; STEP(); if (op < 2) { pbc_random_set_deterministic(op ? 123456789 : 0); det = 1; } else if (op < 5) { mpz_init(rec[run][nr[run]]); mpz_ptr q = rec[run][nr[run]++]; if (run) mpz_set_ui(q, 999); pbc_mpz_random(q, L[op - 2]); CHECK(mpz_sgn(q) >= 0 && mpz_cmp(q, L[op - 2]) < 0, "out of range"); if (!det) CHECK(!mpz_cmp(fn_lim, L[op - 2]) && fn_data == &cookie, "the selected random function got other arguments"); } else { pbc_random_set_function(fn, &cookie); det = 0; } } }
    STATE(); for (int i = 0; i < nr[0]; i++) { CHECK(!mpz_cmp(rec[0][i], rec[1][i]), "the same seeds and draws gave different numbers"); mpz_clear(rec[0][i]); mpz_clear(rec[1][i]); } }
  // reseeding restarts the stream; different seeds give different streams
  unsigned seeds[] = { 0, 1, 2, 255, 65536, 0x7fffffff, 0x80000000u, 0xffffffffu }; mpz_t first[8];
  for (int i = 0; i < 8; i++) { CTX("seed %ld", (long) seeds[i]); mpz_init(first[i]); pbc_random_set_deterministic(seeds[i]); pbc_mpz_random(first[i], L[2]); for (int k = 0; k < 5; k++) pbc_mpz_random(z, L[2]); CHECK(mpz_cmp(z, first[i]), "constant stream"); pbc_random_set_deterministic(seeds[i]); pbc_mpz_random(z, L[2]); CHECK(!mpz_cmp(z, first[i]), "reseeding does not restart the stream"); for (int j = 0; j < i; j++) CHECK(mpz_cmp(first[i], first[j]), "two seeds give the same stream"); STATE(); }
  // k-bit numbers: exactly the range [0, 2^k)
  pbc_random_set_function(fn, &cookie); for (int k = 0; k <= 300; k++) { CTX("%ld bits", k); pbc_mpz_randomb(z, k); STATE(); STEP(); mpz_ui_pow_ui(y, 2, k); CHECK(!mpz_cmp(fn_lim, y), "limit for %d bits is %s", k, vh_mpzs(fn_lim)); mpz_sub_ui(y, y, 1); CHECK(!mpz_cmp(z, y), "%d-bit number", k); }
  // the default source
  pbc_init_random(); mpz_ui_pow_ui(L[2], 2, 128); pbc_mpz_random(z, L[2]); pbc_mpz_random(y, L[2]); CHECK(mpz_cmp(z, y) && mpz_cmp(z, L[2]) < 0, "default source repeats itself");
}

void vh_register(void) {
  zoo_init();
  for (int i = zoo_n - 1; i >= 0; i--) { zspec *s = &zoo_list[i]; if (!vh_thorough && s->cost == 1 && s->e > 2 && (s->kind & (ZK_GROUP | ZK_ZR))) continue; vh_unit(unit, i, 0, 0, "%s", s->name); }
  for (int l = 1; l <= 34; l++) vh_unit(unit_file, l, 1, 0, "file-limit%d", l);
  static const int big[] = { 63, 64, 65, 100, 127, 128, 129, 200, 254, 255, 256, 257, 300, 511, 512, 1000, 32768, 0 }; for (int i = 0; big[i]; i++) if (vh_thorough || big[i] < 256 || big[i] == 257 || big[i] == 512 || big[i] == 1000) vh_unit(unit_file, big[i], 1, 0, "file-limit%d", big[i]);
  static const int two[] = { 1, 3, 5, 6, 10, 100, 129, 0 }; for (int i = 0; two[i]; i++) if (vh_thorough || i < 4) vh_unit(unit_file, two[i], 2, 0, "file2-limit%d", two[i]);
  static const int bt[] = { 1, 5, 7, 8, 9, 15, 16, 17, 31, 63, 64, 65, 128, 160, 512, 0 }; for (int i = 0; bt[i]; i++) vh_unit(unit_trunc, bt[i], 0, 0, "short-source-%d", bt[i]);
  static const int bb[] = { 64, 159, 160, 512, 1023, 1024, 1025, 2048, 4001, 8192, 16384, 0 }; for (int i = 0; bb[i]; i++) vh_unit(unit_bigfile, bb[i], 0, 0, "long-source-%d", bb[i]);
  for (int d_ = 1; d_ <= (vh_thorough ? 7 : 5); d_++) vh_unit(unit_det, d_, 0, 0, "sources-depth%d", d_);
}
