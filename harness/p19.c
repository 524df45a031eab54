// P19: the printf family against concatenation of the pieces: every sequence
// of literal and conversion pieces up to a depth, every buffer size.
#include "mem.h"
#include "zoo.h"
typedef struct { const char *f; int kind; long v; const char *s; } piece; // kind 0 literal, 1 integer/pointer, 2 string, 3 mpz, 4 element
static mpz_t zs[4]; static element_ptr els[12]; static int nel;
static const piece P[] = {
  { "abc", 0 }, { " ", 0 }, { "%%", 0 }, { "B", 0 }, { "d\n", 0 }, { "Z[,]", 0 },
  { "%B", 4, 0 }, { "%B", 4, 1 }, { "%B", 4, 2 }, { "%B", 4, 3 },
  { "%d", 1, -17 }, { "%5d", 1, 42 }, { "%-6x", 1, 0xbeef }, { "%ld", 1, -1234567890123L }, { "%08lx", 1, 0x1234567L }, { "%c", 1, 'q' }, { "%p", 1, 0x7f1234 }, { "%+i", 1, 5 }, { "%u", 1, 7 }, { "%hhX", 1, 0x1ff }, { "%zu", 1, 99 },
  { "%s", 2, 0, "str" }, { "%s", 2, 0, "" }, { "%.2s", 2, 0, "xyz" }, { "%-4s", 2, 0, "%B" }, { "%3s", 2, 0, "longer text" },
  { "%Zd", 3, 0 }, { "%Zd", 3, 1 }, { "%#Zx", 3, 2 }, { "%20Zd", 3, 3 }, { "%-4Zd", 3, 0 }, { "%Zo", 3, 2 },
};
enum { NP = sizeof P / sizeof *P };
static void *arg_of(const piece *p) { switch (p->kind) { case 1: return (void *) p->v; case 2: return (void *) p->s; case 3: return zs[p->v]; case 4: return els[p->v]; } return 0; }
static int ref(char *o, const piece *p) { // independent rendering of one piece
  switch (p->kind) { case 0: strcpy(o, !strcmp(p->f, "%%") ? "%" : p->f); return strlen(o); case 1: case 2: return sprintf(o, p->f, arg_of(p)); case 3: return gmp_sprintf(o, p->f, zs[p->v]); default: { char *b = NULL; size_t n; FILE *f = open_memstream(&b, &n); element_out_str(f, 10, els[p->v]); fclose(f); memcpy(o, b, n + 1); free(b); return n; } }
}
static char fmt[400], ex[8000], rs[NP][2000]; static int rl[NP];
static int wrapv(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = element_vsnprintf(b, n, f, ap); va_end(ap); return r; }
static void one(int n, const int *w, long live0) {
  void *a[6] = { 0 }; int na = 0, L = 0; fmt[0] = 0; ex[0] = 0; char *fp = fmt; for (int i = 0; i < n; i++) { const piece *p = &P[w[i]]; fp = stpcpy(fp, p->f); if (p->kind) a[na++] = arg_of(p); memcpy(ex + L, rs[w[i]], rl[w[i]]); L += rl[w[i]]; ex[L] = 0; }
  STATE(); CTX("format \"%s\"", fmt); static char buf[9000]; int r;
  for (int sz = 0; sz <= L + 2; sz++) { if (L > 60 && sz > 8 && sz < L - 8 && sz % 7) continue; memset(buf, 0x5a, L + 20); STEP(); r = sz & 1 ? wrapv(buf + 4, sz, fmt, a[0], a[1], a[2], a[3], a[4]) : element_snprintf(buf + 4, sz, fmt, a[0], a[1], a[2], a[3], a[4]);
    CHECK(r == L, "snprintf into %d reports %d, expected %d", sz, r, L); int m = sz ? (L < sz ? L : sz - 1) : -1; if (m >= 0) CHECK(!memcmp(buf + 4, ex, m) && !buf[4 + m], "snprintf into %d gives \"%.60s\", expected \"%.60s\"", sz, buf + 4, ex); for (int i = 0; i < 4; i++) CHECK(buf[i] == 0x5a && buf[4 + (sz > 0 ? sz : 0) + i] == 0x5a, "snprintf into %d writes outside the buffer", sz); }
  r = element_snprintf(NULL, 0, fmt, a[0], a[1], a[2], a[3], a[4]); CHECK(r == L, "snprintf(NULL, 0) reports %d", r);
  for (int k = 0; k < 2; k++) { FILE *f = fmemopen(buf, sizeof buf, "w"), *o = stdout; if (k) { stdout = f; r = element_printf(fmt, a[0], a[1], a[2], a[3], a[4]); stdout = o; } else r = element_fprintf(f, fmt, a[0], a[1], a[2], a[3], a[4]); STEP(); long pos = ftell(f); fclose(f); CHECK(r == L && pos == L && !memcmp(buf, ex, L), "%s reports %d and writes %ld characters \"%.80s\", expected \"%.80s\"", k ? "printf" : "fprintf", r, pos, buf, ex); }
  if (live0 >= 0) CHECK(mem_live() == live0, "memory left behind");
}
static void setup(zoo *Z) { for (int i = 0; i < 4; i++) { mpz_init(zs[i]); els[i] = Z->el[i == 0 ? 0 : i == 1 ? Z->n / 2 : i == 2 ? Z->n - 1 : Z->n / 3]; } mpz_set_si(zs[1], -5); mpz_ui_pow_ui(zs[2], 2, 130); mpz_sub_ui(zs[2], zs[2], 1); mpz_neg(zs[3], zs[2]); mpz_fdiv_q_2exp(zs[3], zs[3], 75); for (int i = 0; i < NP; i++) { rl[i] = ref(rs[i], &P[i]); } }
static void words(long id, long depth, long first) {
  zoo Z; if (zoo_open(&Z, id, 12)) return; if (Z.n < 1) { zoo_close(&Z); return; } setup(&Z); vh_outerf("%s", Z.s.name); int w[5] = { first };
  for (int f = first < 0 ? 6 : first; f <= (first < 0 ? 9 : first); f++) for (int n = 1; n <= depth; n++) { w[0] = f; for (int i = 1; i < n; i++) w[i] = 0; for (;;) { one(n, w, mem_live()); int k = n - 1; while (k > 0 && ++w[k] == NP) w[k--] = 0; if (k <= 0) break; } }
  mem_verify("printf"); for (int i = 0; i < 4; i++) mpz_clear(zs[i]); zoo_close(&Z);
}
// diagnostics: prefix, newline, cut at 1023 characters, suppression, exit code
#include <sys/wait.h>
static void diag(long kind, long b_, long c_) {
  static const char *pre[] = { "", "warning: ", "error: ", "fatal: " }; static char t[3000], b[5000], e[5000]; FILE *se = stderr;
  for (int on = 0; on < 2; on++) for (int len = 0; len < 2500; len += len < 8 || (len > 1000 && len < 1030) ? 1 : 37) for (int m = 0; m < 2; m++) {
    CTX("kind %ld enabled %ld length %ld form %ld", kind, on, len, m); memset(t, 'x', len); t[len] = 0; snprintf(e, 5000, "%s%.1023s\n", pre[kind], t); if (!on) e[0] = 0; STATE(); STEP(); int st = 0; memset(b, 0, sizeof b);
    if (kind < 3) { FILE *f = fmemopen(b, sizeof b, "w"); stderr = f; CHECK(pbc_set_msg_to_stderr(on) == on, "setting not returned"); if (m) { if (kind == 0) pbc_info("%s", t); else if (kind == 1) pbc_warn("%s", t); else pbc_error("%s", t); } else { if (kind == 0) pbc_info(t); else if (kind == 1) pbc_warn(t); else pbc_error(t); } stderr = se; fclose(f); }
    else { if (len % 5 && len > 20) continue; int pi[2]; if (pipe(pi)) abort(); fflush(0); pid_t c = fork(); if (!c) { dup2(pi[1], 2); close(pi[0]); vh_exit_expected = 1; pbc_set_msg_to_stderr(on); if (m) pbc_die("%s", t); else pbc_die(t); } close(pi[1]); int n = 0, k; while ((k = read(pi[0], b + n, 4000 - n)) > 0) n += k; close(pi[0]); waitpid(c, &st, 0); CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 128, "pbc_die ends with status %x", st); }
    CHECK(!strcmp(b, e), "message is \"%.60s...\" (%zu characters), expected %zu", b, strlen(b), strlen(e)); }
}
// long literals and strings, around every power of two
static void longtext(long id, long b_, long c_) {
  zoo Z; if (zoo_open(&Z, id, 12)) return; element_ptr e = Z.el[Z.n - 1]; char *eb; size_t en; FILE *m = open_memstream(&eb, &en); element_out_str(m, 10, e); fclose(m); char *lit = malloc(140000), *f = malloc(140000), *ex = malloc(300000), *out = malloc(300000); vh_outerf("%s", Z.s.name); long live0 = mem_live();
  for (int p = 3; p <= 17; p++) for (int d = -2; d <= 2; d++) for (int form = 0; form < 4; form++) { int n = (1 << p) + d; if (n > 131000) continue; CTX("%ld characters, form %ld", n, form); STATE(); for (int i = 0; i < n; i++) lit[i] = 'a' + i % 23; lit[n] = 0;
    switch (form) { case 0: sprintf(f, "%s", lit); sprintf(ex, "%s", lit); break; case 1: sprintf(f, "%s%%B", lit); sprintf(ex, "%s%s", lit, eb); break; case 2: sprintf(f, "%%B%s%%%%%%B", lit); sprintf(ex, "%s%s%%%s", eb, lit, eb); break; default: sprintf(f, "[%%s]%%B"); sprintf(ex, "[%s]%s", lit, eb); }
    int L = strlen(ex), r; for (int q = 0; q < 4; q++) { int sz = q == 0 ? L + 1 : q == 1 ? L : q == 2 ? L / 2 : 1; memset(out, 0x5a, sz + 8); STEP(); r = form == 3 ? element_snprintf(out, sz, f, lit, e) : element_snprintf(out, sz, f, e, e); CHECK(r == L && !strncmp(out, ex, sz - 1) && !out[sz - 1 < L ? sz - 1 : L] && out[sz] == 0x5a, "snprintf into %d reports %d of %d", sz, r, L); }
    char *ob; size_t on; FILE *g = open_memstream(&ob, &on); r = form == 3 ? element_fprintf(g, f, lit, e) : element_fprintf(g, f, e, e); fclose(g); CHECK(r == L && (int) on == L && !memcmp(ob, ex, L), "fprintf reports %d of %d", r, L); free(ob); CHECK(mem_live() == live0, "memory left behind"); }
  free(eb); free(lit); free(f); free(ex); free(out); zoo_close(&Z);
}
// every conversion at every offset of a long literal; long conversion specifications
static void offsets(long id, long lo, long hi) {
  zoo Z; if (zoo_open(&Z, id, 12)) return; element_ptr e = Z.el[Z.n - 1]; char *eb; size_t en; FILE *m = open_memstream(&eb, &en); element_out_str(m, 10, e); fclose(m); static char lit[3000], f[6000], ex[12000], out[12000]; vh_outerf("%s", Z.s.name); long live0 = mem_live(); mpz_t z; mpz_init_set_si(z, -98765432);
  static const char *cv[] = { "%%", "%B", "%d", "%s", "%Zd" };
  for (int n = lo; n < hi; n++) for (int c = 0; c < 5; c++) { for (int i = 0; i < n; i++) lit[i] = 'a' + i % 23; lit[n] = 0; const char *o = c == 0 ? "%" : c == 1 ? eb : c == 2 ? "-17" : c == 3 ? "text" : "-98765432"; void *a = c == 1 ? (void *) e : c == 2 ? (void *) -17L : c == 3 ? (void *) "text" : (void *) z;
    CTX("conversion %ld after %ld characters", c, n); STATE(); sprintf(f, "%s%s,%.40s%s!%%B", lit, cv[c], lit, cv[c]); int L = sprintf(ex, "%s%s,%.40s%s!%s", lit, o, lit, o, eb); STEP(); memset(out, 0x5a, L + 8); int r = c ? element_snprintf(out, L + 1, f, a, a, e) : element_snprintf(out, L + 1, f, e); CHECK(r == L && !strcmp(out, ex) && out[L + 1] == 0x5a, "snprintf reports %d, expected %d: \"...%.60s\"", r, L, strlen(out) > (size_t) n ? out + n : out);
    char *ob; size_t on; FILE *g = open_memstream(&ob, &on); r = c ? element_fprintf(g, f, a, a, e) : element_fprintf(g, f, e); fclose(g); CHECK(r == L && (int) on == L && !memcmp(ob, ex, L), "fprintf reports %d, expected %d", r, L); free(ob); }
  mpz_clear(z); CHECK(mem_live() == live0, "memory left behind"); free(eb); zoo_close(&Z);
}
static void specs(long id, long b_, long c_) { // flags, zero-padded widths and precisions of every length
  zoo Z; if (zoo_open(&Z, id, 12)) return; element_ptr e = Z.el[Z.n - 1]; char *eb; size_t en; FILE *m = open_memstream(&eb, &en); element_out_str(m, 10, e); fclose(m); static char sp[2000], f[3000], ex[9000], out[9000], t[4000]; mpz_t z; mpz_init_set_si(z, -98765432);
  static const char *fl[] = { "", "-", "+", " ", "#", "0", "-+", "+0", "#0", "- #+" }, *tl[] = { "d", "ld", "lx", "s", "c", "Zd", "Zx", "hhu", "lld", "zx", "jd", "hi", "lu", "o" };
  for (unsigned a = 0; a < 10; a++) for (unsigned b = 0; b < 14; b++) for (int z0 = 0; z0 < 40; z0++) for (int k = 0; k < 4; k++) { if (tl[b][0] == 'c' && k > 1) continue; if (z0 > 24 && (a + b) % 3) continue;
    char *p = stpcpy(sp, "%"); p = stpcpy(p, fl[a]); for (int i = 0; i < z0 / 2 * (k < 2); i++) *p++ = fl[a][0] == '0' || i ? '0' : '1'; *p = 0; int w = 0; if (k < 2) { char *q = p; while (q > sp && *(q - 1) >= '0' && *(q - 1) <= '9') q--; w = strlen(q) > 4; } if (w) { p = sp + 1 + strlen(fl[a]); for (int i = 0; i < z0 / 2 + 1; i++) *p++ = '0'; p = stpcpy(p, "37"); } if (k & 1 && tl[b][0] != 'c') { *p++ = '.'; for (int i = 0; i < z0; i++) *p++ = '0'; p = stpcpy(p, "9"); } strcpy(p, tl[b]);
    int gz = tl[b][0] == 'Z'; void *v = gz ? (void *) z : tl[b][0] == 's' ? (void *) "some text to be cut or padded" : tl[b][0] == 'c' ? (void *) 'q' : (void *) 1234567L; CTX("specification \"%s\"", sp); STATE(); STEP(); int n = gz ? gmp_sprintf(t, sp, v) : sprintf(t, sp, v); if (n < 0) continue;
    snprintf(f, sizeof f, "<%s>%%B %s", sp, sp); int L = sprintf(ex, "<%s>%s %s", t, eb, t); memset(out, 0x5a, L + 8); int r = element_snprintf(out, L + 1, f, v, e, v); CHECK(r == L && !strcmp(out, ex), "gives %d \"%.60s\", expected %d \"%.60s\"", r, out, L, ex); char *ob; size_t on; FILE *g = open_memstream(&ob, &on); r = element_fprintf(g, f, v, e, v); fclose(g); CHECK(r == L && (int) on == L && !memcmp(ob, ex, L), "fprintf gives %d \"%.60s\", expected %d \"%.60s\"", r, ob, L, ex); free(ob); }
  mpz_clear(z); free(eb); zoo_close(&Z);
}
static void many(long id, long b_, long c_) { // many conversions in one format
  zoo Z; if (zoo_open(&Z, id, 12)) return; mpz_t z; mpz_init_set_si(z, -98765432); long live0 = mem_live(); static const char *cv[] = { "%B", "%ld", "%s", "%Zd" }; vh_outerf("%s", Z.s.name);
  for (int n = 0; n <= 32; n++) for (int pat = 0; pat < 12; pat++) { void *a[33] = { 0 }; static char f[2000], ex[60000], out[60000]; char *fp = f, *xp = ex; *f = *ex = 0;
    for (int i = 0; i < n; i++) { int k = pat < 4 ? pat : pat < 8 ? (i + pat) % 4 : (i * i + pat + i / 3) % 4; fp += sprintf(fp, "%s%s", i % 3 ? ";" : i % 5 ? "%%" : "", cv[k]); xp += sprintf(xp, "%s", i % 3 ? ";" : i % 5 ? "%" : ""); if (k == 0) { a[i] = Z.el[i % Z.n]; FILE *g = fmemopen(xp, 4000, "w"); element_out_str(g, 10, a[i]); long q = ftell(g); fclose(g); xp += q; *xp = 0; } else if (k == 1) { a[i] = (void *) (long) (i * 1000003L - 77); xp += sprintf(xp, "%ld", (long) a[i]); } else if (k == 2) { static const char *w[] = { "", "word", "%B", "a longer text" }; a[i] = (void *) w[i % 4]; xp = stpcpy(xp, w[i % 4]); } else { a[i] = z; xp = stpcpy(xp, "-98765432"); } }
    int L = xp - ex; CTX("%ld conversions, pattern %ld", n, pat); STATE(); STEP();
#define A8(o) a[o], a[o + 1], a[o + 2], a[o + 3], a[o + 4], a[o + 5], a[o + 6], a[o + 7]
    memset(out, 0x5a, L + 8); int r = element_snprintf(out, L + 1, f, A8(0), A8(8), A8(16), A8(24)); CHECK(r == L && !strcmp(out, ex), "snprintf gives %d \"%.60s\", expected %d \"%.60s\"", r, out, L, ex); char *ob; size_t on; FILE *g = open_memstream(&ob, &on); r = element_fprintf(g, f, A8(0), A8(8), A8(16), A8(24)); fclose(g); CHECK(r == L && (int) on == L && !memcmp(ob, ex, L), "fprintf gives %d, expected %d", r, L); free(ob); CHECK(mem_live() == live0, "memory left behind"); }
  mpz_clear(z); zoo_close(&Z);
}
void vh_register(void) {
  zoo_init(); { int seen = 0; for (int i = 0; i < zoo_n && seen < 3; i++) if (!zoo_list[i].cost && (zoo_list[i].kind & (ZK_TOWER | ZK_CURVE)) && i % 7 == 0) { seen++; vh_unit(longtext, i, 0, 0, "long/%s", zoo_list[i].name); for (int o = 0; o < 2400; o += 300) vh_unit(offsets, i, o, o + 300, "offsets/%s/%d", zoo_list[i].name, o); vh_unit(specs, i, 0, 0, "specs/%s", zoo_list[i].name); vh_unit(many, i, 0, 0, "many/%s", zoo_list[i].name); } } int seen = 0; for (int i = 0; i < zoo_n; i++) { zspec *s = &zoo_list[i]; if (!strncmp(s->name, "i.", 2)) continue; if (s->cost == 2 && !vh_thorough && s->kind != ZK_G2) continue; if (!vh_thorough && s->cost < 2 && i % 4) continue; int d = 2; if (s->cost == 0 && seen < (vh_thorough ? 8 : 3)) { d = 3; seen++; }
    if (d == 3) for (int f = 0; f < NP; f++) vh_unit(words, i, vh_thorough && seen == 1 ? 4 : d, f, "%s/first%d", s->name, f); else vh_unit(words, i, 2, -1, "%s", s->name); }
  for (int k = 0; k < 4; k++) vh_unit(diag, k, 0, 0, "diagnostics/%d", k);
}
