// P25: the calculator.  Scripts are generated exhaustively from small grammars
// together with what a reference evaluator says each statement prints, run
// through the real lexer, parser and evaluator, and compared line by line.
#include <ctype.h>
#include <signal.h>
#include <sys/wait.h>
#include <fcntl.h>
#include "vh.h"
int pbc_calculator_main(int, char **);

// ---- scripts ----------------------------------------------------------
typedef struct { char *s; size_t n, cap; } buf;
static void addn(buf *b, const char *s, size_t l) { if (b->n + l + 1 > b->cap) { b->cap = 2 * (b->n + l + 64); b->s = realloc(b->s, b->cap); } memcpy(b->s + b->n, s, l); b->n += l; b->s[b->n] = 0; }
static void add(buf *b, const char *f, ...) { char t[4096]; va_list ap; va_start(ap, f); int k = vsnprintf(t, sizeof t, f, ap); va_end(ap); addn(b, t, k); }
static buf src, want; static size_t *stpos; static long nwant, wcap; static size_t laststmt;
static void reset(void) { src.n = want.n = 0; if (src.s) src.s[0] = 0; if (want.s) want.s[0] = 0; nwant = 0; addn(&src, "", 0); addn(&want, "", 0); }
#define S(...) (laststmt = src.n, add(&src, __VA_ARGS__))
static void W(const char *f, ...) { char t[4096]; va_list ap; va_start(ap, f); vsnprintf(t, sizeof t, f, ap); va_end(ap); if (nwant == wcap) stpos = realloc(stpos, sizeof *stpos * (wcap = 2 * wcap + 64)); stpos[nwant++] = laststmt; addn(&want, t, strlen(t)); addn(&want, "\n", 1); }
// run the calculator: mode 0 file, 1 file with -y, 2 standard input, 3 standard input with -y. Returns output.
static char *calc(int mode, const char *text, int *status) {
  char in[600], out[600]; snprintf(in, sizeof in, "%s/in.pbc", vh_scratch); snprintf(out, sizeof out, "%s/out", vh_scratch);
  FILE *f = fopen(in, "w"); if (!f) _exit(9); fwrite(text, 1, strlen(text), f); fclose(f);
  fflush(stdout); pid_t pid = fork();
  if (!pid) {
    vh_exit_expected = 1; int sg[] = { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGXCPU }; for (int i = 0; i < 6; i++) signal(sg[i], SIG_DFL);
    int o = open(out, O_WRONLY | O_CREAT | O_TRUNC, 0600), z = open("/dev/null", O_WRONLY), i = open(mode >= 2 ? in : "/dev/null", O_RDONLY); dup2(o, 1); dup2(z, 2); dup2(i, 0);
    char *av[] = { "pbc", "-y", in, NULL }, *bv[] = { "pbc", in, NULL }, *cv[] = { "pbc", NULL }, *dv[] = { "pbc", "-y", NULL };
    exit(mode == 0 ? pbc_calculator_main(2, bv) : mode == 1 ? pbc_calculator_main(3, av) : mode == 2 ? pbc_calculator_main(1, cv) : pbc_calculator_main(2, dv));
  }
  waitpid(pid, status, 0); return vh_slurp(out, NULL);
}
static int numeric(const char *a, size_t n) { for (size_t i = 0; i < n; i++) if (!strchr("0123456789-[], ", a[i])) return 0; return 1; }
static void run(int mode) {
  int st; vh_traces++; CTX("script of %ld output lines", nwant);
  char *out = calc(mode, src.s, &st), *o = out, *w = want.s; long i = 0, pv = 0;
  for (; i < nwant; i++) {
    char *oe = strchr(o, '\n'), *we = strchr(w, '\n'); size_t ol = oe ? oe - o : strlen(o), wl = we - w; char stm[400]; snprintf(stm, sizeof stm, "%.*s", (int) (strcspn(src.s + stpos[i], "\n") > 380 ? 380 : strcspn(src.s + stpos[i], "\n")), src.s + stpos[i]);
    STEP(); vh_checks++;
    int ok = oe && (wl && *w == '!' ? ol && !numeric(o, ol) : ol == wl && !memcmp(o, w, wl));
    if (!ok) { char cx[800]; snprintf(cx, sizeof cx, "%.*s", (int) (stpos[i] - (stpos[i] > 300 ? stpos[i] - 300 : 0)), src.s + (stpos[i] > 300 ? stpos[i] - 300 : 0)); vh_fail("%s: printed \"%.*s\", expected \"%.*s\"%s (status %d; before: %s)", stm, (int) (ol > 200 ? 200 : ol), o, (int) (wl > 200 ? 200 : wl), w, *w == '!' ? " (a message)" : "", st, cx); free(out); return; }
    pv = stpos[i]; (void) pv; o = oe + 1; w = we + 1;
  }
  if (mode == 2) { CHECK(!strcmp(o, "\n"), "trailing output \"%.80s\"", o); } else if (mode == 0 || mode == 1) CHECK(!*o, "more output than statements: \"%.80s\"", o);
  CHECK(WIFEXITED(st) && !WEXITSTATUS(st), "the calculator ended with status %#x after %ld lines", st, i);
  free(out);
}
static void flush_if(int mode, size_t lim) { if (src.n > lim) { run(mode); reset(); } }

// ---- reference evaluation of token strings ----------------------------
typedef struct { int k; long v; } tok; // k: 'n' number, 'v' variable (v = index), operator codes otherwise
enum { EQ = 256, NE, LE, GE, AS };
static tok *tp, *te; static int bad; static long var[8]; static int def[8];
static long lim(__int128 x) { if (x > 1000000000000000000LL || x < -1000000000000000000LL) { bad = 1; return 0; } return (long) x; }
static int prec(int k) { switch (k) { case '?': case ':': return 1; case EQ: case NE: case '<': case '>': case LE: case GE: return 2; case AS: return 3; case '+': case '-': return 4; case '*': case '/': return 5; case '^': return 7; } return 0; }
static long ap(int k, long a, long b) {
  switch (k) { case '+': return lim((__int128) a + b); case '-': return lim((__int128) a - b); case '*': return lim((__int128) a * b); case '/': if (!b) { bad = 1; return 0; } return a / b;
    case '^': { if (b < 0 || b > 60) { bad = 1; return 0; } __int128 r = 1; while (b--) r = lim(r * a); return lim(r); }
    case EQ: return a == b; case NE: return a != b; case LE: return a <= b; case GE: return a >= b; case '<': return a < b; case '>': return a > b; } bad = 1; return 0; }
static long ex(int mp, int live);
static long atom(int live) {
  if (tp >= te) { bad = 1; return 0; } tok t = *tp++;
  if (t.k == 'n') return t.v;
  if (t.k == 'v') { if (tp < te && tp->k == AS) { tp++; long v = ex(4, live); if (live) { var[t.v] = v; def[t.v] = 1; } return v; } if (live && !def[t.v]) bad = 1; return var[t.v]; }
  if (t.k == '-') { return -ex(6, live); }
  if (t.k == '(') { long v = ex(1, live); if (tp >= te || tp->k != ')') bad = 1; tp++; return v; }
  bad = 1; return 0;
}
// operators of precedence >= mp; dead branches are parsed but not evaluated
static long ex(int mp, int live) {
  long a = atom(live);
  while (tp < te && !bad) { int k = tp->k, p = prec(k); if (!p || p < mp || k == ':' || k == AS) break;
    tp++;
    if (k == '?') { int sb; long y = ex(1, live && a); if (tp >= te || tp->k != ':') { bad = 1; return 0; } tp++; sb = bad; long z = ex(1, live && !a); (void) sb; a = a ? y : z; break; }
    long b = ex(k == '^' ? p : p + 1, live); if (live) a = ap(k, a, b); }
  return a;
}
static long ref(tok *t, int n, int *b) { tp = t; te = t + n; bad = 0; long v = ex(1, 1); if (tp != te) bad = 1; *b = bad; return v; }
static const char *vn[] = { "a", "b", "x", "y", "c1", "_d", "E5", "zz" };
static int show(char *o, tok *t, int n, const char *sp, const char *asg) { int k = 0; for (int i = 0; i < n; i++) { switch (t[i].k) { case 'n': k += sprintf(o + k, "%ld", t[i].v); break; case 'v': k += sprintf(o + k, "%s", vn[t[i].v]); break; case EQ: k += sprintf(o + k, "=="); break; case NE: k += sprintf(o + k, "!="); break; case LE: k += sprintf(o + k, "<="); break; case GE: k += sprintf(o + k, ">="); break; case AS: k += sprintf(o + k, "%s", asg); break; default: o[k++] = t[i].k; } if (i + 1 < n) k += sprintf(o + k, "%s", sp); } o[k] = 0; return k; }
static const int ops[] = { '+', '-', '*', '/', '^', EQ, NE, '<', '>', LE, GE };
static const long sets[][4] = { { 7, 2, 3, 2 }, { 2, 3, 2, 5 }, { 1, 1, 2, 0 }, { 9, 4, 2, 3 }, { 0, 5, 1, 1 }, { 3, 3, 3, 3 } };
static const char *sps[] = { " ", "", "  /* c; */ ", "\t", " # +1;\n ", "\r\n" };
static long emitted;
static void emit(int mode, tok *t, int n, int spi) { int b; long v = ref(t, n, &b); if (b) return; char o[600]; show(o, t, n, mode & 1 ? (spi ? "" : " ") : sps[spi], mode & 1 ? "=" : ":="); S("%s%s", o, mode & 1 ? "\n" : ";\n"); W("%ld", v); STATE(); emitted++; flush_if(mode, 8 << 20); }
// a op b op c op d with signs and every bracketing of at most two brackets
static const signed char brkt[][4] = { {-1,-1,-1,-1}, {0,1,-1,-1}, {1,2,-1,-1}, {2,3,-1,-1}, {0,2,-1,-1}, {1,3,-1,-1}, {0,1,2,3}, {0,2,0,1}, {0,2,1,2}, {1,3,1,2}, {1,3,2,3} };
static void exprs(long op1, long mode, long c_) {
  reset(); vh_outerf("expressions mode %ld", mode); int nset = vh_thorough ? 6 : 2, full = mode == 0;
  for (int o2 = 0; o2 < 11; o2++) for (int o3 = 0; o3 < 11; o3++) for (int si = 0; si < (full ? nset : 1); si++) for (int br = 0; br < (full || vh_thorough ? 11 : 2); br++) for (int m = 0; m < (full && (vh_thorough || br < 6) ? 16 : 2); m++) {
    tok t[40]; int n = 0, oo[3] = { ops[op1], ops[o2], ops[o3] }; for (int i = 0; i < 4; i++) { for (int q = 0; q < 2; q++) if (brkt[br][2 * q] == i) t[n++] = (tok) { '(', 0 }; if (m >> i & 1) t[n++] = (tok) { '-', 0 }; t[n++] = (tok) { 'n', sets[si][i] }; for (int q = 0; q < 2; q++) if (brkt[br][2 * q + 1] == i) t[n++] = (tok) { ')', 0 }; if (i < 3) t[n++] = (tok) { oo[i], 0 }; }
    emit(mode, t, n, 0); }
  CHECK(emitted > 50, "generator produced %ld expressions", emitted); run(mode);
}
// two and three operands over larger value sets, every spacing and comment style; big integers
static void small2(long sp, long b_, long c_) { reset(); static const long vals[] = { 0, 1, 2, 3, 4, 7, 10, 63, 64, 100, 255, 2147483647, 2147483648L, 4294967296L, 999999999999L }; int nv = sizeof vals / sizeof *vals;
  for (int i = 0; i < nv; i++) for (int j = 0; j < nv; j++) for (int o = 0; o < 11; o++) for (int m = 0; m < 4; m++) { tok t[8]; int n = 0; if (m & 1) t[n++] = (tok) { '-', 0 }; t[n++] = (tok) { 'n', vals[i] }; t[n++] = (tok) { ops[o], 0 }; if (m & 2) t[n++] = (tok) { '-', 0 }; t[n++] = (tok) { 'n', vals[j] }; emit(0, t, n, sp); }
  run(0); }
// ternaries and assignments: every tree shape c ? x : y nested once, in every position
static void tern(long mode, long b_, long c_) { reset();
  static const char *fm[] = { "C?X:Y", "C?X:D?Y:Z", "C?D?X:Y:Z", "(C?X:Y)+Z", "C?X:Y+Z", "X+C?Y:Z", "X==C?Y:Z", "C?X:Y==Z", "(C?X:Y)?Z:D", "-C?X:Y", "C?-X:-Y", "a=C?X:Y", "a=(C?X:Y)", "C?a=X:b=Y", "(a=X)+a", "a+a=X", "a=b=X", "a=X+Y", "a=X*Y+Z", "a=X==Y", "X+a=Y*Z", "a=a+X", "b=a=a*X+C", "(a=X)-(a=Y)", "a=-X", "a=(b=X)+(b=Y)", "C?a:b", "a^C", "a=a^D", "(a=X)==a", "a-a=X", "-a=X", "a=(a=X)+a", "a=b+(b=X)", "(a=b)+X", "(b=a)*Y-b" };
  for (unsigned f = 0; f < sizeof fm / sizeof *fm; f++) for (int c = 0; c < 3; c++) for (int d = 0; d < 2; d++) for (int q = 0; q < 4; q++) {
    for (int i = 0; i < 8; i++) { var[i] = 10 + i; def[i] = i < 2; }
    tok t[30]; int n = 0; for (const char *p = fm[f]; *p; p++) { long X[4][3] = { { 5, 2, 8 }, { 3, 3, 1 }, { 0, 4, 6 }, { 7, 1, 1 } }; switch (*p) { case 'C': t[n++] = (tok) { 'n', c }; break; case 'D': t[n++] = (tok) { 'n', d }; break; case 'X': t[n++] = (tok) { 'n', X[q][0] }; break; case 'Y': t[n++] = (tok) { 'n', X[q][1] }; break; case 'Z': t[n++] = (tok) { 'n', X[q][2] }; break; case 'a': t[n++] = (tok) { 'v', 0 }; break; case 'b': t[n++] = (tok) { 'v', 1 }; break; case '=': if (p[1] == '=') { t[n++] = (tok) { EQ, 0 }; p++; } else t[n++] = (tok) { AS, 0 }; break; default: t[n++] = (tok) { *p, 0 }; } }
    int b; long v = ref(t, n, &b); if (b) continue; STATE(); const char *as = mode & 1 ? "=" : ":=", *nl = mode & 1 ? "\n" : ";\n";
    S("a%s10%s", as, nl); S("b%s11%s", as, nl); char o[400]; show(o, t, n, " ", as); S("%s%s", o, nl);
    // an assignment at the top prints nothing; in brackets its value
    int top = t[0].k == 'v' && n > 1 && t[1].k == AS; if (top) for (int i = 2, dp = 0; i < n; i++) { if (t[i].k == '(') dp++; if (t[i].k == ')') dp--; if (!dp && prec(t[i].k) && prec(t[i].k) < 3) top = 0; } if (!top) W("%ld", v);
    S("a%s", nl); W("%ld", var[0]); S("b%s", nl); W("%ld", var[1]); }
  run(mode); }
// histories over an environment of four variables, with functions and parameters
static const char *hs[] = { "a:=1", "b:=a", "a:=a+b", "x:=b", "a:=-b", "f(a)", "g(b,a)", "h()", "g(y,x)", "b:=(a:=b)+1", "c1:=a==b", "b:=b^2-a", "a:=x?y:b", "k(a)", "f(f(x))" };
#define NHS ((int) (sizeof hs / sizeof *hs))
static void hstep(int s, long *e) { long t; switch (s) { // e: a b x y c1
  case 0: e[0] = 1; break; case 1: e[1] = e[0]; break; case 2: e[0] += e[1]; break; case 3: e[2] = e[1]; break; case 4: e[0] = -e[1]; break;
  case 5: e[2] = e[0]; e[1] = e[2] + e[0]; break; // f(x) { b := x + a }
  case 6: t = e[0]; e[2] = e[1]; e[3] = t; e[0] = e[2] * 2 - e[3]; e[2] = e[2] + 1; break; // g(x, y) { a := 2x - y; x := x + 1 }
  case 7: e[3] = e[0]; e[0] = e[1]; e[1] = e[3]; break; // h() { y := a; a := b; b := y }
  case 8: t = e[2]; e[2] = e[3]; e[3] = t; e[0] = e[2] * 2 - e[3]; e[2] = e[2] + 1; break;
  case 9: e[0] = e[1]; e[1] = e[0] + 1; break; case 10: e[4] = 0; e[4] = e[0] == e[1]; break; case 11: e[1] = e[1] * e[1] - e[0]; break; case 12: e[0] = e[2] ? e[3] : e[1]; break;
  case 13: e[3] = e[0]; e[2] = e[3] + 1; e[1] = e[2] + e[0]; break; // k(y) { f(y + 1) }
} }
static void hist(long s0, long depth, long c_) { reset(); S("define f(x) { b := x + a; }\n"); W("!"); S("define g(x, y) { a := 2*x - y; x := x + 1; }\n"); W("!"); S("define h() { y := a; a := b; b := y; }\n"); W("!"); S("define k(y) { f(y + 1); }\n"); W("!");
  long N = 1; for (int i = 1; i < depth; i++) N *= 14; for (long w = 0; w < N; w++) { int sq[6] = { (int) s0 }; long r = w; for (int i = 1; i < depth; i++) { sq[i] = r % 14; r /= 14; }
    int q = w & 1; long e[5] = { 3 + q, q ? 3 : 5, -2, 0 + q, 1 }; char o[300]; int k = 0; for (int i = 0; i < depth; i++) { hstep(sq[i], e); } for (int i = 0; i < 5; i++) if (labs(e[i]) > 1000000000) goto next;
    for (int i = 0; i < depth; i++) k += sprintf(o + k, "%s; ", hs[sq[i]]);
    // c1 := a==b stores a, and the statement prints the comparison
    long e2[5] = { 3 + q, q ? 3 : 5, -2, q, 1 }; S("a:=%d; b:=%d; x:=-2; y:=%d; c1:=1; ", 3 + q, q ? 3 : 5, q); add(&src, "%s\n", o);
    for (int i = 0; i < depth; i++) { if (sq[i] == 10) { long A = e2[0], B = e2[1]; e2[4] = A; W("%d", A == B); } else if (sq[i] == 12) { long B = e2[1], X = e2[2], Y = e2[3]; e2[0] = X; W("%ld", X ? Y : B); } else hstep(sq[i], e2); }
    for (int i = 0; i < 5; i++) if (labs(e2[i]) > 1000000000000000L) bad = 1;
    S("a; b; x; y; c1;\n"); for (int i = 0; i < 5; i++) W("%ld", e2[i]); STATE(); next: flush_if(0, 8 << 20); }
  run(0); }
// residues: complete tables
static void mods(long p, long b_, long c_) { reset(); vh_outerf("residues mod %ld", p); S("F := zmod(%ld);\n", p); S("order(F);\n"); W("%ld", p); S("ord(F);\n"); W("%ld", p); long step = p < 20 ? 1 : p / 13;
#define MD(x) ((((x) % p) + p) % p)
  for (long i = 0; i < p; i += step) { S("F(%ld);\n", i); W("%ld", i); S("F(-%ld);\n", i); W("%ld", MD(-i)); S("F(%ld);\n", i + 7 * p); W("%ld", i); S("F(%ld) + F(0);\n", i - 5 * p); W("%ld", i); S("M(F(%ld));\n", i); W("%ld", i); S("-F(%ld);\n", i); W("%ld", MD(-i)); S("M(F(%ld)) - %ld;\n", i, p); W("%ld", i - p);
    long iv = 0; for (long j = 1; j < p; j++) if (MD(i * j) == 1) iv = j; if (i) { S("inv(F(%ld));\n", i); W("%ld", iv); }
    if (p > 2) { S("sqrt(F(%ld)^2)^2 == F(%ld)*F(%ld);\n", i, i, i); W("1"); }
    long pw = 1; for (long e = 0; e < 8; e++) { S("F(%ld)^%ld;\n", i, e); W("%ld", pw); S("a := F(%ld); b := a^%ld; a; b;\n", i, e); W("%ld", i); W("%ld", pw); pw = MD(pw * i); }
    S("F(%ld)^%ld == F(%ld);\n", i, p, i); W("1");
    for (long j = 0; j < p; j += step) { S("F(%ld) + F(%ld); F(%ld) - F(%ld); F(%ld) * F(%ld); F(%ld) == F(%ld); F(%ld) != F(%ld);\n", i, j, i, j, i, j, i, j, i, j); W("%ld", MD(i + j)); W("%ld", MD(i - j)); W("%ld", MD(i * j)); W("%d", i == j); W("%d", i != j);
      if (j) { long jv = 0; for (long x = 1; x < p; x++) if (MD(x * j) == 1) jv = x; S("F(%ld) / F(%ld);\n", i, j); W("%ld", MD(i * jv)); S("F(%ld) - F(%ld)^2 * -F(%ld) / F(%ld);\n", i, j, i, j); W("%ld", MD(i + j * i)); }
      S("x := F(%ld); y := F(%ld); x + y * x - y; x; y;\n", i, j); W("%ld", MD(i + j * i - j)); W("%ld", i); W("%ld", j); STATE(); } }
  for (int i = 0; i < 20; i++) { S("a := random(F); M(a) < %ld; M(a) >= 0; F(M(a)) == a;\n", p); W("1"); W("1"); W("1"); S("M(rnd(F)) < order(F);\n"); W("1"); }
  run(0); }
static int isp(long n) { if (n < 2) return 0; for (long d = 2; d * d <= n; d++) if (n % d == 0) return 0; return 1; }
// lists, items, casts, polynomials and extension fields
static void lists(long a_, long b_, long c_) { reset();
  for (long n = 0; n < 300; n++) { long q = n + 1; while (!isp(q)) q++; S("nextprime(%ld);\n", n); W("%ld", q); } S("nextprime(2^64);\n"); W("18446744073709551629"); S("2^200;\n"); W("1606938044258990275541962092341162602522202993782792835301376"); S("M(zmod(2^61-1)(2^61));\n"); W("1"); S("-(2^100)/(3^20);\n"); W("-363558641556578823726");
  long v[] = { 0, 1, 2, -3 }; for (int l = 1; l <= 4; l++) { long N = 1; for (int i = 0; i < l; i++) N *= 4; for (long w = 0; w < N; w++) { long x[4]; char o[100]; int k = 0; long r = w; for (int i = 0; i < l; i++) { x[i] = v[r & 3]; r >>= 2; k += sprintf(o + k, "%s%ld", i ? ", " : "", x[i]); } S("[%s];\n", o); W("[%s]", o); S("l := [%s]; ", o); for (int i = 0; i < l; i++) add(&src, "l[%d]; ([%s])[%d]; l[%d]+1; ", i, o, i, i); add(&src, "l;\n"); for (int i = 0; i < l; i++) { W("%ld", x[i]); W("%ld", x[i]); W("%ld", x[i] + 1); } W("[%s]", o); S("l[%d];\n", l); W("!"); S("l[-1];\n"); W("!"); S("[[%s],5,[1,[%s]]];\n", o, o); W("[[%s], 5, [1, [%s]]]", o, o); S("m := [[%s],5,[1,[%s]]]; l := m[2]; l[1]; (m[2])[0]; m[1];\n", o, o); W("[%s]", o); W("1"); W("5"); STATE(); } }
  for (int p = 3; p <= 7; p += 2) { S("F := zmod(%d); P := poly(F);\n", p); for (int a = 0; a < p * p; a++) for (int b = 0; b < p * p; b += p > 5 ? 3 : 1) { int A[2] = { a % p, a / p }, B[2] = { b % p, b / p }, C[3] = { A[0] * B[0] % p, (A[0] * B[1] + A[1] * B[0]) % p, A[1] * B[1] % p }, D[2] = { (A[0] + B[0]) % p, (A[1] + B[1]) % p };
      S("P([%d,%d]) * P([%d,%d]) == P([%d,%d,%d]);\n", A[0], A[1], B[0], B[1], C[0], C[1], C[2]); W("1"); S("P([%d,%d]) + P([%d,%d]) == P([%d,%d]);\n", A[0], A[1], B[0], B[1], D[0], D[1]); W("1"); S("P([%d,%d]) == P([%d,%d]);\n", A[0], A[1], B[0], B[1]); W("%d", a == b); if (A[1]) { S("P([%d,%d]);\n", A[0], A[1]); W("[%d, %d]", A[0], A[1]); S("P([%d,%d,0]);\n", A[0], A[1]); W("[%d, %d]", A[0], A[1]); } }
    int nr = p == 3 ? 1 : p == 5 ? 2 : 1; // x^2 + nr irreducible (p=3: 1, 5: 2, 7: 1)
    for (int how = 0; how < 2; how++) { if (how) S("Q := extend(F, [%d, 0, 1]);\n", nr); else S("Q := polymod(P([%d,0,1]));\n", nr); S("order(Q);\n"); W("%d", p * p);
      for (int a = 0; a < p * p; a++) { int A[2] = { a % p, a / p }; S("Q([%d,%d]); -Q([%d,%d]);\n", A[0], A[1], A[0], A[1]); W("[%d, %d]", A[0], A[1]); W("[%d, %d]", (p - A[0]) % p, (p - A[1]) % p); if (a) { S("inv(Q([%d,%d]))*Q([%d,%d]) == Q(1);\n", A[0], A[1], A[0], A[1]); W("1"); S("Q([%d,%d])^%d;\n", A[0], A[1], p * p - 1); W("[1, 0]"); } S("q := Q([%d,%d]); q[0]; q[1]; q[2];\n", A[0], A[1]); W("%d", A[0]); W("%d", A[1]); W("!"); S("q[0]*q[0]+q[0]; -q[1]; q;\n"); W("%d", (A[0] * A[0] + A[0]) % p); W("%d", (p - A[1]) % p); W("[%d, %d]", A[0], A[1]);
        for (int b = 0; b < p * p; b += p > 5 ? 5 : 1) { int B[2] = { b % p, b / p }; int c0 = ((A[0] * B[0] - nr * A[1] * B[1]) % p + p) % p, c1 = (A[0] * B[1] + A[1] * B[0]) % p; S("Q([%d,%d]) * Q([%d,%d]); Q([%d,%d]) + Q([%d,%d]); Q([%d,%d]) == Q([%d,%d]);\n", A[0], A[1], B[0], B[1], A[0], A[1], B[0], B[1], A[0], A[1], B[0], B[1]); W("[%d, %d]", c0, c1); W("[%d, %d]", (A[0] + B[0]) % p, (A[1] + B[1]) % p); W("%d", a == b); STATE(); } } } }
  S("type(1);\n"); W("element"); W("1"); S("type([1,2]);\n"); W("element"); W("[1, 2]"); S("define ff(u) { v := u + 1; }\n"); W("!"); S("w := ff; w(41); v; w2 := order; w2(F); u;\n"); W("42"); W("7"); W("41"); S("define ap(fn, z) { fn(z); }\n"); W("!"); S("ap(ff, 6); v; ap(w, 7); v;\n"); W("7"); W("8"); S("define nn() { nr := 5; ; nr := nr + 1; ; }\n"); W("!"); S(";; nn(); ; nr;;\n"); W("6"); S("define ff(u) { v := u + 2; }\n"); W("!"); S("ff(1); v; w(1); v;\n"); W("3"); W("2"); S("(1 == 1 ? ff : w)(5); v;\n"); W("7"); S("CHECK(1 == 1);\n"); W("1");
  run(0); }
// errors are reported, the session goes on and the variables keep their values
static const char *errs[] = { "nosuch", "1 + nosuch", "nosuch + 1", "-nosuch", "nosuch(1)", "order(1)", "order()", "order(F, F)", "inv()", "inv(1, 2)", "inv(F)", "zmod(F)", "zmod()", "random(3)", "pairing(1)", "F + 1", "1 + F", "F == F", "order + 1", "fu + 1", "1 * fu", "fu()", "fu(1, 2)", "F()", "F(1, 2)", "F(F)", "F(fu)", "F(nosuch)", "1 + fu(1)", "inv(fu(1))", "[fu(1)]", "[1, fu(1)]", "[F]", "[nosuch, 1]", "[1, nosuch]", "fu(1) ? 2 : 3", "nosuch ? 1 : 2", "F ? 1 : 2", "a(1)", "(1)(2)", "(1)()", "fu(1)(2)", "order(F)(1)", "F(1)(2)", "l[2]", "l[-1]", "l[100000000000]", "l[F]", "F[0]", "fu[0]", "nosuch[0]", "order := 1", "M := 2", "Z := F", "inv := fu", "pairing := 0", "extend(F)", "extend()", "extend(3, [1,0,1])", "poly(1)", "polymod(F)", "nextprime(F)", "sqrt(F)", "CHECK(F)", "exit(F)", "type()", "init_pairing_a(1)", "[F(1)]", "fu(1) == 1", "-fu(1)", "fu(1)[0]", "l[fu(1)]", "a := nosuch", "l := a + F", "F := F + 1", "F := zmod(nosuch)", "l := l[2]", "a := [nosuch]", "fu := nosuch", "a := l := nosuch", "l := [a := 1 + F]", "fu(nosuch)", "fu(1 + F)", "fu(fu(1))", "fu(a := nosuch)", "1 + (a := nosuch)", "(1 == 1) ? (l := nosuch) : 2" };
#define NERR ((int) (sizeof errs / sizeof *errs))
static void errors(long mode, long b_, long c_) { reset(); const char *as = mode & 1 ? "=" : ":=", *nl = mode & 1 ? "\n" : ";\n"; S("F %s zmod(7)%s", as, nl); S("l %s [4,5]%s", as, nl); S("define fu(t) { t %s t + 1%s }\n", as, nl); W("!");
  for (int i = 0; i < NERR; i++) for (int j = 0; j < (vh_thorough || mode == 0 ? NERR : 1); j++) { S("a %s %d%s", as, i, nl); for (int q = 0; q < 2; q++) { const char *e = errs[q ? j : i]; char o[200]; int k = 0; for (const char *p = e; *p; p++) if ((mode & 1) && p[0] == ':' && p[1] == '=') { o[k++] = '='; p++; } else o[k++] = *p; o[k] = 0; S("%s%s", o, nl); W("!"); } S("a%s", nl); W("%d", i); S("l%s", nl); W("[4, 5]"); S("F(12)%s", nl); W("5"); S("order(F)%s", nl); W("7"); S("inv(F(2))%s", nl); W("4"); S("a+1%s", nl); W("%d", i + 1); STATE(); }
  run(mode); }
// interactive input: syntax errors do not end the session, statements may span lines, long lines and a last line without newline count
static void inter(long a_, long b_, long c_) { static const char *badl[] = { "1 + ;", "1 1;", ") ;", "@;", "1 = ;", ":= ;", "a := ;", "[1,;", "1 ? 2;", "define;", "(1;", "];", "1 +* ;", "f(1,);", "& ;" };
  for (unsigned i = 0; i < sizeof badl / sizeof *badl; i++) for (unsigned j = 0; j < sizeof badl / sizeof *badl; j++) { reset(); S("a := 5;\n"); S("%s\n", badl[i]); S(";\n"); S("a + 1;\n"); W("6"); S("%s ;\n", badl[j]); S("a +\n\n 2 /* multi\n line ; */ * \n 3; a;\n"); W("11"); W("5"); S("# comment\n"); S("a;\n"); W("5"); STATE();
    // tokens after the point of error on the same line may still be read as statements: they must not print
    run(2); }
  // lines of every length around the buffer sizes, with and without a newline at the end of the input
  for (int n = 1; n < 5000; n += n < 1000 || n > 1100 ? (n < 12 || (n > 2030 && n < 2060) || (n > 4080 && n < 4110) ? 1 : 97) : 1) for (int last = 0; last < 2; last++) { char *t = malloc(n + 100), *e = malloc(n + 100); int st; for (int i = 0; i < n; i++) t[i] = e[i] = '1' + i % 9; strcpy(t + n, last ? ";" : ";\n2+2;\n"); strcpy(e + n, last ? "\n\n" : "\n4\n\n"); char *o = calc(2, t, &st); STATE(); CHECK(!strcmp(o, e) && WIFEXITED(st) && !WEXITSTATUS(st), "a line of %d digits%s read as %.60s...", n, last ? " without newline" : "", o); free(o); free(t); free(e); }
  // -y on standard input: prompts precede; only the answers are compared
  static const char *st[] = { "a=1", "a=a+1", "b=a", "b", "a", "a*b", "", "1+", "c", "define f(x) { b=x*2; }", "f(a)" }; 
  for (int w = 0; w < 11 * 11 * 11; w++) { char text[400] = ""; char exp[400] = ""; long A = 0, B = 0; int da = 0, db = 0, df = 0; int sq[4] = { w % 11, w / 11 % 11, w / 121, 4 };
    for (int i = 0; i < 4; i++) { sprintf(text + strlen(text), "%s\n", st[sq[i]]); switch (sq[i]) { case 0: A = 1; da = 1; break; case 1: if (da) A++; else sprintf(exp + strlen(exp), "!\n"); break; case 2: if (da == 1) { B = A; db = 1; } else sprintf(exp + strlen(exp), "!\n"); break; case 3: if (db == 1) sprintf(exp + strlen(exp), "%ld\n", B); else sprintf(exp + strlen(exp), "!\n"); break; case 4: if (da == 1) sprintf(exp + strlen(exp), "%ld\n", A); else sprintf(exp + strlen(exp), "!\n"); break; case 5: if (da == 1 && db == 1) sprintf(exp + strlen(exp), "%ld\n", A * B); else sprintf(exp + strlen(exp), "!\n"); break; case 8: sprintf(exp + strlen(exp), "!\n"); break; case 9: sprintf(exp + strlen(exp), "!\n"); df = 1; break; case 10: if (!df) sprintf(exp + strlen(exp), "!\n"); else if (da == 1) { B = 2 * A; db = 1; } else sprintf(exp + strlen(exp), "!\n"); break; } }
    int stt; STATE(); char *out = calc(3, text, &stt), *o = out, *e = exp; int ok = WIFEXITED(stt) && !WEXITSTATUS(stt); while (*e && ok) { while (!strncmp(o, "> ", 2)) o += 2; char *oe = strchr(o, '\n'), *ee = strchr(e, '\n'); if (!oe) { ok = 0; break; } ok = *e == '!' ? oe > o && !numeric(o, oe - o) : (oe - o == ee - e && !memcmp(o, e, ee - e)); o = oe + 1; e = ee + 1; } STEP(); for (char *p = o; *p; p++) if (!strchr("> \n", *p)) ok = 0; CHECK(ok, "-y session \"%s\" printed \"%s\", expected \"%s\"", text, out, exp); free(out); } }
// exit and CHECK
static void exits(long a_, long b_, long c_) { for (int i = 0; i < 256; i++) { reset(); char t[100]; int st; sprintf(t, "1+1; exit(%d); 3;\n", i); char *o = calc(i & 1 ? 2 : 0, t, &st); CHECK(WIFEXITED(st) && WEXITSTATUS(st) == i && !strcmp(o, "2\n"), "exit(%d): status %#x output %s", i, st, o); free(o); STATE(); }
  for (int i = -3; i < 4; i++) { char t[100]; int st; sprintf(t, "CHECK(%d); 3;\n", i); char *o = calc(0, t, &st); if (i) CHECK(WIFEXITED(st) && !WEXITSTATUS(st) && strstr(o, "3\n"), "CHECK(%d) status %#x output %s", i, st, o); else CHECK(WIFEXITED(st) && WEXITSTATUS(st) && !strstr(o, "3\n"), "CHECK(0) went on: status %#x output %s", st, o); free(o); sprintf(t, "CHECK(zmod(7)(%d)); 3;\n", i); o = calc(0, t, &st); CHECK(WIFEXITED(st) && !WEXITSTATUS(st) == !!i, "CHECK of a residue"); free(o); STATE(); } }
// pairings
static void pairs(long ty, long b_, long c_) { reset(); vh_outerf("init_pairing_%c", (int) ty); S("init_pairing_%c();\n", (int) ty); S("order(G1) == order(Zr); order(G2) == order(Zr); order(GT) == order(Zr); nextprime(order(Zr) - 1) == order(Zr);\n"); W("1"); W("1"); W("1"); W("1");
  S("g := random(G1); h := rnd(G2); g2 := random(G1); e := pairing(g, h); o := order(Zr);\n");  if (ty != 'i') { S("gg := g; hh := h; ee := e; c := g[0] * g[0] + g[1]; c := h[1] * h[1] - h[0]; %s g == gg; h == hh; e == ee; g[0] == gg[0]; h[1] == hh[1]; g[2];\n", ty == 'e' ? "" : "c := -(e[0]);"); for (int i = 0; i < 5; i++) W("1"); W("!"); }
  S("e == GT(1); e == GT(0); GT(0) == GT(1); g == G1(0); h == G2(0);\n"); W("0"); W("0"); W("1"); W("0"); W("0"); S("g^o == G1(0); h^o == G2(0); e^o == GT(1);\n"); W("1"); W("1"); W("1");
  S("pairing(G1(0), h) == GT(1); pairing(g, G2(0)) == GT(1); pairing(g*g2, h) == e * pairing(g2, h); pairing(g/g2, h) == e / pairing(g2, h); pairing(g+g2, h) == e * pairing(g2, h); pairing(-g, h) == inv(e); pairing(inv(g), h) == inv(e);\n"); for (int i = 0; i < 7; i++) W("1");
  long ks[] = { 0, 1, 2, 3, 5, 12, 1000003 }; int nk = ty == 'e' ? 4 : 7; for (int i = 0; i < nk; i++) for (int j = 0; j < nk; j++) { S("pairing(g^%ld, h^%ld) == e^%ld; pairing(g^Zr(%ld), h^Zr(%ld)) == e^(Zr(%ld)*Zr(%ld)); pairing(g^%ld, h) == pairing(g, h^%ld);\n", ks[i], ks[j], ks[i] * ks[j], ks[i], ks[j], ks[i], ks[j], ks[i], ks[j]); W("1"); W("1"); W("%d", i == j); S("g == g; h == h; e == pairing(g, h); g^%ld == g^%ld;\n", ks[i], ks[j]); W("1"); W("1"); W("1"); W("%d", i == j); STATE(); }
  S("a := rnd(Zr); b := rnd(Zr); pairing(g^a, h^b) == e^(a*b); pairing(g^a, h^b) == pairing(g^b, h^a); pairing(g^a, h)^b == pairing(g, h^b)^a; e^a * e^b == e^(a+b); e^a / e^b == e^(a-b); e^M(a) == e^a; Zr(M(a)) == a;\n"); for (int i = 0; i < 7; i++) W("1");
  run(0); }
// every sequence of two pairing initialisations: the second decides, and the six orders differ
static void switches(long a_, long b_, long c_) { reset(); static const char ty[] = "adefgi"; char v[6][3]; for (int i = 0; i < 6; i++) { sprintf(v[i], "o%c", ty[i]); S("init_pairing_%c(); %s := order(Zr);\n", ty[i], v[i]); } for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) { STATE(); S("%s == %s;\n", v[i], v[j]); W("%d", i == j); S("init_pairing_%c(); init_pairing_%c(); order(Zr) == %s; order(G1) == %s; order(G2) == %s; order(GT) == %s;\n", ty[i], ty[j], v[j], v[j], v[j], v[j]); for (int q = 0; q < 4; q++) W("1"); S("x := rnd(G1); y := rnd(G2); pairing(x, y)^2 == pairing(x*x, y); x^%s == G1(0);\n", v[j]); W("1"); W("1"); } run(0); }
void vh_register(void) {
  for (int o = 0; o < 11; o++) { vh_unit(exprs, o, 0, 0, "expr/%d", o); vh_unit(exprs, o, 1, 0, "expr-y/%d", o); }
  for (int s = 0; s < 6; s++) vh_unit(small2, s, 0, 0, "two/%d", s);
  vh_unit(tern, 0, 0, 0, "ternary-assign"); vh_unit(tern, 1, 0, 0, "ternary-assign-y");
  for (int s = 0; s < 14; s++) vh_unit(hist, s, vh_thorough ? 5 : 4, 0, "histories/%d", s);
  static const int ps[] = { 2, 3, 5, 7, 11, 13, 17, 101, 1009, 0 }; for (int i = 0; ps[i]; i++) vh_unit(mods, ps[i], 0, 0, "zmod/%d", ps[i]);
  vh_unit(lists, 0, 0, 0, "lists-fields"); vh_unit(errors, 0, 0, 0, "errors"); vh_unit(errors, 1, 0, 0, "errors-y"); vh_unit(inter, 0, 0, 0, "interactive"); vh_unit(exits, 0, 0, 0, "exit");
  vh_unit(switches, 0, 0, 0, "pairing/switch"); for (const char *p = "adefgi"; *p; p++) vh_unit(pairs, *p, 0, 0, "pairing/%c", *p);
}
