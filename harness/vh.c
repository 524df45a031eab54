#include "vh.h"
#include <signal.h>
#include <sys/resource.h>
#include <pbc.h>

int vh_thorough;
unsigned long vh_states, vh_trans, vh_checks, vh_traces;
const char *vh_repo = "/repo";
const char *vh_scratch = "/tmp";
const char *vh_ctx_fmt = "";
long vh_ctx_arg[8];
char vh_outer[1024];
int vh_exit_expected;
static int done, nfail, listing, nsample;
static const char *want;
static const char *cur = "?";
static struct { vh_fn fn; long a, b, c; char name[120]; } *units;
static int nunits;

void vh_unit(vh_fn fn, long a, long b, long c, const char *fmt, ...) {
  va_list ap;
  units = realloc(units, sizeof(*units) * (nunits + 1));
  va_start(ap, fmt);
  vsnprintf(units[nunits].name, sizeof(units[0].name), fmt, ap);
  va_end(ap);
  units[nunits].fn = fn; units[nunits].a = a; units[nunits].b = b; units[nunits].c = c;
  nunits++;
}
void vh_outerf(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt);
  vsnprintf(vh_outer, sizeof(vh_outer), fmt, ap); va_end(ap);
}
static void stats(void) {
  printf("\nSTATS states=%lu transitions=%lu checks=%lu traces=%lu fails=%d\n",
         vh_states, vh_trans, vh_checks, vh_traces, nfail);
}
static void ctxstr(char *b, size_t n) {
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wformat-nonliteral"
#pragma GCC diagnostic ignored "-Wformat-security"
  int k = snprintf(b, n, "%s ", vh_outer);
  if (k < (int) n)
    snprintf(b + k, n - k, vh_ctx_fmt, vh_ctx_arg[0], vh_ctx_arg[1], vh_ctx_arg[2],
      vh_ctx_arg[3], vh_ctx_arg[4], vh_ctx_arg[5], vh_ctx_arg[6], vh_ctx_arg[7]);
#pragma GCC diagnostic pop
}
static void clean(char *s) { for (; *s; s++) if (*s == '\n' || *s == '\r') *s = ' '; }
void vh_fail(const char *fmt, ...) {
  char c[2048], m[2048];
  va_list ap; va_start(ap, fmt);
  vsnprintf(m, sizeof(m), fmt, ap); va_end(ap);
  ctxstr(c, sizeof(c)); clean(c); clean(m);
  printf("\nFAIL %s :: %s :: %s\n", cur, c, m);
  fflush(stdout);
  if (++nfail >= 25) { done = 1; stats(); printf("\nEND\n"); fflush(stdout); _exit(3); }
}
void vh_sample(const char *fmt, ...) {
  if (nsample++ >= 3) return;
  char m[2048];
  va_list ap; va_start(ap, fmt);
  vsnprintf(m, sizeof(m), fmt, ap); va_end(ap); clean(m);
  printf("\nSAMPLE %s :: %s\n", cur, m);
}
static void onsig(int s) {
  char c[2048];
  if (done) _exit(4);
  done = 1;
  ctxstr(c, sizeof(c)); clean(c);
  char b[2600];
  int k = snprintf(b, sizeof(b), "\nFAIL %s :: %s :: signal %d (%s)\nSTATS states=%lu transitions=%lu checks=%lu traces=%lu fails=%d\nEND\n", cur, c, s,
    s == SIGXCPU ? "no termination within the step budget" : strsignal(s), vh_states, vh_trans, vh_checks, vh_traces, nfail + 1);
  fflush(stdout);
  if (write(1, b, k) < 0) _exit(5);
  _exit(4);
}
static void onexit(void) {
  if (done) return;
  if (vh_exit_expected) return;
  done = 1;
  vh_fail("library terminated the process (exit called)");
  stats(); printf("\nEND\n"); fflush(stdout);
}
mpz_t vh_rng_script[64];
int vh_rng_n, vh_rng_pos;
unsigned long vh_rng_calls;
static unsigned long rng_state = 1;
unsigned long vh_mix(unsigned long x) {
  x += 0x9E3779B97F4A7C15UL;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9UL;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBUL;
  return x ^ (x >> 31);
}
void vh_rng_reset(void) { vh_rng_n = vh_rng_pos = 0; rng_state = 1; vh_rng_calls = 0; }
void vh_rng_seed(unsigned long s) { vh_rng_n = vh_rng_pos = 0; rng_state = vh_mix(s * 7919 + 13); vh_rng_calls = 0; }
void vh_rng_push(mpz_t v) { mpz_set(vh_rng_script[vh_rng_n++], v); }
void vh_rng_push_ui(unsigned long v) { mpz_set_ui(vh_rng_script[vh_rng_n++], v); }
static void rng(mpz_t z, mpz_t limit, void *d) {
  (void) d;
  vh_rng_calls++;
  if (vh_rng_pos < vh_rng_n) { mpz_mod(z, vh_rng_script[vh_rng_pos++], limit); return; }
  size_t l = mpz_sizeinbase(limit, 2) / 64 + 2;
  unsigned long b[l];
  for (size_t i = 0; i < l; i++) b[i] = vh_mix(rng_state++);
  mpz_import(z, l, 1, 8, 0, 0, b);
  mpz_mod(z, z, limit);
}
char *vh_slurp(const char *path, size_t *len) {
  FILE *f = fopen(path, "rb");
  if (!f) { fprintf(stderr, "cannot open %s\n", path); done = 1; _exit(9); }
  fseek(f, 0, SEEK_END); long n = ftell(f); rewind(f);
  char *b = malloc(n + 1);
  if (fread(b, 1, n, f) != (size_t) n) _exit(9);
  b[n] = 0; fclose(f);
  if (len) *len = n;
  return b;
}
char *vh_mpzs(mpz_t z) {
  static char *b[16]; static int i;
  i = (i + 1) & 15; free(b[i]);
  b[i] = malloc(mpz_sizeinbase(z, 16) + 3); mpz_get_str(b[i], 16, z);
  return b[i];
}
char *vh_hex(const unsigned char *d, int n) {
  static char *b[8]; static int i;
  i = (i + 1) & 7; free(b[i]); b[i] = malloc(2 * n + 1); b[i][0] = 0;
  for (int j = 0; j < n; j++) sprintf(b[i] + 2 * j, "%02x", d[j]);
  return b[i];
}
int main(int argc, char **argv) {
  setvbuf(stdout, NULL, _IOFBF, 1 << 16);
  for (int i = 1; i < argc; i++) {
    if (!strcmp(argv[i], "--list")) listing = 1;
    else if (!strcmp(argv[i], "--tier")) vh_thorough = !strcmp(argv[++i], "thorough");
    else if (!strcmp(argv[i], "--unit")) want = argv[++i];
    else if (!strcmp(argv[i], "--repo")) vh_repo = argv[++i];
    else if (!strcmp(argv[i], "--scratch")) vh_scratch = argv[++i];
  }
  vh_register();
  if (listing) {
    for (int i = 0; i < nunits; i++) printf("%s\n", units[i].name);
    done = 1; return 0;
  }
  for (int i = 0; i < 64; i++) mpz_init(vh_rng_script[i]);
  static char stk[1 << 16];
  stack_t ss; memset(&ss, 0, sizeof(ss)); ss.ss_sp = stk; ss.ss_size = sizeof(stk);
  sigaltstack(&ss, NULL);
  struct sigaction sa; memset(&sa, 0, sizeof(sa));
  sa.sa_handler = onsig; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  int sg[] = { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGXCPU };
  for (int i = 0; i < 6; i++) sigaction(sg[i], &sa, NULL);
  atexit(onexit);
  pbc_random_set_function(rng, NULL);
  pbc_set_msg_to_stderr(0);
  int ran = 0;
  for (int i = 0; i < nunits; i++) {
    if (want && strcmp(want, units[i].name)) continue;
    cur = units[i].name; vh_outer[0] = 0; CTX(""); vh_rng_reset();
    units[i].fn(units[i].a, units[i].b, units[i].c);
    ran++;
  }
  done = 1;
  stats();
  printf("\nEND\n");
  fflush(stdout);
  return ran ? (nfail ? 3 : 0) : 9;
}
