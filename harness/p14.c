// P14: parameter texts.  The real parser is run in lockstep with a model
// parser on every mutation within the bounds.
#include "mem.h"
#include "pair.h"
#include <sys/mman.h>
typedef struct { char k[9000], v[9000]; } kv; typedef struct { int n; kv e[80]; } tab;
static int wsp(int c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }
static void m_parse(tab *T, const char *s, long len) { // len < 0: NUL-terminated
  T->n = 0; const char *e = len < 0 ? s + strlen(s) : s + strnlen(s, len); static char w[2][9000]; int have = 0;
  while (s < e) {
    if (wsp(*s)) { s++; continue; } if (*s == '#') { while (s < e && *s != '\n') s++; continue; }
    int i = 0; do { if (i < 8999) w[have][i++] = *s; s++; } while (s < e && !wsp(*s) && *s != '<' && *s != '/' && *s != '>'); if (s < e) s++; w[have][i] = 0;
    if (++have == 2) { have = 0; int j; for (j = 0; j < T->n; j++) if (!strcmp(T->e[j].k, w[0])) break; if (j == T->n && T->n < 79) T->n++; snprintf(T->e[j].k, 9000, "%s", w[0]); snprintf(T->e[j].v, 9000, "%s", w[1]); }
  }
}
static const char *m_get(tab *T, const char *k) { for (int j = 0; j < T->n; j++) if (!strcmp(T->e[j].k, k)) return T->e[j].v; return NULL; }
static const char *keys(const char *ty) { return !strcmp(ty, "a") ? "q h r exp2* exp1* sign1* sign0*" : !strcmp(ty, "a1") ? "p n l*" : !strcmp(ty, "d") ? "q n h r a b k* nk hk nqr" : !strcmp(ty, "e") ? "q r h a b exp2* exp1* sign1* sign0*" : !strcmp(ty, "f") ? "q r b beta alpha0 alpha1" : !strcmp(ty, "g") ? "q n h r a b nk hk nqr coeff0 coeff1 coeff2 coeff3 coeff4" : !strcmp(ty, "i") ? "m* t* n n2" : NULL; }
// expected (key, value) list; returns 0 if the text must be rejected
static int m_num(tab *T, const char *k, int isint, tab *out, mpz_t z) { const char *v = m_get(T, k); if (!v) return 0; if (mpz_set_str(z, v, 0)) return 0; if (isint && !mpz_fits_sint_p(z)) return 0; kv *e = &out->e[out->n++]; snprintf(e->k, 40, "%s", k); mpz_get_str(e->v, 10, z); return 1; }
static mpz_t mz;
static int m_accept(tab *T, tab *out) {
  out->n = 0; const char *ty = m_get(T, "type"); if (!ty || !keys(ty)) return 0; kv *e = &out->e[out->n++]; strcpy(e->k, "type"); snprintf(e->v, 40, "%s", ty);
  char b[200]; snprintf(b, 200, "%s", keys(ty)); int k = 0; for (char *p = strtok(b, " "); p; p = strtok(0, " ")) { int L = strlen(p), in = p[L - 1] == '*'; if (in) p[L - 1] = 0; if (!m_num(T, p, in, out, mz)) return 0; if (!strcmp(p, "k")) k = mpz_get_si(mz); }
  if (!strcmp(ty, "d")) { if (k < 2 || k % 2) return 0; for (int i = 0; i < k / 2; i++) { char n[40]; sprintf(n, "coeff%d", i); if (!m_num(T, n, 0, out, mz)) return 0; } }
  return 1;
}
static long nacc, nrej; static char *page; static long pgsz;
static char obuf[200000];
static int print_param(pbc_param_t par) { memset(obuf, 0, 64); FILE *f = fmemopen(obuf, sizeof obuf, "w"); pbc_param_out_str(f, par); long n = ftell(f); fclose(f); obuf[n] = 0; return n; }
static void judge(int rc, pbc_param_t par, int acc, tab *want, const char *txt, int len) {
  CHECK(rc == !acc || (rc && !acc), "parameters %s although they should be %s: %.*s", rc ? "rejected" : "accepted", acc ? "accepted" : "rejected", len > 300 ? 300 : len, txt);
  if (!rc) { print_param(par); if (acc) { static tab got; m_parse(&got, obuf, -1); CHECK(got.n == want->n, "printed %d fields instead of %d", got.n, want->n); for (int i = 0; i < want->n; i++) { const char *v = m_get(&got, want->e[i].k); CHECK(v && !strcmp(v, want->e[i].v), "field %s printed as %.60s, was %.60s", want->e[i].k, v ? v : "(none)", want->e[i].v); } } pbc_param_clear(par); nacc++; } else nrej++;
}
// the text through both entry points; the buffer form ends at an unreadable page
static void feed(const char *txt, long len) {
  STATE(); static tab T, want; long before; pbc_param_t par; char *s = page + pgsz - len; memcpy(s, txt, len);
  before = mem_live(); m_parse(&T, s, len); int acc = m_accept(&T, &want); long b2 = mem_live(); (void) before;
  if (len) { memset(par, 0x11, sizeof par); int rc = pbc_param_init_set_buf(par, s, len); STEP(); judge(rc, par, acc, &want, txt, len); CHECK(mem_live() == b2, "%s parameters leak %ld blocks", rc ? "rejected" : "accepted", mem_live() - b2); }
  char *z = page + pgsz - len - 1; memmove(z, txt, len); z[len] = 0; memset(par, 0x11, sizeof par); int rc = pbc_param_init_set_str(par, z); STEP(); judge(rc, par, acc, &want, txt, len); CHECK(mem_live() == b2, "%s parameters leak %ld blocks", rc ? "rejected" : "accepted", mem_live() - b2);
  if ((nrej + nacc) % 7 == 0) { memset(par, 0x11, sizeof par); rc = pbc_param_init_set_buf(par, z, 0); STEP(); judge(rc, par, acc, &want, txt, len); CHECK(mem_live() == b2, "%s parameters leak %ld blocks (length 0)", rc ? "rejected" : "accepted", mem_live() - b2); }
  if (!acc && len && (nrej & 15) < 2) { s = page + pgsz - len; memmove(s, z, len); pairing_t pr; memset(pr, 0x22, sizeof pr); CHECK(pairing_init_set_buf(pr, s, len) == 1, "a pairing was made from bad parameters in a buffer"); CHECK(mem_live() == b2, "a rejected pairing leaks"); STEP(); z = page + pgsz - len - 1; memmove(z, s, len); z[len] = 0; }
  if (!acc && (nrej & 15) == 0) { pairing_t pr; memset(pr, 0x22, sizeof pr); CHECK(pairing_init_set_str(pr, z) == 1, "a pairing was made from bad parameters"); CHECK(mem_live() == b2, "a rejected pairing leaks"); STEP(); }
}
static void setup(void) { pbc_set_msg_to_stderr(0); pgsz = 1 << 17; page = mmap(0, pgsz + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(page + pgsz, 4096, PROT_NONE); mpz_init(mz); mpz_set_ui(mz, 1); mpz_mul_2exp(mz, mz, 20000); }
static int lines(char *t, char **L) { int n = 0; for (char *p = strtok(t, "\n"); p; p = strtok(0, "\n")) L[n++] = p; return n; }
static void unit(long id, long part, long c) {
  setup(); char *t = ps_text(id), *t2 = strdup(t); long len = strlen(t); char *L[100]; int n = lines(t2, L); char *b = malloc(len * 3 + 4000); vh_outerf("%s", ps_name(id));
  CTX("unchanged"); feed(t, len);
  if (part == 0) for (int how = 0; how < 4; how++) { CTX("pairing from the text, way %ld", how); static tab T; m_parse(&T, t, -1); const char *rs = m_get(&T, "r"); if (!rs) rs = m_get(&T, "n"); mpz_t r; mpz_init(r); mpz_set_str(r, rs, 0); pairing_t pr; char *q = page + pgsz - len; memcpy(q, t, len); if (how == 1) { q = page; memcpy(q, t, len); memcpy(q + len, "\nr 4\nq 4\nn 4\n", 16); } if (how >= 2) { q--; memmove(q, t, len); q[len] = 0; } STATE(); int rc = how == 3 ? pairing_init_set_str(pr, q) : pairing_init_set_buf(pr, q, how == 2 ? 0 : len); STEP(); CHECK(!rc, "good parameters refused"); if (!rc) { CHECK(!mpz_cmp(pr->r, r) && !mpz_cmp(pr->G1->order, r) && !mpz_cmp(pr->Zr->order, r), "the pairing has another order than its text"); pairing_clear(pr); } mpz_clear(r); }
  if (part == 0) {
    for (int k = 0; k < n; k++) { CTX("without line %ld", k); *b = 0; for (int i = 0; i < n; i++) if (i != k) { strcat(b, L[i]); strcat(b, "\n"); } feed(b, strlen(b)); }
    for (int r = 0; r < n; r++) for (int rev = 0; rev < 2; rev++) { CTX("lines rotated by %ld, reversed %ld", r, rev); *b = 0; for (int i = 0; i < n; i++) { strcat(b, L[rev ? (n - 1 - i + r) % n : (i + r) % n]); strcat(b, "\n"); } feed(b, strlen(b)); }
    for (int x = 0; x < n; x++) for (int y = 0; y < n; y++) { CTX("value of line %ld under the key of line %ld, repeated", y, x); strcpy(b, t); char *k = strdup(L[x]); *strchr(k, ' ') = 0; sprintf(b + len, "%s%s%s\n", t[len - 1] == '\n' ? "" : "\n", k, strchr(L[y], ' ')); free(k); feed(b, strlen(b)); }
    static const char *bad[] = { "x", "12z", "0x", "-", "+", "--1", "1.5", "1e3", "0b2", "08", "0x1g", "4294967296", "2147483648", "-2147483649", "99999999999999999999999999", "-1", "0", "0x10", "010", "0b11", "+7", "", "\"7\"", "_1", "1_", "<1", "7<", "7>8", "/", 0 };
    for (int x = 0; x < n; x++) for (int y = 0; bad[y]; y++) { CTX("line %ld with value #%ld", x, y); *b = 0; for (int i = 0; i < n; i++) { if (i == x) { char *k = strdup(L[i]); *strchr(k, ' ') = 0; sprintf(b + strlen(b), "%s %s", k, bad[y]); free(k); } else strcat(b, L[i]); strcat(b, "\n"); } feed(b, strlen(b)); }
    static const char *sep[] = { "\n", "\r\n", "\t", " ", "\n\n\n", " # comment\n", "\n# type x\n", " #\n#\n ", 0 };
    for (int y = 0; sep[y]; y++) for (int z = 0; z < 2; z++) { CTX("separator #%ld, final %ld", y, z); *b = 0; for (int i = 0; i < n; i++) { strcat(b, L[i]); if (i < n - 1 || z) strcat(b, sep[y]); } feed(b, strlen(b)); *b = 0; for (int i = 0; i < n; i++) { char *k = strdup(L[i]); char *v = strchr(k, ' '); *v++ = 0; sprintf(b + strlen(b), "%s%s%s%s%s", k, sep[y], v, sep[y], i < n - 1 || z ? "\n" : ""); free(k); } feed(b, strlen(b)); }
    static const char *ty[] = { "a", "a1", "b", "d", "e", "f", "g", "i", "A", "aa", "", "d159", 0 }; for (int y = 0; ty[y]; y++) { CTX("type %s", (long) ty[y]); sprintf(b, "type %s\n", ty[y]); for (int i = 0; i < n; i++) if (strncmp(L[i], "type", 4)) { strcat(b, L[i]); strcat(b, "\n"); } feed(b, strlen(b)); }
    static const char *junk[] = { "", " ", "\n", "#", "type", "type a", "type d", "type d k 6", "type g", "type i", "type f", "type e", "type a1", "k 6", "a b c", "<", "<<>>", "type\0a", "# type a\n", 0 }; for (int y = 0; junk[y]; y++) { CTX("junk #%ld", y); feed(junk[y], strlen(junk[y])); }
  } else if (part == 1) { long st = vh_thorough || len < 400 ? 1 : len / 400 + 1; for (long k = 0; k <= len; k += st) { CTX("first %ld bytes", k); feed(t, k); } }
  else { static const char rep[] = { ' ', '\n', '#', '<', 'x', 0, '-', '9', '0', '>', '/', (char) 0xff }; long st = vh_thorough || len < 200 ? 1 : len / 200 + 1; for (long k = 0; k < len; k += st) for (int r = 0; r < 12; r++) { CTX("byte %ld replaced by #%ld", k, r); memcpy(b, t, len); b[k] = rep[r]; feed(b, len); } for (long k = 0; k < len; k += st) { CTX("byte %ld deleted", k); memcpy(b, t, k); memcpy(b + k, t + k + 1, len - k - 1); feed(b, len - 1); CTX("byte %ld doubled", k); memcpy(b, t, k + 1); memcpy(b + k + 1, t + k, len - k); feed(b, len + 1); } }
  mem_verify("heap"); vh_sample("%s part %ld: %ld accepted, %ld rejected", ps_name(id), part, nacc, nrej);
}
// long tokens, comments and gaps
static void longtok(long id, long part, long c_) {
  setup(); char *t = ps_text(id), *t2 = strdup(t); long len = strlen(t); char *L[100]; int n = lines(t2, L); char *b = malloc(len + 200000), *pad = malloc(20000); vh_outerf("%s", ps_name(id));
  static const int sz[] = { 30, 31, 32, 33, 63, 64, 65, 100, 127, 128, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4100, 8000, 0 };
  for (int q = 0; sz[q]; q++) { int s = sz[q]; for (int x = 0; x < n; x++) { CTX("line %ld, length %ld, way %ld", x, s, part); char *o = b; memset(pad, part == 0 ? '0' : part == 4 ? (q & 1 ? ' ' : '\n') : 'k', s); pad[s] = 0; if (part == 0 && !strncmp(L[x], "type", 4)) continue;
      for (int i = 0; i < n; i++) { if (i != x) { o += sprintf(o, "%s\n", L[i]); continue; } char *k = strdup(L[i]), *v = strchr(k, ' '); *v++ = 0; mpz_set_str(mz, strncmp(L[i], "type", 4) ? v : "0", 0);
        if (part == 0) { char h[9000]; mpz_get_str(h, 16, mz); o += sprintf(o, "%s %s0x%s%s\n", k, *h == '-' ? "-" : "", pad, h + (*h == '-')); } else if (part == 1) o += sprintf(o, "%s #%s\n%s # %s\n", k, pad, v, pad); else if (part == 2) o += sprintf(o, "%s %s\n%s 5\n", k, v, pad); else if (part == 3) o += sprintf(o, "zz %s\n%s %s\n", pad, k, v); else if (part == 4) o += sprintf(o, "%s %s%s%s\n", k, pad, v, pad); else o += sprintf(o, "%s%s %s\n", k, pad, v); free(k); }
      feed(b, o - b); } }
  if (part == 1) for (int m = 1; m < 45; m++) { CTX("%ld unknown fields first", m); char *o = b; for (int i = 0; i < m; i++) o += sprintf(o, "u%d %d\n", i * 7, i); o += sprintf(o, "%s", t); feed(b, o - b); o = b; o += sprintf(o, "%s\n", t); for (int i = 0; i < m; i++) o += sprintf(o, "w%d %d\n", i * 5, i); feed(b, o - b); }
  mem_verify("heap"); vh_sample("%s long tokens, way %ld: %ld accepted, %ld rejected", ps_name(id), part, nacc, nrej);
}
// a pairing from printed parameters is the same pairing
static void repro(long id, long b_, long c_) {
  pbc_set_msg_to_stderr(0); vh_outerf("%s", ps_name(id)); char *t = ps_text(id); pbc_param_t p, q; CHECK(!pbc_param_init_set_str(p, t), "rejected"); print_param(p); char *s1 = strdup(obuf); CHECK(!pbc_param_init_set_str(q, s1), "printed parameters rejected"); print_param(q); STATE(); STEP(); CHECK(!strcmp(s1, obuf), "printing is not stable");
  pairing_t A, B; vh_rng_seed(1); pairing_init_pbc_param(A, p); vh_rng_seed(1); pairing_init_pbc_param(B, q); pbc_param_clear(p); pbc_param_clear(q);
  CHECK(!mpz_cmp(A->r, B->r) && pairing_is_symmetric(A) == pairing_is_symmetric(B) && pairing_length_in_bytes_G1(A) == pairing_length_in_bytes_G1(B) && pairing_length_in_bytes_GT(A) == pairing_length_in_bytes_GT(B), "different groups");
  element_t a1, a2, ag, b1, b2, bg; element_init_G1(a1, A); element_init_G2(a2, A); element_init_GT(ag, A); element_init_G1(b1, B); element_init_G2(b2, B); element_init_GT(bg, B);
  for (int k = 0; k < 3; k++) { vh_rng_seed(k + 5); element_random(a1); element_random(a2); vh_rng_seed(k + 5); element_random(b1); element_random(b2); pairing_apply(ag, a1, a2, A); pairing_apply(bg, b1, b2, B); STEP(); char x[20000], y[20000]; FILE *f = fmemopen(x, 20000, "w"); element_out_str(f, 10, ag); fclose(f); f = fmemopen(y, 20000, "w"); element_out_str(f, 10, bg); fclose(f); CHECK(!strcmp(x, y), "different pairing values"); }
}
void vh_register(void) {
  static const char *ty[] = { "a", "a1", "d", "e", "f", "g" };
  for (int i = NTOYS; i < NTOYS + NREAL; i++) if (vh_thorough || !strcmp(ps_name(i), "a") || !strcmp(ps_name(i), "d159") || !strcmp(ps_name(i), "f")) for (int k = 0; k < 6; k++) vh_unit(longtok, i, k, 0, "%s/long%d", ps_name(i), k);
  for (int i = NTOYS; i < NTOYS + NREAL; i++) { for (int k = 0; k < 3; k++) vh_unit(unit, i, k, 0, "%s/part%d", ps_name(i), k); vh_unit(repro, i, 0, 0, "%s/same", ps_name(i)); }
  for (int t = 0; t < 6; t++) { int seen = 0; for (int i = 0; i < NTOYS; i++) if (!strcmp(toys[i].type, ty[t])) { if (seen++ < (vh_thorough ? 6 : 2)) { for (int k = 0; k < 3; k++) vh_unit(unit, i, k, 0, "%s/part%d", toys[i].name, k); vh_unit(repro, i, 0, 0, "%s/same", toys[i].name); } } }
}
