// P11: text output of an element reads back as the same element, in every
// base, with arbitrary whitespace between tokens; malformed text is rejected.
#include "zoo.h"
static zoo Z; static element_t c, d;
static char *pr_file(element_t e, int base, size_t *ret) { char *s; size_t n; FILE *f = open_memstream(&s, &n); *ret = element_out_str(f, base, e); fclose(f); return s; }
// a stream whose device accepts only k bytes
static long room; static ssize_t wr(void *c, const char *b, size_t n) { (void) c; (void) b; if ((long) n <= room) { room -= n; return n; } ssize_t k = room; room = 0; return k; }
static size_t pr_fail(element_t e, int base, long k) { cookie_io_functions_t io = { .write = wr }; room = k; FILE *f = fopencookie(NULL, "w", io); setvbuf(f, NULL, _IONBF, 0); size_t r = element_out_str(f, base, e); fclose(f); return r; }
static void structure(const char *s, int brackets) { int depth = 0; for (const char *p = s; *p; p++) { if (*p == '[') depth++; if (*p == ']') depth--; CHECK(depth >= 0, "unbalanced %s", s); } CHECK(!depth, "unbalanced %s", s); }
static void unit(long id, long b_, long c_) {
  if (zoo_open(&Z, id, vh_thorough ? (zoo_list[id].cost ? 25 : 300) : zoo_list[id].cost == 2 ? 5 : zoo_list[id].cost ? 12 : 60)) return; vh_outerf("%s", Z.s.name);
  element_init(c, Z.f); element_init(d, Z.f); static const int bases[] = { 10, 16, 2, 8, 36, 3, 35, 7 }; int nb = vh_thorough ? 8 : Z.s.cost == 2 ? 3 : 6;
  int curve = (Z.s.kind & (ZK_CURVE | ZK_G1 | ZK_G2)) != 0;
  for (int i = 0; i < Z.n; i++) {
    element_ptr a = Z.el[i]; STATE();
    for (int b = 0; b < nb; b++) {
      CTX("element #%ld base %ld", i, bases[b]); size_t r; char *s = pr_file(a, bases[b], &r); CHECK(r == strlen(s), "out_str returned %zu for %zu characters", r, strlen(s)); structure(s, 0);
      element_set(c, Z.el[(i + 1) % Z.n]); int n = element_set_str(c, s, bases[b]); STEP(); CHECK(n == (int) strlen(s), "set_str read %d of %zu: %s", n, strlen(s), s); CHECK(!element_cmp(c, a), "text does not read back: %s", s);
      // trailing junk is left unread
      char *t = malloc(strlen(s) * 8 + 64); sprintf(t, "%s!x", s); element_set(c, Z.el[(i + 2) % Z.n]); n = element_set_str(c, t, bases[b]); CHECK(n == (int) strlen(s) && !element_cmp(c, a), "with trailing junk: read %d of %zu", n, strlen(s));
      // whitespace around every token
      for (int w = 0; w < 3; w++) { const char *ws = w == 0 ? " " : w == 1 ? "\t\n " : ""; char *q = t; *q = 0; for (const char *p = s; *p; p++) { int tok = strchr("[],", *p) != NULL; if (w == 2 && *p == ' ') continue; if (tok || p == s) { strcpy(q, ws); q += strlen(q); } *q++ = *p; *q = 0; if (tok && p[1]) { strcpy(q, ws); q += strlen(q); } } *q = 0;
        element_set(c, Z.el[(i + 1) % Z.n]); n = element_set_str(c, t, bases[b]); STEP(); CHECK(n == (int) strlen(t) && !element_cmp(c, a), "whitespace variant %d: read %d of %zu: %s", w, n, strlen(t), t); }
      // upper-case digits
      if (b == 1) { for (char *p = strcpy(t, s); *p; p++) if (*p >= 'a' && *p <= 'f') *p -= 32; n = element_set_str(c, t, 16); CHECK(n == (int) strlen(s) && !element_cmp(c, a), "upper case digits"); }
      // malformed: every proper prefix and every deletion of a structural character of a bracketed form
      if (s[0] == '[') {
        int L = strlen(s), st = L > 80 && !vh_thorough ? L / 40 : 1;
        for (int k = 0; k < L; k++) { if (k % st && !strchr("[], ", s[k]) && k < L - 3) continue; memcpy(t, s, k); t[k] = 0; element_set(c, a); n = element_set_str(c, t, bases[b]); STEP(); CHECK(n == 0, "prefix accepted (%d): %s", n, t); CHECK(element_is0(c) || (Z.s.kind == ZK_GT), "rejected text left a value: %s", t); if (curve) CHECK(el_on_curve(c), "rejected text left an invalid point"); }
        for (int k = 0; k < L; k++) if (strchr("[],", s[k])) { for (int m = 0; m < 3; m++) { memcpy(t, s, k); int o = k; if (m == 1) t[o++] = '/'; else if (m == 2) t[o++] = s[k] == ',' ? ']' : ','; strcpy(t + o, s + k + 1); element_set(c, a); n = element_set_str(c, t, bases[b]); STEP(); 
            // removing the last ']' in a nested value may leave a shorter valid text only if brackets still balance
            int depth = 0, bal = -1; for (int j = 0; t[j]; j++) { if (t[j] == '[') depth++; if (t[j] == ']' && --depth == 0 && bal < 0) bal = j + 1; if (depth < 0) break; }
            CHECK(n == 0, "malformed text accepted (%d, balanced at %d): %s", n, bal, t); if (curve) CHECK(el_on_curve(c), "malformed text left an invalid point"); } }
        // a missing coordinate
        for (int k = 0; k < L; k++) if ((s[k] == ',' && s[k + 1]) || (s[k] == '[' && s[k + 1] != '[')) { int e = k + 1; while (s[e] && !strchr("[],", s[e])) e++; if (s[e] == '[') continue; memcpy(t, s, k + 1); strcpy(t + k + 1, s + e); element_set(c, a); n = element_set_str(c, t, bases[b]); CHECK(n == 0, "missing coordinate accepted (%d): %s", n, t); }
      }
      free(t); free(s);
    }
    // the device fails after k bytes, for every k
    { size_t r; char *s = pr_file(a, 16, &r); long L = strlen(s); for (long k = 0; k <= L; k += (L > 60 && !vh_thorough && k > 2 && k < L - 2 && !strchr("[], ", s[k]) && s[k - 1] != ' ' ? 3 : 1)) { CTX("element #%ld, stream full after %ld of %ld bytes", i, k, L); STATE(); STEP(); size_t q = pr_fail(a, 16, k); CHECK(q == (k < L ? 0 : (size_t) L), "out_str reported %zu", q); } free(s); }
    // snprint: same text as base 10, never overruns, reports the full length
    size_t r; char *s = pr_file(a, 10, &r); char buf[65536]; int L = strlen(s); CTX("snprint of element #%ld", i);
    for (int n = 0; n <= L + 2; n += (L > 100 && !vh_thorough && n > 3 && n < L - 3 ? 9 : 1)) { memset(buf, 0x7e, sizeof buf); int q = element_snprint(buf + 8, n, a); STEP(); CHECK(q == L, "snprint returned %d, want %d (buffer %d)", q, L, n); for (int k = 0; k < 8; k++) CHECK(buf[k] == 0x7e && buf[8 + n + k] == 0x7e, "snprint wrote outside a buffer of %d", n); if (n) { int m = n - 1 < L ? n - 1 : L; CHECK(!memcmp(buf + 8, s, m) && !buf[8 + m], "snprint into %d bytes gave %.40s", n, buf + 8); } }
    free(s);
  }
  // junk that is no element at all
  static const char *junk[] = { "", " ", "\t\n", "[", "]", "[]", "[,]", "[ , ]", "[1", "[1,", "[1,]", "[,1]", "(1,2)", "x", "/", "-", "[[", "[[]", "[-1, 2]", ",", "o", "[O,O]", "[1;2]", 0 };
  for (int j = 0; junk[j]; j++) for (int p = 0; p < 2; p++) { CTX("junk #%ld", j); STATE(); STEP(); element_set(c, Z.el[(j + p * 3) % Z.n]); int n = element_set_str(c, junk[j], 10); CHECK(n == 0, "junk %s accepted (%d)", junk[j], n); if (curve) CHECK(el_on_curve(c), "junk left an invalid point"); }
  if (curve) { // every coordinate pair over a window: exactly the points of the curve are accepted
    element_ptr bx = curve_a_coeff(c); if (!element_item_count(bx)) { long lim = Z.s.kind == ZK_CURVE ? Z.s.a + 2 : 12; element_t x, y, t; element_init_same_as(x, bx); element_init_same_as(y, bx); element_init_same_as(t, bx);
      for (long u = 0; u < lim; u++) for (long v = 0; v < lim; v++) { CTX("coordinates %ld %ld", u, v); STATE(); char b[64]; sprintf(b, "[%ld, %ld]", u, v); element_set_si(x, u); element_set_si(y, v); element_mul(t, x, x); element_add(t, t, curve_a_coeff(c)); element_mul(t, t, x); element_add(t, t, curve_b_coeff(c)); element_mul(y, y, y); int on = !element_cmp(t, y); element_set(c, Z.el[1 % Z.n]); int n = element_set_str(c, b, 10); STEP(); CHECK((n == (int) strlen(b)) == on, "text %s: read %d, on curve %d", b, n, on); CHECK(element_is0(c) == !on, "text %s left %s", b, element_is0(c) ? "O" : "a point"); }
      element_clear(x); element_clear(y); element_clear(t); }
    int n = element_set_str(c, "O", 10); CHECK(n == 1 && element_is0(c), "O"); element_set(c, Z.el[1 % Z.n]); n = element_set_str(c, "  O,", 10); CHECK(n == 3 && element_is0(c), "O with spaces"); }
  vh_sample("%s: %d elements in %d bases", Z.s.name, Z.n, nb); element_clear(c); element_clear(d); zoo_close(&Z);
}
void vh_register(void) {
  zoo_huge = 1; zoo_init();
  for (int i = zoo_n - 1; i >= 0; i--) { if (strstr(zoo_list[i].name, "i.param") == zoo_list[i].name && zoo_list[i].kind != ZK_ZR) continue; if (!vh_thorough && zoo_list[i].cost == 1 && zoo_list[i].e > 2 && (zoo_list[i].kind & (ZK_GROUP | ZK_ZR))) continue; vh_unit(unit, i, 0, 0, "%s", zoo_list[i].name); }
}
