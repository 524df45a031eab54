// P27: the configured memory functions are the only ones used, and a build
// with SAFE_CLEAN wipes every block before giving it back.  Calls to the C
// allocator made by the library's objects arrive in the wrappers below.
#define vh_register p20_register
#include "p20.c"
#undef vh_register
void *__real_malloc(size_t); void __real_free(void *); void *__real_realloc(void *, size_t); void *__real_calloc(size_t, size_t); char *__real_strdup(const char *);
long mem_wrapped; static unsigned long w_frees, w_mallocs;
typedef struct { size_t n, magic; } wh;
#define WM 0x77697065776970UL
static void stray(const char *w) {
#ifdef MEM_PASSIVE
  if (!mem_bad++) snprintf(mem_why, 199, "%s called outside the wiping allocator", w);
#else
  if (!mem_bad++) snprintf(mem_why, 199, "%s called directly although other memory functions are installed", w);
#endif
}
void *__wrap_malloc(size_t n) {
#ifdef MEM_PASSIVE
  wh *h = __real_malloc(sizeof(wh) + n + 16); h->n = n; h->magic = WM; memset(h + 1, 0x5a, n); memset((char *) (h + 1) + n, 0xa7, 16); mem_wrapped++; w_mallocs++; return h + 1;
#else
  stray("malloc"); return __real_malloc(n);
#endif
}
void __wrap_free(void *p) {
#ifdef MEM_PASSIVE
  if (!p) return; wh *h = (wh *) p - 1; if (h->magic != WM) { stray("free of a block it did not get from malloc:"); return; }
  unsigned char *c = p; for (int i = 0; i < 16; i++) if (c[h->n + i] != 0xa7) { if (!mem_bad++) snprintf(mem_why, 199, "wrote past a block of %ld bytes", (long) h->n); break; }
  for (size_t i = 0; i < h->n; i++) if (c[i]) { if (!mem_bad++) snprintf(mem_why, 199, "block of %ld bytes given back without wiping (byte %ld)", (long) h->n, (long) i); break; }
  h->magic = 0; mem_wrapped--; w_frees++; __real_free(h);
#else
  stray("free"); __real_free(p);
#endif
}
void *__wrap_realloc(void *p, size_t n) { stray("realloc"); return __real_realloc(p, n); }
void *__wrap_calloc(size_t a, size_t b) { stray("calloc"); return __real_calloc(a, b); }
char *__wrap_strdup(const char *s) { stray("strdup"); return __real_strdup(s); }
static void watched(long a, long b, long c) { (void) a; (void) b; (void) c; }
// every pair of sizes, with content
static void sizes(long lo, long hi, long c_) {
  void *(*gr)(void *, size_t, size_t); void *(*gm)(size_t); void (*gf)(void *, size_t); mp_get_memory_functions(&gm, &gr, &gf); long top = vh_thorough ? 300 : 100;
  for (long o = lo; o < hi; o++) for (long n = 1; n <= top; n++) for (int which = 0; which < 2; which++) { STATE(); STEP(); CTX("%s from %ld to %ld bytes", which ? "GMP reallocation" : "pbc_realloc", o, n); long l0 = mem_live();
    unsigned char *p = which ? gm(o) : pbc_malloc(o); for (long i = 0; i < o; i++) p[i] = i * 7 + 1 ? i * 7 + 1 : 3; unsigned char *q = which ? gr(p, o, n) : pbc_realloc(p, n); long m = o < n ? o : n; int ok = 1; for (long i = 0; i < m; i++) if (q[i] != (unsigned char) (i * 7 + 1 ? i * 7 + 1 : 3)) ok = 0; CHECK(ok, "content not kept"); memset(q, 0xee, n); if (which) gf(q, n); else pbc_free(q); CHECK(mem_live() == l0, "%ld blocks left", mem_live() - l0); CHECK(!mem_bad, "%s", mem_why); mem_bad = 0; }
  for (long n = 1; n <= top; n++) { CTX("%ld bytes", n); STATE(); long l0 = mem_live(); unsigned char *p = pbc_realloc(NULL, n); memset(p, 9, n); pbc_free(p); p = pbc_calloc(n, 3); int ok = 1; for (long i = 0; i < 3 * n; i++) ok &= !p[i]; CHECK(ok, "pbc_calloc not zeroed"); memset(p, 8, 3 * n); pbc_free(p); char t[400]; memset(t, 'x', n); t[n] = 0; char *s = pbc_strdup(t); CHECK(!strcmp(s, t), "pbc_strdup"); pbc_free(s); pbc_free(NULL); CHECK(mem_live() == l0 && !mem_bad, "%s", mem_why); mem_bad = 0; }
  // GMP shrinking its own blocks
  for (long d = lo + 1; d < hi + 1; d++) { CTX("numbers of %ld digits", d); STATE(); long l0 = mem_live(); mpz_t z, y; mpz_init(z); mpz_ui_pow_ui(z, 10, d); mpz_sub_ui(z, z, 1); char *s = mpz_get_str(NULL, 10, z); CHECK((long) strlen(s) == d, "digits"); void (*ff)(void *, size_t); mp_get_memory_functions(0, 0, &ff); ff(s, strlen(s) + 1); mpz_init2(y, d * 64); mpz_set_ui(y, 5); mpz_realloc2(y, 64); CHECK(!mpz_cmp_ui(y, 5), "value"); mpz_clear(y); mpz_clear(z); CHECK(mem_live() == l0, "%ld blocks left", mem_live() - l0); CHECK(!mem_bad, "%s", mem_why); mem_bad = 0; }
}
#include "pbc_multiz.h"
#include "pbc_poly.h"
#include "pbc_z.h"
#include "misc/darray.h"
#include "misc/symtab.h"
#include "pbc_hilbert.h"
// parts of the library outside P20's structures
static void others(long k, long b_, long c_) {
  for (int pass = 0; pass < 2; pass++) { long l0 = mem_live(); STATE(); CTX("part %ld", k);
  switch (k) {
    case 0: { darray_t a; darray_init(a); for (int i = 0; i < 100; i++) { STEP(); darray_append(a, &a[i]); } darray_remove_index(a, 3); darray_remove_with_test(a, 0 ? NULL : (int (*)(void *)) abs); darray_remove_all(a); darray_clear(a); darray_ptr n = darray_new(); darray_append(n, n); darray_free(n); } break;
    case 1: { symtab_t t; symtab_init(t); char key[20]; for (int i = 0; i < 60; i++) { STEP(); sprintf(key, "key%d", i); symtab_put(t, key, key); } symtab_clear(t); } break;
    case 2: { static const long D[] = { 3, 4, 23, 71, 163, 479 }; for (int i = 0; i < 6; i++) { STEP(); mpz_t *c; size_t n = pbc_hilbert(&c, D[i]); pbc_hilbert_free(c, n); } } break;
    case 3: { field_t zf; field_init_z(zf); element_t x, y; element_init(x, zf); element_init(y, zf); for (int i = -9; i < 200; i += 7) { STEP(); element_set_si(x, i); element_mul(y, x, x); element_add(x, x, y); element_pow_mpz(y, x, (mpz_ptr) x->data); unsigned char *b = malloc(element_length_in_bytes(x)); element_to_bytes(b, x); element_from_bytes(y, b); free(b); char t[80]; element_snprintf(t, 80, "%B", x); } element_clear(x); element_clear(y); field_clear(zf); } break;
    case 4: { field_t m; field_init_multiz(m); element_t x, y; element_init(x, m); element_init(y, m); element_set_si(x, 3); element_set_si(y, 4); element_ptr l = multiz_new_list(x); multiz_append(l, y); STEP(); element_init(x, m); element_init(y, m); element_set_si(y, 6); element_mul(x, l, y); element_add(y, x, l); element_item(y, 0); element_neg(x, y); element_cmp(x, y); char t[99]; element_snprint(t, 99, y); CHECK(!mem_bad, "%s", mem_why); element_clear(l); pbc_free(l); element_clear(x); element_clear(y); field_clear(m); } break;
    case 5: { mpz_t p; mpz_init_set_ui(p, 19); field_t f, x; field_init_fp(f, p); field_init_poly(x, f); element_t a, b, r; element_init(a, x); element_init(b, x); element_init(r, f); vh_rng_reset(); for (int i = 0; i < 20; i++) { STEP(); poly_random_monic(a, 1 + i % 5); poly_random_monic(b, i % 4); element_mul(a, a, b); element_sub(b, a, b); poly_is_irred(a); if (poly_degree(a) > 0) poly_findroot(r, a); } element_clear(a); element_clear(b); element_clear(r); field_clear(x); field_clear(f); mpz_clear(p); } break;
    case 6: { mpz_t q, g, h, x; mpz_init_set_ui(q, 1009); field_t f; field_init_fp(f, q); element_t a, b, z; element_init(a, f); element_init(b, f); element_init(z, f); element_set_si(a, 11); mpz_init_set_ui(x, 321); mpz_init(g); mpz_init(h); element_pow_mpz(b, a, x); STEP(); field_t r; mpz_set_ui(g, 1008); field_init_fp(r, g); element_t o; element_init(o, r); element_dlog_brute_force(o, a, b); CHECK(!mem_bad, "%s", mem_why); element_clear(o); field_clear(r); element_clear(a); element_clear(b); element_clear(z); field_clear(f); mpz_clear(q); mpz_clear(g); mpz_clear(h); mpz_clear(x); } break;
  }
  CHECK(!mem_bad, "%s", mem_why); if (pass && k != 4) CHECK(mem_live() == l0, "%ld blocks left", mem_live() - l0); }
}
void vh_register(void) {
  for (int i = 0; i < 5; i++) vh_unit(sizes, i * 20 + (i == 0), i * 20 + 20, 0, "sizes/%d", i * 20);
  for (int i = 0; i < 7; i++) vh_unit(others, i, 0, 0, "part/%d", i);
  p20_register(); (void) watched;
}
