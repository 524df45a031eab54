// P22: dynamic arrays and symbol tables against a list model: every operation
// sequence up to a depth from every initial size around the growth steps.
#include "mem.h"
#include "misc/darray.h"
#include "misc/symtab.h"
#define CAP 200
typedef struct { void *v[CAP]; int n; } lst;
static int tag[8]; // addresses used as items
static int odd(void *p) { return ((int *) p - tag) & 1; }
static int all(void *p) { return 1; }
static int none(void *p) { return 0; }
static int eqp(void *p, void *q) { return p == q; }
static lst seen; static void *sc1, *sc2, *sc3; static int scbad;
static void f1(void *p) { seen.v[seen.n++] = p; }
static void f2(void *p, void *a) { f1(p); scbad |= a != sc1; }
static void f3(void *p, void *a, void *b) { f1(p); scbad |= a != sc1 || b != sc2; }
static void f4(void *p, void *a, void *b, void *c) { f1(p); scbad |= a != sc1 || b != sc2 || c != sc3; }
static void same(const char *w, darray_t d, lst *m) {
  CHECK(darray_count(d) == m->n, "%s: count %d, expected %d", w, darray_count(d), m->n);
  for (int i = 0; i < m->n; i++) CHECK(darray_at(d, i) == m->v[i], "%s: item %d is wrong", w, i);
  for (int k = 1; k <= 4; k++) { seen.n = 0; scbad = 0; if (k == 1) darray_forall(d, f1); else if (k == 2) darray_forall2(d, f2, sc1); else if (k == 3) darray_forall3(d, f3, sc1, sc2); else darray_forall4(d, f4, sc1, sc2, sc3); CHECK(seen.n == m->n && !memcmp(seen.v, m->v, m->n * sizeof(void *)) && !scbad, "%s: forall%d visits other items", w, k); }
  for (int t = 0; t < 4; t++) { int ix = -1; for (int i = m->n - 1; i >= 0; i--) if (m->v[i] == tag + t) ix = i; CHECK(darray_index_of(d, tag + t) == ix, "%s: index of %d is %d, expected %d", w, t, darray_index_of(d, tag + t), ix); CHECK(darray_at_test(d, eqp, tag + t) == (ix < 0 ? NULL : tag + t), "%s: at_test", w); }
}
static void l_rm(lst *m, int i) { memmove(m->v + i, m->v + i + 1, (m->n - i - 1) * sizeof(void *)); m->n--; }
static void l_filter(lst *m, int (*t)(void *)) { int k = 0; for (int i = 0; i < m->n; i++) if (!t(m->v[i])) m->v[k++] = m->v[i]; m->n = k; }
// operations
enum { APP0, APP1, APP2, RMLAST, RMIX0, RMIXMID, RMIXLAST, RM0, RM1, RMTODD, RMTALL, RMTNONE, COPYTO, COPYFROM, RMALL, BAPP, BRMLAST, NOPS };
static const char *opn[] = { "append0", "append1", "append2", "remove_last", "remove_index(0)", "remove_index(mid)", "remove_index(last)", "remove(0)", "remove(1)", "remove odd", "remove every", "remove none", "copy to B", "copy from B", "remove_all", "B append", "B remove_last" };
static int apply(int o, darray_t A, darray_t B, lst *a, lst *b) { // 0: not enabled
  int i;
  switch (o) {
    case APP0: case APP1: case APP2: darray_append(A, tag + o - APP0); a->v[a->n++] = tag + o - APP0; break;
    case RMLAST: if (!a->n) return 0; darray_remove_last(A); a->n--; break;
    case RMIX0: case RMIXMID: case RMIXLAST: if (!a->n) return 0; i = o == RMIX0 ? 0 : o == RMIXMID ? a->n / 2 : a->n - 1; darray_remove_index(A, i); l_rm(a, i); break;
    case RM0: case RM1: for (i = 0; i < a->n && a->v[i] != tag + o - RM0; i++); if (i == a->n) return 0; darray_remove(A, tag + o - RM0); l_rm(a, i); break;
    case RMTODD: darray_remove_with_test(A, odd); l_filter(a, odd); break;
    case RMTALL: darray_remove_with_test(A, all); l_filter(a, all); break;
    case RMTNONE: darray_remove_with_test(A, none); break;
    case COPYTO: darray_copy(B, A); *b = *a; break;
    case COPYFROM: darray_copy(A, B); *a = *b; break;
    case RMALL: darray_remove_all(A); a->n = 0; break;
    case BAPP: darray_append(B, tag + 3); b->v[b->n++] = tag + 3; break;
    case BRMLAST: if (!b->n) return 0; darray_remove_last(B); b->n--; break;
  }
  return 1;
}
static void seqs(long start, long depth, long first) {
  if (depth < 0) { depth = -depth; pbc_set_memory_functions(mem_dm, mem_dr, mem_df); }
  sc1 = tag + 5; sc2 = tag + 6; sc3 = tag + 7; int w[10]; for (int i = 0; i < depth; i++) w[i] = 0; w[0] = first; long live0 = mem_live();
  for (;;) {
    darray_t A; darray_ptr B = darray_new(); lst a = { .n = 0 }, b = { .n = 0 }; darray_init(A); for (int i = 0; i < start; i++) { darray_append(A, tag + i % 3); a.v[a.n++] = tag + i % 3; }
    vh_outer[0] = 0; int i; for (i = 0; i < depth; i++) { size_t L = strlen(vh_outer); if (L < 900) snprintf(vh_outer + L, 100, "%s%s", i ? ", " : "", opn[w[i]]); CTX("start size %ld, step %ld", start, i); if (!apply(w[i], A, B, &a, &b)) break; STEP(); STATE(); same("A", A, &a); same("B", B, &b); }
    darray_clear(A); darray_free(B); CHECK(mem_live() == live0, "memory left behind"); if (mem_bad) mem_verify("sequence");
    int k = i < depth ? i : depth - 1; for (int j = k + 1; j < depth; j++) w[j] = 0; while (k > 0 && ++w[k] == NOPS) w[k--] = 0; if (k == 0) break;
  }
  mem_verify("arrays");
}
// symbol tables
static const char *keys[] = { "", "a", "ab", "A", "b" };
static void sames(symtab_t t, void **m, int *has, int *ord, int n) {
  for (int k = 0; k < 5; k++) { char q[4]; strcpy(q, keys[k]); CHECK(!symtab_has(t, q) == !has[k], "has(\"%s\")", q); CHECK(symtab_at(t, q) == (has[k] ? m[k] : NULL), "at(\"%s\")", q); }
  CHECK(!symtab_has(t, "abc") && !symtab_at(t, "abc") && !symtab_has(t, "B"), "unknown key"); seen.n = 0; symtab_forall_data(t, f1); CHECK(seen.n == n, "forall visits %d of %d", seen.n, n); for (int i = 0; i < n && i < seen.n; i++) { int found = 0; for (int j = 0; j < n; j++) if (seen.v[j] == m[ord[i]]) found = 1; CHECK(found, "forall skips \"%s\"", keys[ord[i]]); }
}
static void syms(long pre, long depth, long c_) {
  long live0 = mem_live(), N = 1; for (int i = 0; i < depth; i++) N *= 15;
  for (long w = 0; w < N; w++) {
    symtab_t t; symtab_init(t); void *m[5]; int has[5] = { 0 }, ord[5], n = 0; char xt[100][4]; for (int i = 0; i < pre; i++) { snprintf(xt[i], 4, "x%d", i); symtab_put(t, tag + i % 8, xt[i]); }
    long u = w; CTX("%ld entries first, word %ld", pre, w); for (int i = 0; i < depth; i++) { int k = u % 5, v = u / 5 % 3; u /= 15; char q[4]; strcpy(q, keys[k]); void *d = v == 2 ? NULL : (void *) (tag + v); symtab_put(t, d, q); memset(q, 'z', 3); m[k] = d; if (!has[k]) { has[k] = 1; ord[n++] = k; } STEP(); STATE(); if (!pre) sames(t, m, has, ord, n); else for (int kk = 0; kk < 5; kk++) CHECK(symtab_at(t, keys[kk]) == (has[kk] ? m[kk] : NULL) && !symtab_has(t, keys[kk]) == !has[kk], "key \"%s\"", keys[kk]); }
    for (int i = 0; i < pre; i++) CHECK(symtab_at(t, xt[i]) == tag + i % 8 && symtab_has(t, xt[i]), "earlier entry %d lost", i);
    symtab_clear(t); CHECK(mem_live() == live0, "memory left behind");
  }
  mem_verify("tables");
}
// long keys: any two that differ in one place only, at every length and place
static void longkeys(long len, long b_, long c_) {
  long live0 = mem_live(); char *k1 = malloc(len + 2), *k2 = malloc(len + 2); if (!live0) live0 = 0; long live1 = mem_live();
  for (long at = 0; at <= len; at += len < 300 || at < 3 || at > len - 3 ? 1 : 61) { STATE(); CTX("keys of length %ld that differ at %ld", len, at); memset(k1, 'k', len); k1[len] = 0; strcpy(k2, k1); if (at < len) k2[at] = 'j'; else strcat(k2, "k"); symtab_t t; symtab_init(t); symtab_put(t, tag, k1); CHECK(!symtab_has(t, k2) && !symtab_at(t, k2), "another key is known"); symtab_put(t, tag + 1, k2); STEP(); CHECK(symtab_at(t, k1) == tag && symtab_at(t, k2) == tag + 1 && symtab_has(t, k1) && symtab_has(t, k2), "values of two keys mixed up"); symtab_put(t, tag + 2, k1); CHECK(symtab_at(t, k1) == tag + 2 && symtab_at(t, k2) == tag + 1, "value not replaced"); symtab_clear(t); CHECK(mem_live() == live1, "memory left behind"); }
  free(k1); free(k2); mem_verify("long keys");
}
// arrays of many items: every size up to a bound grown one by one, then emptied by each way of removing
static void many(long max, long how, long c_) {
  long live0 = mem_live(); darray_t A; darray_init(A); for (long i = 0; i < max; i++) { CTX("growing, item %ld", i); darray_append(A, (void *) (i + 1)); STATE(); STEP(); CHECK(darray_count(A) == i + 1 && darray_at(A, i) == (void *) (i + 1) && darray_at(A, 0) == (void *) 1 && darray_last(A) == (void *) (i + 1) && darray_at(A, i / 2) == (void *) (i / 2 + 1), "item lost"); }
  for (long i = 0; i < max; i++) CHECK(darray_at(A, i) == (void *) (i + 1), "item %ld changed", i);
  darray_t B; darray_init(B); darray_copy(B, A); CHECK(darray_count(B) == max, "copy"); for (long i = 0; i < max; i++) CHECK(darray_at(B, i) == (void *) (i + 1), "copied item %ld", i); darray_append(B, (void *) 7); CHECK(darray_count(B) == max + 1 && darray_last(B) == (void *) 7 && darray_at(B, max - 1) == (void *) max, "append after copy"); darray_clear(B);
  for (long i = max; i > 0; i--) { CTX("shrinking, %ld left", i); STEP(); long lo = how == 0 ? 1 : max - i + 1; if (how == 0) darray_remove_last(A); else if (how == 1) darray_remove_index(A, 0); else darray_remove(A, (void *) lo); if (how) lo++; CHECK(darray_count(A) == i - 1, "count"); if (i > 1) CHECK(darray_at(A, 0) == (void *) lo && darray_last(A) == (void *) (how ? max : i - 1), "wrong item removed"); }
  darray_clear(A); CHECK(mem_live() == live0, "memory left behind"); mem_verify("large arrays");
}
void vh_register(void) {
  for (int l = 1; l < 70; l++) vh_unit(longkeys, l, 0, 0, "long-keys/%d", l); static const int lk[] = { 127, 128, 129, 255, 256, 257, 1000, 5000, 0 }; for (int i = 0; lk[i]; i++) vh_unit(longkeys, lk[i], 0, 0, "long-keys/%d", lk[i]); for (int h = 0; h < 3; h++) vh_unit(many, vh_thorough ? 20000 : 5000, h, 0, "large/%d", h);
  static const int st[] = { 0, 1, 2, 6, 7, 8, 9, 14, 15, 16, 17, 31, 32, 33, 64, 100, -1 }; int big = vh_thorough;
  for (int i = 0; st[i] >= 0; i++) for (int o = 0; o < NOPS; o++) vh_unit(seqs, st[i], st[i] < 20 ? (big ? 6 : 5) : (big ? 5 : 4), o, "array/size%d/%s", st[i], opn[o]);
  for (int i = 0; i < 8; i += 7) for (int o = 0; o < NOPS; o++) vh_unit(seqs, i, -3, o, "array/own-allocator/size%d/%s", i, opn[o]);
  static const int ps[] = { 0, 6, 7, 8, 15, 16, 40, -1 }; for (int i = 0; ps[i] >= 0; i++) vh_unit(syms, ps[i], ps[i] ? (big ? 5 : 4) : (big ? 5 : 4), 0, "table/%d", ps[i]);
}
