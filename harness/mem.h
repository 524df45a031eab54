// Counting, checking allocator for the library's and GMP's memory functions.
#ifndef MEM_H
#define MEM_H
#include "vh.h"
#include <pbc.h>
#ifndef MEM_TAIL
#define MEM_TAIL 16 // guard bytes; 0 under AddressSanitizer, whose red zone then starts at once
#endif
typedef struct mb_s { struct mb_s *nx, *pv; size_t n; unsigned long magic, id; } mb;
#define MAGIC_P 0x70626370626370ULL
#define MAGIC_G 0x676d70676d70ULL
#define MAGIC_F 0xdeadf4eedeadULL
static long mem_pbc, mem_gmp; static unsigned long mem_seq; static int mem_bad; static char mem_why[200]; static mb mem_list = { &mem_list, &mem_list };
static long mem_calls_malloc, mem_calls_realloc, mem_calls_free;
static void *mem_get(size_t n, unsigned long magic) { mb *b = (mb *) malloc(sizeof(mb) + n + MEM_TAIL); if (!b) abort(); b->n = n; b->magic = magic; b->id = ++mem_seq; b->nx = &mem_list; b->pv = mem_list.pv; b->pv->nx = b; mem_list.pv = b; memset(b + 1, 0xd5, n); memset((char *) (b + 1) + n, 0xca, MEM_TAIL); if (magic == MAGIC_P) mem_pbc++; else mem_gmp++; return b + 1; }
static void mem_note(const char *w) { if (!mem_bad++) { strncpy(mem_why, w, 199); } }
static mb *mem_check(void *p, unsigned long magic, const char *w) { mb *b = (mb *) p - 1; if (b->magic != magic) { static char m[160]; snprintf(m, 160, "%s of a block that is %s", w, b->magic == MAGIC_F ? "already free" : b->magic == MAGIC_P ? "the library's" : b->magic == MAGIC_G ? "GMP's" : "foreign"); mem_note(m); return 0; } for (int i = 0; i < MEM_TAIL; i++) if (((unsigned char *) p)[b->n + i] != 0xca) { mem_note("write behind a block"); break; } return b; }
static void mem_put(void *p, unsigned long magic, const char *w) { if (!p) return; mb *b = mem_check(p, magic, w); if (!b) return; b->nx->pv = b->pv; b->pv->nx = b->nx; b->magic = MAGIC_F; memset(p, 0xdd, b->n); if (magic == MAGIC_P) mem_pbc--; else mem_gmp--; free(b); }
static void *mem_re(void *p, size_t n, unsigned long magic) { if (!p) return mem_get(n, magic); mb *b = mem_check(p, magic, "realloc"); void *q = mem_get(n, magic); if (b) { memcpy(q, p, b->n < n ? b->n : n); mem_put(p, magic, "realloc"); } return q; }
static void *mp_m(size_t n) { mem_calls_malloc++; return mem_get(n, MAGIC_P); }
static void *mp_r(void *p, size_t n) { mem_calls_realloc++; return mem_re(p, n, MAGIC_P); }
static void mp_f(void *p) { mem_calls_free++; mem_put(p, MAGIC_P, "free"); }
static void *mg_m(size_t n) { return mem_get(n, MAGIC_G); }
static void *mg_r(void *p, size_t o, size_t n) { return mem_re(p, n, MAGIC_G); }
static void mg_f(void *p, size_t n) { mem_put(p, MAGIC_G, "GMP free"); }
static void *(*mem_dm)(size_t), *(*mem_dr)(void *, size_t), (*mem_df)(void *); // the library's own
#ifndef MEM_PASSIVE
__attribute__((constructor)) static void mem_install(void) { mem_dm = pbc_malloc; mem_dr = pbc_realloc; mem_df = pbc_free; mp_set_memory_functions(mg_m, mg_r, mg_f); pbc_set_memory_functions(mp_m, mp_r, mp_f); }
#endif
#ifdef MEM_PASSIVE
extern long mem_wrapped; static long mem_live(void) { return mem_wrapped; }
#else
static long mem_live(void) { return mem_pbc + mem_gmp; }
#endif
static void mem_verify(const char *w) { for (mb *b = mem_list.nx; b != &mem_list; b = b->nx) for (int i = 0; i < MEM_TAIL; i++) if (((unsigned char *) (b + 1))[b->n + i] != 0xca) { mem_note("write behind a live block"); break; } CHECK(!mem_bad, "%s: %s", w, mem_why); mem_bad = 0; }
#endif
