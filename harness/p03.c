// P03: values, not histories.  Every sequence of operations up to a depth runs
// on live elements; next to it each step is computed by fresh elements that
// were loaded from canonical bytes.  Both must agree in everything observable.
#include "zoo.h"
#define NR 2
typedef struct { int op, d, a, b; } ins;
enum { SET, NEG, INV, DBL, HLV, SQR, SQT, ADD, SUB, MUL, DIV, ZERO, ONE, SI, BADBYTES, BADSTR, LOAD, RND, POW, MULSI, PPINIT, PPPOW, RESET, ISSQ, SWAPI, NOP_ };
static const char *nm[] = { "set", "neg", "invert", "double", "halve", "square", "sqrt", "add", "sub", "mul", "div", "set0", "set1", "set_si", "from bad bytes", "set_str bad", "load", "random", "pow 3", "mul_si -2", "pp_init", "pp_pow 5", "clear and init", "is_sqr", "write items" };
static ins I[200]; static int nI;
static zoo Z; static unsigned char *cb[8]; // canonical bytes of constants
static int len;
static void add_i(int op, int d, int a, int b) { I[nI++] = (ins) { op, d, a, b }; }
static int lite;
static void build(int rich) {
  int k = Z.s.kind, fld = k & (ZK_PRIME | ZK_TOWER | ZK_ZR), grp = k & ZK_GROUP, odd = mpz_odd_p(Z.f->order); nI = 0;
  for (int d = 0; d < NR; d++) {
    add_i(ZERO, d, 0, 0); add_i(ONE, d, 0, 0); if (!grp) add_i(SI, d, 0, 0); if (k != ZK_GT) add_i(BADBYTES, d, 0, 0); add_i(BADSTR, d, 0, 0); add_i(LOAD, d, 1, 0); add_i(LOAD, d, 2, 0); add_i(RND, d, 0, 0); if (rich) add_i(RESET, d, 0, 0);
    if (!lite) { add_i(PPPOW, d, 0, 0); add_i(PPINIT, 0, d, 0); } if (fld && odd && !lite) add_i(ISSQ, 0, d, 0); if (k & (ZK_TOWER)) add_i(SWAPI, d, 0, 0);
    for (int a = 0; a < NR; a++) { if (a != d) add_i(SET, d, a, 0); if (k != ZK_GT) { add_i(NEG, d, a, 0); add_i(DBL, d, a, 0); } if (!(k & ZK_RING)) add_i(INV, d, a, 0); add_i(SQR, d, a, 0); if (fld && odd) { if (rich) add_i(HLV, d, a, 0); if (!lite) add_i(SQT, d, a, 0); } if (rich || a == d) { add_i(POW, d, a, 0); if (k != ZK_GT) add_i(MULSI, d, a, 0); }
      for (int b = 0; b < NR; b++) { if (k != ZK_GT) { add_i(ADD, d, a, b); add_i(SUB, d, a, b); } if (!(grp && k != ZK_GT)) add_i(MUL, d, a, b); if ((fld || k == ZK_GT) && (rich || (a != b))) add_i(DIV, d, a, b); } }
  }
}
static mpz_t e3, e5; static char badtxt[2][16] = { "[1,", "" };
// Runs one instruction. Returns 0 when it is not defined for these values.
static int run(ins *i, element_t *R, element_pp_t pp, int *havepp, element_ptr ppbase) {
  element_ptr d = R[i->d], a = R[i->a], b = R[i->b];
  switch (i->op) {
    case SET: element_set(d, a); break; case NEG: element_neg(d, a); break; case INV: if (!(Z.s.kind & ZK_GROUP) && element_is0(a)) return 0; element_invert(d, a); break; case DBL: element_double(d, a); break; case HLV: element_halve(d, a); break; case SQR: element_square(d, a); break; case SQT: if (!element_is_sqr(a)) return 0; vh_rng_reset(); element_sqrt(d, a); break;
    case ADD: element_add(d, a, b); break; case SUB: element_sub(d, a, b); break; case MUL: element_mul(d, a, b); break; case DIV: if (Z.s.kind != ZK_GT && element_is0(b)) return 0; element_div(d, a, b); break;
    case ZERO: element_set0(d); break; case ONE: element_set1(d); break; case SI: element_set_si(d, -3); break; case BADBYTES: { unsigned char *t = malloc(len); memset(t, 0xff, len); element_from_bytes(d, t); free(t); } break; case BADSTR: element_set_str(d, badtxt[0], 10); element_set0(d); break; case LOAD: element_from_bytes(d, cb[i->a]); break; case RND: vh_rng_reset(); vh_rng_seed(9); element_random(d); break;
    case POW: element_pow_mpz(d, a, e3); break; case MULSI: element_mul_si(d, a, -2); break;
    case PPINIT: if (ppbase) element_set(ppbase, a); else { if (*havepp) element_pp_clear(pp); element_pp_init(pp, a); } *havepp = 1; break;
    case PPPOW: if (!*havepp) return 0; if (ppbase) element_pow_mpz(d, ppbase, e5); else element_pp_pow(d, e5, pp); break;
    case RESET: element_clear(d); element_init(d, Z.f); break;
    case ISSQ: element_is_sqr(a); break;
    case SWAPI: if (element_item_count(d) < 2) return 0; { element_t t; element_ptr x = element_item(d, 0), y = element_item(d, 1); element_init_same_as(t, x); element_set(t, x); element_set(x, y); element_set(y, t); element_clear(t); } break;
  }
  return 1;
}
static void fresh(element_ptr o, element_ptr i) { unsigned char *t = malloc(len); element_to_bytes(t, i); element_init(o, Z.f); element_from_bytes(o, t); free(t); }
static unsigned char *o1, *o2;
static void same(element_ptr x, element_ptr s, const char *w) { // x live, s fresh
  CHECK(!element_cmp(x, s) && !element_cmp(s, x), "%s: value differs", w); memset(o1, 1, len); memset(o2, 2, len); CHECK(element_to_bytes(o1, x) == len && element_to_bytes(o2, s) == len, "%s: length", w); if (!(Z.s.kind & ZK_G2)) CHECK(!memcmp(o1, o2, len), "%s: bytes differ", w); if (Z.s.kind & ZK_G2) return; CHECK(!element_is0(x) == !element_is0(s) && !element_is1(x) == !element_is1(s), "%s: is0/is1 differ", w); if (Z.s.kind & (ZK_PRIME | ZK_TOWER | ZK_ZR)) CHECK(element_sign(x) == element_sign(s), "%s: sign differs", w); CHECK(element_item_count(x) == element_item_count(s), "%s: item count differs", w);
}
static void seqs(long id, long depth, long first) {
  if (zoo_open(&Z, id, 8)) return; len = element_length_in_bytes(Z.el[0]); mpz_init_set_ui(e3, 3); mpz_init_set_ui(e5, 5); for (int i = 0; i < 4; i++) { cb[i] = malloc(len); element_to_bytes(cb[i], Z.el[(i * (Z.n - 1)) / 3]); } o1 = malloc(len); o2 = malloc(len); lite = Z.s.cost && (Z.s.kind & ZK_TOWER) && !vh_thorough; build(Z.s.cost == 0);
  int part = first / 100, parts = first % 100; 
  static element_t S[6][NR], SB[6]; int sp[6], w[6]; 
  for (int init = 0; init < 2; init++) {
    for (int r = 0; r < NR; r++) { element_init(S[0][r], Z.f); if (init) element_from_bytes(S[0][r], cb[3 - r]); else element_set0(S[0][r]); } element_init(SB[0], Z.f); sp[0] = 0; // init 0: freshly initialised registers
    int L = 0; w[0] = part;
    for (;;) { // node: word w[0..L]
      if (w[L] >= nI) { if (!L) break; element_clear(S[L][0]); element_clear(S[L][1]); element_clear(SB[L]); L--; w[L] += L ? 1 : parts; continue; }
      // shadow step from level L to L+1, on fresh copies
      element_t *s = S[L + 1]; for (int r = 0; r < NR; r++) fresh(s[r], S[L][r]); fresh(SB[L + 1], SB[L]); sp[L + 1] = sp[L]; vh_outer[0] = 0; for (int i = 0; i <= L; i++) { size_t n = strlen(vh_outer); ins *q = &I[w[i]]; snprintf(vh_outer + n, sizeof vh_outer - n, "%s%s R%d R%d R%d", i ? "; " : "", nm[q->op], q->d, q->a, q->b); } CTX("%s, start %ld", Z.s.name, init);
      int ok = run(&I[w[L]], s, NULL, &sp[L + 1], SB[L + 1]);
      if (ok) { // live run of the whole word
        element_t R[NR]; element_pp_t pp; int hp = 0; for (int r = 0; r < NR; r++) { element_init(R[r], Z.f); if (init) element_from_bytes(R[r], cb[3 - r]); } STATE(); for (int i = 0; i <= L; i++) { STEP(); if (!run(&I[w[i]], R, pp, &hp, NULL)) { vh_fail("operation refused on live elements only"); break; } }
        TRACE(); for (int r = 0; r < NR; r++) same(R[r], s[r], r ? "R1" : "R0"); int c1 = !element_cmp(R[0], R[1]), c2 = !element_cmp(s[0], s[1]); CHECK(c1 == c2, "registers compare differently"); if (hp) element_pp_clear(pp); for (int r = 0; r < NR; r++) element_clear(R[r]); }
      if (ok && L + 1 < depth) { L++; w[L] = 0; } else { element_clear(s[0]); element_clear(s[1]); element_clear(SB[L + 1]); w[L] += L ? 1 : parts; }
    }
    for (int r = 0; r < NR; r++) element_clear(S[0][r]); element_clear(SB[0]);
  }
  zoo_close(&Z);
}
// pairing level: exponents as shadow
enum { PDBL, PNEG, PZERO, PADD, PLOAD, QDBL, QNEG, QZERO, QADD, QLOAD, GPAIR, GAPPLY, GPP, PPI, PROD, GMUL, GINV, GZERO, MIL, AFF, NPO };
static const char *pn[] = { "P=2P", "P=-P", "P=O", "P=P+A", "P=bytes", "Q=2Q", "Q=-Q", "Q=O", "Q=Q+B", "Q=bytes", "g=element_pairing(P,Q)", "g=pairing_apply(P,Q)", "g=pp(Q)", "pp=init(P)", "g=prod(P,Q,A,B)", "g=g*g", "g=1/g", "g=1", "option miller", "option 2" };
static void pseq(long id, long depth, long first) {
  pairing_t p; if (ps_open(p, id)) return; long r = mpz_get_ui(p->r); element_t A, B, *T = malloc(sizeof(element_t) * r); element_init_G1(A, p); element_init_G2(B, p); grp_gen(A, p->r, 1); grp_gen(B, p->r, 2); for (long i = 0; i < r; i++) { element_init_GT(T[i], p); if (!i) element_set1(T[i]); else if (i == 1) element_pairing(T[1], A, B); else element_mul(T[i], T[i - 1], T[1]); }
  int nA = pairing_length_in_bytes_G1(p), nB = pairing_length_in_bytes_G2(p); unsigned char *ba = malloc(nA), *bb = malloc(nB); element_to_bytes(ba, A); element_to_bytes(bb, B); int opt = ps_methods(id, 1) != NULL; vh_rng_reset(); int a1 = !strcmp(toys[id].type, "a1"); int w[6]; for (int i = 0; i < depth; i++) w[i] = 0; w[0] = first;
  for (;;) {
    element_t P, Q, g; element_init_G1(P, p); element_init_G2(Q, p); element_init_GT(g, p); element_set(P, A); element_set(Q, B); element_set1(g); long x = 1, y = 1, z = 0, px = -1; pairing_pp_t pp; int i, ok = 1; if (opt) pairing_option_set(p, "method", (char *) ps_methods(id, 0));
    vh_outer[0] = 0; for (i = 0; i < depth && ok; i++) { size_t n = strlen(vh_outer); snprintf(vh_outer + n, sizeof vh_outer - n, "%s%s", i ? "; " : "", pn[w[i]]); CTX("%s", ps_name(id)); STEP();
      if (a1 && w[i] >= GPAIR && w[i] <= PROD && ((x && a1_order_degenerate(r, r / gcdl(x, r))) || (y && a1_order_degenerate(r, r / gcdl(y, r))))) { ok = 0; break; }
      switch (w[i]) { case PDBL: element_double(P, P); x = 2 * x % r; break; case PNEG: element_neg(P, P); x = (r - x) % r; break; case PZERO: element_set0(P); x = 0; break; case PADD: element_add(P, P, A); x = (x + 1) % r; break; case PLOAD: element_from_bytes(P, ba); x = 1; break;
        case QDBL: element_double(Q, Q); y = 2 * y % r; break; case QNEG: element_neg(Q, Q); y = (r - y) % r; break; case QZERO: element_set0(Q); y = 0; break; case QADD: element_add(Q, Q, B); y = (y + 1) % r; break; case QLOAD: element_from_bytes(Q, bb); y = 1; break;
        case GPAIR: element_pairing(g, P, Q); z = x * y % r; break; case GAPPLY: pairing_apply(g, P, Q, p); z = x * y % r; break; case GPP: if (px < 0) { ok = 0; break; } pairing_pp_apply(g, Q, pp); z = px * y % r; break; case PPI: if (!x) { ok = 0; break; } if (px >= 0) pairing_pp_clear(pp); pairing_pp_init(pp, P, p); px = x; break;
        case PROD: { element_t u[2], v[2]; element_init_G1(u[0], p); element_init_G1(u[1], p); element_init_G2(v[0], p); element_init_G2(v[1], p); element_set(u[0], P); element_set(u[1], A); element_set(v[0], Q); element_set(v[1], B); element_prod_pairing(g, u, v, 2); for (int k = 0; k < 2; k++) { element_clear(u[k]); element_clear(v[k]); } z = (x * y + 1) % r; } break;
        case GMUL: element_mul(g, g, g); z = 2 * z % r; break; case GINV: element_invert(g, g); z = (r - z) % r; break; case GZERO: element_set1(g); z = 0; break;
        case MIL: if (!opt || px >= 0) { ok = 0; break; } pairing_option_set(p, "method", (char *) ps_methods(id, 0)); break; case AFF: if (!opt || px >= 0) { ok = 0; break; } pairing_option_set(p, "method", (char *) ps_methods(id, 1)); break; }
      if (ok && i == depth - 1) { STATE(); CHECK(!element_cmp(g, T[z]), "g is not e(A,B)^%ld", z); } else if (!ok) break; }
    if (px >= 0) pairing_pp_clear(pp); element_clear(P); element_clear(Q); element_clear(g); TRACE();
    int k = ok ? depth - 1 : i; for (int j = k + 1; j < depth; j++) w[j] = 0; while (k > 0 && ++w[k] == NPO) w[k--] = 0; if (k == 0) break;
  }
  for (long i = 0; i < r; i++) element_clear(T[i]); free(T); element_clear(A); element_clear(B); pairing_clear(p);
}
void vh_register(void) {
  zoo_init(); int big = vh_thorough; static const char *deep[] = { "F2", "F7", "Z15", "fi-p3-d0-v0", "poly-p2-d3-v0", "curve-p7-a1-b0", 0 };
  for (int i = 0; i < zoo_n; i++) { zspec *s = &zoo_list[i]; if (s->cost == 2) continue; int d = 2; for (int k = 0; deep[k]; k++) if (!strcmp(deep[k], s->name)) d = 3; if (!strncmp(s->name, "prime-L2-k1", 11)) d = 3; if (big) d = s->cost == 1 && !(s->kind & (ZK_PRIME | ZK_RING | ZK_ZR)) && i % 4 ? 2 : 3; int parts = d == 3 ? 8 : 1; for (int k = 0; k < parts; k++) vh_unit(seqs, i, d, k * 100 + parts, "%s/%d", s->name, k); }
  if (big) for (int i = 0; i < zoo_n; i++) { zspec *s = &zoo_list[i]; if (s->cost == 2) for (int k = 0; k < 4; k++) vh_unit(seqs, i, 2, k * 100 + 4, "%s/%d", s->name, k); }
  static const char *ty[] = { "a", "a1", "d", "e", "f", "g" };
  for (int t = 0; t < 6; t++) { int seen = 0; for (int i = 0; i < NTOYS; i++) if (!strcmp(toys[i].type, ty[t]) && !ps_degenerate(i) && toys[i].r >= 5) if (seen++ < (big ? 4 : 1)) for (int o = 0; o < NPO; o++) vh_unit(pseq, i, (t < 4 ? 4 : 3) + (big && t < 4), o, "pairing/%s/%s", toys[i].name, pn[o]); }
}
