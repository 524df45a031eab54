// P20: life cycles.  Everything allocated is released, nothing is touched
// outside its memory: every operation of every structure on representative
// operands, every pairing and precomputation life cycle, every generator.
#include "mem.h"
#include "zoo.h"
#define SAN (MEM_TAIL == 0) // the run under AddressSanitizer uses fewer operands
static int isI(const char *n) { return !strncmp(n, "i.", 2); }
enum { O_SET0, O_SET1, O_SETSI, O_SETMPZ, O_SET, O_ADD, O_SUB, O_MUL, O_DIV, O_DOUB, O_HALVE, O_SQ, O_NEG, O_INV, O_ISSQR, O_SQRT, O_CMP, O_IS0, O_IS1, O_SGN, O_TOMPZ, O_TOSI, O_RANDOM, O_HASH, O_BYTES, O_BADBYTES, O_COMP, O_XONLY, O_SNPRINT, O_OUTSTR, O_SETSTR, O_BADSTR, O_MULMPZ, O_MULSI, O_MULZN, O_POWMPZ, O_POWZN, O_POW2, O_POW3, O_PP, O_ADDUI, O_CUBIC, O_MDOUB, O_MADD, O_INFO, O_ITEM, NO };
static const char *on[] = { "set0", "set1", "set_si", "set_mpz", "set", "add", "sub", "mul", "div", "double", "halve", "square", "neg", "invert", "is_sqr", "sqrt", "cmp", "is0", "is1", "sgn", "to_mpz", "to_si", "random", "from_hash", "bytes", "bad bytes", "compressed", "x only", "snprint", "out_str", "set_str", "bad string", "mul_mpz", "mul_si", "mul_zn", "pow_mpz", "pow_zn", "pow2", "pow3", "pp", "add_ui", "cubic", "multi_double", "multi_add", "out_info", "item" };
static int iscurve(zoo *Z) { return Z->s.kind & (ZK_CURVE | ZK_G1 | ZK_G2); }
// one operation: c = a op b, with exactly sized buffers
static void doop(zoo *Z, int o, element_t c, element_t a, element_t b, field_ptr Zr, int v) {
  int k = Z->s.kind, I = isI(Z->s.name); mpz_t z; mpz_init(z); unsigned char *buf; int n; element_t t;
  switch (o) {
    case O_SET0: element_set0(c); break; case O_SET1: element_set1(c); break; case O_SETSI: if (!(k & ZK_GROUP)) element_set_si(c, v ? -3 : 12345678901L); break; case O_SETMPZ: if (!(k & ZK_GROUP)) { mpz_setbit(z, 600); if (v) mpz_neg(z, z); element_set_mpz(c, z); } break;
    case O_SET: element_set(c, a); break; case O_ADD: if (k == ZK_GT) break; element_add(c, a, b); break; case O_SUB: if (k == ZK_GT) break; element_sub(c, a, b); break; case O_MUL: element_mul(c, a, b); break; case O_DIV: if (!(k & ZK_RING) && (k & ZK_GROUP || !element_is0(b))) element_div(c, a, b); break; case O_DOUB: if (k == ZK_GT) break; element_double(c, a); break; case O_HALVE: if (k & (ZK_PRIME | ZK_TOWER) && Z->s.b != 2 && Z->s.a != 2) element_halve(c, a); break; case O_SQ: element_square(c, a); break; case O_NEG: if (k == ZK_GT) break; element_neg(c, a); break; case O_INV: if (!(k & ZK_RING) && (k & ZK_GROUP || !element_is0(a))) element_invert(c, a); break;
    case O_ISSQR: if (k & (ZK_PRIME | ZK_TOWER | ZK_ZR) && mpz_odd_p(Z->f->order)) element_is_sqr(a); break; case O_SQRT: if (k & (ZK_PRIME | ZK_TOWER | ZK_ZR) && mpz_odd_p(Z->f->order) && element_is_sqr(a)) element_sqrt(c, a); break;
    case O_CMP: element_cmp(a, b); break; case O_IS0: element_is0(a); break; case O_IS1: element_is1(a); break; case O_SGN: if (k & (ZK_GT)) break; if (I) break; if (iscurve(Z)) break; element_sign(a); break; case O_TOMPZ: if (k & ZK_GROUP) break; element_to_mpz(z, a); break; case O_TOSI: if (k & ZK_GROUP) break; element_to_si(a); break;
    case O_RANDOM: vh_rng_reset(); vh_rng_seed(v); element_random(c); break;
    case O_HASH: if (I || (k & ZK_CURVE && Z->nrp < 9)) break; if (k & (ZK_G1 | ZK_G2) && Z->s.cost < 2) break; { unsigned char h[40]; memset(h, v + 1, 40); element_from_hash(c, h, v ? 33 : 3); } break;
    case O_BYTES: if (I) break; n = element_length_in_bytes(a); buf = malloc(n); element_to_bytes(buf, a); element_from_bytes(c, buf); free(buf); break;
    case O_BADBYTES: if (I) break; n = element_length_in_bytes(a); buf = malloc(n); memset(buf, v ? 255 : 1, n); element_from_bytes(c, buf); free(buf); break;
    case O_COMP: if (!iscurve(Z) || I || (k == ZK_CURVE)) break; if (k == ZK_CURVE && element_is0(a)) break; n = element_length_in_bytes_compressed(a); buf = malloc(n); element_to_bytes_compressed(buf, a); element_from_bytes_compressed(c, buf); memset(buf, v ? 255 : 1, n); element_from_bytes_compressed(c, buf); free(buf); break;
    case O_XONLY: if (!iscurve(Z) || I) break; if (element_is0(a)) break; n = element_length_in_bytes_x_only(a); buf = malloc(n); element_to_bytes_x_only(buf, a); element_from_bytes_x_only(c, buf); memset(buf, v ? 255 : 1, n); element_from_bytes_x_only(c, buf); free(buf); break;
    case O_SNPRINT: if (I) break; n = element_snprint(NULL, 0, a); for (int s = 0; s <= n + 1; s += s < 3 ? 1 : n / 3 + 1) { char *q = malloc(s + 1); element_snprint(q, s, a); free(q); } break;
    case O_OUTSTR: { char *q; size_t qn; FILE *f = open_memstream(&q, &qn); element_out_str(f, v ? 16 : 10, a); fclose(f); free(q); } break;
    case O_SETSTR: if (I) break; n = element_snprint(NULL, 0, a); { char *q = malloc(n + 1); element_snprint(q, n + 1, a); element_set_str(c, q, 10); free(q); } break;
    case O_BADSTR: if (I) break; { static const char *bad[] = { "", "[", "[1", "[1,", "[[1,2],", "O", "x", "[1,2", "[1,2]", "[[1,2],[3,4]]", "[[1,2,3],[4,5,6]]", "999999999999999999999999999999999999", NULL }; for (int i = 0; bad[i]; i++) { char *q = strdup(bad[i]); element_set_str(c, q, 10); free(q); } } break;
    case O_MULMPZ: if (k == ZK_GT) break; mpz_set_si(z, v ? -77 : 1234567); element_mul_mpz(c, a, z); break; case O_MULSI: if (k == ZK_GT) break; element_mul_si(c, a, v ? -5 : 7); break; case O_MULZN: if (k == ZK_GT || !Zr) break; element_init(t, Zr); element_set_si(t, 5 + v); element_mul_zn(c, a, t); element_clear(t); break;
    case O_POWMPZ: mpz_set_ui(z, v ? 0 : 1); if (!v) { mpz_setbit(z, 90); mpz_setbit(z, 33); } element_pow_mpz(c, a, z); break; case O_POWZN: if (!Zr) break; element_init(t, Zr); element_set_si(t, 3 + v); element_pow_zn(c, a, t); element_clear(t); break;
    case O_POW2: { mpz_t y; mpz_init_set_ui(y, v ? 0 : 1000003); mpz_set_ui(z, 77); element_pow2_mpz(c, a, z, b, y); mpz_clear(y); } break; case O_POW3: { mpz_t y, w; mpz_init_set_ui(y, v ? 0 : 1000003); mpz_init_set_ui(w, 5); mpz_set_ui(z, 77); element_pow3_mpz(c, a, z, b, y, a, w); mpz_clear(y); mpz_clear(w); } break;
    case O_PP: { element_pp_t p; element_pp_init(p, a); mpz_set_ui(z, v ? 0 : 5); element_pp_pow(c, z, p); if (Zr) { element_init(t, Zr); element_set_si(t, 2); element_pp_pow_zn(c, t, p); element_clear(t); } element_pp_clear(p); } break;
    case O_ADDUI: if (k & ZK_GROUP) break; element_add_ui(c, a, 9); break; case O_CUBIC: if (k & ZK_GROUP) break; if (Z->f->cubic && I) element_cubic(c, a); break;
    case O_MDOUB: case O_MADD: if (!(k & (ZK_CURVE | ZK_G1 | ZK_G2)) || I) break; { element_t x[3], y[3], w[3]; for (int i = 0; i < 3; i++) { element_init(x[i], Z->f); element_init(y[i], Z->f); element_init(w[i], Z->f); element_set(x[i], i & 1 ? b : a); element_set(y[i], i & 2 ? a : b); } if (o == O_MDOUB) element_multi_double(w, x, 3); else element_multi_add(w, x, y, 3); for (int i = 0; i < 3; i++) { element_clear(x[i]); element_clear(y[i]); element_clear(w[i]); } } break;
    case O_INFO: { char *q; size_t qn; FILE *f = open_memstream(&q, &qn); field_out_info(f, Z->f); fclose(f); free(q); } break;
    case O_ITEM: n = element_item_count(a); for (int i = 0; i < n; i++) element_is0(element_item(a, i)); break;
  }
  mpz_clear(z);
}
static void ops(long id, long b_, long c_) {
  zoo Z; if (zoo_open(&Z, id, vh_thorough ? 10 : SAN ? 3 : 5)) return; vh_outerf("%s", Z.s.name); field_t own; field_ptr Zr; int ownz = 0; if (Z.haspr) Zr = Z.pr->Zr; else { mpz_t r; mpz_init_set_ui(r, 101); field_init_fp(own, r); Zr = own; ownz = 1; mpz_clear(r); }
  int most = SAN ? (vh_thorough ? 4 : Z.s.cost == 2 ? 2 : 3) : vh_thorough ? 12 : 6, step = Z.n > most ? Z.n / most : 1;
  for (int pass = 0; pass < 2; pass++) for (int o = 0; o < NO; o++) for (int i = 0; i < Z.n; i += step) for (int j = 0; j < Z.n; j += step) { int bin = o == O_ADD || o == O_SUB || o == O_MUL || o == O_DIV || o == O_CMP || o == O_POW2 || o == O_POW3 || o == O_MADD; if (!bin && j) break; for (int v = 0; v < 2; v++) for (int al = 0; al < 2; al++) {
      if (SAN && v != al) continue; if (!pass && (i || v || al)) continue; // first pass: caches such as the nonresidue
      CTX("%s, operands %ld %ld, variant %ld, aliasing %ld", on[o], i, j, v, al); STATE(); STEP(); long l0 = mem_live(); element_t a, b, c; element_init(a, Z.f); element_init(b, Z.f); element_init(c, Z.f); element_set(a, Z.el[i]); element_set(b, Z.el[j]); element_set(c, Z.el[Z.n / 2]);
      doop(&Z, o, al ? a : c, a, b, Zr, v); element_clear(a); element_clear(b); element_clear(c); if (pass) CHECK(mem_live() == l0, "%ld blocks left behind", mem_live() - l0); CHECK(!mem_bad, "%s", mem_why); mem_bad = 0; } }
  if (ownz) field_clear(own); zoo_close(&Z); mem_verify("operations");
}
// pairing life cycles
static void opts(pairing_t p, int id, int m) { const char *s = ps_methods(id, m); if (s) pairing_option_set(p, "method", (char *) s); }
static void cycle(long id, long b_, long c_) {
  char *txt = ps_text(id); int I = id >= NTOYS && !strcmp(ps_type(id), "i"); vh_outerf("%s", ps_name(id)); int heavy = id >= NTOYS; int tiny = id < NTOYS && toys[id].r < 5; (void) tiny;
  for (int pass = 0; pass < 2; pass++) for (int m = -1; m < 3; m++) for (int w = 0; w < 9; w++) { if (m >= 0 && !ps_methods(id, m)) continue; if (!pass && (m >= 0 || w)) continue; if (m >= 0 && w < 1) continue; if (SAN && heavy && !vh_thorough && m >= 0 && w != 4) continue; CTX("option %ld, cycle %ld", m, w); STATE(); vh_rng_reset(); vh_rng_seed(3 + w); long l0 = mem_live(); pairing_t p; if (pairing_init_set_str(p, txt)) { vh_fail("parameters rejected"); break; } opts(p, id, m); STEP();
    element_t a, b, g, g2, z; element_init_G1(a, p); element_init_G2(b, p); element_init_GT(g, p); element_init_GT(g2, p); element_init_Zr(z, p); if (w) { grp_gen(a, p->r, 1); grp_gen(b, p->r, 2); }
    switch (w) { case 1: element_pairing(g, a, b); break; case 2: pairing_apply(g, a, b, p); break; case 3: { pairing_pp_t pp; pairing_pp_init(pp, a, p); pairing_pp_clear(pp); } break; case 4: { pairing_pp_t pp; pairing_pp_init(pp, a, p); pairing_pp_apply(g, b, pp); pairing_pp_apply(g2, b, pp); CHECK(!element_cmp(g, g2), "precomputed pairing differs"); element_pairing(g2, a, b); CHECK(!element_cmp(g, g2), "precomputed pairing differs"); pairing_pp_clear(pp); } break;
      case 5: if (!I) for (int n = 1; n <= 4; n++) { element_t x[4], y[4]; for (int i = 0; i < n; i++) { element_init_G1(x[i], p); element_init_G2(y[i], p); element_set(x[i], a); element_set(y[i], b); if (n == 3 && i == 1) element_set0(x[i]); } element_prod_pairing(g, x, y, n); for (int i = 0; i < n; i++) { element_clear(x[i]); element_clear(y[i]); } } break;
      case 6: element_set0(a); element_pairing(g, a, b); CHECK(element_is1(g), "e(O, Q)"); if (!I || 1) { grp_gen(a, p->r, 1); element_set0(b); element_pairing(g, a, b); CHECK(element_is1(g), "e(P, O)"); } break;
      case 7: if (!I && p->is_almost_coddh) { element_t c, d; element_init_G1(c, p); element_init_G2(d, p); element_double(c, a); element_double(d, b); is_almost_coddh(a, c, b, d, p); element_clear(c); element_clear(d); } break;
      case 8: if (!I) { element_pp_t pp; element_pp_init(pp, a); element_random(z); element_pp_pow_zn(a, z, pp); element_pp_clear(pp); element_random(g); element_pp_init(pp, g); element_pp_pow_zn(g2, z, pp); element_pp_clear(pp); } break; }
    element_clear(a); element_clear(b); element_clear(g); element_clear(g2); element_clear(z); pairing_clear(p); if (pass) CHECK(mem_live() == l0, "%ld blocks left behind", mem_live() - l0); CHECK(!mem_bad, "%s", mem_why); mem_bad = 0; if (heavy && !vh_thorough && m >= 0 && w > 4) break; }
  free(txt); mem_verify("pairing");
}
// parameters: init, print, clear; pairing from them; every one-line omission
static void params(long id, long b_, long c_) {
  char *txt = ps_text(id); vh_outerf("%s", ps_name(id));
  for (int pass = 0; pass < 2; pass++) { long l0 = mem_live(); CTX("pass %ld", pass); pbc_param_t q; vh_rng_reset(); vh_rng_seed(5); if (!pbc_param_init_set_str(q, txt)) { char *s; size_t n; FILE *f = open_memstream(&s, &n); pbc_param_out_str(f, q); fclose(f); free(s); pairing_t p; pairing_init_pbc_param(p, q); pbc_param_clear(q); element_t a; element_init_G1(a, p); element_random(a); element_clear(a); pairing_clear(p); } else vh_fail("rejected"); STATE(); STEP(); if (pass) CHECK(mem_live() == l0, "%ld blocks left behind", mem_live() - l0); }
  char *l = txt; int ln = 0; pbc_set_msg_to_stderr(0); while (*l) { char *e = strchr(l, '\n'); if (!e) break; char *t = malloc(strlen(txt) + 1); memcpy(t, txt, l - txt); strcpy(t + (l - txt), e + 1); CTX("without line %ld", ln); long l0 = mem_live(); pairing_t p; vh_rng_reset(); vh_rng_seed(5); STATE(); STEP(); if (!pairing_init_set_str(p, t)) pairing_clear(p); CHECK(mem_live() == l0, "%ld blocks left behind", mem_live() - l0); free(t); l = e + 1; ln++; }
  free(txt); mem_verify("parameters");
}
// generators
#include "pbc_d_param.h"
#include "pbc_g_param.h"
static int cmcb(pbc_cm_t cm, void *d) { void **v = d; if (v[1]) pbc_param_init_g_gen(v[0], cm); else pbc_param_init_d_gen(v[0], cm); return 1; }
static void gens(long kind, long arg, long pairing) {
  CTX("generator %ld, argument %ld", kind, arg);
  for (int pass = 0; pass < 2; pass++) { long l0 = mem_live(); vh_rng_reset(); vh_rng_seed(arg); pbc_param_t q; int made = 1; mpz_t n; mpz_init_set_ui(n, 15 + arg); STATE(); STEP();
    switch (kind) { case 0: pbc_param_init_a_gen(q, arg, 2 * arg + 20); break; case 1: pbc_param_init_a1_gen(q, n); break; case 2: pbc_param_init_e_gen(q, arg, 2 * arg + 30); break; case 3: pbc_param_init_f_gen(q, arg); break; case 4: pbc_param_init_i_gen(q, arg); break; case 5: case 6: { void *v[2] = { q, (void *) (kind - 5) }; made = kind == 5 ? pbc_cm_search_d(cmcb, v, arg, 300) : pbc_cm_search_g(cmcb, v, arg, 500); } break; }
    mpz_clear(n); if (made) { if (pairing) { pairing_t p; pairing_init_pbc_param(p, q); element_t a, b, g; element_init_G1(a, p); element_init_G2(b, p); element_init_GT(g, p); element_random(a); element_random(b); element_pairing(g, a, b); element_clear(a); element_clear(b); element_clear(g); pairing_clear(p); } pbc_param_clear(q); }
    if (pass) CHECK(mem_live() == l0, "%ld blocks left behind", mem_live() - l0); }
  mem_verify("generator");
}
void vh_register(void) {
  zoo_init(); for (int i = 0; i < zoo_n; i++) { zspec *s = &zoo_list[i]; if (SAN && !vh_thorough && s->cost == 2 && (s->kind == ZK_ZR || (s->name[0] == 'd' && strncmp(s->name, "d159", 4)))) continue; if (SAN && !vh_thorough && s->cost < 2 && i % 2 && !(s->kind & (ZK_PRIME | ZK_TOWER | ZK_CURVE))) continue; if (!vh_thorough && s->cost == 1 && s->kind & (ZK_PRIME | ZK_ZR) && i % 3) continue; vh_unit(ops, i, 0, 0, "ops/%s", s->name); }
  static const char *ty[] = { "a", "a1", "d", "e", "f", "g" };
  for (int t = 0; t < 6; t++) { int seen = 0; for (int i = 0; i < NTOYS; i++) if (!strcmp(toys[i].type, ty[t]) && !ps_degenerate(i) && toys[i].r >= 5) { if (seen++ < (vh_thorough ? (SAN ? 6 : 20) : SAN ? 1 : 4)) { vh_unit(cycle, i, 0, 0, "cycle/%s", toys[i].name); vh_unit(params, i, 0, 0, "params/%s", toys[i].name); } } }
  for (int i = NTOYS; i < NTOYS + NREAL; i++) { if (SAN && !vh_thorough && ps_name(i)[0] == 'd' && strcmp(ps_name(i), "d159")) continue; vh_unit(cycle, i, 0, 0, "cycle/%s", ps_name(i)); vh_unit(params, i, 0, 0, "params/%s", ps_name(i)); }
  static const int aa[] = { 20, 40, 80, 0 }, ff[] = { 40, 64, 100, 0 }, ii[] = { 100, 150, 250, 0 }, dd[] = { 9563, 31387, 17, 0 }, gg[] = { 35707, 4543, 0 };
  for (int i = 0; aa[i]; i++) { vh_unit(gens, 0, aa[i], 1, "gen/a%d", aa[i]); vh_unit(gens, 2, aa[i], 1, "gen/e%d", aa[i]); vh_unit(gens, 1, i * 20, i != 0 || 1, "gen/a1-%d", i * 20); }
  for (int i = 0; ff[i]; i++) vh_unit(gens, 3, ff[i], 1, "gen/f%d", ff[i]); for (int i = 0; ii[i]; i++) vh_unit(gens, 4, ii[i], 1, "gen/i%d", ii[i]);
  for (int i = 0; dd[i]; i++) vh_unit(gens, 5, dd[i], 1, "gen/d%d", dd[i]); for (int i = 0; gg[i]; i++) vh_unit(gens, 6, gg[i], 1, "gen/g%d", gg[i]);
}
