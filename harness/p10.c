// P10: decoding arbitrary bytes always yields a valid member, consumes exactly
// the announced length, and means the same thing as reduced coordinates.
#include "zoo.h"
static unsigned char B2[65536];
static int leafs; static mpz_t lf[64], lo[64]; static int lb[64];
static void flat(element_ptr e) {
  int n = element_item_count(e); if (!n) { if (leafs < 64) { mpz_init(lf[leafs]); mpz_init_set(lo[leafs], e->field->order); element_to_mpz(lf[leafs], e); lb[leafs] = (mpz_sizeinbase(e->field->order, 2) + 7) / 8; leafs++; } return; }
  for (int i = 0; i < n; i++) flat(element_item(e, i));
}
static void unflat(void) { for (int i = 0; i < leafs; i++) { mpz_clear(lf[i]); mpz_clear(lo[i]); } leafs = 0; }
static zoo Z; static element_t c, d, ref; static int len, curve; static mpz_t gtp;
// base-field element from raw bytes by exact integer reduction, coordinate by coordinate
static int put_raw(element_ptr e, const unsigned char *b) {
  int n = element_item_count(e); if (n) { int k = 0; for (int i = 0; i < n; i++) k += put_raw(element_item(e, i), b + k); return k; }
  mpz_t z; mpz_init(z); int L = element_length_in_bytes(e); mpz_import(z, L, 1, 1, 1, 0, b); element_set_mpz(e, z); mpz_clear(z); return L;
}
static int reduced(element_ptr e) { int ok = 1, n = element_item_count(e); if (n) { for (int i = 0; i < n; i++) ok &= reduced(element_item(e, i)); return ok; } mpz_t z; mpz_init(z); element_to_mpz(z, e); int gt = !mpz_cmp(e->field->order, Z.f->order) && Z.s.kind == ZK_GT; ok = mpz_sgn(z) >= 0 && (gt ? mpz_sizeinbase(z, 2) <= 8UL * element_length_in_bytes(e) : mpz_cmp(z, e->field->order) < 0); mpz_clear(z); return ok; }
static void same_coords(element_ptr a, element_ptr b, const char *what) { CHECK(!element_cmp(a, b), "%s", what); }
static void feed(const unsigned char *raw, int prior) {
  STATE(); unsigned char B[len + 32]; memset(B, 0xEE, sizeof B); memcpy(B, raw, len);
  element_set(c, Z.el[prior % Z.n]); int n = element_from_bytes(c, B); STEP(); CHECK(n == len, "from_bytes consumed %d of %d", n, len);
  if (curve) {
    element_ptr bx = curve_a_coeff(c); element_t x, y, t; element_init_same_as(x, bx); element_init_same_as(y, bx); element_init_same_as(t, bx);
    int h = put_raw(x, B); put_raw(y, B + h); element_mul(t, x, x); element_add(t, t, curve_a_coeff(c)); element_mul(t, t, x); element_add(t, t, curve_b_coeff(c)); element_t u; element_init_same_as(u, bx); element_mul(u, y, y); int on = !element_cmp(t, u);
    CHECK(el_on_curve(c), "decoded point is not on the curve: %s", vh_hex(B, len)); CHECK(!element_is0(c) == on, "decoded identity=%d for a pair of coordinates %s the curve", element_is0(c), on ? "on" : "off");
    if (on && !element_is0(c)) { same_coords(element_item(c, 0), x, "decoded x differs"); same_coords(element_item(c, 1), y, "decoded y differs"); CHECK(reduced(c), "unreduced coordinate"); }
    element_clear(x); element_clear(y); element_clear(t); element_clear(u);
  } else {
    CHECK(reduced(c), "unreduced coordinate from %s", vh_hex(B, len));
    if (Z.s.kind != ZK_GT) { put_raw(ref, B); CHECK(!element_cmp(ref, c), "decoded value is not the coordinates reduced: %s", vh_hex(B, len)); }
  }
  // what was decoded is a normal value: it re-encodes canonically and takes part in arithmetic
  int m = element_to_bytes(B2, c); CHECK(m == len, "re-encoding length"); element_set(d, Z.el[(prior + 1) % Z.n]); element_from_bytes(d, B2); CHECK(!element_cmp(c, d), "decode(encode(decode(b))) differs");
  element_t e; element_init(e, Z.f); if (Z.s.kind != ZK_GT) { element_add(e, c, Z.el[1 % Z.n]); element_sub(e, e, Z.el[1 % Z.n]); CHECK(!element_cmp(e, c), "decoded element does not behave"); element_sub(e, c, d); CHECK(element_is0(e), "decoded element minus itself"); }
  element_clear(e);
}
static void feed_c(const unsigned char *raw, int flag, int prior) { // compressed and x-only
  STATE(); int lx = len / 2; unsigned char B[lx + 40]; memset(B, 0xEE, sizeof B); memcpy(B, raw, lx); B[lx] = flag;
  element_ptr bx = curve_a_coeff(c); element_t x, t, u; element_init_same_as(x, bx); element_init_same_as(t, bx); element_init_same_as(u, bx);
  put_raw(x, B); element_mul(t, x, x); element_add(t, t, curve_a_coeff(c)); element_mul(t, t, x); element_add(t, t, curve_b_coeff(c)); vh_rng_reset(); vh_rng_seed(5); int sq = element_is_sqr(t);
  element_set(c, Z.el[prior % Z.n]); int n = element_from_bytes_compressed(c, B); STEP(); CHECK(n == lx + 1, "from_bytes_compressed consumed %d", n); CHECK(el_on_curve(c), "compressed decoding left the curve: %s", vh_hex(B, lx + 1));
  if (!sq) CHECK(element_is0(c), "no point has this x coordinate but decoding gave one");
  if (sq && flag < 2) { CHECK(!element_is0(c), "decoding lost the point"); if (!element_is0(c)) { CHECK(!element_cmp(element_item(c, 0), x), "x differs"); int s = element_sign(element_item(c, 1)); CHECK(flag ? s >= 0 : s <= 0, "sign flag %d gave sign %d", flag, s); } }
  element_set(c, Z.el[prior % Z.n]); n = element_from_bytes_x_only(c, B); STEP(); CHECK(n == lx, "from_bytes_x_only consumed %d", n); CHECK(el_on_curve(c), "x-only decoding left the curve: %s", vh_hex(B, lx)); CHECK(!element_is0(c) == !!sq, "x-only decoding");
  if (sq && !element_is0(c)) CHECK(!element_cmp(element_item(c, 0), x), "x differs");
  element_clear(x); element_clear(t); element_clear(u);
}
static void unit(long id, long b_, long c_) {
  if (zoo_open(&Z, id, vh_thorough ? 30 : zoo_list[id].cost ? 8 : 30)) return; vh_outerf("%s", Z.s.name);
  element_init(c, Z.f); element_init(d, Z.f); element_init(ref, Z.f); curve = (Z.s.kind & (ZK_CURVE | ZK_G1 | ZK_G2)) != 0; len = element_length_in_bytes(c); unsigned char raw[65536];
  // layout of leaf coordinates
  element_t lay; element_init(lay, Z.f); element_set(lay, Z.el[Z.n - 1]); if (curve && element_is0(lay)) element_set(lay, Z.el[1 % Z.n]); flat(lay); int nl = leafs; int L[64]; mpz_t O[64]; for (int i = 0; i < nl; i++) { L[i] = lb[i]; mpz_init_set(O[i], lo[i]); if (Z.s.kind == ZK_GT && nl == 1) L[i] = len; } unflat(); element_clear(lay);
  long full = 1; for (int i = 0; i < len && full < 100000; i++) full *= 256;
  if (full <= 65536) { // every byte string
    for (long v = 0; v < full; v++) { CTX("bytes %ld", v); long w = v; for (int i = 0; i < len; i++) { raw[len - 1 - i] = w; w >>= 8; } feed(raw, v); }
    vh_sample("%s: all %ld byte strings", Z.s.name, full);
  } else { // all words over a boundary alphabet of coordinate values
    int na = 10; mpz_t t; mpz_init(t); long tot = 1; int use = na; for (int i = 0; i < nl; i++) tot *= na; while (tot > (vh_thorough ? 60000 : Z.s.cost == 2 ? 300 : 2500)) { use--; if (use < 2) break; tot = 1; for (int i = 0; i < nl; i++) { tot *= use; if (tot > 10000000) break; } }
    if (use < 2) { use = 2; } long cap = vh_thorough ? 60000 : Z.s.cost == 2 ? 300 : 2500; long tt = 1; for (int i = 0; i < nl; i++) { tt *= use; if (tt > 1000000) break; } long stride = tt > cap ? tt / cap | 1 : 1;
    for (long v = 0; v < tt; v += stride) { CTX("coordinate word %ld over %ld values", v, use); long w = v; int k = 0; for (int i = 0; i < nl; i++) { int a = w % use; w /= use; static const int order[] = { 0, 3, 2, 1, 4, 5, 6, 7, 8, 9 };
        switch (order[a]) { case 0: mpz_set_ui(t, 0); break; case 1: mpz_set_ui(t, 1); break; case 2: mpz_set(t, O[i]); break; case 3: mpz_set_ui(t, 0); mpz_setbit(t, 8 * L[i]); mpz_sub_ui(t, t, 1); break; case 4: mpz_sub_ui(t, O[i], 1); break; case 5: mpz_add_ui(t, O[i], 1); break; case 6: mpz_mul_ui(t, O[i], 2); break; case 7: mpz_set_ui(t, 0); mpz_setbit(t, 8 * L[i] - 1); break; case 8: mpz_fdiv_q_2exp(t, O[i], 1); break; default: mpz_set_ui(t, 7); }
        mpz_fdiv_r_2exp(t, t, 8 * L[i]); memset(raw + k, 0, L[i]); size_t cnt = (mpz_sizeinbase(t, 2) + 7) / 8; if (mpz_sgn(t)) mpz_export(raw + k + L[i] - cnt, NULL, 1, 1, 1, 0, t); k += L[i]; }
      feed(raw, v); }
    // every single-bit corruption of valid encodings
    int ne = vh_thorough ? Z.n : Z.s.cost == 2 ? 2 : 3; for (int e = 0; e < ne && e < Z.n; e++) { element_to_bytes(raw, Z.el[(e + 1) % Z.n]); int step = !vh_thorough && len > 60 ? 7 : 1; for (int b = 0; b < 8 * len; b += step) { CTX("element #%ld with bit %ld flipped", e, b); raw[b / 8] ^= 1 << (b % 8); feed(raw, e); raw[b / 8] ^= 1 << (b % 8); } }
    vh_sample("%s: %ld coordinate words, bit flips", Z.s.name, tt / stride); mpz_clear(t);
  }
  if (curve) {
    long fx = 1; for (int i = 0; i < len / 2 && fx < 100000; i++) fx *= 256;
    if (fx <= 65536) for (long v = 0; v < fx; v += (fx > 256 && !vh_thorough ? 5 : 1)) for (int fl = 0; fl < 3; fl++) { CTX("x bytes %ld flag %ld", v, fl); long w = v; for (int i = 0; i < len / 2; i++) { raw[len / 2 - 1 - i] = w; w >>= 8; } feed_c(raw, fl == 2 ? 2 + v % 254 : fl, v); }
    else for (int e = 0; e < (vh_thorough ? 60 : Z.s.cost == 2 ? (len > 100 ? 6 : 12) : 30); e++) { memset(raw, 0, len); if (e == 1) memset(raw, 0xff, len); else if (e == 2) raw[len / 2 - 1] = 1; else if (e > 2) { element_to_bytes(raw, Z.el[e % Z.n]); raw[len / 2 - 1] += e / 3; raw[0] ^= e & 1 ? 0x80 : 0; } for (int fl = 0; fl < 4; fl++) { CTX("x word %ld flag %ld", e, fl); feed_c(raw, fl == 3 ? 255 : fl, e); } }
  }
  for (int i = 0; i < nl; i++) mpz_clear(O[i]); element_clear(c); element_clear(d); element_clear(ref); zoo_close(&Z);
}
void vh_register(void) {
  zoo_huge = 1; zoo_init();
  for (int i = zoo_n - 1; i >= 0; i--) { if (strstr(zoo_list[i].name, "i.param") == zoo_list[i].name && zoo_list[i].kind != ZK_ZR) continue; if (!vh_thorough && zoo_list[i].cost == 1 && zoo_list[i].e > 2 && (zoo_list[i].kind & (ZK_GROUP | ZK_ZR))) continue; vh_unit(unit, i, 0, 0, "%s", zoo_list[i].name); }
}
