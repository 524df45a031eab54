// P09: byte encodings round-trip, have the announced length, do not depend on
// how the element was computed, and are the big-endian coordinates in order.
#include "zoo.h"
static unsigned char B1[65536], B2[65536];
static int leafs; static mpz_t lf[64]; static int lb[64];
static void flat(element_ptr e) {
  int n = element_item_count(e); if (!n) { if (leafs < 64) { mpz_init(lf[leafs]); element_to_mpz(lf[leafs], e); lb[leafs] = (mpz_sizeinbase(e->field->order, 2) + 7) / 8; leafs++; } return; }
  for (int i = 0; i < n; i++) flat(element_item(e, i));
}
static void unflat(void) { for (int i = 0; i < leafs; i++) mpz_clear(lf[i]); leafs = 0; }
static int expected(unsigned char *o) { int k = 0; for (int i = 0; i < leafs; i++) { memset(o + k, 0, lb[i]); unsigned char t[512]; size_t c = 0; if (mpz_sgn(lf[i])) mpz_export(t, &c, 1, 1, 1, 0, lf[i]); memcpy(o + k + lb[i] - c, t, c); k += lb[i]; } return k; }
// encode e into a guarded buffer
static int enc(unsigned char *o, element_t e, int len) {
  unsigned char g[65536]; for (int pat = 0; pat < 2; pat++) { memset(g, pat ? 0xff : 0xA5, len + 32); int n = element_to_bytes(g + 16, e); CHECK(n == len, "to_bytes returned %d, length_in_bytes %d", n, len); for (int i = 0; i < 16; i++) CHECK(g[i] == (pat ? 0xff : 0xA5) && g[16 + len + i] == (pat ? 0xff : 0xA5), "to_bytes wrote outside its %d bytes", len); if (pat) CHECK(!memcmp(o, g + 16, len), "to_bytes leaves bytes unwritten or varies"); memcpy(o, g + 16, len); }
  return len;
}
static void unit(long id, long b_, long c_) {
  zoo Z; if (zoo_open(&Z, id, vh_thorough ? (zoo_list[id].cost ? 40 : 400) : zoo_list[id].cost == 2 ? 10 : zoo_list[id].cost ? 25 : 140)) return; vh_outerf("%s", Z.s.name);
  element_t c, d; element_init(c, Z.f); element_init(d, Z.f); int curve = (Z.s.kind & (ZK_CURVE | ZK_G1 | ZK_G2)) != 0, quot = Z.s.kind == ZK_G2;
  int pri = 3; if (pri > Z.n) pri = Z.n;
  for (int i = 0; i < Z.n; i++) {
    STATE(); CTX("element #%ld", i); element_ptr a = Z.el[i]; int len = element_length_in_bytes(a), O = curve && element_is0(a);
    CHECK(len == element_length_in_bytes(Z.el[0]), "length differs between elements"); enc(B1, a, len);
    if (!O) { flat(a); if (!element_item_count(a)) lb[0] = len; int k = expected(B2); CHECK(k == len && !memcmp(B1, B2, len), "encoding is not the big-endian coordinates: %s want %s", vh_hex(B1, len), vh_hex(B2, k)); unflat(); }
    for (int p = 0; p < pri; p++) { element_set(c, Z.el[(i + p * (Z.n / 2) + p) % Z.n]); STEP(); int n = element_from_bytes(c, B1); CHECK(n == len, "from_bytes consumed %d of %d", n, len); CHECK(!element_cmp(c, a), "decode(encode(x)) != x"); CHECK(!O == !(curve && element_is0(c)), "identity not preserved"); enc(B2, c, len); CHECK(!memcmp(B1, B2, len), "re-encoding differs"); }
    // histories leading to the same value give the same bytes
    for (int h = 0; h < 7; h++) { element_ptr b = Z.el[(i * 7 + 3) % Z.n]; if (h == 6 && (!(Z.s.kind & ZK_GROUP))) continue; STATE();
      if (h == 0) { element_add(c, a, b); element_sub(c, c, b); } else if (h == 1) { element_set(c, b); element_set(c, a); } else if (h == 2) { element_neg(c, a); element_neg(c, c); }
      else if (h == 3) { element_sub(c, b, a); element_neg(c, c); element_add(c, c, b); } else if (h == 4) { element_set1(d); element_mul(c, a, d); } else if (h == 5) { element_set0(d); element_set(c, b); element_add(c, d, a); }
      else { element_set(c, a); element_mul_mpz(d, b, Z.f->order); if (element_is0(d)) element_add(c, c, d); }
      STEP(); if (quot && h) continue; if (quot) continue;
      enc(B2, c, len); CHECK(!memcmp(B1, B2, len), "equal elements, history %d, have different encodings", h); }
    // zero reached by subtraction
    if (i < 30) { element_sub(c, a, a); element_set0(d); enc(B1, c, len); enc(B2, d, len); CHECK(!memcmp(B1, B2, len), "x-x and 0 have different encodings"); element_set(d, Z.el[Z.n - 1]); element_from_bytes(d, B1); CHECK(element_is0(d), "encoding of x-x does not decode to 0"); }
    if (!quot) for (int j = 0; j < i; j += (Z.n > 60 && !vh_thorough ? 11 : 1)) { enc(B1, a, len); enc(B2, Z.el[j], len); CHECK(memcmp(B1, B2, len), "different elements #%d #%d have the same encoding", i, j); }
    if (curve) {
      int lc = element_length_in_bytes_compressed(a), lx = element_length_in_bytes_x_only(a); CHECK(lc == len / 2 + 1 && lx == len / 2, "compressed %d and x-only %d lengths", lc, lx);
      for (int pat = 0; pat < 2; pat++) { memset(B1, pat ? 0xff : 0x5A, sizeof B1); int n = element_to_bytes_compressed(B1 + 16, a); CHECK(n == lc, "to_bytes_compressed returned %d", n); for (int q = 0; q < 16; q++) CHECK(B1[q] == (pat ? 0xff : 0x5A) && B1[16 + lc + q] == (pat ? 0xff : 0x5A), "to_bytes_compressed wrote outside"); }
      for (int p = 0; p < pri; p++) { element_set(c, Z.el[(i + p * (Z.n / 2) + p) % Z.n]); STEP(); int n = element_from_bytes_compressed(c, B1 + 16); CHECK(n == lc, "from_bytes_compressed consumed %d", n); CHECK(!element_cmp(c, a) && !O == !element_is0(c), "compressed encoding does not round-trip"); }
      element_neg(d, a); memset(B2, 0, sizeof B2); element_to_bytes_compressed(B2, d); if (element_cmp(d, a) && !O) { CHECK(memcmp(B1 + 16, B2, lc), "P and -P have the same compressed encoding"); CHECK(!memcmp(B1 + 16, B2, lx), "P and -P have different x coordinates"); }
      if (!O) for (int p = 0; p < pri; p++) { memset(B1, 0x5A, sizeof B1); int n = element_to_bytes_x_only(B1 + 16, a); CHECK(n == lx, "to_bytes_x_only returned %d", n); for (int q = 0; q < 16; q++) CHECK(B1[q] == 0x5A && B1[16 + lx + q] == 0x5A, "x_only wrote outside"); element_set(c, Z.el[(i + p * (Z.n / 2) + p) % Z.n]); STEP(); n = element_from_bytes_x_only(c, B1 + 16); CHECK(n == lx, "from_bytes_x_only consumed %d", n); CHECK(!element_cmp(c, a) || !element_cmp(c, d), "x-only encoding yields neither P nor -P"); CHECK(el_on_curve(c), "x-only decoded off the curve"); }
    }
  }
  if (Z.haspr) { int len = element_length_in_bytes(Z.el[0]); pairing_ptr pr = Z.pr; CTX("announced lengths"); STEP();
    if (Z.s.kind == ZK_G1) { CHECK(pairing_length_in_bytes_G1(pr) == len, "pairing_length_in_bytes_G1"); CHECK(pairing_length_in_bytes_compressed_G1(pr) == element_length_in_bytes_compressed(Z.el[0]), "pairing_length_in_bytes_compressed_G1"); CHECK(pairing_length_in_bytes_x_only_G1(pr) == element_length_in_bytes_x_only(Z.el[0]), "pairing_length_in_bytes_x_only_G1"); }
    if (Z.s.kind == ZK_G2) { CHECK(pairing_length_in_bytes_G2(pr) == len, "pairing_length_in_bytes_G2"); CHECK(pairing_length_in_bytes_compressed_G2(pr) == element_length_in_bytes_compressed(Z.el[0]), "pairing_length_in_bytes_compressed_G2"); CHECK(pairing_length_in_bytes_x_only_G2(pr) == element_length_in_bytes_x_only(Z.el[0]), "pairing_length_in_bytes_x_only_G2"); }
    if (Z.s.kind == ZK_GT) CHECK(pairing_length_in_bytes_GT(pr) == len, "pairing_length_in_bytes_GT"); if (Z.s.kind == ZK_ZR) CHECK(pairing_length_in_bytes_Zr(pr) == len, "pairing_length_in_bytes_Zr"); }
  // streams: consecutive elements written back to back are read back in order
  int off = 0, m = Z.n < 5 ? Z.n : 5; if (m * element_length_in_bytes(Z.el[0]) < 8000) { for (int i = 0; i < m; i++) off += element_to_bytes(B1 + off, Z.el[(i * 3) % Z.n]); off = 0; for (int i = 0; i < m; i++) { off += element_from_bytes(c, B1 + off); CHECK(!element_cmp(c, Z.el[(i * 3) % Z.n]), "element %d of a stream", i); } }
  vh_sample("%s: %d elements%s", Z.s.name, Z.n, Z.whole ? " (all)" : ""); element_clear(c); element_clear(d); zoo_close(&Z);
}
void vh_register(void) {
  zoo_huge = 1; zoo_init();
  for (int i = zoo_n - 1; i >= 0; i--) { if (strstr(zoo_list[i].name, "i.param") == zoo_list[i].name && zoo_list[i].kind != ZK_ZR) continue; vh_unit(unit, i, 0, 0, "%s", zoo_list[i].name); }
}
