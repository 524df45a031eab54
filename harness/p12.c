// P12: hashing bytes to an element is a fixed function of the bytes and the
// structure, into the structure, whatever happened before.
#include "zoo.h"
#include "fpmod.h"
static zoo Z; static element_t c, d, e, ref; static int curve, nmsg, skipped, distinct; static mpz_t cof, fin, gtq; static int havecof;
// expected integer for a residue ring of the given order
static void model_z(mpz_t z, mpz_t limit, const unsigned char *m, int len) {
  int count = (mpz_sizeinbase(limit, 2) + 7) / 8; unsigned char b[count]; int i = 0, ctr = 0;
  while (i < count) { for (int k = 0; k < len && i < count; k++) b[i++] = m[k]; if (i < count) b[i++] = ctr++; }
  mpz_import(z, count, 1, 1, 1, 0, b); while (mpz_cmp(z, limit) > 0) mpz_fdiv_q_2exp(z, z, 1); if (!mpz_cmp(z, limit)) mpz_set_ui(z, 0);
}
static void model_put(element_ptr a, const unsigned char *m, int len) {
  int n = element_item_count(a);
  if (!n) { mpz_t z; mpz_init(z); model_z(z, Z.s.kind == ZK_GT && a->field == Z.f ? gtq : a->field->order, m, len); if (Z.s.kind == ZK_GT && a->field == Z.f) { int L = element_length_in_bytes(a); unsigned char b[L]; pbc_mpz_out_raw_n(b, L, z); element_from_bytes(a, b); } else element_set_mpz(a, z); mpz_clear(z); return; }
  if (n == 2 && !(Z.s.kind == ZK_TOWER && Z.s.a == K_POLY)) { model_put(element_item(a, 0), m, len / 2); model_put(element_item(a, 1), m + len / 2, len - len / 2); return; }
  int k = len / n; for (int i = 0; i < n; i++) model_put(element_item(a, i), m + i * k, i < n - 1 ? k : len - i * k);
}
static void crhs(element_ptr t, element_ptr x, element_ptr cv) { element_mul(t, x, x); element_add(t, t, curve_a_coeff(cv)); element_mul(t, t, x); element_add(t, t, curve_b_coeff(cv)); }
static unsigned char seen[4096][64]; static int nseen;
static void msg(const unsigned char *m0, int len) {
  unsigned char *m = malloc(len + 1); memcpy(m, m0, len); STATE(); nmsg++;
  if (curve) { // the point search must end; on tiny curves the chain of candidates can cycle
    element_ptr bx = curve_a_coeff(c); element_t x, t, o; element_init_same_as(x, bx); element_init_same_as(t, bx); element_init_same_as(o, bx); element_set1(o); model_put(x, m, len);
    int k, found = 0; for (k = 0; k < 2000 && !found; k++) { crhs(t, x, c); if (element_is_sqr(t)) found = 1; else { element_mul(x, x, x); element_add(x, x, o); } }
    if (found) {
      element_set(c, Z.el[nmsg % Z.n]); vh_rng_seed(nmsg); element_from_hash(c, m, len); STEP();
      CHECK(el_on_curve(c), "hash of %s is off the curve", vh_hex(m, len));
      if (havecof) { element_t y; element_init_same_as(y, bx); element_sqrt(y, t); if (element_sgn(y) < 0) element_neg(y, y); element_set(d, Z.el[1 % Z.n]); if (element_is0(d)) { for (int i = 0; i < Z.n && element_is0(d); i++) element_set(d, Z.el[i]); }
        if (!element_is0(d)) { element_set(element_item(d, 0), x); element_set(element_item(d, 1), y); element_mul(t, y, y); crhs(y, x, c); CHECK(!element_cmp(t, y), "square root"); 
          element_set0(e); for (int b = mpz_sizeinbase(cof, 2) - 1; b >= 0; b--) { element_add(e, e, e); if (mpz_tstbit(cof, b)) element_add(e, e, d); } CHECK(!element_cmp(e, c), "hash of %s is not the specified point", vh_hex(m, len)); }
        element_clear(y); }
    } else skipped++;
    element_clear(x); element_clear(t); element_clear(o); if (!found) { free(m); return; }
  } else {
    element_set(c, Z.el[nmsg % Z.n]); vh_rng_seed(nmsg); element_from_hash(c, m, len); STEP();
    if (Z.s.kind == ZK_GT) { // (q^k - 1)/r-th power of the hashed field element
      element_set1(ref); model_put(ref, m, len); element_mul(d, ref, ref); int zero = !element_cmp(d, ref) && !element_is1(ref); if (zero) element_set1(ref);
      element_set1(e); for (int b = mpz_sizeinbase(fin, 2) - 1; b >= 0; b--) { element_mul(e, e, e); if (mpz_tstbit(fin, b)) element_mul(e, e, ref); }
      CHECK(!element_cmp(e, c), "hash of %s is not the specified element of GT", vh_hex(m, len)); element_mul(d, c, c); CHECK(element_cmp(d, c) || element_is1(c), "hash of %s is zero", vh_hex(m, len));
      if (len && len < 40 && !element_is1(c)) distinct++;
    } else { model_put(ref, m, len); CHECK(!element_cmp(ref, c), "hash of %s is not the specified element", vh_hex(m, len)); 
      if (!element_item_count(c)) { mpz_t z; mpz_init(z); element_to_mpz(z, c); CHECK(mpz_cmp(z, Z.f->order) < 0, "unreduced"); mpz_clear(z); } }
  }
  CHECK(!memcmp(m, m0, len), "hashing changed its input");
  if (Z.haspr && Z.s.kind != ZK_ZR) { // in the subgroup: r-th power is the identity (any representative for quotients)
    element_set1(e); for (int b = mpz_sizeinbase(Z.pr->r, 2) - 1; b >= 0; b--) { element_mul(e, e, e); if (mpz_tstbit(Z.pr->r, b)) element_mul(e, e, c); }
    int quo = Z.s.kind == ZK_G2 && !pairing_is_symmetric(Z.pr) && !curve; (void) quo;
    if (Z.s.kind != ZK_G2 || strchr("ae", ps_type(Z.s.a)[0])) { element_set1(d); CHECK(!element_cmp(e, d), "hash of %s is not killed by r", vh_hex(m, len)); }
  }
  // same function again, from another history, random state and prior content, and from an unaligned copy
  unsigned char *q = malloc(len + 9); memcpy(q + 3, m, len); memset(q + 3 + len, 0xA5, 6);
  for (int k = 1; k < 3; k++) { element_set(d, Z.el[(nmsg + k) % Z.n]); vh_rng_seed(1000 + k); element_from_hash(d, q + 3, len); STEP(); CHECK(!element_cmp(c, d), "hash of %s depends on what happened before", vh_hex(m, len)); }
  element_t n; element_init(n, Z.f); element_from_hash(n, m, len); CHECK(!element_cmp(n, c), "hash into a fresh element differs"); element_clear(n);
  free(q); free(m);
}
static int curvey(void) { return Z.s.kind == ZK_CURVE || Z.s.kind == ZK_G1 || Z.s.kind == ZK_G2; }
static void unit(long id, long lo, long cc_) {
  if (zoo_open(&Z, id, vh_thorough ? 40 : 12)) return; vh_outerf("%s", Z.s.name);
  curve = curvey(); element_init(c, Z.f); element_init(d, Z.f); element_init(e, Z.f); element_init(ref, Z.f); mpz_init(cof); mpz_init(fin); nmsg = skipped = nseen = 0; havecof = 0;
  mpz_init(gtq); distinct = 0;
  if (Z.s.kind == ZK_GT) { const char *ty = ps_type(Z.s.a); char *s = ps_text(Z.s.a); ps_field(gtq, s, !strcmp(ty, "a1") ? "p" : "q"); mpz_t k; mpz_init(k); if (ty[0] == 'd') ps_field(k, s, "k"); int kk = ty[0] == 'd' ? (int) mpz_get_ui(k) : ty[0] == 'a' ? 2 : ty[0] == 'f' ? 12 : ty[0] == 'g' ? 10 : 1; mpz_pow_ui(fin, gtq, kk); mpz_sub_ui(fin, fin, 1); CHECK(mpz_divisible_p(fin, Z.pr->r), "r does not divide q^k-1"); mpz_divexact(fin, fin, Z.pr->r); mpz_clear(k); free(s); }
  if (Z.s.kind == ZK_CURVE) { havecof = 1; mpz_set_ui(cof, 1); }
  if (Z.s.kind == ZK_G1) { char *s = ps_text(Z.s.a); const char *ty = ps_type(Z.s.a); havecof = 1; if (!strcmp(ty, "f")) mpz_set_ui(cof, 1); else if (!strcmp(ty, "a1")) { ps_field(cof, s, "l"); } else ps_field(cof, s, "h"); free(s); if (!mpz_sgn(cof)) havecof = 0; }
  unsigned char m[4096]; int L = element_length_in_bytes(curve ? curve_a_coeff(c) : c); if (L > 1000) L = 1000;
  CTX("the empty string"); msg(m, 0);
  for (int a = 0; a < 256; a += (Z.s.cost == 2 && !vh_thorough ? 37 : Z.s.cost && !vh_thorough ? 11 : 1)) { CTX("the byte %ld", a); m[0] = a; msg(m, 1); }
  static const int al[] = { 0, 1, 2, 3, 5, 0x7f, 0x80, 0x81, 0xfe, 0xff }; int na = Z.s.cost == 2 && !vh_thorough ? 2 : 10;
  for (int a = 0; a < na; a++) for (int b = 0; b < na; b++) { CTX("bytes %ld %ld", al[a], al[b]); m[0] = al[a]; m[1] = al[b]; msg(m, 2); }
  if (vh_thorough && !Z.s.cost) for (int a = 0; a < 65536; a++) { CTX("bytes %ld %ld", a >> 8, a & 255); m[0] = a >> 8; m[1] = a; msg(m, 2); }
  if (!Z.s.cost) for (int a = 0; a < 125; a++) { int k = a; for (int j = 0; j < 3; j++) { m[j] = al[(k % 5) * 2]; k /= 5; } CTX("three bytes #%ld", a); msg(m, 3); }
  int top = 2 * L + 3, st = Z.s.cost == 2 && !vh_thorough ? (L / 6 | 1) : 1;
  for (int len = 1; len <= top; len += (len < L - 2 || len > L + 2) ? st : 1) for (int p = 0; p < 6; p++) { if (Z.s.cost == 2 && !vh_thorough && p > 2) break; if (curve && Z.s.cost == 2 && !vh_thorough && p && len != L) continue;
    for (int j = 0; j < len; j++) m[j] = p == 0 ? j * 7 + 1 : p == 1 ? 0xff : p == 2 ? 0 : p == 3 ? 0x80 : p == 4 ? (j == 0) : (j == len - 1); CTX("pattern %ld of length %ld", p, len); msg(m, len); }
  // values around the order of the residue ring
  if (!element_item_count(c) && !curve && Z.s.kind != ZK_GT) { mpz_t z; mpz_init(z); int n = (mpz_sizeinbase(Z.f->order, 2) + 7) / 8; for (int k = -2; k <= 2; k++) { memset(m, 0, n); if (k < 0) mpz_sub_ui(z, Z.f->order, -k); else mpz_add_ui(z, Z.f->order, k); if (mpz_sizeinbase(z, 2) > 8UL * n) continue; pbc_mpz_out_raw_n(m, n, z); CTX("order plus %ld", k); msg(m, n); for (int s = 1; s < 8; s++) { mpz_mul_2exp(z, z, 1); mpz_add_ui(z, z, s & 1); if (mpz_sizeinbase(z, 2) > 8UL * n) break; pbc_mpz_out_raw_n(m, n, z); CTX("order plus %ld shifted by %ld", k, s); msg(m, n); } } mpz_clear(z); }
  if (Z.s.kind == ZK_GT && Z.s.cost == 2) CHECK(distinct * 2 > nmsg / 4, "nearly all messages hash to the identity of GT (%d of %d do not)", distinct, nmsg);
  vh_sample("%s: %d messages, %d without a point on a tiny curve", Z.s.name, nmsg, skipped);
}
// long moduli and long messages
static void longs(long bits, long impl, long c_) {
  mpz_t P, z, y; mpz_init(P); mpz_init(z); mpz_init(y); mpz_set_ui(P, 1); mpz_mul_2exp(P, P, bits); mpz_sub_ui(P, P, 1); mpz_clrbit(P, bits / 2); mpz_clrbit(P, bits / 3); field_t f; impl_init(f, impl, P); vh_outerf("modulus of %ld bits, %s", bits, impl_name[impl]); element_t a, b; element_init(a, f); element_init(b, f);
  static unsigned char m[70001]; int n = (bits + 7) / 8; int lens[80], nl = 0; for (int i = 0; i < 24; i++) lens[nl++] = i * i * 3 + i; static const int more[] = { 63, 64, 65, 127, 128, 129, 255, 256, 257, 258, 300, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 16384, 32767, 32768, 65535, 65536, 70000 }; for (int i = 0; i < 30; i++) lens[nl++] = more[i]; for (int k = -2; k <= 2; k++) { lens[nl++] = n + k; if (n / 2 + k > 0) lens[nl++] = n / 2 + k; lens[nl++] = 2 * n + k; }
  for (int i = 0; i < nl; i++) for (int p = 0; p < 3; p++) { int len = lens[i]; CTX("message of %ld bytes, pattern %ld", len, p); STATE(); for (int j = 0; j < len; j++) m[j] = p == 0 ? j * 7 + (j >> 8) + 1 : p == 1 ? 0xff - (j % 97 == 5) : vh_mix(j) & 0x7f; model_z(z, P, m, len); element_set_si(a, i); element_from_hash(a, m, len); STEP(); element_to_mpz(y, a); CHECK(!mpz_cmp(y, z), "hash of a message of %d bytes is not the specified residue", len); if (p == 0 && len <= n && len) { m[len - 1] ^= 1; element_from_hash(b, m, len); model_z(z, P, m, len); element_to_mpz(y, b); CHECK(!mpz_cmp(y, z), "hash of a message of %d bytes is not the specified residue", len); } }
  vh_sample("modulus of %ld bits, %s: %d messages", bits, impl_name[impl], nl * 3);
}
void vh_register(void) {
  static const int lb[] = { 129, 512, 1030, 2047, 2100, 4096, 9000, 0 }; for (int i = 0; lb[i]; i++) for (int k = 0; k < NIMPL; k++) vh_unit(longs, lb[i], k, 0, "long/%d/impl%d", lb[i], k);
  zoo_init();
  for (int i = zoo_n - 1; i >= 0; i--) { zspec *s = &zoo_list[i]; if (!strncmp(s->name, "i.param", 7) && s->kind != ZK_ZR) continue; if (!vh_thorough && s->cost == 1 && s->e > 2 && (s->kind & (ZK_GROUP | ZK_ZR))) continue; vh_unit(unit, i, 0, 0, "%s", s->name); }
}
