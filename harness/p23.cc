// P23: the C++ wrapper.  Every short sequence of wrapper operations on elements
// of a complete toy group, against discrete logarithms mod r.
#include <stdexcept>
#include <map>
#include <vector>
#include <string>
#include <limits.h>
#include "vh.h"
#include <pbcxx.h>
#include "toys.h"
using namespace pbc; using std::string; using std::map;
#include "mem.h"
static long r; static map<string, long> T[4]; static std::vector<string> B[4]; static int tychar; static int grp; // 0 Zr, 1 G1, 2 G2, 3 GT
template <class E> struct id_; template <> struct id_<ZrElement> { enum { v = 0 }; }; template <> struct id_<G1Element> { enum { v = 1 }; }; template <> struct id_<G2Element> { enum { v = 2 }; }; template <> struct id_<GTElement> { enum { v = 3 }; };
static string bytes(element_ptr e) { string s(element_length_in_bytes(e), 0); element_to_bytes((unsigned char *) &s[0], e); return s; }
static int degenerate(const toy_t &t) { if (strcmp(t.type, "a") && strcmp(t.type, "e")) return 0; long e2 = atol(strstr(t.text, "exp2 ") + 5), e1 = atol(strstr(t.text, "exp1 ") + 5), d = 1L << (e2 - e1); return (d - 1) % t.r == 0 || (d + 1) % t.r == 0; }
static int tables(const char *text) { // complete groups through the C interface
  pairing_t p; if (pairing_init_set_str(p, text)) return 0; element_t g[4], x; mpz_t z; mpz_init(z); element_init_Zr(g[0], p); element_init_G1(g[1], p); element_init_G2(g[2], p); element_init_GT(g[3], p); element_set1(g[0]); int ok = 1;
  for (int k = 1; k < 3; k++) { int n = 0; do { element_random(g[k]); if (++n > 200) { ok = 0; break; } } while (element_is0(g[k])); } if (ok) { element_pairing(g[3], g[1], g[2]); if (element_is1(g[3])) ok = 0; }
  for (int k = 0; k < 4 && ok; k++) { T[k].clear(); B[k].clear(); element_init_same_as(x, g[k]); for (long i = 0; i < r; i++) { mpz_set_ui(z, i); if (k) element_mul_mpz(x, g[k], z); else element_set_mpz(x, z); string s = bytes(x); T[k][s] = i; B[k].push_back(s); } element_clear(x); if ((long) T[k].size() != r) ok = 0; }
  for (int k = 0; k < 4; k++) element_clear(g[k]); mpz_clear(z); pairing_clear(p); return ok; }
// elements of a quotient group (G2 of types D and G) have no unique bytes: read them through the pairing with a generator of G1
static const Pairing *viaP; static G1Element *viaG;
template <class E> static long val(const E &e) { string s = e.to_bytes(); map<string, long>::iterator i = T[id_<E>::v].find(s); return i == T[id_<E>::v].end() ? -1 : i->second; }
template <> long val(const G2Element &e) { if (viaG) return val((*viaP)(*viaG, e)); string s = e.to_bytes(); map<string, long>::iterator i = T[2].find(s); return i == T[2].end() ? -1 : i->second; }
static long md(long x) { return ((x % r) + r) % r; }
static long inv(long x) { for (long i = 1; i < r; i++) if (md(i * x) == 1) return i; return 0; }
#define SAME(x, y) CHECK(&(x) == &(y), "did not return the object itself")
// operations common to all groups; va, vb, vz: the model. Returns 0 when not applicable.
enum { NOPS = 42 };
template <class E> static int step(int o, E &a, E &b, ZrElement &z, long &va, long &vb, long vz, const Pairing &P) {
  int ring = id_<E>::v == 0; long mulv = ring ? md(va * vb) : md(va + vb); int ib = ring ? (vb ? inv(vb) : 0) : 0; long divv = ring ? md(va * ib) : md(va - vb); const E &ca = a, &cb = b;
  switch (o) {
  case 0: SAME(a += b, a); va = md(va + vb); break; case 1: a = ca + cb; va = md(va + vb); break; case 2: b = cb + ca; vb = md(va + vb); break; case 3: SAME(a -= b, a); va = md(va - vb); break; case 4: a = ca - cb; va = md(va - vb); break; case 5: a = cb - ca; va = md(vb - va); break; case 6: SAME(a *= b, a); va = mulv; break; case 7: a = ca * cb; va = mulv; break; case 8: b = ca * cb; vb = mulv; break;
  case 9: if (ring && !vb) return 0; SAME(a /= b, a); va = divv; break; case 10: if (ring && !vb) return 0; a = ca / cb; va = divv; break; case 11: if (ring && !vb) return 0; b = ca / cb; vb = divv; break;
  case 12: { E c = a.twice(); CHECK(val(c) == md(2 * va), "twice"); b = c; vb = md(2 * va); break; } case 13: SAME(a.twice_inplace(), a); va = md(2 * va); break; case 14: { E c = a.square(); b = c; vb = ring ? md(va * va) : md(2 * va); break; } case 15: SAME(a.square_inplace(), a); va = ring ? md(va * va) : md(2 * va); break; case 16: b = a.neg(); vb = md(-va); break; case 17: SAME(a.neg_inplace(), a); va = md(-va); break;
  case 18: if (ring && !va) return 0; b = a.invert(); vb = ring ? inv(va) : md(-va); break; case 19: if (ring && !va) return 0; SAME(a.invert_inplace(), a); va = ring ? inv(va) : md(-va); break;
  case 20: SAME(a = b, a); va = vb; break; case 21: { E &s = a; SAME(a = s, a); break; } case 22: { E c(a); c += b; CHECK(val(a) == va, "copy shares storage"); b = c; vb = md(va + vb); break; } case 23: { E c(a); a.set0(); vb = va; va = 0; CHECK(val(a) == 0, "set0"); b = c; break; }
  case 24: SAME(a.set0(), a); va = 0; break; case 25: SAME(a.set1(), a); va = ring ? 1 % r : 0; break; case 26: { string s = b.to_bytes(); SAME(a.from_bytes(s), a); va = vb; break; }
  case 27: { string s = b.to_bytes(); s.resize(s.size() - 1); int t = 0; try { a.from_bytes(s); } catch (std::invalid_argument &) { t = 1; } CHECK(t, "short buffer accepted"); break; } case 28: { string s = b.to_bytes(); s += 'x'; int t = 0; try { a.from_bytes(s); } catch (std::invalid_argument &) { t = 1; } CHECK(t, "long buffer accepted"); a = b; va = vb; break; }
  case 29: a += a; va = md(2 * va); break; case 30: a -= a; va = 0; break; case 31: a *= a; va = ring ? md(va * va) : md(2 * va); break; case 32: if (ring && !va) return 0; a /= a; va = ring ? 1 % r : 0; break;
  case 33: { E c = (a + b) * (a - b); CHECK(val(c) == (ring ? md((va + vb) * (va - vb)) : md(2 * va)), "(a+b)*(a-b)"); break; } case 34: { E t(a); a = b; b = t; long q = va; va = vb; vb = q; break; }
  case 35: { E c(P); c = a; c = c + c - b; CHECK(val(c) == md(2 * va - vb), "a fresh element"); break; }
  case 36: { vh_rng_reset(); vh_rng_seed(va * 17 + vb); SAME(a.set_random(), a); va = val(a); if (va < 0 && (tychar == 'e' || (tychar == 'f' && id_<E>::v == 2))) return 0; // the curve has more than r points of order r
 CHECK(va >= 0, "random element outside the group"); break; }
  case 37: { if (tychar == 'f' && id_<E>::v == 2) return 0; // the chain of tries cycles on so small a curve
 string h("ab\0c", 4); h += (char) ('0' + vb); SAME(a.from_hash(h), a); va = val(a); if (va < 0 && (tychar == 'e' || (tychar == 'f' && id_<E>::v == 2))) return 0; // the curve has more than r points of order r
 CHECK(va >= 0, "hash outside the group"); E c(P); c.from_hash(h); CHECK(c == a, "hash not repeatable"); break; }
  default: return -1; }
  return 1;
}
template <class G> static int gstep(int o, G &a, G &b, ZrElement &z, long &va, long &vb, long vz) { const G &ca = a; const ZrElement &cz = z; switch (o) {
  case 38: b = ca.pow_zn(cz); vb = md(va * vz); break; case 39: SAME(a.pow_zn_inplace(cz), a); va = md(va * vz); break; case 40: SAME(a *= cz, a); va = md(va * vz); break; case 41: b = ca * cz; vb = md(va * vz); { G c = cz * ca; CHECK(c == b, "z*g and g*z differ"); } break; } return 1; }
template <class E> static int any(int o, E &a, E &b, ZrElement &z, long &va, long &vb, long vz, const Pairing &P) { return o < 38 ? step(o, a, b, z, va, vb, vz, P) : gstep(o, a, b, z, va, vb, vz); }
template <> int any(int o, ZrElement &a, ZrElement &b, ZrElement &z, long &va, long &vb, long vz, const Pairing &P) { if (o < 38) return step(o, a, b, z, va, vb, vz, P); switch (o) { case 38: { mpz_t n; mpz_init(n); mpz_set_si(n, 5 - 3 * vb); SAME(a.set_mpz(n), a); mpz_clear(n); va = md(5 - 3 * vb); return 1; } case 39: SAME(a.set_si(vb - 4), a); va = md(vb - 4); return 1; case 40: SAME(a.set_si(-1000000007L), a); va = md(-1000000007L); return 1; case 41: { long big = vb & 1 ? LONG_MIN + va : LONG_MAX - va; SAME(a.set_si(big), a); va = md(big % r); mpz_t n; mpz_init_set_si(n, vb & 1 ? -1 : 1); mpz_mul_2exp(n, n, 200 + vb); mpz_sub_ui(n, n, 3); SAME(b.set_mpz(n), b); vb = mpz_fdiv_ui(n, r); mpz_clear(n); return 1; } } return 0; }
template <class E> static void see(E &a, E &b, long va, long vb) { STEP(); long xa = val(a), xb = val(b); int ring = id_<E>::v == 0; CHECK(xa == va && xb == vb, "registers hold %ld, %ld; expected %ld, %ld", xa, xb, va, vb); int e = va == vb; CHECK((a == b) == !!e && (a != b) == !e && (a.compare(b) == 0) == !!e, "comparison"); if (!viaG) CHECK(a.is0() == (va == 0) && a.is1() == (ring ? va == 1 % r : va == 0), "is0/is1 of %ld", va); }
template <class E> static void seqs(const char *text, int depth, int nstart) {
  Pairing P(text); const Pairing &cp = P; G1Element g1(cp); viaG = 0; if (id_<E>::v == 2 && strchr("dg", tychar)) { g1.from_bytes(B[1][1]); viaP = &cp; viaG = &g1; } long N = 1; for (int i = 0; i < depth; i++) N *= NOPS;
  for (int st = 0; st < nstart; st++) { long s0 = nstart >= r * r ? st % r : (st * 2 + 1) % r, s1 = nstart >= r * r ? st / r : (st * st + 2) % r, vz = (st * 3 + 2) % r; ZrElement z(cp); z.set_si(vz);
    for (long w = 0; w < N; w++) { CTX("start %ld %ld z %ld operations %ld %ld %ld", s0, s1, vz, w % NOPS, depth > 1 ? w / NOPS % NOPS : -1, depth > 2 ? w / NOPS / NOPS : -1); long live = mem_live(); STATE(); { E a(cp), b(cp); a.from_bytes(B[id_<E>::v][s0]); b.from_bytes(B[id_<E>::v][s1]); long va = s0, vb = s1, x = w; int ok = 1; for (int i = 0; i < depth && ok > 0; i++) { ok = any<E>(x % NOPS, a, b, z, va, vb, vz, cp); x /= NOPS; if (ok > 0) see(a, b, va, vb); } CHECK(val(z) == vz, "scalar changed"); } CHECK(mem_live() == live, "%ld blocks leaked", mem_live() - live); } } }
static void grpunit(long id, long g, long dn) { r = toys[id].r; tychar = toys[id].type[0]; vh_outerf("%s %s", toys[id].name, g == 0 ? "Zr" : g == 1 ? "G1" : g == 2 ? "G2" : "GT"); if (!tables(toys[id].text)) return; int d = dn & 15, n = dn >> 4; if (n > r * r) n = r * r; long l = mem_live(); if (g == 0) seqs<ZrElement>(toys[id].text, d, n); else if (g == 1) seqs<G1Element>(toys[id].text, d, n); else if (g == 2) seqs<G2Element>(toys[id].text, d, n); else seqs<GTElement>(toys[id].text, d, n); CHECK(mem_live() == l, "%ld blocks left after the Pairing was destroyed", mem_live() - l); }
static void pairunit(long id, long b_, long c_) { r = toys[id].r; tychar = toys[id].type[0]; viaG = 0; vh_outerf("%s", toys[id].name); if (!tables(toys[id].text)) return; long l = mem_live(); { Pairing P(toys[id].text); const Pairing &p = P; pairing_t q; pairing_init_set_str(q, toys[id].text); CHECK(p.is_symmetric() == !!pairing_is_symmetric(q), "is_symmetric"); int sym = pairing_is_symmetric(q); pairing_clear(q);
  for (long i = 0; i < r; i++) for (long j = 0; j < r; j++) { CTX("e(%ld, %ld)", i, j); STATE(); G1Element a(p), a2(p); G2Element b(p), b2(p); GTElement e(p), f(p); a.from_bytes(B[1][i]); b.from_bytes(B[2][j]); a2.from_bytes(B[1][j]); b2.from_bytes(B[2][i]); p.apply(e, a, b); STEP(); CHECK(val(e) == md(i * j), "apply"); CHECK(val(p(a, b)) == md(i * j), "operator()"); CHECK(val(a) == i && val(b) == j, "arguments changed"); GTElement g = p(a, b) * p(a, b); CHECK(val(g) == md(2 * i * j), "product of pairings");
    int t = 0; f = e; try { p.apply(f, a, a2); } catch (std::invalid_argument &) { t = 1; } CHECK(t == !sym, "apply on two G1 elements: %d", t); if (t) CHECK(f == e, "result changed"); else { G2Element h(p); h.from_bytes(a2.to_bytes()); CHECK(f == p(a, h) && f == p(a, a2), "e(G1, G1)"); } t = 0; try { p.apply(f, b2, b); } catch (std::invalid_argument &) { t = 1; } CHECK(t == !sym, "apply on two G2 elements"); if (!t) { G1Element h(p); h.from_bytes(b2.to_bytes()); CHECK(f == p(h, b) && f == p(b2, b), "e(G2, G2)"); } t = 0; try { p(a, a2); } catch (std::invalid_argument &) { t++; } try { p(b2, b); } catch (std::invalid_argument &) { t++; } CHECK(t == (sym ? 0 : 2), "operator() on one group"); }
  } CHECK(mem_live() == l, "%ld blocks left", mem_live() - l); }
// parameters that do not describe a pairing: an exception, nothing leaked
static void badunit(long id, long b_, long c_) { vh_outerf("%s", toys[id].name); string t(toys[id].text); std::vector<string> v; v.push_back(""); v.push_back("type"); v.push_back("type zz\n"); v.push_back("hello"); size_t pos = 0; while (pos < t.size()) { size_t e = t.find('\n', pos); string u = t; u.erase(pos, e - pos + 1); v.push_back(u); pos = e + 1; } for (size_t i = 0; i < v.size(); i++) { CTX("text %ld", (long) i); STATE(); long l = mem_live(); int th = 0; pairing_t q; int bad = pairing_init_set_str(q, v[i].c_str()); if (!bad) pairing_clear(q); try { Pairing p(v[i]); G1Element a(p); a.set0(); } catch (std::exception &) { th = 1; } STEP(); CHECK(th == !!bad, "parameters \"%s\" %s", v[i].c_str(), bad ? "accepted" : "rejected"); CHECK(mem_live() == l, "%ld blocks left", mem_live() - l); }
  // exactly the given bytes are read
  { string u = t + "q 5\nr 3\n"; Pairing p(u.substr(0, t.size())); G1Element a(p); a.set0(); CHECK(a.is0(), "zero"); } }
// shipped parameters: the wrapper against the C interface
static const char *rn[] = { "a", "d159", "e", "f", "g149", "a1", "d201", "d224" };
template <class E> static void cmpops(const Pairing &P, pairing_t q, field_ptr f, const char *w) {
  element_t c, d, z; element_init(c, f); element_init(d, f); element_init_Zr(z, q); E a(P), b(P); ZrElement y(P); static const int ln[] = { 0, 1, 2, 3, 8, 20, 21, 32, 64, 100, 255, 300 };
  for (int i = 0; i < 12; i++) for (int p = 0; p < 4; p++) { CTX("hash of %ld bytes, pattern %ld", ln[i], p); STATE(); string m(ln[i], 0); for (int j = 0; j < ln[i]; j++) m[j] = p == 0 ? j * 5 + 1 : p == 1 ? (j % 3 ? 0 : j + 1) : p == 2 ? 0 : 0xff - (j == 1) * 0xff; SAME(a.from_hash(m), a); element_from_hash(c, (void *) m.data(), ln[i]); STEP(); CHECK(a.to_bytes() == bytes(c), "%s: hash differs from the C interface", w);
    element_from_hash(d, (void *) "other", 5); b.from_bytes(bytes(d)); CHECK(b.to_bytes() == bytes(d), "%s: bytes", w); E s = a + b; element_add(c, c, d); CHECK(s.to_bytes() == bytes(c), "%s: sum", w); s = a * b; element_from_hash(c, (void *) m.data(), ln[i]); element_mul(c, c, d); CHECK(s.to_bytes() == bytes(c), "%s: product", w); s -= b; element_sub(c, c, d); CHECK(s.to_bytes() == bytes(c), "%s: difference", w); element_from_hash(c, (void *) m.data(), ln[i]); CHECK((a == b) == !element_cmp(c, d), "%s: comparison", w); }
  element_clear(c); element_clear(d); element_clear(z); }
template <class G> static void cmppow(const Pairing &P, pairing_t q, field_ptr f, const char *w) { element_t c, z; element_init(c, f); element_init_Zr(z, q); G a(P); ZrElement y(P); for (int i = 0; i < 4; i++) { CTX("power %ld", i); STATE(); string m(9, 'a' + i); a.from_hash(m); element_from_hash(c, (void *) m.data(), 9); y.from_hash(m); element_from_hash(z, (void *) m.data(), 9); G b = a.pow_zn(y), d = a * y, e = y * a; element_pow_zn(c, c, z); STEP(); CHECK(b.to_bytes() == bytes(c) && d.to_bytes() == bytes(c) && e.to_bytes() == bytes(c), "%s: power", w); } element_clear(c); element_clear(z); }
static void realunit(long k, long b_, long c_) { char p[600]; snprintf(p, sizeof p, "%s/param/%s.param", vh_repo, rn[k]); size_t n; char *t = vh_slurp(p, &n); vh_outerf("%s", rn[k]); long l = mem_live(); { string ps(t, n); Pairing P(ps); const Pairing &cp = P; pairing_t q; if (pairing_init_set_str(q, t)) { CHECK(0, "rejected"); return; }
  cmpops<ZrElement>(cp, q, q->Zr, "Zr"); cmpops<G1Element>(cp, q, q->G1, "G1"); cmpops<G2Element>(cp, q, q->G2, "G2"); cmpops<GTElement>(cp, q, q->GT, "GT"); cmppow<G1Element>(cp, q, q->G1, "G1"); cmppow<G2Element>(cp, q, q->G2, "G2"); cmppow<GTElement>(cp, q, q->GT, "GT");
  ZrElement y(cp); element_t z, g1, g2, gt; element_init_Zr(z, q); element_init_G1(g1, q); element_init_G2(g2, q); element_init_GT(gt, q); static const long v[] = { 0, 1, -1, 2147483647L, 2147483648L, 4294967295L, 4294967296L, -2147483648L, -2147483649L, LONG_MAX, LONG_MIN }; for (int i = 0; i < 11; i++) { CTX("integer %ld", v[i]); STATE(); y.set_si(v[i]); element_set_si(z, v[i]); CHECK(y.to_bytes() == bytes(z), "set_si"); mpz_t m, o; mpz_init_set_si(m, v[i]); mpz_init(o); mpz_fdiv_r(o, m, q->r); element_to_mpz(m, z); CHECK(!mpz_cmp(m, o), "C set_si"); mpz_mul_2exp(m, m, 64 * i); mpz_sub_ui(m, m, 5); y.set_mpz(m); element_set_mpz(z, m); CHECK(y.to_bytes() == bytes(z), "set_mpz"); mpz_clear(m); mpz_clear(o); }
  for (int i = 0; i < 3; i++) { CTX("pairing %ld", i); STATE(); string m(5, 'x' + i); G1Element a(cp); G2Element b(cp); a.from_hash(m); b.from_hash(m); element_from_hash(g1, (void *) m.data(), 5); element_from_hash(g2, (void *) m.data(), 5); element_pairing(gt, g1, g2); STEP(); GTElement e(cp); cp.apply(e, a, b); CHECK(e.to_bytes() == bytes(gt) && cp(a, b).to_bytes() == bytes(gt), "pairing"); }
  element_clear(z); element_clear(g1); element_clear(g2); element_clear(gt); pairing_clear(q); } free(t); (void) l; vh_sample("%s through the wrapper", rn[k]); }
void vh_register(void) { for (int k = 0; k < (vh_thorough ? 8 : 6); k++) vh_unit(realunit, k, 0, 0, "%s/real", rn[k]); static const char *ty[] = { "a", "a1", "d", "e", "f", "g" }; for (int k = 0; k < 6; k++) { int seen = 0; for (unsigned i = 0; i < sizeof toys / sizeof *toys && seen < (vh_thorough ? 4 : 2); i++) if (!strcmp(toys[i].type, ty[k]) && toys[i].r >= 5 && toys[i].r < 40 && !degenerate(toys[i])) { int prime = 1; for (long d = 2; d * d <= toys[i].r; d++) if (toys[i].r % d == 0) prime = 0; if (!prime) continue; seen++; for (int g = 0; g < 4; g++) { vh_unit(grpunit, i, g, 2 | (vh_thorough ? 200 : k == 2 && g == 2 || k > 3 && g == 2 ? 2 : k < 4 ? 49 : 6) << 4, "%s/%d/depth2", toys[i].name, g); if (seen == 1 && ((k < 4 && !(k == 2 && g == 2)) || vh_thorough)) vh_unit(grpunit, i, g, 3 | (vh_thorough ? 9 : 1) << 4, "%s/%d/depth3", toys[i].name, g); } vh_unit(pairunit, i, 0, 0, "%s/pairing", toys[i].name); vh_unit(badunit, i, 0, 0, "%s/rejected", toys[i].name); } } }
