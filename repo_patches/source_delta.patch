From a6fd44adcedee170b98d2bf5c84e93252e2ea29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:32 +0000
Subject: [PATCH 01/56] fix: halving an odd residue into a zero-valued element
 lost the result

fp_halve() of the Montgomery and zero-flag representations did not set the
destination's nonzero flag on the odd path.
---
 arith/fasterfp.c | 1 +
 arith/montfp.c   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/arith/fasterfp.c b/arith/fasterfp.c
index 7dccb03..452dc65 100644
--- a/arith/fasterfp.c
+++ b/arith/fasterfp.c
@@ -237,6 +237,7 @@ static void fp_halve(element_ptr c, element_ptr a) {
     mp_limb_t *climb = cd->d;
     if (alimb[0] & 1) {
       carry = mpn_add_n(climb, alimb, p->primelimbs, t);
+      cd->flag = 2;
     } else fp_set(c, a);
 
     mpn_rshift(climb, climb, t, 1);
diff --git a/arith/montfp.c b/arith/montfp.c
index bae03da..307cf0a 100644
--- a/arith/montfp.c
+++ b/arith/montfp.c
@@ -287,6 +287,7 @@ static void fp_halve(element_ptr c, element_ptr a) {
     mp_limb_t *climb = cd->d;
     if (alimb[0] & 1) {
       carry = mpn_add_n(climb, alimb, p->primelimbs, t);
+      cd->flag = 2;
     } else fp_set(c, a);
 
     mpn_rshift(climb, climb, t, 1);
-- 
2.43.0


From 640bdd898238161238a7d76fb3719f76918c5b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:32 +0000
Subject: [PATCH 02/56] fix: comparing a nonzero residue with zero read stale
 limbs

When the second operand was zero, fp_cmp() compared whatever its limbs held
before, so an element could compare equal to zero.
---
 arith/fasterfp.c | 2 ++
 arith/montfp.c   | 1 +
 2 files changed, 3 insertions(+)

diff --git a/arith/fasterfp.c b/arith/fasterfp.c
index 452dc65..3bf7a5e 100644
--- a/arith/fasterfp.c
+++ b/arith/fasterfp.c
@@ -421,6 +421,8 @@ static int fp_cmp(element_ptr a, element_ptr b) {
   dataptr ad = a->data, bd = b->data;
   if (!ad->flag) {
     return bd->flag;
+  } else if (!bd->flag) {
+    return ad->flag;
   } else {
     fp_field_data_ptr p = a->field->data;
     return mpn_cmp(ad->d, bd->d, p->limbs);
diff --git a/arith/montfp.c b/arith/montfp.c
index 307cf0a..d6d0953 100644
--- a/arith/montfp.c
+++ b/arith/montfp.c
@@ -451,6 +451,7 @@ static void fp_from_hash(element_ptr a, const void *data, int len) {
 static int fp_cmp(element_ptr a, element_ptr b) {
   eptr ad = a->data, bd = b->data;
   if (!ad->flag) return bd->flag;
+  else if (!bd->flag) return ad->flag;
   else {
     fptr p = a->field->data;
     return mpn_cmp(ad->d, bd->d, p->limbs);
-- 
2.43.0


From a131ddf1e60de9a8df74ac6b682703b589c28d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:07 +0000
Subject: [PATCH 03/56] fix: results congruent to zero modulo n were not
 recognised as zero

The Montgomery and zero-flag representations track zero with a flag, but
products, squares, powers and small multiples modulo a composite n (type A1
pairings), and conversions of nonzero multiples of n, left the flag set.
---
 arith/fasterfp.c | 12 +++++++-----
 arith/montfp.c   |  5 +++--
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/arith/fasterfp.c b/arith/fasterfp.c
index 3bf7a5e..ae76973 100644
--- a/arith/fasterfp.c
+++ b/arith/fasterfp.c
@@ -70,8 +70,8 @@ static void fp_set_mpz(element_ptr e, mpz_ptr z) {
     mpz_init(tmp);
     mpz_mod(tmp, z, e->field->order);
     from_mpz(e, tmp);
+    dp->flag = mpz_sgn(tmp) ? 2 : 0;
     mpz_clear(tmp);
-    dp->flag = 2;
   }
 }
 
@@ -300,7 +300,8 @@ static void fp_mul(element_ptr c, element_ptr a, element_ptr b) {
     mpn_mul_n(tmp, ad->d, bd->d, t);
 
     mpn_tdiv_qr(qp, cd->d, 0, tmp, 2 * t, p->primelimbs, t);
-    cd->flag = 2;
+    // The modulus may be composite, so check for zero.
+    cd->flag = mpn_zero_p(cd->d, t) ? 0 : 2;
 
     pbc_free(buf);
   }
@@ -329,6 +330,7 @@ static void fp_square(element_ptr c, element_ptr a) {
 
     diff = p->limbs - z1->_mp_size;
     if (diff) memset(&z1->_mp_d[z1->_mp_size], 0, diff * sizeof(mp_limb_t));
+    if (!z1->_mp_size) cd->flag = 0;
 
     //mpn_sqr_n() might make the code below faster than the code above
     //but GMP doesn't expose this function
@@ -352,7 +354,6 @@ static void fp_mul_si(element_ptr c, element_ptr a, signed long int op) {
   if (!ad->flag || !op) {
     cd->flag = 0;
   } else {
-    cd->flag = 2;
     fp_field_data_ptr p = a->field->data;
     size_t t = p->limbs;
     mp_limb_t* tmp = pbc_malloc((t + 1) * sizeof(mp_limb_t));
@@ -361,7 +362,8 @@ static void fp_mul_si(element_ptr c, element_ptr a, signed long int op) {
     tmp[t] = mpn_mul_1(tmp, ad->d, t, labs(op));
     mpn_tdiv_qr(qp, cd->d, 0, tmp, t + 1, p->primelimbs, t);
     pbc_free(tmp);
-    if (op < 0) {               //TODO: don't need to check c != 0 this time
+    cd->flag = mpn_zero_p(cd->d, t) ? 0 : 2;
+    if (op < 0) {
       fp_neg(c, c);
     }
   }
@@ -377,8 +379,8 @@ static void fp_pow_mpz(element_ptr c, element_ptr a, mpz_ptr op) {
     fp_to_mpz(z, a);
     mpz_powm(z, z, op, a->field->order);
     from_mpz(c, z);
+    cd->flag = mpz_sgn(z) ? 2 : 0;
     mpz_clear(z);
-    cd->flag = 2;
   }
 }
 
diff --git a/arith/montfp.c b/arith/montfp.c
index d6d0953..3e125eb 100644
--- a/arith/montfp.c
+++ b/arith/montfp.c
@@ -373,7 +373,8 @@ static void fp_mul(element_ptr c, element_ptr a, element_ptr b) {
   } else {
     fptr p = c->field->data;
     mont_mul(cd->d, ad->d, bd->d, p);
-    cd->flag = 2;
+    // The modulus may be composite, so check for zero.
+    cd->flag = mpn_zero_p(cd->d, p->limbs) ? 0 : 2;
   }
 }
 
@@ -391,8 +392,8 @@ static void fp_pow_mpz(element_ptr c, element_ptr a, mpz_ptr op) {
     mpz_mul_2exp(z, z, p->bytes * 8);
     mpz_mod(z, z, a->field->order);
     set_limbs(cd->d, z, p->limbs);
+    cd->flag = mpz_sgn(z) ? 2 : 0;
     mpz_clear(z);
-    cd->flag = 2;
   }
 }
 
-- 
2.43.0


From b417933ab76780634a2c163e118ef7d9ac4fb40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:07 +0000
Subject: [PATCH 04/56] fix: decoding bytes could yield an unreduced residue

Bytes or hashes encoding an integer not below the modulus produced elements
that were not reduced (naive, zero-flag) or a nonzero-flagged zero
(Montgomery).
---
 arith/fasterfp.c |  7 +------
 arith/montfp.c   | 10 +---------
 arith/naivefp.c  |  2 ++
 3 files changed, 4 insertions(+), 15 deletions(-)

diff --git a/arith/fasterfp.c b/arith/fasterfp.c
index ae76973..3f4b529 100644
--- a/arith/fasterfp.c
+++ b/arith/fasterfp.c
@@ -483,7 +483,6 @@ static int fp_to_bytes(unsigned char *data, element_t a) {
 }
 
 static int fp_from_bytes(element_t a, const unsigned char *data) {
-  dataptr ad = a->data;
   int n;
   mpz_t z;
 
@@ -491,11 +490,7 @@ static int fp_from_bytes(element_t a, const unsigned char *data) {
 
   n = a->field->fixed_length_in_bytes;
   mpz_import(z, n, 1, 1, 1, 0, data);
-  if (!mpz_sgn(z)) ad->flag = 0;
-  else {
-    ad->flag = 2;
-    from_mpz(a, z);
-  }
+  fp_set_mpz(a, z);
   mpz_clear(z);
   return n;
 }
diff --git a/arith/montfp.c b/arith/montfp.c
index 3e125eb..e6e162e 100644
--- a/arith/montfp.c
+++ b/arith/montfp.c
@@ -499,8 +499,6 @@ static int fp_to_bytes(unsigned char *data, element_t a) {
 }
 
 static int fp_from_bytes(element_t a, const unsigned char *data) {
-  fptr p = a->field->data;
-  eptr ad = a->data;
   int n;
   mpz_t z;
 
@@ -508,13 +506,7 @@ static int fp_from_bytes(element_t a, const unsigned char *data) {
 
   n = a->field->fixed_length_in_bytes;
   mpz_import(z, n, 1, 1, 1, 0, data);
-  if (!mpz_sgn(z)) ad->flag = 0;
-  else {
-    ad->flag = 2;
-    mpz_mul_2exp(z, z, p->bytes * 8);
-    mpz_mod(z, z, a->field->order);
-    set_limbs(ad->d, z, p->limbs);
-  }
+  fp_set_mpz(a, z);
   mpz_clear(z);
   return n;
 }
diff --git a/arith/naivefp.c b/arith/naivefp.c
index 1248641..1ad573f 100644
--- a/arith/naivefp.c
+++ b/arith/naivefp.c
@@ -177,6 +177,7 @@ static void zp_random(element_ptr n) {
 
 static void zp_from_hash(element_ptr n, const void *data, int len) {
   pbc_mpz_from_hash(n->data, n->field->order, data, len);
+  mpz_mod(n->data, n->data, n->field->order);
 }
 
 static int zp_is1(element_ptr n) {
@@ -215,6 +216,7 @@ static int zp_from_bytes(element_t e, const unsigned char *data) {
   int n;
   n = e->field->fixed_length_in_bytes;
   mpz_import(z, n, 1, 1, 1, 0, data);
+  mpz_mod(z, z, e->field->order);
   return n;
 }
 
-- 
2.43.0


From c7f95c9dd0013a75e1b953ea153272f45ac77042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:28 +0000
Subject: [PATCH 05/56] fix: Montgomery multiplication lost a carry for moduli
 near a power of 2^64

Adding the high limb of a[i]*b to the accumulator can itself overflow; only
the overflow of the second addition was propagated. For example (p-1)^2 was
wrong for p = 2^128 - 159.
---
 arith/montfp.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/arith/montfp.c b/arith/montfp.c
index e6e162e..186f2b3 100644
--- a/arith/montfp.c
+++ b/arith/montfp.c
@@ -344,9 +344,11 @@ static inline void mont_mul(mp_limb_t *c, mp_limb_t *a, mp_limb_t *b,
   z[t + 1] = z[t] < v;  // Handle overflow.
   for (i = 1; i < t; i++) {
     u = (z[i] + a[i] * b[0]) * p->negpinv;
-    v = z[t + i] += mpn_addmul_1(z + i, b, t, a[i]);
+    mp_limb_t carry = mpn_addmul_1(z + i, b, t, a[i]);
+    v = z[t + i] += carry;
+    carry = v < carry;  // This addition can overflow too.
     z[t + i] += mpn_addmul_1(z + i, p->primelimbs, t, u);
-    z[t + i + 1] = z[t + i] < v;
+    z[t + i + 1] = carry + (z[t + i] < v);
   }
   if (z[t * 2] || mpn_cmp(z + t, p->primelimbs, t) >= 0) {
     mpn_sub_n(c, z + t, p->primelimbs, t);
-- 
2.43.0


From 92ac25cd5a8e2016912cdb18568ae20230db6363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:12 +0000
Subject: [PATCH 06/56] fix: square roots of base-field elements in quadratic
 extensions

When the input lies in the base field, the general formula may divide by zero
and return a wrong root (or zero).
---
 arith/fieldquadratic.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/arith/fieldquadratic.c b/arith/fieldquadratic.c
index c785005..a8e4e36 100644
--- a/arith/fieldquadratic.c
+++ b/arith/fieldquadratic.c
@@ -360,6 +360,19 @@ static void fq_sqrt(element_ptr n, element_ptr e) {
   element_ptr nqr = fq_nqr(n->field);
   element_t e0, e1, e2;
 
+  if (element_is0(p->y)) {
+    // The root is either in the base field or a multiple of sqrt(nqr).
+    if (element_is_sqr(p->x)) {
+      element_sqrt(r->x, p->x);
+      element_set0(r->y);
+    } else {
+      element_div(r->y, p->x, nqr);
+      element_sqrt(r->y, r->y);
+      element_set0(r->x);
+    }
+    return;
+  }
+
   //if (a+b sqrt(nqr))^2 = x+y sqrt(nqr) then
   //2a^2 = x +- sqrt(x^2 - nqr y^2)
   //(take the sign which allows a to exist)
@@ -529,6 +542,19 @@ static void fi_sqrt(element_ptr n, element_ptr e) {
   eptr r = n->data;
   element_t e0, e1, e2;
 
+  if (element_is0(p->y)) {
+    // The root is either in the base field or a multiple of i.
+    if (element_is_sqr(p->x)) {
+      element_sqrt(r->x, p->x);
+      element_set0(r->y);
+    } else {
+      element_neg(r->y, p->x);
+      element_sqrt(r->y, r->y);
+      element_set0(r->x);
+    }
+    return;
+  }
+
   // If (a+bi)^2 = x+yi then 2a^2 = x +- sqrt(x^2 + y^2)
   // where we choose the sign so that a exists, and 2ab = y.
   // Thus 2b^2 = - (x -+ sqrt(x^2 + y^2)).
-- 
2.43.0


From f6484d65299a589a4f5fe2ec398100417cab6a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:12 +0000
Subject: [PATCH 07/56] fix: zero was not recognised as a square in polynomial
 extension fields

Besides the wrong answer, 0 could be chosen as a quadratic nonresidue.
---
 arith/poly.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arith/poly.c b/arith/poly.c
index 62e63c0..ea95bc6 100644
--- a/arith/poly.c
+++ b/arith/poly.c
@@ -619,6 +619,8 @@ static int polymod_is_sqr(element_ptr e) {
   mpz_t z;
   element_t e0;
 
+  // 0 is a square.
+  if (element_is0(e)) return 1;
   element_init(e0, e->field);
   mpz_init(z);
   mpz_sub_ui(z, e->field->order, 1);
-- 
2.43.0


From 0a14ed17e0cbded79f1a6de8d64699c054decd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:26 +0000
Subject: [PATCH 08/56] fix: projective Miller loop of type D and G pairings
 used x for y

---
 ecc/d_param.c | 2 +-
 ecc/g_param.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecc/d_param.c b/ecc/d_param.c
index f5070f8..24d09df 100644
--- a/ecc/d_param.c
+++ b/ecc/d_param.c
@@ -281,7 +281,7 @@ static void cc_miller_no_denom_proj(element_t res, mpz_t q, element_t P,
 
   element_set(Z, P);
   Zx = curve_x_coord(Z);
-  Zy = curve_x_coord(Z);
+  Zy = curve_y_coord(Z);
 
   element_set1(v);
   m = (mp_bitcnt_t)mpz_sizeinbase(q, 2);
diff --git a/ecc/g_param.c b/ecc/g_param.c
index 63842a2..be2c7d5 100644
--- a/ecc/g_param.c
+++ b/ecc/g_param.c
@@ -269,7 +269,7 @@ static void cc_miller_no_denom_proj(element_t res, mpz_t q, element_t P,
 
   element_set(Z, P);
   Zx = curve_x_coord(Z);
-  Zy = curve_x_coord(Z);
+  Zy = curve_y_coord(Z);
 
   element_set1(v);
   m = (mp_bitcnt_t)mpz_sizeinbase(q, 2);
-- 
2.43.0


From 82e1c687db2209b749c0807fbe0e59e7421e84e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:10 +0000
Subject: [PATCH 09/56] fix: type E elliptic net pairing failed when its inputs
 were multiples of each other

---
 ecc/e_param.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/ecc/e_param.c b/ecc/e_param.c
index c85e692..ac5d421 100644
--- a/ecc/e_param.c
+++ b/ecc/e_param.c
@@ -481,9 +481,10 @@ static void e_pairing(element_ptr out, element_ptr in1, element_ptr in2,
   element_clear(QR);
 }
 
-// in1, in2 are from E(F_q), out from F_q^2.
+// in1, in2 are from E(F_q), out from F_q.
 // Pairing via elliptic nets (see Stange).
-static void e_pairing_ellnet(element_ptr out, element_ptr in1, element_ptr in2,
+// Requires in2 to lie outside the subgroup generated by in1.
+static void e_ellnet(element_ptr out, element_ptr in1, element_ptr in2,
     pairing_t pairing) {
   const element_ptr a = curve_a_coeff(in1);
   const element_ptr b = curve_b_coeff(in1);
@@ -791,6 +792,22 @@ static void e_pairing_ellnet(element_ptr out, element_ptr in1, element_ptr in2,
   element_clear(v);
 }
 
+// The two inputs may well be multiples of each other, in which case terms of
+// the elliptic net vanish, so as in e_pairing() we evaluate at Q + R and R.
+static void e_pairing_ellnet(element_ptr out, element_ptr in1, element_ptr in2,
+    pairing_t pairing) {
+  e_pairing_data_ptr p = pairing->data;
+  element_t QR, e0;
+  element_init(QR, p->Eq);
+  element_init_same_as(e0, out);
+  element_add(QR, in2, p->R);
+  e_ellnet(out, in1, QR, pairing);
+  e_ellnet(e0, in1, p->R, pairing);
+  element_div(out, out, e0);
+  element_clear(QR);
+  element_clear(e0);
+}
+
 static void phi_identity(element_ptr out, element_ptr in, pairing_ptr pairing) {
   (void) pairing;
   element_set(out, in);
-- 
2.43.0


From bd182a878970c71ace82811f569cfbd6d2828199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:09 +0000
Subject: [PATCH 10/56] fix: type D and G pairing preprocessing overflowed its
 buffer for r = 2^k - 1

---
 ecc/d_param.c | 2 +-
 ecc/g_param.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecc/d_param.c b/ecc/d_param.c
index 24d09df..b8fef91 100644
--- a/ecc/d_param.c
+++ b/ecc/d_param.c
@@ -874,7 +874,7 @@ static void d_pairing_pp_init(pairing_pp_t p, element_ptr in1, pairing_t pairing
 
   m = (mp_bitcnt_t)mpz_sizeinbase(q, 2);
   m = (m > 2 ? m - 2 : 0);
-  p->data = pbc_malloc(sizeof(pp_coeff_t) * 2 * m);
+  p->data = pbc_malloc(sizeof(pp_coeff_t) * (2 * m + 1));
   coeff = (pp_coeff_t *) p->data;
   pp = coeff[0];
 
diff --git a/ecc/g_param.c b/ecc/g_param.c
index be2c7d5..e718b91 100644
--- a/ecc/g_param.c
+++ b/ecc/g_param.c
@@ -696,7 +696,7 @@ static void g_pairing_pp_init(pairing_pp_t p, element_ptr in1, pairing_t pairing
 
   m = (mp_bitcnt_t)mpz_sizeinbase(q, 2);
   m = (m > 2 ? m - 2 : 0);
-  p->data = pbc_malloc(sizeof(pp_coeff_t) * 2 * m);
+  p->data = pbc_malloc(sizeof(pp_coeff_t) * (2 * m + 1));
   coeff = (pp_coeff_t *) p->data;
   pp = coeff[0];
 
-- 
2.43.0


From e80575115849d882e294bd75aef4ea7d2c262fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:09 +0000
Subject: [PATCH 11/56] fix: preprocessed pairings without a special routine
 kept a pointer to the caller's element

---
 ecc/pairing.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ecc/pairing.c b/ecc/pairing.c
index 5cb60a3..463c69f 100644
--- a/ecc/pairing.c
+++ b/ecc/pairing.c
@@ -60,7 +60,9 @@ static void default_option_set(struct pairing_s *pairing, char *key, char *value
 
 static void default_pp_init(pairing_pp_t p, element_ptr in1, pairing_t pairing) {
   UNUSED_VAR(pairing);
-  p->data = (void *) in1;
+  element_ptr e = p->data = pbc_malloc(sizeof(element_t));
+  element_init_same_as(e, in1);
+  element_set(e, in1);
 }
 
 static void default_pp_apply(element_ptr out, element_ptr in2, pairing_pp_t p) {
@@ -68,7 +70,8 @@ static void default_pp_apply(element_ptr out, element_ptr in2, pairing_pp_t p) {
 }
 
 static void default_pp_clear(pairing_pp_t p) {
-  UNUSED_VAR(p);
+  element_clear(p->data);
+  pbc_free(p->data);
 }
 
 void pairing_init_pbc_param(pairing_t pairing, pbc_param_ptr p) {
-- 
2.43.0


From 316228f7adb626167ec2170373d25a5d82e0d73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:09 +0000
Subject: [PATCH 12/56] fix: a product of pairings was the identity as soon as
 one input was

---
 include/pbc_pairing.h | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/pbc_pairing.h b/include/pbc_pairing.h
index 1f127fb..ffa6078 100644
--- a/include/pbc_pairing.h
+++ b/include/pbc_pairing.h
@@ -153,19 +153,24 @@ the groups G1, G2 respectively, and 'out' must belong to the group GT.
 static inline void element_prod_pairing(
     element_t out, element_t in1[], element_t in2[], int n) {
   pairing_ptr pairing = out->field->pairing;
-  int i;
+  int i, has_identity = 0;
   PBC_ASSERT(pairing->GT == out->field, "pairing output mismatch");
   for(i = 0; i < n; i++) {
     PBC_ASSERT(pairing->G1 == in1[i]->field, "pairing 1st input mismatch");
     PBC_ASSERT(pairing->G2 == in2[i]->field, "pairing 2nd input mismatch");
-    if (element_is0(in1[i])) {
-      element_set0(out);
-      return;
-    }
-    if (element_is0(in2[i])) {
-      element_set0(out);
-      return;
+    if (element_is0(in1[i]) || element_is0(in2[i])) has_identity = 1;
+  }
+  if (has_identity || n < 1) {
+    // Only the factors involving the identity are 1, not the whole product.
+    element_t t;
+    element_init_same_as(t, out);
+    element_set1(out);
+    for(i = 0; i < n; i++) {
+      pairing_apply(t, in1[i], in2[i], pairing);
+      element_mul(out, out, t);
     }
+    element_clear(t);
+    return;
   }
   pairing->prod_pairings((element_ptr) out->data, in1, in2, n, pairing);
 }
-- 
2.43.0


From 892568b27b8a5918997a6ddbabaae2bff2ee3a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:44 +0000
Subject: [PATCH 13/56] fix: batch addition and doubling of points failed on
 points needing no slope

A point at infinity, a point of order two or two points with the same
x-coordinate put a zero (or stale coordinates) into the shared product of
denominators, which ruined every entry of the batch.
---
 ecc/curve.c | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/ecc/curve.c b/ecc/curve.c
index a1ed428..d477ca6 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -219,29 +219,20 @@ static void multi_double(element_ptr c[], element_ptr a[], int n) {
   element_init(e1,q->y->field);
   element_init(e2,q->y->field);
 
-  for(i=0; i<n; i++){
-    q=a[i]->data; r=c[i]->data;
-    element_init(table[i],q->y->field);
-
-    if (q->inf_flag) {
-      r->inf_flag = 1;
-      continue;
-    }
-    if (element_is0(q->y)) {
-      r->inf_flag = 1;
-      continue;
-    }
-  }
   //to compute 1/2y multi. see Cohen's GTM139 Algorithm 10.3.4
+  //points whose double is O have no 1/2y, and are left out of the product
   for(i=0; i<n; i++){
     q=a[i]->data;
-    element_double(table[i],q->y);
+    element_init(table[i],q->y->field);
+    if (q->inf_flag || element_is0(q->y)) element_set1(table[i]);
+    else element_double(table[i],q->y);
     if(i>0) element_mul(table[i],table[i],table[i-1]);
   }
   element_invert(e2,table[n-1]); //ONLY ONE inv is required now.
   for(i=n-1; i>0; i--){
     q=a[i]->data;
     element_mul(table[i],table[i-1],e2);
+    if (q->inf_flag || element_is0(q->y)) continue;
     element_mul(e2,e2,q->y);
     element_double(e2,e2); //e2=e2*2y_j
   }
@@ -250,7 +241,10 @@ static void multi_double(element_ptr c[], element_ptr a[], int n) {
   for(i=0; i<n; i++){
     q=a[i]->data;
     r=c[i]->data;
-    if(r->inf_flag) continue;
+    if (q->inf_flag || element_is0(q->y)) {
+      r->inf_flag = 1;
+      continue;
+    }
 
     //e2=lambda = (3x^2 + a) / 2y
     element_square(e2, q->x);
@@ -280,6 +274,10 @@ static void multi_double(element_ptr c[], element_ptr a[], int n) {
   pbc_free(table);
 }
 
+static inline int needs_no_slope(point_ptr p, point_ptr q) {
+  return p->inf_flag || q->inf_flag || !element_cmp(p->x, q->x);
+}
+
 //compute c_i=a_i+b_i at one time.
 static void multi_add(element_ptr c[], element_ptr a[], element_ptr b[], int n){
   int i;
@@ -294,20 +292,21 @@ static void multi_add(element_ptr c[], element_ptr a[], element_ptr b[], int n){
   element_init(e1, p->x->field);
   element_init(e2, p->x->field);
 
-  element_init(table[0], p->x->field);
-  element_sub(table[0], q->x, p->x);
-  for(i=1; i<n; i++){
+  //pairs that need no 1/(x2-x1) are left out of the product
+  for(i=0; i<n; i++){
     p = a[i]->data;
     q = b[i]->data;
     element_init(table[i], p->x->field);
-    element_sub(table[i], q->x, p->x);
-    element_mul(table[i], table[i], table[i-1]);
+    if (needs_no_slope(p, q)) element_set1(table[i]);
+    else element_sub(table[i], q->x, p->x);
+    if(i>0) element_mul(table[i], table[i], table[i-1]);
   }
   element_invert(e2, table[n-1]);
   for(i=n-1; i>0; i--){
     p = a[i]->data;
     q = b[i]->data;
     element_mul(table[i], table[i-1], e2);
+    if (needs_no_slope(p, q)) continue;
     element_sub(e1, q->x, p->x);
     element_mul(e2,e2,e1); //e2=e2*(x2_j-x1_j)
   }
-- 
2.43.0


From a8bdfd24b111d75dbce8c98e4e2fb9c6466952f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:44 +0000
Subject: [PATCH 14/56] fix: integer multiples and halves of points and roots
 of unity

The generic mul_si and halve multiply by the image of an integer, but
groups have no such image: element_mul_si and element_halve gave wrong
results on elliptic curve groups, GT and the type I group.
---
 arith/field.c       | 20 ++++++++++++++++++++
 ecc/curve.c         |  2 ++
 ecc/eta_T_3.c       |  2 ++
 ecc/pairing.c       |  2 ++
 include/pbc_field.h |  4 ++++
 5 files changed, 30 insertions(+)

diff --git a/arith/field.c b/arith/field.c
index 5fcbf28..664bd06 100644
--- a/arith/field.c
+++ b/arith/field.c
@@ -412,6 +412,26 @@ static void generic_halve(element_ptr r, element_ptr a) {
   element_clear(e0);
 }
 
+// In a group that is not a ring, integers act by repeated addition.
+void group_mul_si(element_ptr r, element_ptr a, signed long int n) {
+  mpz_t z;
+  mpz_init_set_si(z, n);
+  mpz_abs(z, z);
+  element_mul_mpz(r, a, z);
+  if (n < 0) element_neg(r, r);
+  mpz_clear(z);
+}
+
+// Requires the order of the group to be odd.
+void group_halve(element_ptr r, element_ptr a) {
+  mpz_t z;
+  mpz_init(z);
+  mpz_add_ui(z, r->field->order, 1);
+  mpz_fdiv_q_2exp(z, z, 1);
+  element_mul_mpz(r, a, z);
+  mpz_clear(z);
+}
+
 static void zero_to_mpz(mpz_t z, element_ptr a) {
   UNUSED_VAR(a);
   mpz_set_ui(z, 0);
diff --git a/ecc/curve.c b/ecc/curve.c
index d477ca6..b94d826 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -710,6 +710,8 @@ void field_init_curve_ab(field_ptr f, element_ptr a, element_ptr b, mpz_t order,
   f->add = f->mul = curve_mul;
   f->multi_add = multi_add;
   f->mul_mpz = element_pow_mpz;
+  f->mul_si = group_mul_si;
+  f->halve = group_halve;
   f->cmp = curve_cmp;
   f->set0 = f->set1 = curve_set1;
   f->is0 = f->is1 = curve_is1;
diff --git a/ecc/eta_T_3.c b/ecc/eta_T_3.c
index 44396b7..2db6ce9 100644
--- a/ecc/eta_T_3.c
+++ b/ecc/eta_T_3.c
@@ -214,6 +214,8 @@ void field_init_eta_T_3(field_t f, field_t base) {
     f->set1 = f->set0 = point_set0;
     f->is1 = f->is0 = point_is0;
     f->mul_mpz = f->pow_mpz;
+    f->mul_si = group_mul_si;
+    f->halve = group_halve;
     f->out_str = point_out_str;
     f->field_clear = point_field_clear;
     f->name = "eta_T_3 point group";
diff --git a/ecc/pairing.c b/ecc/pairing.c
index 463c69f..eccf5a0 100644
--- a/ecc/pairing.c
+++ b/ecc/pairing.c
@@ -267,6 +267,8 @@ void pairing_GT_init(pairing_ptr pairing, field_t f) {
   gt->add = mulg_mul;
   gt->sub = mulg_div;
   gt->mul_mpz = mulg_pow_mpz;
+  gt->mul_si = group_mul_si;
+  gt->halve = group_halve;
   gt->neg = mulg_invert;
   gt->is0 = mulg_is1;
 
diff --git a/include/pbc_field.h b/include/pbc_field.h
index 0c16d55..149257c 100644
--- a/include/pbc_field.h
+++ b/include/pbc_field.h
@@ -540,6 +540,10 @@ void field_gen_nqr(field_ptr f);
 
 void field_init(field_ptr f);
 
+// Default mul_si and halve for groups that are not rings.
+void group_mul_si(element_ptr r, element_ptr a, signed long int n);
+void group_halve(element_ptr r, element_ptr a);
+
 static inline int mpz_is0(mpz_t z) {
   return !mpz_sgn(z);
   //return !mpz_cmp_ui(z, 0);
-- 
2.43.0


From 3bb74da403f2fe40bdda6cbd14ca6bcfd42ff495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:44 +0000
Subject: [PATCH 15/56] fix: inversion in GF(3^2m) was missing, so inverting in
 GT of type I crashed

---
 arith/ternary_extension_field.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/arith/ternary_extension_field.c b/arith/ternary_extension_field.c
index b4e9f3f..c98295b 100644
--- a/arith/ternary_extension_field.c
+++ b/arith/ternary_extension_field.c
@@ -653,6 +653,25 @@ static void gf32m_cubic(element_t e, element_t a) {
     element_clear(c1);
 }
 
+/* $e <- a^{-1}$ */
+static void gf32m_invert(element_t e, element_t a) {
+    element_ptr a0 = GF32M(a)->_0, a1 = GF32M(a)->_1, e0 = GF32M(e)->_0, e1 =
+            GF32M(e)->_1;
+    field_ptr base = BASE(a);
+    element_t t0, t1;
+    element_init(t0, base);
+    element_init(t1, base);
+    element_mul(t0, a0, a0);
+    element_mul(t1, a1, a1);
+    element_add(t0, t0, t1);
+    element_invert(t0, t0); // t0 == (a0^2 + a1^2)^{-1}
+    element_mul(t1, a1, t0);
+    element_mul(e0, a0, t0);
+    element_neg(e1, t1);
+    element_clear(t0);
+    element_clear(t1);
+}
+
 void field_clear_gf32m(field_t f) {
     UNUSED_VAR(f);
 }
@@ -674,6 +693,7 @@ void field_init_gf32m(field_t f, field_t b) {
     f->neg = gf32m_neg;
     f->mul = gf32m_mult;
     f->cubic = gf32m_cubic;
+    f->invert = gf32m_invert;
     f->item_count = gf32m_item_count;
     f->item = gf32m_item;
     f->out_str = gf32m_out_str;
-- 
2.43.0


From e595f869eb37df81d57b833fb6dd6870fb40284c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:05 +0000
Subject: [PATCH 16/56] fix: preprocessed powers with an exponent above the
 field order were wrong

---
 arith/field.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/arith/field.c b/arith/field.c
index 664bd06..cb7e8dc 100644
--- a/arith/field.c
+++ b/arith/field.c
@@ -306,8 +306,13 @@ static void element_pow_base_table(element_ptr x, mpz_ptr power,
     element_set1(x);
     return;
   }
-  if (mpz_cmp(n, x->field->order) > 0) {
-    mpz_mod(n, n, x->field->order);
+  // The table only covers exponents up to the order. Larger ones cannot be
+  // reduced modulo the order: that is not the order of the multiplicative
+  // group of a field.
+  if (mpz_sizeinbase(n, 2) > (size_t) base_table->bits) {
+    element_pow_mpz(x, base_table->table[0][1], n);
+    mpz_clear(n);
+    return;
   }
 
   element_init(result, x->field);
-- 
2.43.0


From c8faace1e7f7237d2ec5ee8782fd19ec4594720b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:05 +0000
Subject: [PATCH 17/56] fix: 0^0 was 0 in some prime field implementations and
 1 elsewhere

---
 arith/fasterfp.c | 2 +-
 arith/montfp.c   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/arith/fasterfp.c b/arith/fasterfp.c
index 3f4b529..f936452 100644
--- a/arith/fasterfp.c
+++ b/arith/fasterfp.c
@@ -372,7 +372,7 @@ static void fp_mul_si(element_ptr c, element_ptr a, signed long int op) {
 static void fp_pow_mpz(element_ptr c, element_ptr a, mpz_ptr op) {
   dataptr ad = a->data;
   dataptr cd = c->data;
-  if (!ad->flag) cd->flag = 0;
+  if (!ad->flag && mpz_sgn(op)) cd->flag = 0;
   else {
     mpz_t z;
     mpz_init(z);
diff --git a/arith/montfp.c b/arith/montfp.c
index 186f2b3..06dbad4 100644
--- a/arith/montfp.c
+++ b/arith/montfp.c
@@ -385,7 +385,7 @@ static void fp_pow_mpz(element_ptr c, element_ptr a, mpz_ptr op) {
   fptr p = a->field->data;
   eptr ad = a->data;
   eptr cd = c->data;
-  if (!ad->flag) cd->flag = 0;
+  if (!ad->flag && mpz_sgn(op)) cd->flag = 0;
   else {
     mpz_t z;
     mpz_init(z);
-- 
2.43.0


From 217c4e399bae12cbfe4a4ba92123316fe9269170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:12 +0000
Subject: [PATCH 18/56] fix: encoding the point at infinity wrote stale
 coordinates, decoding to another point

---
 ecc/curve.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ecc/curve.c b/ecc/curve.c
index b94d826..52b385e 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -602,6 +602,18 @@ static int curve_length_in_bytes(element_ptr x) {
 static int curve_to_bytes(unsigned char *data, element_t e) {
   point_ptr P = e->data;
   int len;
+  if (P->inf_flag) {
+    // Write (0, 0), or (0, 1) if that lies on the curve: decodes to O.
+    curve_data_ptr cdp = e->field->data;
+    element_t t;
+    element_init(t, cdp->field);
+    element_set0(t);
+    len = element_to_bytes(data, t);
+    if (element_is0(cdp->b)) element_set1(t);
+    len += element_to_bytes(data + len, t);
+    element_clear(t);
+    return len;
+  }
   len = element_to_bytes(data, P->x);
   len += element_to_bytes(data + len, P->y);
   return len;
-- 
2.43.0


From 4e8bcf50c07d443fd5c39104a4d23a1f2cf904fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:40 +0000
Subject: [PATCH 19/56] fix: compressed and x-only decoding accepted bytes that
 are no point, and could not represent O

---
 ecc/curve.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/ecc/curve.c b/ecc/curve.c
index 52b385e..773d977 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -775,6 +775,12 @@ void field_init_curve_ab(field_ptr f, element_ptr a, element_ptr b, mpz_t order,
 int element_to_bytes_compressed(unsigned char *data, element_ptr e) {
   point_ptr P = e->data;
   int len;
+  if (P->inf_flag) {
+    len = element_length_in_bytes(P->x);
+    memset(data, 0, len);
+    data[len] = 2;
+    return len + 1;
+  }
   len = element_to_bytes(data, P->x);
   if (element_sign(P->y) > 0) {
     data[len] = 1;
@@ -786,8 +792,7 @@ int element_to_bytes_compressed(unsigned char *data, element_ptr e) {
 }
 
 // Computes a point on the elliptic curve Y^2 = X^3 + a X + b given its
-// x-coordinate.
-// Requires a solution to exist.
+// x-coordinate, or O if there is none.
 static void point_from_x(point_ptr p, element_t x, element_t a, element_t b) {
   element_t t;
 
@@ -797,8 +802,10 @@ static void point_from_x(point_ptr p, element_t x, element_t a, element_t b) {
   element_add(t, t, a);
   element_mul(t, t, x);
   element_add(t, t, b);
-  element_sqrt(p->y, t);
-  element_set(p->x, x);
+  if (element_is_sqr(t)) {
+    element_sqrt(p->y, t);
+    element_set(p->x, x);
+  } else p->inf_flag = 1;
 
   element_clear(t);
 }
@@ -816,6 +823,8 @@ int element_from_bytes_compressed(element_ptr e, const unsigned char *data) {
   len = element_from_bytes(P->x, data);
   point_from_x(P, P->x, cdp->a, cdp->b);
 
+  if (data[len] == 2) P->inf_flag = 1;
+  if (P->inf_flag) return len + 1;
   if (data[len]) {
     if (element_sign(P->y) < 0) element_neg(P->y, P->y);
   } else if (element_sign(P->y) > 0) {
-- 
2.43.0


From 520ad75e378f0c1daa2ee31626830f0537c9a3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:40 +0000
Subject: [PATCH 20/56] fix: reading elements from malformed text succeeded or
 left a partial value

---
 arith/field.c          |  5 +++--
 arith/fieldquadratic.c | 15 +++++++++++----
 arith/poly.c           | 11 ++++++++---
 ecc/curve.c            | 10 +++++++---
 4 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/arith/field.c b/arith/field.c
index cb7e8dc..ad84bfe 100644
--- a/arith/field.c
+++ b/arith/field.c
@@ -748,7 +748,7 @@ void element_tonelli(element_ptr x, element_ptr a) {
 // junk. This simplifies code for parsing elements like "[123, 456]".
 // TODO: Handle 0x, 0X and 0 conventions for hexadecimal and octal.
 int pbc_mpz_set_str(mpz_t z, const char *s, int base) {
-  int b, i = 0;
+  int b, i = 0, digits = 0;
   mpz_set_ui(z, 0);
   if (!base) b = 10;
   else if (base < 2 || base > 36) return 0;
@@ -774,9 +774,10 @@ int pbc_mpz_set_str(mpz_t z, const char *s, int base) {
 
     mpz_mul_ui(z, z, b);
     mpz_add_ui(z, z, j);
+    digits++;
     i++;
   }
-  return i;
+  return digits ? i : 0;
 }
 
 // Divides `n` with primes up to `limit`. For each factor found,
diff --git a/arith/fieldquadratic.c b/arith/fieldquadratic.c
index a8e4e36..610f44d 100644
--- a/arith/fieldquadratic.c
+++ b/arith/fieldquadratic.c
@@ -144,16 +144,23 @@ static void fq_set_multiz(element_ptr e, multiz m) {
 
 static int fq_set_str(element_ptr e, const char *s, int base) {
   const char *cp = s;
+  int n;
   element_set0(e);
   while (*cp && isspace(*cp)) cp++;
   if (*cp++ != '[') return 0;
   eptr p = e->data;
-  cp += element_set_str(p->x, cp, base);
+  if (!(n = element_set_str(p->x, cp, base))) goto fail;
+  cp += n;
   while (*cp && isspace(*cp)) cp++;
-  if (*cp++ != ',') return 0;
-  cp += element_set_str(p->y, cp, base);
-  if (*cp++ != ']') return 0;
+  if (*cp++ != ',') goto fail;
+  if (!(n = element_set_str(p->y, cp, base))) goto fail;
+  cp += n;
+  while (*cp && isspace(*cp)) cp++;
+  if (*cp++ != ']') goto fail;
   return (int)(cp - s);
+fail:
+  element_set0(e);
+  return 0;
 }
 
 static int fq_sign(element_ptr n) {
diff --git a/arith/poly.c b/arith/poly.c
index ea95bc6..716660d 100644
--- a/arith/poly.c
+++ b/arith/poly.c
@@ -1277,12 +1277,17 @@ static int polymod_set_str(element_ptr e, const char *s, int base) {
   while (*cp && isspace(*cp)) cp++;
   if (*cp++ != '[') return 0;
   for (i=0; i<n; i++) {
-    cp += element_set_str(coeff[i], cp, base);
+    int len = element_set_str(coeff[i], cp, base);
+    if (!len) goto fail;
+    cp += len;
     while (*cp && isspace(*cp)) cp++;
-    if (i<n-1 && *cp++ != ',') return 0;
+    if (i<n-1 && *cp++ != ',') goto fail;
   }
-  if (*cp++ != ']') return 0;
+  if (*cp++ != ']') goto fail;
   return (int)(cp - s);
+fail:
+  element_set0(e);
+  return 0;
 }
 
 static int polymod_coeff_count(element_ptr e) {
diff --git a/ecc/curve.c b/ecc/curve.c
index 773d977..82803e8 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -554,21 +554,25 @@ static void curve_set_multiz(element_ptr a, multiz m) {
 static int curve_set_str(element_ptr e, const char *s, int base) {
   point_ptr p = e->data;
   const char *cp = s;
+  int n;
   element_set0(e);
   while (*cp && isspace(*cp)) cp++;
   if (*cp == 'O') {
     return (int)(cp - s + 1);
   }
-  p->inf_flag = 0;
   if (*cp != '[') return 0;
   cp++;
-  cp += element_set_str(p->x, cp, base);
+  if (!(n = element_set_str(p->x, cp, base))) return 0;
+  cp += n;
   while (*cp && isspace(*cp)) cp++;
   if (*cp != ',') return 0;
   cp++;
-  cp += element_set_str(p->y, cp, base);
+  if (!(n = element_set_str(p->y, cp, base))) return 0;
+  cp += n;
+  while (*cp && isspace(*cp)) cp++;
   if (*cp != ']') return 0;
 
+  p->inf_flag = 0;
   if (!curve_is_valid_point(e)) {
     element_set0(e);
     return 0;
-- 
2.43.0


From 7309fc75c7616f8e10c719ee4f45de77589732be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:40 +0000
Subject: [PATCH 21/56] fix: element_out_str returned the wrong length for
 quadratic extensions

---
 arith/fieldquadratic.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arith/fieldquadratic.c b/arith/fieldquadratic.c
index 610f44d..2fa1ffa 100644
--- a/arith/fieldquadratic.c
+++ b/arith/fieldquadratic.c
@@ -90,7 +90,7 @@ static int fq_is1(element_ptr e) {
 }
 
 static size_t fq_out_str(FILE *stream, int base, element_ptr e) {
-  size_t result = 4, status;
+  size_t result, status;
   eptr p = e->data;
   if (EOF == fputc('[', stream)) return 0;
   result = element_out_str(stream, base, p->x);
@@ -99,7 +99,7 @@ static size_t fq_out_str(FILE *stream, int base, element_ptr e) {
   status = element_out_str(stream, base, p->y);
   if (!status) return 0;
   if (EOF == fputc(']', stream)) return 0;
-  return result + status;
+  return result + status + 4;
 }
 
 static int fq_snprint(char *s, size_t n, element_ptr e) {
-- 
2.43.0


From 3111afb284f9641fe735252b581cd6548cf7f1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:51 +0000
Subject: [PATCH 22/56] fix: two prime field implementations could not print or
 read elements as strings

---
 arith/fasterfp.c | 21 +++++++++++++++++++++
 arith/fastfp.c   | 21 +++++++++++++++++++++
 2 files changed, 42 insertions(+)

diff --git a/arith/fasterfp.c b/arith/fasterfp.c
index f936452..416259e 100644
--- a/arith/fasterfp.c
+++ b/arith/fasterfp.c
@@ -142,6 +142,25 @@ static size_t fp_out_str(FILE * stream, int base, element_ptr e) {
   return result;
 }
 
+static int fp_snprint(char *s, size_t n, element_ptr e) {
+  int result;
+  mpz_t z;
+  mpz_init(z);
+  fp_to_mpz(z, e);
+  result = gmp_snprintf(s, n, "%Zd", z);
+  mpz_clear(z);
+  return result;
+}
+
+static int fp_set_str(element_ptr e, const char *s, int base) {
+  mpz_t z;
+  mpz_init(z);
+  int result = pbc_mpz_set_str(z, s, base);
+  fp_set_mpz(e, z);
+  mpz_clear(z);
+  return result;
+}
+
 static void fp_set(element_ptr c, element_ptr a) {
   dataptr ad = a->data;
   dataptr cd = c->data;
@@ -514,6 +533,8 @@ void field_init_faster_fp(field_ptr f, mpz_t prime) {
   f->set_si = fp_set_si;
   f->set_mpz = fp_set_mpz;
   f->out_str = fp_out_str;
+  f->snprint = fp_snprint;
+  f->set_str = fp_set_str;
   f->add = fp_add;
   f->sub = fp_sub;
   f->set = fp_set;
diff --git a/arith/fastfp.c b/arith/fastfp.c
index 62a20ef..f4d1295 100644
--- a/arith/fastfp.c
+++ b/arith/fastfp.c
@@ -109,6 +109,25 @@ static size_t fp_out_str(FILE * stream, int base, element_ptr e) {
   return result;
 }
 
+static int fp_snprint(char *s, size_t n, element_ptr e) {
+  int result;
+  mpz_t z;
+  mpz_init(z);
+  fp_to_mpz(z, e);
+  result = gmp_snprintf(s, n, "%Zd", z);
+  mpz_clear(z);
+  return result;
+}
+
+static int fp_set_str(element_ptr e, const char *s, int base) {
+  mpz_t z;
+  mpz_init(z);
+  int result = pbc_mpz_set_str(z, s, base);
+  fp_set_mpz(e, z);
+  mpz_clear(z);
+  return result;
+}
+
 static void fp_add(element_ptr r, element_ptr a, element_ptr b) {
   fp_field_data_ptr p = r->field->data;
   const size_t t = p->limbs;
@@ -352,6 +371,8 @@ void field_init_fast_fp(field_ptr f, mpz_t prime) {
   f->set_si = fp_set_si;
   f->set_mpz = fp_set_mpz;
   f->out_str = fp_out_str;
+  f->snprint = fp_snprint;
+  f->set_str = fp_set_str;
   f->add = fp_add;
   f->sub = fp_sub;
   f->set = fp_set;
-- 
2.43.0


From a8423c35f573d613956e227ddce592128a5f8b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:51 +0000
Subject: [PATCH 23/56] fix: printing an unprintable element into a one-byte
 buffer left it unterminated

---
 arith/field.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arith/field.c b/arith/field.c
index ad84bfe..00fd684 100644
--- a/arith/field.c
+++ b/arith/field.c
@@ -568,7 +568,7 @@ static element_ptr generic_get_y(element_ptr e) {
 static int default_element_snprint(char *s, size_t n, element_t e) {
   UNUSED_VAR(e);
   if (n == 1) {
-    s[0] = '0';
+    s[0] = '\0';
   } else if (n >= 2) {
     s[0] = '?';
     s[1] = '\0';
-- 
2.43.0


From d8d56651dd20eaba3f0d1e4859abdeff3b753537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:17 +0000
Subject: [PATCH 24/56] fix: a random source ending early yielded numbers made
 of stale memory

---
 arith/random.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/arith/random.c b/arith/random.c
index 69f3135..914e1ad 100644
--- a/arith/random.c
+++ b/arith/random.c
@@ -31,17 +31,20 @@ static void file_mpz_random(mpz_t r, mpz_t limit, void *data) {
   size_t bytecount, leftover;
   unsigned char *bytes;
   mpz_t z;
-  mpz_init(z);
   fp = fopen(filename, "rb");
-  if (!fp) return;
+  if (!fp) {
+    pbc_warn("could not open source of random bits");
+    return;
+  }
+  mpz_init(z);
   n = (mp_bitcnt_t)mpz_sizeinbase(limit, 2);
   bytecount = (size_t)((n + 7) / 8);
   leftover = (size_t)(n % 8);
   bytes = (unsigned char *) pbc_malloc(bytecount);
   for (;;) {
-    if (!fread(bytes, 1, bytecount, fp)) {
+    if (fread(bytes, 1, bytecount, fp) != bytecount) {
       pbc_warn("error reading source of random bits");
-      return;
+      goto clean;
     }
     if (leftover) {
       *bytes = *bytes % (1 << leftover);
@@ -49,8 +52,9 @@ static void file_mpz_random(mpz_t r, mpz_t limit, void *data) {
     mpz_import(z, bytecount, 1, 1, 0, 0, bytes);
     if (mpz_cmp(z, limit) < 0) break;
   }
-  fclose(fp);
   mpz_set(r, z);
+clean:
+  fclose(fp);
   mpz_clear(z);
   pbc_free(bytes);
 }
-- 
2.43.0


From dd45b0d1ddfa556fc7009162fc092ddf3e1552f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:17 +0000
Subject: [PATCH 25/56] fix: random or hashed elements of GT could be zero,
 which is not in the group

---
 ecc/pairing.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ecc/pairing.c b/ecc/pairing.c
index eccf5a0..5062b59 100644
--- a/ecc/pairing.c
+++ b/ecc/pairing.c
@@ -121,12 +121,15 @@ static void gt_out_info(FILE *out, field_ptr f) {
 static void gt_from_hash(element_ptr e, const void *data, int len) {
   pairing_ptr pairing = e->field->pairing;
   element_from_hash(e->data, data, len);
+  if (element_is0(e->data)) element_set1(e->data);
   pairing->finalpow(e);
 }
 
 static void gt_random(element_ptr e) {
   pairing_ptr pairing = e->field->pairing;
-  element_random(e->data);
+  do {
+    element_random(e->data);
+  } while (element_is0(e->data));
   pairing->finalpow(e);
 }
 
-- 
2.43.0


From 5b0e15bdfb631dd0b64d73b199f0bb080a9fb708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:05 +0000
Subject: [PATCH 26/56] fix: random elements of GF(3^m) ignored the random
 source and were not uniform

---
 arith/ternary_extension_field.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/arith/ternary_extension_field.c b/arith/ternary_extension_field.c
index c98295b..ee8a684 100644
--- a/arith/ternary_extension_field.c
+++ b/arith/ternary_extension_field.c
@@ -22,6 +22,7 @@
 #include "pbc_utils.h"
 #include "pbc_memory.h"
 #include "pbc_field.h"
+#include "pbc_random.h"
 
 typedef unsigned long gf3;
 
@@ -207,20 +208,20 @@ static int gf3m_is1(element_t e) {
 
 /* set $a$ to be a random element in $GF(3^m)$ */
 static void gf3m_random(element_t a) {
-    /* TODO: use uniform distribution? */
     params *c = PARAM(a);
-    unsigned rm = c->m % W;
-    const unsigned long i1 = ~0ul;
-    unsigned long i2 = (1ul << rm) - 1;
     unsigned long *a1 = DATA1(a), *a2 = DATA2(a);
     unsigned i;
-    for (i = 0; i < c->len - 1; i++, a1++, a2++) { /* TODO: if $RAND_MAX < i1$ ? */
-        *a1 = rand() & i1;
-        *a2 = rand() & i1 & ~(*a1); /* assuring there is no bit that a1[x] & a2[x] == 1 */
+    mpz_t z;
+    mpz_init(z);
+    pbc_mpz_random(z, a->field->order);
+    for (i = 0; i < c->len; i++)
+        a1[i] = a2[i] = 0;
+    for (i = 0; i < c->m; i++) { /* the digits of $z$ in base 3 are the coefficients */
+        unsigned long d = mpz_fdiv_q_ui(z, z, 3);
+        if (d == 1) a1[i / W] |= 1ul << (i % W);
+        else if (d == 2) a2[i / W] |= 1ul << (i % W);
     }
-    unsigned long x = rm ? i2 : i1;
-    *a1 = rand() & x;
-    *a2 = rand() & x & ~(*a1);
+    mpz_clear(z);
 }
 
 static void swap(unsigned long *a, unsigned long *b) {
-- 
2.43.0


From e93411a4cd728ba7fcd9570865dd6ec1f055b44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:05 +0000
Subject: [PATCH 27/56] fix: a random point of a type I group could be off the
 curve

---
 ecc/eta_T_3.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecc/eta_T_3.c b/ecc/eta_T_3.c
index 2db6ce9..e3372ab 100644
--- a/ecc/eta_T_3.c
+++ b/ecc/eta_T_3.c
@@ -97,9 +97,9 @@ static void point_random(element_t a) {
     element_set1(e1);
     element_init(t2, f);
     do {
-        element_random(x);
-        if (element_is0(x))
-            continue;
+        do {
+            element_random(x);
+        } while (element_is0(x));
         element_cubic(t, x); // t == x^3
         element_sub(t, t, x); // t == x^3 - x
         element_add(t, t, e1); // t == x^3 - x + 1
-- 
2.43.0


From 0b4d0da18eec443fd90487bfa32b8426b1da945f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:05 +0000
Subject: [PATCH 28/56] fix: the final power of type G pairings divided by zero
 on inputs mapped to 1

---
 ecc/g_param.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecc/g_param.c b/ecc/g_param.c
index e718b91..1963505 100644
--- a/ecc/g_param.c
+++ b/ecc/g_param.c
@@ -411,6 +411,10 @@ static void cc_miller_no_denom_affine(element_t res, mpz_t q, element_t P,
 // Requires in != out.
 // Mangles in.
 static void lucas_even(element_ptr out, element_ptr in, mpz_t cofactor) {
+  if (element_is1(in)) {
+    element_set(out, in);
+    return;
+  }
   element_t temp;
   element_init_same_as(temp, out);
   element_ptr in0 = element_x(in);
-- 
2.43.0


From 7b8f2c9626979bccfaf4b1e9a654cf07cb36a671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:05 +0000
Subject: [PATCH 29/56] fix: every message hashed to the same element of GT for
 types D, F and G

---
 arith/poly.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/arith/poly.c b/arith/poly.c
index 716660d..7bb61b7 100644
--- a/arith/poly.c
+++ b/arith/poly.c
@@ -339,11 +339,15 @@ static void polymod_random(element_ptr e) {
 }
 
 static void polymod_from_hash(element_ptr e, const void *data, int len) {
-  // TODO: Improve this.
+  // Each coefficient gets its own part of the data: if all were equal, every
+  // element would be a multiple of 1 + x + ... by a constant, which the final
+  // powering of a pairing takes to the same element of GT.
   element_t *coeff = e->data;
   int i, n = polymod_field_degree(e->field);
+  int k = len / n;
   for (i=0; i<n; i++) {
-    element_from_hash(coeff[i], data, len);
+    element_from_hash(coeff[i], (char *)data + i * k,
+        i < n - 1 ? k : len - i * k);
   }
 }
 
-- 
2.43.0


From c9076035f9174d3de062c73415f67b636c6504a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:08 +0000
Subject: [PATCH 30/56] fix: parameters with unparsable or out of range numbers
 were accepted

---
 ecc/d_param.c | 14 +++++++++++---
 ecc/param.c   | 11 +++++++++--
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/ecc/d_param.c b/ecc/d_param.c
index b8fef91..c0ae4bd 100644
--- a/ecc/d_param.c
+++ b/ecc/d_param.c
@@ -1214,14 +1214,22 @@ int pbc_param_init_d(pbc_param_ptr par, struct symtab_s *tab) {
   err += lookup_mpz(p->hk, tab, "hk");
   err += lookup_mpz(p->nqr, tab, "nqr");
 
+  if (err || p->k < 2 || p->k % 2) {
+    p->k = 0;
+    return 1;
+  }
+
   d = p->k / 2;
-  p->coeff = pbc_realloc(p->coeff, sizeof(mpz_t) * d);
   for (i=0; i<d; i++) {
     sprintf(s, "coeff%d", i);
+    p->coeff = pbc_realloc(p->coeff, sizeof(mpz_t) * (i + 1));
     mpz_init(p->coeff[i]);
-    err += lookup_mpz(p->coeff[i], tab, s);
+    if (lookup_mpz(p->coeff[i], tab, s)) {
+      p->k = 2 * (i + 1);
+      return 1;
+    }
   }
-  return err;
+  return 0;
 }
 
 void pbc_param_init_d_gen(pbc_param_ptr p, pbc_cm_ptr cm) {
diff --git a/ecc/param.c b/ecc/param.c
index 35db0c4..16a0e20 100644
--- a/ecc/param.c
+++ b/ecc/param.c
@@ -145,7 +145,10 @@ int lookup_mpz(mpz_t z, symtab_t tab, const char *key) {
     pbc_error("missing param: `%s'", key);
     return 1;
   }
-  mpz_set_str(z, data, 0);
+  if (mpz_set_str(z, data, 0)) {
+    pbc_error("bad param: `%s'", key);
+    return 1;
+  }
   return 0;
 }
 
@@ -158,7 +161,11 @@ int lookup_int(int *n, symtab_t tab, const char *key) {
   }
   mpz_init(z);
 
-  mpz_set_str(z, data, 0);
+  if (mpz_set_str(z, data, 0) || !mpz_fits_sint_p(z)) {
+    pbc_error("bad param: `%s'", key);
+    mpz_clear(z);
+    return 1;
+  }
   *n = (int)mpz_get_si(z);
   mpz_clear(z);
 
-- 
2.43.0


From b6526455b79867f9c730651773183de587c2e073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:08 +0000
Subject: [PATCH 31/56] fix: rejected or repeated pairing parameters leaked
 memory

---
 ecc/param.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ecc/param.c b/ecc/param.c
index 16a0e20..210287f 100644
--- a/ecc/param.c
+++ b/ecc/param.c
@@ -104,6 +104,7 @@ static void read_symtab(symtab_t tab, const char *input, size_t limit) {
       pbc_free(key);
       break;
     }
+    pbc_free(symtab_at(tab, key)); // A later value replaces an earlier one.
     symtab_put(tab, pbc_strdup(tok->s), key);
     pbc_free(key);
   }
@@ -194,7 +195,10 @@ static int param_set_tab(pbc_param_t par, symtab_t tab) {
     for(i = 0; i < sizeof(funtab)/sizeof(*funtab); i++) {
       if (!strcmp(s, funtab[i].s)) {
         res = funtab[i].fun(par, tab);
-        if (res) pbc_error("bad pairing parameters");
+        if (res) {
+          pbc_error("bad pairing parameters");
+          pbc_param_clear(par);
+        }
         return res;
       }
     }
-- 
2.43.0


From 7ecdc1a8d0900d4b5e546ffb8269b6652386b377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:03 +0000
Subject: [PATCH 32/56] fix: Freeman curve search returned parameters of no
 curve when U = 10 mod 15

---
 ecc/mnt.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecc/mnt.c b/ecc/mnt.c
index 0d51f52..5e17174 100644
--- a/ecc/mnt.c
+++ b/ecc/mnt.c
@@ -354,7 +354,9 @@ static int freeman_step2(int (*callback)(pbc_cm_t, void *), void *data,
   if (!mpz_cmp_ui(x, 5)) {
     mpz_sub_ui(x, U, 5);
   } else if (!mpz_cmp_ui(x, 10)) {
+    // -U = 5 mod 15 solves the same equation.
     mpz_add_ui(x, U, 5);
+    mpz_neg(x, x);
   } else {
     pbc_die("should never reach here");
     mpz_clear(x);
-- 
2.43.0


From 7c35d3ba7f6eff047613dde2f74d92e0ec14a6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:03 +0000
Subject: [PATCH 33/56] fix: finding the root of a linear polynomial crashed

---
 arith/poly.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/arith/poly.c b/arith/poly.c
index 7bb61b7..c838e2b 100644
--- a/arith/poly.c
+++ b/arith/poly.c
@@ -1659,6 +1659,12 @@ int poly_findroot(element_ptr root, element_ptr poly) {
   element_t p, x, r, fac, g;
   mpz_t q;
 
+  if (poly_degree(poly) == 1) {
+    element_div(root, poly_coeff(poly, 0), poly_coeff(poly, 1));
+    element_neg(root, root);
+    return 0;
+  }
+
   mpz_init(q);
   mpz_set(q, poly_base_field(poly)->order);
 
-- 
2.43.0


From da8c5f97dadac38c792edf81649b385e81c88488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:14 +0000
Subject: [PATCH 34/56] fix: MNT curve search with a discriminant above 2^32 /
 3 overflowed

---
 ecc/mnt.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecc/mnt.c b/ecc/mnt.c
index 5e17174..7ff4023 100644
--- a/ecc/mnt.c
+++ b/ecc/mnt.c
@@ -291,7 +291,8 @@ int pbc_cm_search_d(int (*callback)(pbc_cm_t, void *), void *data,
   mpz_t t0, t1, t2;
 
   mpz_init(D3);
-  mpz_set_ui(D3, D * 3);
+  mpz_set_ui(D3, D);
+  mpz_mul_ui(D3, D3, 3);
 
   if (mpz_perfect_square_p(D3)) {
     // The only squares that differ by 8 are 1 and 9,
-- 
2.43.0


From a6423ef4e17201aeea565fe54a470f708410d3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:18 +0000
Subject: [PATCH 35/56] fix: curve searches reported orders above the limit and
 missed some below it

---
 ecc/mnt.c | 43 +++++++++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/ecc/mnt.c b/ecc/mnt.c
index 7ff4023..827d54c 100644
--- a/ecc/mnt.c
+++ b/ecc/mnt.c
@@ -200,7 +200,7 @@ void pbc_cm_clear(pbc_cm_t cm) {
 }
 
 static int mnt_step2(int (*callback)(pbc_cm_t, void *), void *data,
-    unsigned int D, mpz_t U) {
+    unsigned int D, mpz_t U, unsigned int bitlimit) {
   int d;
   mpz_t n, l, q;
   mpz_t p;
@@ -236,6 +236,12 @@ static int mnt_step2(int (*callback)(pbc_cm_t, void *), void *data,
   } else {
     mpz_add(n, q, l);
   }
+  if (mpz_sizeinbase(n, 2) > bitlimit) {
+    mpz_clear(n);
+    mpz_clear(q);
+    mpz_clear(l);
+    return 0;
+  }
 
   mpz_init(p);
   mpz_init(r);
@@ -311,11 +317,15 @@ int pbc_cm_search_d(int (*callback)(pbc_cm_t, void *), void *data,
   int i, n;
   int res = 0;
   n = ps->count;
-  if (n) for (;;) {
+  int more = n;
+  while (more) {
+    more = 0;
     for (i=0; i<n; i++) {
+      if (2 * mpz_sizeinbase(ps->x[i], 2) > bitlimit + 10) continue;
+      more = 1;
       //element_printf("%Zd, %Zd\n", ps->x[i], ps->y[i]);
-      res = mnt_step2(callback, data, D, ps->x[i]);
-      if (res) goto toobig;
+      res = mnt_step2(callback, data, D, ps->x[i], bitlimit);
+      if (res) goto done;
       //compute next solution as follows
       //if p, q is current solution
       //compute new solution p', q' via
@@ -325,7 +335,6 @@ int pbc_cm_search_d(int (*callback)(pbc_cm_t, void *), void *data,
       mpz_mul(t1, ps->miny, ps->y[i]);
       mpz_mul(t1, t1, D3);
       mpz_add(t0, t0, t1);
-      if (2 * mpz_sizeinbase(t0, 2) > bitlimit + 10) goto toobig;
       mpz_mul(t2, ps->minx, ps->y[i]);
       mpz_mul(t1, ps->miny, ps->x[i]);
       mpz_add(t2, t2, t1);
@@ -333,7 +342,7 @@ int pbc_cm_search_d(int (*callback)(pbc_cm_t, void *), void *data,
       mpz_set(ps->y[i], t2);
     }
   }
-toobig:
+done:
 
   pell_solution_clear(ps);
   mpz_clear(t0);
@@ -344,7 +353,7 @@ toobig:
 }
 
 static int freeman_step2(int (*callback)(pbc_cm_t, void *), void *data,
-    unsigned int D, mpz_t U) {
+    unsigned int D, mpz_t U, unsigned int bitlimit) {
   mpz_t n, x, q;
   mpz_t p;
   mpz_t r, cofac;
@@ -397,6 +406,13 @@ static int freeman_step2(int (*callback)(pbc_cm_t, void *), void *data,
   mpz_add(n, n, r);
   mpz_sub(n, q, n);
   mpz_sub_ui(n, n, 2);
+  if (mpz_sizeinbase(n, 2) > bitlimit) {
+    mpz_clear(n);
+    mpz_clear(q);
+    mpz_clear(r);
+    mpz_clear(x);
+    return 0;
+  }
 
   mpz_init(p);
   mpz_init(cofac);
@@ -467,10 +483,14 @@ int pbc_cm_search_g(int (*callback)(pbc_cm_t, void *), void *data,
 
   int i, n;
   n = ps->count;
-  if (n) for (;;) {
+  int more = n;
+  while (more) {
+    more = 0;
     for (i=0; i<n; i++) {
-      res = freeman_step2(callback, data, D, ps->x[i]);
-      if (res) goto toobig;
+      if (4 * mpz_sizeinbase(ps->x[i], 2) > bitlimit + 20) continue;
+      more = 1;
+      res = freeman_step2(callback, data, D, ps->x[i], bitlimit);
+      if (res) goto done;
       // Compute next solution as follows:
       // If p, q is current solution
       // then compute new solution p', q' via
@@ -480,7 +500,6 @@ int pbc_cm_search_g(int (*callback)(pbc_cm_t, void *), void *data,
       mpz_mul(t1, ps->miny, ps->y[i]);
       mpz_mul(t1, t1, D15);
       mpz_add(t0, t0, t1);
-      if (2 * mpz_sizeinbase(t0, 2) > bitlimit + 10) goto toobig;
       mpz_mul(t2, ps->minx, ps->y[i]);
       mpz_mul(t1, ps->miny, ps->x[i]);
       mpz_add(t2, t2, t1);
@@ -488,7 +507,7 @@ int pbc_cm_search_g(int (*callback)(pbc_cm_t, void *), void *data,
       mpz_set(ps->y[i], t2);
     }
   }
-toobig:
+done:
 
   pell_solution_clear(ps);
   mpz_clear(t0);
-- 
2.43.0


From 178cd2e6f75907f31101f3fd5ce0e2edef491ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:23 +0000
Subject: [PATCH 36/56] fix: Pollard rho divided by zero when a collision
 carried no information

---
 arith/dlog.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/arith/dlog.c b/arith/dlog.c
index bfa0d78..f9ae3ae 100644
--- a/arith/dlog.c
+++ b/arith/dlog.c
@@ -68,7 +68,7 @@ void element_dlog_pollard_rho(element_t x, element_t g, element_t h) {
   darray_t hole;
   int interval = 5;
   mpz_t counter;
-  int found = 0;
+  int found = 0, retry = 0;
 
   mpz_init(counter);
   element_init(g0, G);
@@ -150,6 +150,9 @@ void element_dlog_pollard_rho(element_t x, element_t g, element_t h) {
           mpz_clear(za);
           mpz_clear(zb);
           mpz_clear(zd);
+        } else if (element_is0(bsum)) {
+          // The collision says nothing about x: start again below.
+          retry = 1;
         } else {
           element_div(x, asum, bsum);
         }
@@ -184,4 +187,5 @@ void element_dlog_pollard_rho(element_t x, element_t g, element_t h) {
   element_clear(asum);
   element_clear(bsum);
   mpz_clear(counter);
+  if (retry) element_dlog_pollard_rho(x, g, h);
 }
-- 
2.43.0


From 96560ec5f482fe290d550c681eafa6406f7b64b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:23 +0000
Subject: [PATCH 37/56] fix: element_printf family printed %% as two percent
 signs

---
 misc/extend_printf.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/misc/extend_printf.c b/misc/extend_printf.c
index fa9bf2b..82bfa8c 100644
--- a/misc/extend_printf.c
+++ b/misc/extend_printf.c
@@ -50,7 +50,14 @@ static int do_print(int(*strcb)(void *, char *s),
       }
       if (!*(c + 1)) goto done;
       if (*(c + 1) != '%') break;
-      next = c + 2;
+      // Print up to and including the first of the two percent signs.
+      *(c + 1) = 0;
+      status = strcb(data, start);
+      if (status < 0) {
+        count = -1;
+        goto done;
+      } else count += status;
+      next = start = c + 2;
     }
     *c = 0;
     status = strcb(data, start);
-- 
2.43.0


From 4987fcf2e9912d9103f1f623e4ac391389b0e8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:23 +0000
Subject: [PATCH 38/56] fix: darray_remove_with_test removed only the first
 match; darray_copy of an empty array died

---
 misc/darray.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/misc/darray.c b/misc/darray.c
index 50b127f..676e782 100644
--- a/misc/darray.c
+++ b/misc/darray.c
@@ -99,20 +99,17 @@ void darray_remove(darray_ptr a, void *p)
 
 void darray_remove_with_test(darray_ptr a, int (*test)(void *))
 {
-    int i;
+    int i, n = 0;
     for (i=0; i<a->count; i++) {
-        if (test(a->item[i])) {
-            for (;i<a->count; i++) {
-                a->item[i] = a->item[i+1];
-            }
-            a->count--;
-        }
+        if (!test(a->item[i])) a->item[n++] = a->item[i];
     }
+    a->count = n;
 }
 
 void darray_copy(darray_ptr dst, darray_ptr src)
 {
-    darray_realloc(dst, src->count);
+    // Never shrink to nothing: a zero-sized reallocation may return NULL.
+    darray_realloc(dst, src->count ? src->count : max_init);
     memcpy(dst->item, src->item, src->count * sizeof(void *));
     dst->count = src->count;
 }
-- 
2.43.0


From 90563a5e8f65e7561a5c1b8e949ac3864e958ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:23 +0000
Subject: [PATCH 39/56] fix: integer ring halved to zero, called any perfect
 power a square, and wrote past its announced length

---
 arith/z.c | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/arith/z.c b/arith/z.c
index 6cc6c52..b9c0ec3 100644
--- a/arith/z.c
+++ b/arith/z.c
@@ -65,7 +65,7 @@ static void z_double(element_ptr n, element_ptr a) {
 }
 
 static void z_halve(element_ptr n, element_ptr a) {
-  mpz_tdiv_q_2exp(n->data, a->data, -1);
+  mpz_tdiv_q_2exp(n->data, a->data, 1);
 }
 
 static void z_mul(element_ptr n, element_ptr a, element_ptr b) {
@@ -124,7 +124,7 @@ static int z_cmp(element_ptr a, element_ptr b) {
 }
 
 static int z_is_sqr(element_ptr a) {
-  return mpz_perfect_power_p(a->data);
+  return mpz_perfect_square_p(a->data);
 }
 
 static void z_sqrt(element_ptr c, element_ptr a) {
@@ -146,10 +146,8 @@ static int z_to_bytes(unsigned char *data, element_t e) {
   size_t n = 4;
   size_t i;
 
-  if (!(msb % 8)) {
-    data[4] = 0;
-    n++;
-  }
+  data[4] = 0;
+  if (!(msb % 8)) n++;
   if (mpz_sgn(z) < 0) {
     mpz_export(data + n, NULL, 1, 1, 1, 0, z);
     data[4] |= 128;
@@ -181,19 +179,16 @@ static int z_from_bytes(element_t e, unsigned char *data) {
     n += ((unsigned int) *ptr) << 8 * (3 - i);
     ptr++;
   }
-  if (data[4] & 128) {
-    neg = 1;
-    data[4] &= 127;
-  }
+  if (n) neg = data[4] & 128;
   for (i=0; i<n; i++) {
-    mpz_set_ui(z1, *ptr);
+    mpz_set_ui(z1, i ? *ptr : *ptr & 127);
     mpz_mul_2exp(z1, z1, 8 * (n - 1 - i));
     ptr++;
     mpz_add(z, z, z1);
   }
   mpz_clear(z1);
   if (neg) mpz_neg(z, z);
-  return (int)n;
+  return (int)n + 4;
 }
 
 static void z_to_mpz(mpz_ptr z, element_ptr a) {
@@ -201,7 +196,7 @@ static void z_to_mpz(mpz_ptr z, element_ptr a) {
 }
 
 static int z_length_in_bytes(element_ptr a) {
-  return (int)((mpz_sizeinbase(a->data, 2) + 7) / 8 + 4);
+  return (int)(mpz_sizeinbase(a->data, 2) / 8 + 1 + 4);
 }
 
 static void z_out_info(FILE *out, field_ptr f) {
-- 
2.43.0


From ebd22424688bd754afb3cb23b233375be7763b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:23 +0000
Subject: [PATCH 40/56] fix: multinomial subtraction, comparison and byte
 conversion

---
 arith/multiz.c | 123 ++++++++++++++++++++++++-------------------------
 1 file changed, 61 insertions(+), 62 deletions(-)

diff --git a/arith/multiz.c b/arith/multiz.c
index a4f15ff..7bef14c 100644
--- a/arith/multiz.c
+++ b/arith/multiz.c
@@ -255,15 +255,6 @@ static void f_add(element_ptr n, element_ptr a, element_ptr b) {
   multiz_free(delme);
 }
 
-static multiz multiz_new_sub(const multiz a, const multiz b) {
-  return multiz_new_bin(a, b, mpz_sub);
-}
-static void f_sub(element_ptr n, element_ptr a, element_ptr b) {
-  multiz delme = n->data;
-  n->data = multiz_new_sub(a->data, b->data);
-  multiz_free(delme);
-}
-
 static void mpzmul(mpz_t x, const mpz_t y, const mpz_t z) {
   mpz_mul(x, y, z);
 }
@@ -334,6 +325,18 @@ static multiz multiz_new_neg(multiz z) {
   return multiz_new_unary(z, (void(*)(mpz_t, const mpz_t, void *))mpzneg, NULL);
 }
 
+static multiz multiz_new_sub(const multiz a, const multiz b) {
+  multiz c = multiz_new_neg(b);
+  multiz x = multiz_new_add(a, c);
+  multiz_free(c);
+  return x;
+}
+static void f_sub(element_ptr n, element_ptr a, element_ptr b) {
+  multiz delme = n->data;
+  n->data = multiz_new_sub(a->data, b->data);
+  multiz_free(delme);
+}
+
 static void f_set(element_ptr n, element_ptr a) {
   multiz delme = n->data;
   n->data = multiz_clone(a->data);
@@ -371,13 +374,26 @@ static void f_from_hash(element_ptr n, const void *data, int len) {
   mpz_clear(z);
 }
 
-static int f_is1(element_ptr n) {
-  multiz ep = n->data;
-  return ep->type == T_MPZ && !mpz_cmp_ui(ep->z, 1);
+int multiz_is0(multiz m) {
+  if (T_MPZ == m->type) return mpz_is0(m->z);
+  int i;
+  for(i = 0; i < darray_count(m->a); i++) {
+    if (!multiz_is0(darray_at(m->a, i))) return 0;
+  }
+  return 1;
 }
 
-int multiz_is0(multiz m) {
-  return m->type == T_MPZ && mpz_is0(m->z);
+static int multiz_is1(multiz m) {
+  if (T_MPZ == m->type) return !mpz_cmp_ui(m->z, 1);
+  int i;
+  for(i = 1; i < darray_count(m->a); i++) {
+    if (!multiz_is0(darray_at(m->a, i))) return 0;
+  }
+  return multiz_is1(darray_at(m->a, 0));
+}
+
+static int f_is1(element_ptr n) {
+  return multiz_is1(n->data);
 }
 
 static int f_is0(element_ptr n) {
@@ -400,43 +416,25 @@ static element_ptr f_item(element_ptr e, int i) {
   return r;
 }
 
+// The i-th coefficient, or NULL if there is none. An integer is a constant.
+static multiz multiz_coeff(multiz m, int i) {
+  if (T_MPZ == m->type) return i ? NULL : m;
+  return i < darray_count(m->a) ? darray_at(m->a, i) : NULL;
+}
+
 // Usual meaning when both are integers.
-// Otherwise, compare coefficients.
+// Otherwise, compare coefficients, the leading ones first. NULL means zero.
 static int multiz_cmp(multiz a, multiz b) {
-  if (T_MPZ == a->type) {
-    if (T_MPZ == b->type) {
-      // Simplest case: both are integers.
-      return mpz_cmp(a->z, b->z);
-    }
-    // Leading coefficient of b.
-    while(T_ARR == b->type) b = darray_last(b->a);
-    PBC_ASSERT(T_MPZ == b->type, "no such type");
-    return -mpz_sgn(b->z);
+  if ((!a || T_MPZ == a->type) && (!b || T_MPZ == b->type)) {
+    if (!b) return a ? mpz_sgn(a->z) : 0;
+    if (!a) return -mpz_sgn(b->z);
+    return mpz_cmp(a->z, b->z);
   }
-  PBC_ASSERT(T_ARR == a->type, "no such type");
-  if (T_MPZ == b->type) {
-    // Leading coefficient of a.
-    while(T_ARR == a->type) a = darray_last(a->a);
-    PBC_ASSERT(T_MPZ == a->type, "no such type");
-    return mpz_sgn(a->z);
-  }
-  PBC_ASSERT(T_ARR == b->type, "no such type");
-  int m = darray_count(a->a);
-  int n = darray_count(b->a);
-  if (m > n) {
-    // Leading coefficient of a.
-    while(T_ARR == a->type) a = darray_last(a->a);
-    PBC_ASSERT(T_MPZ == a->type, "no such type");
-    return mpz_sgn(a->z);
-  }
-  if (n > m) {
-    // Leading coefficient of b.
-    while(T_ARR == b->type) b = darray_last(b->a);
-    PBC_ASSERT(T_MPZ == b->type, "no such type");
-    return -mpz_sgn(b->z);
-  }
-  for(n--; n >= 0; n--) {
-    int i = multiz_cmp(darray_at(a->a, n), darray_at(b->a, n));
+  int m = a && T_ARR == a->type ? darray_count(a->a) : 1;
+  int n = b && T_ARR == b->type ? darray_count(b->a) : 1;
+  for(n = m > n ? m - 1 : n - 1; n >= 0; n--) {
+    int i = multiz_cmp(a ? multiz_coeff(a, n) : NULL,
+                       b ? multiz_coeff(b, n) : NULL);
     if (i) return i;
   }
   return 0;
@@ -447,21 +445,25 @@ static int f_cmp(element_ptr x, element_ptr y) {
 
 static void f_field_clear(field_t f) { UNUSED_VAR (f); }
 
+// The constant coefficient.
+static mpz_ptr multiz_const(multiz ep) {
+  while(ep->type == T_ARR) ep = darray_at(ep->a, 0);
+  return ep->z;
+}
+
 // OpenSSL convention:
 //   4 bytes containing length
 //   followed by number in big-endian, most-significant bit set if negative
 //   (prepending null byte if necessary)
 // Positive numbers also the same as mpz_out_raw.
 static int z_to_bytes(unsigned char *data, element_t e) {
-  mpz_ptr z = e->data;
+  mpz_ptr z = multiz_const(e->data);
   size_t msb = mpz_sizeinbase(z, 2);
   size_t n = 4;
   size_t i;
 
-  if (!(msb % 8)) {
-    data[4] = 0;
-    n++;
-  }
+  data[4] = 0;
+  if (!(msb % 8)) n++;
   if (mpz_sgn(z) < 0) {
     mpz_export(data + n, NULL, 1, 1, 1, 0, z);
     data[4] |= 128;
@@ -480,12 +482,12 @@ static int z_to_bytes(unsigned char *data, element_t e) {
 static int z_from_bytes(element_t e, unsigned char *data) {
   unsigned char *ptr;
   size_t i, n;
-  mpz_ptr z = e->data;
+  f_set0(e);
+  mpz_ptr z = multiz_const(e->data);
   mpz_t z1;
   int neg = 0;
 
   mpz_init(z1);
-  mpz_set_ui(z, 0);
 
   ptr = data;
   n = 0;
@@ -493,23 +495,20 @@ static int z_from_bytes(element_t e, unsigned char *data) {
     n += ((unsigned int) *ptr) << 8 * (3 - i);
     ptr++;
   }
-  if (data[4] & 128) {
-    neg = 1;
-    data[4] &= 127;
-  }
+  if (n) neg = data[4] & 128;
   for (i=0; i<n; i++) {
-    mpz_set_ui(z1, *ptr);
+    mpz_set_ui(z1, i ? *ptr : *ptr & 127);
     mpz_mul_2exp(z1, z1, 8 * (n - 1 - i));
     ptr++;
     mpz_add(z, z, z1);
   }
   mpz_clear(z1);
   if (neg) mpz_neg(z, z);
-  return (int)n;
+  return (int)n + 4;
 }
 
 static int z_length_in_bytes(element_ptr a) {
-  return (int)((mpz_sizeinbase(a->data, 2) + 7) / 8 + 4);
+  return (int)(mpz_sizeinbase(multiz_const(a->data), 2) / 8 + 1 + 4);
 }
 
 static void f_out_info(FILE *out, field_ptr f) {
-- 
2.43.0


From f2dffe93570386236b123c4d89f62ffb03c5ae75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:23 +0000
Subject: [PATCH 41/56] fix: curve_set_multiz accepted pairs that are no points

---
 ecc/curve.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecc/curve.c b/ecc/curve.c
index 82803e8..91aff8e 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -548,6 +548,10 @@ static void curve_set_multiz(element_ptr a, multiz m) {
     p->inf_flag = 0;
     element_set_multiz(p->x, multiz_at(m, 0));
     element_set_multiz(p->y, multiz_at(m, 1));
+    if (!curve_is_valid_point(a)) {
+      pbc_warn("multiz is not a point");
+      element_set0(a);
+    }
   }
 }
 
-- 
2.43.0


From 07a0f6e385b0b13aaa6d7ea65b59dac74ce0fff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:41 +0000
Subject: [PATCH 42/56] fix: type A1 precomputation and the type E and F
 generators leaked memory

---
 ecc/a_param.c | 18 ++++++++++++++++++
 ecc/e_param.c |  2 ++
 ecc/f_param.c |  2 ++
 3 files changed, 22 insertions(+)

diff --git a/ecc/a_param.c b/ecc/a_param.c
index 22ebdb2..d7307c7 100644
--- a/ecc/a_param.c
+++ b/ecc/a_param.c
@@ -1622,9 +1622,27 @@ static void pp2_coeff_set(pp2_coeff_ptr p,
 
 static void a1_pairing_pp_clear(pairing_pp_t p) {
   void **pp = p->data;
+  // Same order as in a1_pairing_pp_init().
+  mp_bitcnt_t m = (mp_bitcnt_t)mpz_sizeinbase(p->pairing->r, 2);
+  m = (m > 2 ? m - 2 : 0);
   while (*pp) {
+    if (m && mpz_tstbit(p->pairing->r, m)) {
+      pp2_coeff_ptr ppp = *pp;
+      element_clear(ppp->cx2);
+      element_clear(ppp->cy2);
+      element_clear(ppp->cxy);
+      element_clear(ppp->cx);
+      element_clear(ppp->cy);
+      element_clear(ppp->c);
+    } else {
+      pp_coeff_ptr ppp = *pp;
+      element_clear(ppp->a);
+      element_clear(ppp->b);
+      element_clear(ppp->c);
+    }
     pbc_free(*pp);
     pp++;
+    m--;
   }
   pbc_free(p->data);
 }
diff --git a/ecc/e_param.c b/ecc/e_param.c
index ac5d421..31ebf9c 100644
--- a/ecc/e_param.c
+++ b/ecc/e_param.c
@@ -1020,5 +1020,7 @@ void pbc_param_init_e_gen(pbc_param_t par, int rbits, int qbits) {
   element_to_mpz(p->a, curve_field_a_coeff(cc));
   element_to_mpz(p->b, curve_field_b_coeff(cc));
 
+  field_clear(cc);
+  field_clear(Fq);
   mpz_clear(n);
 }
diff --git a/ecc/f_param.c b/ecc/f_param.c
index a27d585..204c699 100644
--- a/ecc/f_param.c
+++ b/ecc/f_param.c
@@ -529,6 +529,8 @@ void pbc_param_init_f_gen(pbc_param_t p, int bits) {
     element_clear(P);
     field_clear(c);
   }
+  element_clear(P);
+  field_clear(c);
   element_to_mpz(b, e1);
   element_clear(e1);
   field_init_quadratic(Fq2, Fq);
-- 
2.43.0


From 7275dcdcb8a4d48c50426f4da573e9743190c34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:35 +0000
Subject: [PATCH 43/56] fix: polynomial multiples and decoded polynomials kept
 leading zeros

---
 arith/poly.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arith/poly.c b/arith/poly.c
index c838e2b..5e6130a 100644
--- a/arith/poly.c
+++ b/arith/poly.c
@@ -267,6 +267,7 @@ static void poly_double(element_ptr f, element_ptr g) {
   for (i=0; i<n; i++) {
     element_double(pf->coeff->item[i], pg->coeff->item[i]);
   }
+  poly_remove_leading_zeroes(f);
 }
 
 static void poly_mul_mpz(element_ptr f, element_ptr g, mpz_ptr z) {
@@ -279,6 +280,7 @@ static void poly_mul_mpz(element_ptr f, element_ptr g, mpz_ptr z) {
   for (i=0; i<n; i++) {
     element_mul_mpz(pf->coeff->item[i], pg->coeff->item[i], z);
   }
+  poly_remove_leading_zeroes(f);
 }
 
 static void poly_mul_si(element_ptr f, element_ptr g, signed long int z) {
@@ -291,6 +293,7 @@ static void poly_mul_si(element_ptr f, element_ptr g, signed long int z) {
   for (i=0; i<n; i++) {
     element_mul_si(pf->coeff->item[i], pg->coeff->item[i], z);
   }
+  poly_remove_leading_zeroes(f);
 }
 
 static void poly_mul(element_ptr r, element_ptr f, element_ptr g) {
@@ -587,6 +590,7 @@ static int poly_from_bytes(element_t p, const unsigned char *buf) {
   for (i=0; i<count; i++) {
     result += element_from_bytes(poly_coeff(p, i), &buf[result]);
   }
+  poly_remove_leading_zeroes(p);
   return result;
 }
 
-- 
2.43.0


From 20ce6520e8b4623b16d365fcda49b53b244611af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:35 +0000
Subject: [PATCH 44/56] fix: SAFE_CLEAN builds did not wipe, and overran blocks
 shrunk by realloc; multiz items bypassed pbc_malloc

---
 arith/multiz.c |  2 +-
 misc/memory.c  | 14 ++++++++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/arith/multiz.c b/arith/multiz.c
index 7bef14c..1179a20 100644
--- a/arith/multiz.c
+++ b/arith/multiz.c
@@ -410,7 +410,7 @@ static int f_item_count(element_ptr e) {
 static element_ptr f_item(element_ptr e, int i) {
   multiz z = e->data;
   if (T_MPZ == z->type) return NULL;
-  element_ptr r = malloc(sizeof(*r));
+  element_ptr r = pbc_malloc(sizeof(*r));
   r->field = e->field;
   r->data = darray_at(z->a, i);
   return r;
diff --git a/misc/memory.c b/misc/memory.c
index 21d50dd..fad8f43 100644
--- a/misc/memory.c
+++ b/misc/memory.c
@@ -6,10 +6,14 @@
 #include "pbc_memory.h"
 
 #ifdef SAFE_CLEAN
+/* Called through a volatile pointer: a compiler may drop a plain memset() of
+ * memory that is freed right after. */
+static void *(*const volatile wipe)(void *, int, size_t) = memset;
+
 /* guarantee zeroing the memory */
 static void gmp_free(void *ptr, size_t size) {
   if(ptr)
-    memset(ptr, 0, size);
+    wipe(ptr, 0, size);
   free(ptr);
 }
 
@@ -23,7 +27,7 @@ static void* gmp_malloc(size_t size) {
 static void* gmp_realloc(void *old_ptr, size_t old_size, size_t new_size) {
   void *new_ptr = malloc(new_size);
   if(new_ptr && old_ptr)
-    memcpy(new_ptr, old_ptr, old_size);
+    memcpy(new_ptr, old_ptr, old_size < new_size ? old_size : new_size);
   gmp_free(old_ptr, old_size);
   return new_ptr;
 }
@@ -61,7 +65,7 @@ static void *pbc_mem_malloc(size_t size) {
 }
 
 static void pbc_mem_free(void *ptr) {
-  memset(ptr, 0, pbc_mem_get_size(ptr) + sizeof(size_t));
+  wipe(ptr, 0, pbc_mem_get_size(ptr) + sizeof(size_t));
   free(ptr);
 }
 
@@ -76,7 +80,9 @@ static void *default_pbc_realloc(void *old, size_t new_size) {
   if(!new) pbc_die("realloc() error");
   if(old) {
     old = pbc_ptr_to_mem(old);
-    memcpy(pbc_mem_to_ptr(new), pbc_mem_to_ptr(old), pbc_mem_get_size(old));
+    size_t size = pbc_mem_get_size(old);
+    if(size > new_size) size = new_size;
+    memcpy(pbc_mem_to_ptr(new), pbc_mem_to_ptr(old), size);
     pbc_mem_free(old);
   }
   return pbc_mem_to_ptr(new);
-- 
2.43.0


From 22c7f0d76a184d847cf77b4ab1db52c1a20308bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:12 +0000
Subject: [PATCH 45/56] fix: calculator's extend takes two arguments

---
 pbc/pbc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbc/pbc.c b/pbc/pbc.c
index a9c1385..0c07231 100644
--- a/pbc/pbc.c
+++ b/pbc/pbc.c
@@ -707,7 +707,7 @@ static val_ptr run_extend(val_ptr v[]) {
   element_free(poly);
   return val_new_field(f);
 }
-static fun_t fun_extend = {{ "extend", run_extend, 1, sig_field_elem }};
+static fun_t fun_extend = {{ "extend", run_extend, 2, sig_field_elem }};
 
 static void init_pairing(const char *s) {
   pairing_init_set_str(pairing, s);
-- 
2.43.0


From 034bdebfd9fe718770d44fe30b372c30ea01f09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:12 +0000
Subject: [PATCH 46/56] fix: calculator operators applied to an assignment
 changed the variable assigned

---
 pbc/pbc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pbc/pbc.c b/pbc/pbc.c
index 0c07231..a98dd7d 100644
--- a/pbc/pbc.c
+++ b/pbc/pbc.c
@@ -422,7 +422,8 @@ static val_ptr eval_assign(tree_ptr t) {
     return val_new_error("%s is reserved", tid->id);
   }
   symtab_put(tab, v, tid->id);
-  return v;
+  // Operators overwrite their operands: return a copy.
+  return v ? v->type->eval(v) : v;
 }
 
 static void assign_field(field_ptr f, const char* s) {
-- 
2.43.0


From 86de483493894a45c8b043e705570a2c7ea56d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:12 +0000
Subject: [PATCH 47/56] fix: calculator crashed on missing values, calls of
 elements, bad item indices and field casts

---
 pbc/pbc.c | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/pbc/pbc.c b/pbc/pbc.c
index a98dd7d..28b4f64 100644
--- a/pbc/pbc.c
+++ b/pbc/pbc.c
@@ -140,7 +140,8 @@ static val_ptr v_builtin(val_ptr v, tree_ptr t) {
   int i;
   for(i = 0; i < n; i++) {
     arg[i] = tree_eval(darray_at(t->child, i));
-    if (fun->sig[i] && arg[i]->type != fun->sig[i]) {
+    if (!arg[i] || (fun->sig[i] && arg[i]->type != fun->sig[i])) {
+      pbc_free(arg);
       return val_new_error("%s: argument %d type mismatch", fun->name, i + 1);
     }
   }
@@ -174,8 +175,13 @@ static val_ptr v_def_call(val_ptr v, tree_ptr t) {
 }
 
 static val_ptr v_field_cast(val_ptr v, tree_ptr t) {
-  // TODO: Check args, x is an element.
+  if (2 != darray_count(t->child)) {
+    return val_new_error("field: wrong number of arguments");
+  }
   val_ptr x = tree_eval(darray_at(t->child, 0));
+  if (!x || strcmp(x->type->name, "element")) {
+    return val_new_error("field: argument 1 type mismatch");
+  }
   element_ptr e = x->elem;
   if (e->field == M) {
     if (v->field == M) return x;
@@ -219,9 +225,15 @@ static val_ptr v_errcall(val_ptr v, tree_ptr t) {
   return v;
 }
 
+static val_ptr v_elemcall(val_ptr v, tree_ptr t) {
+  UNUSED_VAR(v);
+  UNUSED_VAR(t);
+  return val_new_error("not a function");
+}
+
 static struct val_type_s
-  // TODO: Replace NULL with get_coeff.
-  v_elem[1]  = {{  "element",    v_elem_out, v_elem_eval, NULL }},
+  // TODO: Replace v_elemcall with get_coeff.
+  v_elem[1]  = {{  "element",    v_elem_out, v_elem_eval, v_elemcall }},
   v_field[1] = {{    "field",   v_field_out,      v_self, v_field_cast }},
   v_fun[1]   = {{  "builtin", v_builtin_out,      v_self, v_builtin }},
   v_def[1]   = {{ "function",  v_define_out,      v_self, v_def_call }},
@@ -364,11 +376,10 @@ static val_ptr eval_list(tree_ptr t) {
   int i;
   for(i = 0; i < n; i++) {
     val_ptr x = tree_eval(darray_at(t->child, i));
-    // TODO: Also check x is a multiz.
-    if (v_error == x->type) {
+    if (x && v_error == x->type) {
       return x;
     }
-    if (v_elem != x->type) {
+    if (!x || v_elem != x->type || x->elem->field != M) {
       return val_new_error("element expected in list");
     }
     if (!i) e = multiz_new_list(x->elem);
@@ -379,10 +390,10 @@ static val_ptr eval_list(tree_ptr t) {
 
 static val_ptr eval_ternary(tree_ptr t) {
   val_ptr x = tree_eval(darray_at(t->child, 0));
-  if (v_error == x->type) {
+  if (x && v_error == x->type) {
     return x;
   }
-  if (x->type != v_elem) {
+  if (!x || x->type != v_elem) {
     return val_new_error("element expected in ternary operator");
   }
   if (!element_is0(x->elem)) {
@@ -402,6 +413,7 @@ static val_ptr eval_id(tree_ptr t) {
 
 static val_ptr eval_funcall(tree_ptr t) {
   val_ptr x = tree_eval(darray_last(t->child));
+  if (!x) return val_new_error("not a function");
   return x->type->funcall(x, t);
 }
 
@@ -578,6 +590,11 @@ static val_ptr run_item(val_ptr v[]) {
   mpz_t z;
   mpz_init(z);
   element_to_mpz(z, v[1]->elem);
+  int n = element_item_count(v[0]->elem);
+  if (mpz_sgn(z) < 0 || mpz_cmp_si(z, n) >= 0) {
+    mpz_clear(z);
+    return val_new_error("item: index out of range");
+  }
   int i = (int)mpz_get_si(z);
   mpz_clear(z);
   element_ptr a = element_item(v[0]->elem, i);
-- 
2.43.0


From 292ac5093ba2083cf60eb4bf4b9d284fa3382236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:50 +0000
Subject: [PATCH 48/56] fix: calculator arguments were evaluated after earlier
 parameters had been overwritten

---
 pbc/pbc.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pbc/pbc.c b/pbc/pbc.c
index 28b4f64..6b95494 100644
--- a/pbc/pbc.c
+++ b/pbc/pbc.c
@@ -162,12 +162,17 @@ static val_ptr v_def_call(val_ptr v, tree_ptr t) {
   if (1 + n != darray_count(t->child)) {
     return val_new_error("%s: wrong number of arguments", name);
   }
+  // Evaluate all arguments before setting any parameter.
+  val_ptr *arg = pbc_malloc(n * sizeof(val_ptr));
+  for(i = 0; i < n; i++) {
+    arg[i] = tree_eval(darray_at(t->child, i));
+  }
   for(i = 0; i < n; i++) {
     const char *id = ((tree_ptr) darray_at(parm, i))->id;
-    val_ptr v1 = tree_eval(darray_at(t->child, i));
     // TODO: Stack frames for recursion.
-    symtab_put(tab, v1, id);
+    symtab_put(tab, arg[i], id);
   }
+  pbc_free(arg);
   // Evaluate function body.
   darray_ptr a = ((tree_ptr) darray_at(v->def->child, 2))->child;
   darray_forall(a, eval_stmt);
-- 
2.43.0


From 5655cece1449c32c5e8075b98ccf857b1462c857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:50 +0000
Subject: [PATCH 49/56] fix: calculator rejected empty statements, and so blank
 lines and function definitions in easy mode

---
 pbc/parser.y | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pbc/parser.y b/pbc/parser.y
index d51cebc..e49e068 100644
--- a/pbc/parser.y
+++ b/pbc/parser.y
@@ -34,6 +34,7 @@ extern int option_easy;
 %%
 input
   : // Empty.
+  | input TERMINATOR  // Empty statement, e.g. a blank line in easy mode.
   | input stmt { tree_eval_stmt($2); }
   ;
 
@@ -46,6 +47,7 @@ stmt
 
 stmtlist
   : { $$ = tree_new_empty_stmt_list(); }  // Empty.
+  | stmtlist TERMINATOR  // Empty statement.
   | stmtlist stmt { tree_append($1, $2); }
   ;
 
-- 
2.43.0


From 86c2ae1658039de5b10de083e4812201408c9b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:51 +0000
Subject: [PATCH 50/56] fix: calculator split input lines of 1023 characters
 and ignored a last line without newline

---
 pbc/pbc_getline.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/pbc/pbc_getline.c b/pbc/pbc_getline.c
index dc44cc4..0798541 100644
--- a/pbc/pbc_getline.c
+++ b/pbc/pbc_getline.c
@@ -1,17 +1,25 @@
 #include <stdio.h>
+#include <stdlib.h>
 #include <string.h>
 
 #include "pbc_memory.h"
 
 char *pbc_getline(const char *prompt) {
-  char s[1024];
-  if (prompt) fputs(prompt, stdout);
-  if (!fgets(s, 1024, stdin)) return NULL;
-  if (feof(stdin)) return NULL;
-  /* use strdup rather than pbc_strdup. because
+  size_t n = 0, size = 1024;
+  /* use malloc rather than pbc_malloc. because
    * 1. readline version of this function uses malloc.
-   * 2. pbc_malloc called by pbc_strdup may differ from malloc.
+   * 2. pbc_malloc may differ from malloc.
    * here we keep consistency.
    */
-  return strdup(s);
+  char *s = malloc(size);
+  if (prompt) fputs(prompt, stdout);
+  // Lines may be longer than the buffer, and the last one may lack a newline.
+  while (s && fgets(s + n, size - n, stdin)) {
+    n += strlen(s + n);
+    if (n && s[n - 1] == '\n') return s;
+    if (n + 1 == size) s = realloc(s, size *= 2);
+  }
+  if (s && n) return s;
+  free(s);
+  return NULL;
 }
-- 
2.43.0


From f6b303231cbae77244128a5d25bd4606ea260db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:51 +0000
Subject: [PATCH 51/56] fix: elements of GF(3^{3m}) could not be negated

---
 arith/ternary_extension_field.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/arith/ternary_extension_field.c b/arith/ternary_extension_field.c
index ee8a684..64cdc68 100644
--- a/arith/ternary_extension_field.c
+++ b/arith/ternary_extension_field.c
@@ -795,6 +795,15 @@ static void gf33m_sub(element_t c, element_t a, element_t b) {
     element_sub(c2, a2, b2);
 }
 
+/* $c <- (-a)$ */
+static void gf33m_neg(element_t c, element_t a) {
+    element_ptr a0 = GF33M(a)->_0, a1 = GF33M(a)->_1, a2 = GF33M(a)->_2, c0 =
+            GF33M(c)->_0, c1 = GF33M(c)->_1, c2 = GF33M(c)->_2;
+    element_neg(c0, a0);
+    element_neg(c1, a1);
+    element_neg(c2, a2);
+}
+
 /* $c <- a*b$ */
 static void gf33m_mult(element_t e, element_t a, element_t b) {
     element_ptr a0 = GF33M(a)->_0, a1 = GF33M(a)->_1, a2 = GF33M(a)->_2, b0 =
@@ -959,6 +968,7 @@ void field_init_gf33m(field_t f, field_t b) {
     f->cmp = gf33m_cmp;
     f->add = gf33m_add;
     f->sub = gf33m_sub;
+    f->neg = gf33m_neg;
     f->mul = gf33m_mult;
     f->cubic = gf33m_cubic;
     f->invert = gf33m_invert;
-- 
2.43.0


From 6f01a15758f3663cb75d29686b3ffa408d702cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:08 +0000
Subject: [PATCH 52/56] fix: Pairing objects constructed from bad parameters
 crashed on first use

The C++ constructor ignored pairing_init_set_buf's failure. It now throws
std::invalid_argument.
---
 include/pbcxx.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/pbcxx.h b/include/pbcxx.h
index 75ac4ea..fd236c3 100644
--- a/include/pbcxx.h
+++ b/include/pbcxx.h
@@ -2,6 +2,7 @@
 #define PBC_PBCXX_H
 
 #include <iostream>
+#include <stdexcept>
 #include <string>
 #include <pbc/pbc.h>
 
@@ -392,7 +393,9 @@ class Pairing {
 
   // Initialize pairing based on given params.
   Pairing(const string& params) {
-    pairing_init_set_buf(pairing_, params.c_str(), params.size());
+    if (pairing_init_set_buf(pairing_, params.c_str(), params.size())) {
+      throw std::invalid_argument("Bad pairing parameters");
+    }
   }
 
   ~Pairing() {
-- 
2.43.0


From 3f353c32794b343e51fc4528248e9d08c71409cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:56 +0000
Subject: [PATCH 53/56] fix: is_almost_coddh ended the process on the identity
 for types D and G

Miller's algorithm divides by zero when given the point at infinity. Treat it
as pairing_apply() does.
---
 ecc/d_param.c | 17 +++++++++++++----
 ecc/g_param.c | 17 +++++++++++++----
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/ecc/d_param.c b/ecc/d_param.c
index c0ae4bd..1483eb0 100644
--- a/ecc/d_param.c
+++ b/ecc/d_param.c
@@ -761,10 +761,19 @@ static int cc_is_almost_coddh(element_ptr a, element_ptr b,
   element_mul(cy, curve_y_coord(c), p->nqrinv2);
   element_mul(dy, curve_y_coord(d), p->nqrinv2);
 
-  cc_miller_no_denom_fn(t0, pairing->r, a, dx, dy);
-  cc_miller_no_denom_fn(t1, pairing->r, b, cx, cy);
-  cc_tatepower(t0, t0, pairing);
-  cc_tatepower(t1, t1, pairing);
+  // As in pairing_apply(), Miller's algorithm cannot handle the identity.
+  if (element_is0(a) || element_is0(d)) {
+    element_set1(t0);
+  } else {
+    cc_miller_no_denom_fn(t0, pairing->r, a, dx, dy);
+    cc_tatepower(t0, t0, pairing);
+  }
+  if (element_is0(b) || element_is0(c)) {
+    element_set1(t1);
+  } else {
+    cc_miller_no_denom_fn(t1, pairing->r, b, cx, cy);
+    cc_tatepower(t1, t1, pairing);
+  }
   element_mul(t2, t0, t1);
   if (element_is1(t2)) res = 1;    // We were given g, g^x, h, h^-x.
   else {
diff --git a/ecc/g_param.c b/ecc/g_param.c
index 1963505..f2aab7d 100644
--- a/ecc/g_param.c
+++ b/ecc/g_param.c
@@ -586,10 +586,19 @@ static int cc_is_almost_coddh(element_ptr a, element_ptr b,
   element_mul(cy, curve_y_coord(c), p->nqrinv2);
   element_mul(dy, curve_y_coord(d), p->nqrinv2);
 
-  cc_miller_no_denom_fn(t0, pairing->r, a, dx, dy);
-  cc_miller_no_denom_fn(t1, pairing->r, b, cx, cy);
-  tatepower10(t0, t0, pairing);
-  tatepower10(t1, t1, pairing);
+  // As in pairing_apply(), Miller's algorithm cannot handle the identity.
+  if (element_is0(a) || element_is0(d)) {
+    element_set1(t0);
+  } else {
+    cc_miller_no_denom_fn(t0, pairing->r, a, dx, dy);
+    tatepower10(t0, t0, pairing);
+  }
+  if (element_is0(b) || element_is0(c)) {
+    element_set1(t1);
+  } else {
+    cc_miller_no_denom_fn(t1, pairing->r, b, cx, cy);
+    tatepower10(t1, t1, pairing);
+  }
   element_mul(t2, t0, t1);
   if (element_is1(t2)) {
     //g, g^x, h, h^-x case
-- 
2.43.0


From d3e467d326386952c78a080b131aeafa0e5e9c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:52 +0000
Subject: [PATCH 54/56] fix: element_is_sqr gave wrong answers on curve groups
 of even order

---
 ecc/curve.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ecc/curve.c b/ecc/curve.c
index 91aff8e..fc4c57c 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -656,7 +656,7 @@ static int odd_curve_is_sqr(element_ptr e) {
   return 1;
 }
 
-//TODO: untested
+// Assumes the group is cyclic.
 static int even_curve_is_sqr(element_ptr e) {
   mpz_t z;
   element_t e1;
@@ -664,8 +664,7 @@ static int even_curve_is_sqr(element_ptr e) {
 
   mpz_init(z);
   element_init(e1, e->field);
-  mpz_sub_ui(z, e->field->order, 1);
-  mpz_fdiv_q_2exp(z, z, 1);
+  mpz_fdiv_q_2exp(z, e->field->order, 1);
   element_pow_mpz(e1, e, z);
   result = element_is1(e1);
 
-- 
2.43.0


From f761098374fb1504d43994d0d99c43d769ca8857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:23 +0000
Subject: [PATCH 55/56] fix: the library did not compile with PBC_DEBUG defined

---
 arith/multiz.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arith/multiz.c b/arith/multiz.c
index 1179a20..b5c5577 100644
--- a/arith/multiz.c
+++ b/arith/multiz.c
@@ -168,7 +168,7 @@ static multiz multiz_new_unary(const multiz y,
       fun(x->z, y->z, scope_ptr);
       break;
     default:
-      PBC_ASSERT(T_ARR == ep->type, "no such type");
+      PBC_ASSERT(T_ARR == y->type, "no such type");
       x->type = T_ARR;
       darray_init(x->a);
       darray_forall4(y->a,
-- 
2.43.0


From eb6522b554c4fe6eef9b2768c1485869199af6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:21 +0000
Subject: [PATCH 56/56] fix: calculator kept error values as variables and
 ignored errors in function arguments

---
 pbc/pbc.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pbc/pbc.c b/pbc/pbc.c
index 6b95494..7929e78 100644
--- a/pbc/pbc.c
+++ b/pbc/pbc.c
@@ -166,6 +166,12 @@ static val_ptr v_def_call(val_ptr v, tree_ptr t) {
   val_ptr *arg = pbc_malloc(n * sizeof(val_ptr));
   for(i = 0; i < n; i++) {
     arg[i] = tree_eval(darray_at(t->child, i));
+    if (!arg[i] || !strcmp(arg[i]->type->name, "error")) {
+      val_ptr err = arg[i];
+      pbc_free(arg);
+      return err ? err :
+          val_new_error("%s: argument %d type mismatch", name, i + 1);
+    }
   }
   for(i = 0; i < n; i++) {
     const char *id = ((tree_ptr) darray_at(parm, i))->id;
@@ -438,6 +444,8 @@ static val_ptr eval_assign(tree_ptr t) {
   if (symtab_at(reserved, tid->id)) {
     return val_new_error("%s is reserved", tid->id);
   }
+  // Keep the old value if the new one is in error.
+  if (v && v_error == v->type) return v;
   symtab_put(tab, v, tid->id);
   // Operators overwrite their operands: return a copy.
   return v ? v->type->eval(v) : v;
-- 
2.43.0

