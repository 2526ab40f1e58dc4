From 9fbb93e3e4857ada55e356d06b61b36ff7601102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:18 +0000
Subject: [PATCH 01/16] fix: one-factor Ito moments of order 0 and 1 carry keys
 of the wrong length

The constants 0 and 1 had eight exponents for seven names, and zero was a
term with coefficient 0 instead of the empty poly (tests/test_ito_mom.py
expects {} and the seven-exponent key).
---
 src/ajdmom/ito_mom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ajdmom/ito_mom.py b/src/ajdmom/ito_mom.py
index 56e03a4..6aa8e23 100644
--- a/src/ajdmom/ito_mom.py
+++ b/src/ajdmom/ito_mom.py
@@ -373,9 +373,9 @@ def moment_IEII(n3, n4, n5):
     #
     # special poly constants, analog to 0 and 1
     #
-    P0 = Poly({(0, 0, 0, 0, 0, 0, 0, 0): Frac(0, 1)})
+    P0 = Poly()
     P0.set_keyfor(kf)
-    P1 = Poly({(0, 0, 0, 0, 0, 0, 0, 0): Frac(1, 1)})
+    P1 = Poly({(0, 0, 0, 0, 0, 0, 0): Frac(1, 1)})
     P1.set_keyfor(kf)
     #
     # n3 + n4 + n5 = 0: special case
-- 
2.43.0


From c697d1ca3142ddcad5dc89d4463a383ce941d4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:18 +0000
Subject: [PATCH 02/16] fix: path-conditional Ito moments accumulate exponents
 across the terms of one integral

int_e_IEZ_poly updated the jump exponents in place while looping over the
terms of the inner integral, so the second and later terms carried the
exponents of the earlier ones.
---
 src/ajdmom/ito_cond_mom.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/ajdmom/ito_cond_mom.py b/src/ajdmom/ito_cond_mom.py
index 790585c..cb65060 100644
--- a/src/ajdmom/ito_cond_mom.py
+++ b/src/ajdmom/ito_cond_mom.py
@@ -455,17 +455,11 @@ def int_e_IEZ_poly(coef, m, poly):
             key1 = (kk[0], kk[1], kk[2] + k[2], k[3], k[4], k[5])
             # key2
             if len(k6) == 1:  # 1 summation  inside
-                k6 = (k6[0] + kk[3],)
-                k7 = (k7[0] + kk[4],)
-                key2 = (k6, k7, (), ())
+                key2 = ((k6[0] + kk[3],), (k7[0] + kk[4],), (), ())
             else:  # 2 summations inside or more
-                k8 = list(k8)
-                k8[-1] += kk[3]
-                k8 = tuple(k8)
-                k9 = list(k9)
-                k9[-1] += kk[4]
-                k9 = tuple(k9)
-                key2 = (k6, k7, k8, k9)
+                key2 = (k6, k7,
+                        k8[:-1] + (k8[-1] + kk[3],),
+                        k9[:-1] + (k9[-1] + kk[4],))
             poln.add_keyval(key1 + key2, coef * poly[k] * poly_sub[kk])
     return poln
 
-- 
2.43.0


From 3cf60fcebaa69525a02a68445e3a94b1833d3909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:18 +0000
Subject: [PATCH 03/16] fix: second moment of IE in the SRJD model has no
 keyfor

---
 src/ajdmom/mdl_srjd/cond_ie_iez_cmom.py | 1 +
 src/ajdmom/mdl_srjd/cond_ie_iez_mom.py  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/ajdmom/mdl_srjd/cond_ie_iez_cmom.py b/src/ajdmom/mdl_srjd/cond_ie_iez_cmom.py
index 88b0d4d..7ae60a4 100644
--- a/src/ajdmom/mdl_srjd/cond_ie_iez_cmom.py
+++ b/src/ajdmom/mdl_srjd/cond_ie_iez_cmom.py
@@ -92,6 +92,7 @@ def moment_ie(n):
         (2, 1, 0, 1, 0, 0, 0): Fraction(1, 2),
         (0, 1, 0, 1, 0, 0, 0): Fraction(-1, 2)
     })
+    P2.set_keyfor(kf)
     IE[2] = P2
     #
     if n <= 2:
diff --git a/src/ajdmom/mdl_srjd/cond_ie_iez_mom.py b/src/ajdmom/mdl_srjd/cond_ie_iez_mom.py
index 40e4e79..2ed6f02 100644
--- a/src/ajdmom/mdl_srjd/cond_ie_iez_mom.py
+++ b/src/ajdmom/mdl_srjd/cond_ie_iez_mom.py
@@ -95,6 +95,7 @@ def moment_ie(n):
         (1, 2, 0, 0, 0, 1, 1): Fraction(-1, 1),
         (0, 2, 0, 0, 0, 1, 1): Fraction(1, 2)
     })
+    P2.set_keyfor(kf)
     IE[2] = P2
     #
     if n <= 2:
-- 
2.43.0


From 8567e67e195d328daa513fc697cff0163b416714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:18 +0000
Subject: [PATCH 04/16] fix: central moment of IEZ in scalar form fails with
 TypeError

The parameters were not passed on to poly2num.
---
 src/ajdmom/mdl_srjd/iez_cmom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ajdmom/mdl_srjd/iez_cmom.py b/src/ajdmom/mdl_srjd/iez_cmom.py
index 2f9c6b6..2e94fc1 100644
--- a/src/ajdmom/mdl_srjd/iez_cmom.py
+++ b/src/ajdmom/mdl_srjd/iez_cmom.py
@@ -40,7 +40,7 @@ def cmoment_IEZ(n):
 
 def cm(n, par):
     cmoment = cmoment_IEZ(n)
-    value = poly2num(cmoment)
+    value = poly2num(cmoment, par)
     return value
 
 
-- 
2.43.0


From e01f97179417ca3e3243b0e9bdf521e8d2b39724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:18 +0000
Subject: [PATCH 05/16] fix: zeroth path-conditional moment of the SVCJ model
 has a key that does not match keyfor

---
 src/ajdmom/mdl_svcj/cond2_mom.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ajdmom/mdl_svcj/cond2_mom.py b/src/ajdmom/mdl_svcj/cond2_mom.py
index 0004178..1052f0b 100644
--- a/src/ajdmom/mdl_svcj/cond2_mom.py
+++ b/src/ajdmom/mdl_svcj/cond2_mom.py
@@ -165,7 +165,8 @@ def moments_y_to(l, J):
     #
     # special case: 0-th moment
     #
-    P1 = Poly({(0, 0, 0, 0, 0, 0, 0, 0, (), (), (), (), 0, 0, 0, 0): Frac(1, 1)})
+    P1 = Poly({(0, 0, 0, 0, 0, 0, 0, 0, (), (), (), (), 0, 0, 0,
+                0, 0, 0, (0,) * len(J)): Frac(1, 1)})
     P1.set_keyfor(kf)
     moms.append(P1)  # equiv to constant 1
     #
-- 
2.43.0


From c291129ff68135fad12edc6c671eae324ce99715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:29 +0000
Subject: [PATCH 06/16] fix: two-factor time integral treats n1 = -n2 != 0 as a
 zero exponent

int_et(1, -1, m) is the integral of e^{(k1-k2)s} s^m, not of s^m.
---
 src/ajdmom/itos_mom.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ajdmom/itos_mom.py b/src/ajdmom/itos_mom.py
index b50b491..2ff859b 100644
--- a/src/ajdmom/itos_mom.py
+++ b/src/ajdmom/itos_mom.py
@@ -299,15 +299,15 @@ def int_et(n1, n2, m):
     kf = ['(n1*k1+n2*k2)^{-}', 'e^{(n1*k1+n2*k2)[t-(n-1)h]}', '[t-(n-1)h]']
     poly.set_keyfor(kf)
     #
-    if n1 + n2 == 0 and m == 0:
+    if n1 == 0 and n2 == 0 and m == 0:
         key = ((0, 0, 0), (0, 0), 1)
         val = 1
         poly.add_keyval(key, val)
-    elif n1 + n2 == 0 and m != 0:
+    elif n1 == 0 and n2 == 0 and m != 0:
         key = ((0, 0, 0), (0, 0), m + 1)
         val = Frac(1, m + 1)
         poly.add_keyval(key, val)
-    elif n1 + n2 != 0 and m == 0:
+    elif m == 0:
         key = ((n1, n2, 1), (n1, n2), 0)
         val = 1
         poly.add_keyval(key, val)
-- 
2.43.0


From 3d89fb833dd2d00e04ff719a1a0d4ceb641c9779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:29 +0000
Subject: [PATCH 07/16] fix: two-factor Ito moments keep only the first
 applicable term of the recursion

The recursive equation (ito-moment-m4m5m6m7m8) is a sum over all pairs; the
elif chain dropped all but one, e.g. in E[I_2^2 I*^2], so third and higher
moments of the two-factor models were wrong.
---
 src/ajdmom/itos_mom.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ajdmom/itos_mom.py b/src/ajdmom/itos_mom.py
index 2ff859b..47465a6 100644
--- a/src/ajdmom/itos_mom.py
+++ b/src/ajdmom/itos_mom.py
@@ -515,39 +515,39 @@ def recursive_IEI_IEII(n4, n5, n6, n7, n8, IEI_IEII):
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 1, n4 - 2, n5, n6, n7, n8, IEI_IEII), 2))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 2, n4 - 2, n5, n6, n7, n8, IEI_IEII), 3))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 1, n4 - 1, n5, n6, n7, n8, IEI_IEII), 4))
-    elif n4 >= 0 and n5 >= 2 and n6 >= 0 and n7 >= 0 and n8 >= 0:
+    if n4 >= 0 and n5 >= 2 and n6 >= 0 and n7 >= 0 and n8 >= 0:
         c = Frac(n5 * (n5 - 1), 2)
         poly.merge(coef_poly(c, int_mIEI_IEII(1, -1, n4, n5 - 2, n6, n7, n8, IEI_IEII), 1))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, -1, n4, n5 - 2, n6, n7, n8, IEI_IEII), 2))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 0, n4, n5 - 2, n6, n7, n8, IEI_IEII), 3))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, -1, n4 + 1, n5 - 2, n6, n7, n8, IEI_IEII), 4))
-    elif n4 >= 1 and n5 >= 1 and n6 >= 0 and n7 >= 0 and n8 >= 0:
+    if n4 >= 1 and n5 >= 1 and n6 >= 0 and n7 >= 0 and n8 >= 0:
         c = n4 * n5
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 0, n4 - 1, n5 - 1, n6, n7, n8, IEI_IEII), 1))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 0, n4 - 1, n5 - 1, n6, n7, n8, IEI_IEII), 2))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 1, n4 - 1, n5 - 1, n6, n7, n8, IEI_IEII), 3))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 0, n4, n5 - 1, n6, n7, n8, IEI_IEII), 4))
     #
-    elif n4 >= 0 and n5 >= 0 and n6 >= 2 and n7 >= 0 and n8 >= 0:
+    if n4 >= 0 and n5 >= 0 and n6 >= 2 and n7 >= 0 and n8 >= 0:
         c = Frac(n6 * (n6 - 1), 2)
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 1, n4, n5, n6 - 2, n7, n8, IEI_IEII), 5))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 1, n4, n5, n6 - 2, n7, n8, IEI_IEII), 6))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 2, n4, n5, n6 - 2, n7, n8, IEI_IEII), 7))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 1, n4, n5, n6 - 1, n7, n8, IEI_IEII), 8))
-    elif n4 >= 0 and n5 >= 0 and n6 >= 0 and n7 >= 2 and n8 >= 0:
+    if n4 >= 0 and n5 >= 0 and n6 >= 0 and n7 >= 2 and n8 >= 0:
         c = Frac(n7 * (n7 - 1), 2)
         poly.merge(coef_poly(c, int_mIEI_IEII(2, -1, n4, n5, n6, n7 - 2, n8, IEI_IEII), 5))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, -1, n4, n5, n6, n7 - 2, n8, IEI_IEII), 6))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 0, n4, n5, n6, n7 - 2, n8, IEI_IEII), 7))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, -1, n4, n5, n6 + 1, n7 - 2, n8, IEI_IEII), 8))
-    elif n4 >= 0 and n5 >= 0 and n6 >= 1 and n7 >= 1 and n8 >= 0:
+    if n4 >= 0 and n5 >= 0 and n6 >= 1 and n7 >= 1 and n8 >= 0:
         c = n6 * n7
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 0, n4, n5, n6 - 1, n7 - 1, n8, IEI_IEII), 5))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 0, n4, n5, n6 - 1, n7 - 1, n8, IEI_IEII), 6))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 1, n4, n5, n6 - 1, n7 - 1, n8, IEI_IEII), 7))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 0, n4, n5, n6, n7 - 1, n8, IEI_IEII), 8))
     #
-    elif n4 >= 0 and n5 >= 0 and n6 >= 0 and n7 >= 0 and n8 >= 2:
+    if n4 >= 0 and n5 >= 0 and n6 >= 0 and n7 >= 0 and n8 >= 2:
         c = Frac(n8 * (n8 - 1), 2)
         poly.merge(coef_poly(c, int_mIEI_IEII(1, -1, n4, n5, n6, n7, n8 - 2, IEI_IEII), 1))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, -1, n4, n5, n6, n7, n8 - 2, IEI_IEII), 2))
-- 
2.43.0


From cf874f95881b8ae8eea2bb0b8aba875c1260472f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:04 +0000
Subject: [PATCH 08/16] fix: two-factor Ito moments reject a negative total
 order with ValueError, not NameError

---
 src/ajdmom/itos_mom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ajdmom/itos_mom.py b/src/ajdmom/itos_mom.py
index 47465a6..f03e6b6 100644
--- a/src/ajdmom/itos_mom.py
+++ b/src/ajdmom/itos_mom.py
@@ -583,7 +583,7 @@ def moment_IEI_IEII(n4, n5, n6, n7, n8, return_all=False):
     :rtype: Poly or dict of Poly
     """
     if n4 + n5 + n6 + n7 + n8 < 0:
-        raise ValueError(f'moment_IEI_IEII({n_4},{n_5},{n_6},{n_7},{n_8}) is called')
+        raise ValueError(f'moment_IEI_IEII({n4},{n5},{n6},{n7},{n8}) is called')
     #
     IEI_IEII = {}
     kf = ('(n_1m*k1+n_2m*k2)^{-i_m},...,(n_11*k1+n_21*k2)^{-i_1}',
-- 
2.43.0


From aa11f1be6afc5e876227f6ff1f9edf9c04cd643b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:45 +0000
Subject: [PATCH 09/16] fix: CSV title line of a poly with jump sub-keys has an
 empty column when a group of names is empty

---
 src/ajdmom/poly.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ajdmom/poly.py b/src/ajdmom/poly.py
index 751155e..b5fea86 100644
--- a/src/ajdmom/poly.py
+++ b/src/ajdmom/poly.py
@@ -320,8 +320,8 @@ class Poly(UserDict):
         if 'p_{2:n}' not in self.keyfor:
             sub1 = ['l' + str(j) for j in range(1, len(l) + 1)]
             sub2 = ['o' + str(j) for j in range(2, len(l) + 1)]
-            title = ','.join(self.keyfor[:i]) + ',' + ','.join(sub1 + sub2) + ','
-            title += ','.join(self.keyfor[i + 2:]) + ',num,den\n'
+            names = list(self.keyfor[:i]) + sub1 + sub2 + list(self.keyfor[i + 2:])
+            title = ','.join(names + ['num', 'den']) + '\n'
             with open(filename, 'w', encoding='utf-8') as f:
                 f.write(title)
                 for k, v in self.items():
@@ -336,8 +336,8 @@ class Poly(UserDict):
             sub2 = ['o' + str(j) for j in range(1, len(l) + 1)]
             sub3 = ['p' + str(j) for j in range(2, len(l) + 1)]
             sub4 = ['q' + str(j) for j in range(2, len(l) + 1)]
-            title = ','.join(self.keyfor[:i]) + ',' + ','.join(sub1 + sub2 + sub3 + sub4) + ','
-            title += ','.join(self.keyfor[i + 4:]) + ',num,den\n'
+            names = list(self.keyfor[:i]) + sub1 + sub2 + sub3 + sub4 + list(self.keyfor[i + 4:])
+            title = ','.join(names + ['num', 'den']) + '\n'
             with open(filename, 'w', encoding='utf-8') as f:
                 f.write(title)
                 for k, v in self.items():
-- 
2.43.0


From 2ac30956706d2b340f706d44066a62ac73e300f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:45 +0000
Subject: [PATCH 10/16] fix: writing an empty poly with jump sub-keys to csv
 fails with UnboundLocalError

---
 src/ajdmom/poly.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ajdmom/poly.py b/src/ajdmom/poly.py
index b5fea86..e352ad9 100644
--- a/src/ajdmom/poly.py
+++ b/src/ajdmom/poly.py
@@ -301,6 +301,7 @@ class Poly(UserDict):
             else:
                 i += 1
         # find one sub-key corresponding to 'l_{1:n}'
+        l = ()
         for k in self.keys():
             l = k[i]
             break
-- 
2.43.0


From e680d3f6165ddfcac1f4089a9bf189645fa1b52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:05 +0000
Subject: [PATCH 11/16] fix: classify fails unless the levels of summation are
 exactly 0, 1, ..., n

---
 src/ajdmom/mdl_svvj/cond2_cmom.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ajdmom/mdl_svvj/cond2_cmom.py b/src/ajdmom/mdl_svvj/cond2_cmom.py
index be995dc..e3b73c7 100644
--- a/src/ajdmom/mdl_svvj/cond2_cmom.py
+++ b/src/ajdmom/mdl_svvj/cond2_cmom.py
@@ -210,13 +210,12 @@ def classify(poly):
     kf0 = poly.keyfor[:6] + poly.keyfor[10:]
     subpolys = [Poly() for n in N_sum]
     #
-    subpolys[0].set_keyfor(kf0 if N_sum[0] == 0 else poly.keyfor)
     # exclude the sub-keyfor if the sub-key corresponding to 'l_{1:n}' is empty
-    for i in range(1, len(N_sum)): subpolys[i].set_keyfor(poly.keyfor)
+    for i, n in enumerate(N_sum): subpolys[i].set_keyfor(kf0 if n == 0 else poly.keyfor)
     #
     # classify
     for k, v in poly.items():
-        subpoly = subpolys[len(k[6])]
+        subpoly = subpolys[N_sum.index(len(k[6]))]
         subpoly[k[0:6] + k[10:] if len(k[6]) == 0 else k] = v
         # exclude the empty subkey (),(),(),()
     return subpolys
-- 
2.43.0


From 185c308629c019810affe31e217e318fd365f80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:00 +0000
Subject: [PATCH 12/16] fix: CSV rows of a constant with only jump sub-keys
 have a stray empty column

---
 src/ajdmom/poly.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ajdmom/poly.py b/src/ajdmom/poly.py
index e352ad9..15d497a 100644
--- a/src/ajdmom/poly.py
+++ b/src/ajdmom/poly.py
@@ -326,8 +326,8 @@ class Poly(UserDict):
             with open(filename, 'w', encoding='utf-8') as f:
                 f.write(title)
                 for k, v in self.items():
-                    row = ','.join([str(s) for s in k[:i] + k[i] + k[i + 1] + k[i + 2:]])
-                    row += f',{v.numerator},{v.denominator}\n'
+                    row = k[:i] + k[i] + k[i + 1] + k[i + 2:] + (v.numerator, v.denominator)
+                    row = ','.join([str(s) for s in row]) + '\n'
                     f.write(row)
         #
         # for cases 'l_{1:n}', 'o_{1:n}', 'p_{2:n}', 'q_{2:n}': mdl_svvj, mdl_svij, mdl_svcj
@@ -342,8 +342,8 @@ class Poly(UserDict):
             with open(filename, 'w', encoding='utf-8') as f:
                 f.write(title)
                 for k, v in self.items():
-                    row = ','.join([str(s) for s in k[:i] + k[i] + k[i + 1] + k[i + 2] + k[i + 3] + k[i + 4:]])
-                    row += f',{v.numerator},{v.denominator}\n'
+                    row = k[:i] + k[i] + k[i + 1] + k[i + 2] + k[i + 3] + k[i + 4:] + (v.numerator, v.denominator)
+                    row = ','.join([str(s) for s in row]) + '\n'
                     f.write(row)
         print(f"complete the writing of {filename}.")
 
-- 
2.43.0


From 18db8ac4badc91278145a5e006cf3904c2606a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:43 +0000
Subject: [PATCH 13/16] fix: joint Ito moments with a negative order return a
 formula when the total order is large

---
 src/ajdmom/ito_cond_mom.py | 2 +-
 src/ajdmom/ito_mom.py      | 2 +-
 src/ajdmom/itos_mom.py     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ajdmom/ito_cond_mom.py b/src/ajdmom/ito_cond_mom.py
index cb65060..94e5584 100644
--- a/src/ajdmom/ito_cond_mom.py
+++ b/src/ajdmom/ito_cond_mom.py
@@ -522,7 +522,7 @@ def moment_IEII(n1, n2, n3):
        'l_{1:n}', 'o_{1:n}', 'p_{2:n}', 'q_{2:n}').
     :rtype: Poly
     """
-    if n1 + n2 + n3 < 0:
+    if n1 < 0 or n2 < 0 or n3 < 0:
         raise ValueError(f"moment_IEII({n1},{n2},{n3}) is called!")
     #
     # IEII: a dict of conditional moments of E[IE_t^{n1}I_t^{n2}I_t^{*n3}]
diff --git a/src/ajdmom/ito_mom.py b/src/ajdmom/ito_mom.py
index 6aa8e23..c34b8b8 100644
--- a/src/ajdmom/ito_mom.py
+++ b/src/ajdmom/ito_mom.py
@@ -361,7 +361,7 @@ def moment_IEII(n3, n4, n5):
        'sigma_v').
     :rtype: Poly
     """
-    if n3 + n4 + n5 < 0:
+    if n3 < 0 or n4 < 0 or n5 < 0:
         raise ValueError(f"moment_IEII({n3},{n4},{n5}) is called!")
     #
     # IEII: a dict of moments of E[IE^{n3}I^{n4}I^{*n5}]
diff --git a/src/ajdmom/itos_mom.py b/src/ajdmom/itos_mom.py
index f03e6b6..ef7cc18 100644
--- a/src/ajdmom/itos_mom.py
+++ b/src/ajdmom/itos_mom.py
@@ -582,7 +582,7 @@ def moment_IEI_IEII(n4, n5, n6, n7, n8, return_all=False):
     :return: poly if return_all=False else IEI_IEII
     :rtype: Poly or dict of Poly
     """
-    if n4 + n5 + n6 + n7 + n8 < 0:
+    if n4 < 0 or n5 < 0 or n6 < 0 or n7 < 0 or n8 < 0:
         raise ValueError(f'moment_IEI_IEII({n4},{n5},{n6},{n7},{n8}) is called')
     #
     IEI_IEII = {}
-- 
2.43.0


From 22c3822957279384ca01e01d90d92e1b92635b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:02 +0000
Subject: [PATCH 14/16] fix: Poly.merge returns None, not the updated
 polynomial its documentation promises

---
 src/ajdmom/poly.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ajdmom/poly.py b/src/ajdmom/poly.py
index 15d497a..8aaa160 100644
--- a/src/ajdmom/poly.py
+++ b/src/ajdmom/poly.py
@@ -113,6 +113,7 @@ class Poly(UserDict):
             self.add_keyval(k, other[k])
         #
         self.remove_zero()  # remove any item with 0 value
+        return self
 
     def __sub__(self, other):
         """Subtract another poly having the same keyfor."""
-- 
2.43.0


From 23ea311f55e1852b508612cb79e82295290c241e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:02 +0000
Subject: [PATCH 15/16] fix: multilevel_comb for one part returns the number
 instead of the list of combinations

---
 src/ajdmom/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ajdmom/utils.py b/src/ajdmom/utils.py
index dcf88d7..44293c7 100644
--- a/src/ajdmom/utils.py
+++ b/src/ajdmom/utils.py
@@ -73,7 +73,9 @@ def multilevel_comb(n, m, show=False):
     :return: list
     """
     if n == 1:
-        return m
+        index = [[m]]
+        if show: print(index)
+        return index
     elif n == 2:
         index = [[i, m - i] for i in range(m+1)]
         if show: print(index)
-- 
2.43.0


From f99a0a02a17849d57ab6e28ecb7cd4c502460b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:09 +0000
Subject: [PATCH 16/16] fix: the conditional central moment of order 0 is 1,
 not the list's last entry (order 1)

---
 src/ajdmom/mdl_1fsv/cond_cmom.py  | 2 +-
 src/ajdmom/mdl_svcj/cond2_cmom.py | 4 ++--
 src/ajdmom/mdl_svij/cond2_cmom.py | 2 +-
 src/ajdmom/mdl_svvj/cond2_cmom.py | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ajdmom/mdl_1fsv/cond_cmom.py b/src/ajdmom/mdl_1fsv/cond_cmom.py
index e8b06b4..0efcf8f 100644
--- a/src/ajdmom/mdl_1fsv/cond_cmom.py
+++ b/src/ajdmom/mdl_1fsv/cond_cmom.py
@@ -323,7 +323,7 @@ def cond_cm(l, par):
     :rtype: float
     """
     cmoments = cmoments_y_to(l)
-    cmoment = cmoments[-1]
+    cmoment = cmoments[l]
     cmoment = simplify(cmoment, tp=2)
     # ('e^{-kt}', 't', 'k^{-}', 'v_0-theta', 'theta', 'sigma', 'rho')
     value = poly2num(cmoment, par)
diff --git a/src/ajdmom/mdl_svcj/cond2_cmom.py b/src/ajdmom/mdl_svcj/cond2_cmom.py
index a6f21b7..61f1faa 100644
--- a/src/ajdmom/mdl_svcj/cond2_cmom.py
+++ b/src/ajdmom/mdl_svcj/cond2_cmom.py
@@ -138,7 +138,7 @@ def cmoments_y_to(l, J):
 
 def cmoment_y(l, J):
     cmoms = cmoments_y_to(l, J)
-    return cmoms[-1]
+    return cmoms[l]
 
 
 ##########
@@ -196,7 +196,7 @@ def cm(l, par):
     """
     J = par['jumpsize']  # list of jump sizes
     cmoments = cmoments_y_to(l, J)
-    cmoment = cmoments[-1]
+    cmoment = cmoments[l]
     value = poly2num(cmoment, par)
     return value
 
diff --git a/src/ajdmom/mdl_svij/cond2_cmom.py b/src/ajdmom/mdl_svij/cond2_cmom.py
index 69cde99..cc04d68 100644
--- a/src/ajdmom/mdl_svij/cond2_cmom.py
+++ b/src/ajdmom/mdl_svij/cond2_cmom.py
@@ -59,7 +59,7 @@ def cmoments_y_to(l):
 
 def cmoment_y(l):
     cmoms = cmoments_y_to(l)
-    return cmoms[-1]
+    return cmoms[l]
 
 
 ##########
diff --git a/src/ajdmom/mdl_svvj/cond2_cmom.py b/src/ajdmom/mdl_svvj/cond2_cmom.py
index e3b73c7..642990f 100644
--- a/src/ajdmom/mdl_svvj/cond2_cmom.py
+++ b/src/ajdmom/mdl_svvj/cond2_cmom.py
@@ -186,7 +186,7 @@ def cmoment_y(l):
     :rtype: Poly
     """
     cmoments = cmoments_y_to(l)
-    return cmoments[-1]
+    return cmoments[l]
 
 
 def classify(poly):
@@ -291,7 +291,7 @@ def cm(l, par):
     :rtype: float
     """
     cmoments = cmoments_y_to(l)
-    cmoment = cmoments[-1]  # need only the last one
+    cmoment = cmoments[l]  # need only this one
     value = poly2num(cmoment, par)
     return value
 
-- 
2.43.0

