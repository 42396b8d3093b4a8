From c7ad627d1d12f3b1474912a628426f739f75e0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:25 +0000
Subject: [PATCH 01/59] fix: BSSN_recomputegzz sets gzz such that det(g)=1

The constraint det(g)=1 gives gzz = (1 + ...)/(gxx gyy - gxy^2), the
1 belongs inside the numerator.
---
 src/physics/BSSN/BSSN_rhs.c | 2 +-
 src/physics/BSSN/BSSN_rhs.m | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/physics/BSSN/BSSN_rhs.c b/src/physics/BSSN/BSSN_rhs.c
index f113813..d604138 100644
--- a/src/physics/BSSN/BSSN_rhs.c
+++ b/src/physics/BSSN/BSSN_rhs.c
@@ -3089,7 +3089,7 @@ if (recomputegzz) {
 
 ng33[ijk]
 =
-1. + (-2.*ng12[ijk]*ng13[ijk]*ng23[ijk] + ng22[ijk]*pow2(ng13[ijk]) + 
+(1. - 2.*ng12[ijk]*ng13[ijk]*ng23[ijk] + ng22[ijk]*pow2(ng13[ijk]) + 
      ng11[ijk]*pow2(ng23[ijk]))/(ng11[ijk]*ng22[ijk] - pow2(ng12[ijk]))
 ;
 
diff --git a/src/physics/BSSN/BSSN_rhs.m b/src/physics/BSSN/BSSN_rhs.m
index 2943568..2896ff9 100644
--- a/src/physics/BSSN/BSSN_rhs.m
+++ b/src/physics/BSSN/BSSN_rhs.m
@@ -247,7 +247,7 @@ tocompute = {
 
     (* recompute Azz from the other As and gzz from th other gs *)
     Cif == recomputegzz,
-      ng33 == 1 + (ng22 ng13 ng13 -2 ng12 ng23 ng13 + ng11 ng23 ng23)/
+      ng33 == (1 + ng22 ng13 ng13 -2 ng12 ng23 ng13 + ng11 ng23 ng23)/
                   (ng11 ng22 - ng12 ng12),
     Cif == end,
     detnginv == 1/matrixdet[ng],
-- 
2.43.0


From 6d39157f7528a4bae5cfb735218a479bf8ef79e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:48 +0000
Subject: [PATCH 02/59] fix: TermByTerm normalization of the ADM constraints

RB, codelKB and codelKC are not symmetric in their last two indices.
With the symmetry declared, one of the two values overwrote the other and
the terms in the denominators did not add up to the constraints.
---
 src/physics/ADMvars/ADMconstraints.c | 122 ++++++++++++++++-----------
 src/physics/ADMvars/ADMconstraints.m |   3 -
 2 files changed, 72 insertions(+), 53 deletions(-)

diff --git a/src/physics/ADMvars/ADMconstraints.c b/src/physics/ADMvars/ADMconstraints.c
index fa80782..34bee25 100644
--- a/src/physics/ADMvars/ADMconstraints.c
+++ b/src/physics/ADMvars/ADMconstraints.c
@@ -261,39 +261,57 @@ double codelKA323;
 double codelKA333;
 double codelKB111;
 double codelKB112;
+double codelKB121;
 double codelKB113;
+double codelKB131;
 double codelKB122;
 double codelKB123;
+double codelKB132;
 double codelKB133;
 double codelKB211;
 double codelKB212;
+double codelKB221;
 double codelKB213;
+double codelKB231;
 double codelKB222;
 double codelKB223;
+double codelKB232;
 double codelKB233;
 double codelKB311;
 double codelKB312;
+double codelKB321;
 double codelKB313;
+double codelKB331;
 double codelKB322;
 double codelKB323;
+double codelKB332;
 double codelKB333;
 double codelKC111;
 double codelKC112;
+double codelKC121;
 double codelKC113;
+double codelKC131;
 double codelKC122;
 double codelKC123;
+double codelKC132;
 double codelKC133;
 double codelKC211;
 double codelKC212;
+double codelKC221;
 double codelKC213;
+double codelKC231;
 double codelKC222;
 double codelKC223;
+double codelKC232;
 double codelKC233;
 double codelKC311;
 double codelKC312;
+double codelKC321;
 double codelKC313;
+double codelKC331;
 double codelKC322;
 double codelKC323;
+double codelKC332;
 double codelKC333;
 double codelTrKA1;
 double codelTrKA2;
@@ -480,9 +498,12 @@ double RA23;
 double RA33;
 double RB11;
 double RB12;
+double RB21;
 double RB13;
+double RB31;
 double RB22;
 double RB23;
+double RB32;
 double RB33;
 double RC11;
 double RC12;
@@ -2206,7 +2227,7 @@ deldelg1112*ginv11 + (deldelg1122 + deldelg1212)*ginv12 +
   (deldelg1223 + deldelg1322)*ginv23 + deldelg1323*ginv33
 ;
 
-RB12
+RB21
 =
 deldelg1211*ginv11 + (deldelg1212 + deldelg2211)*ginv12 + 
   (deldelg1213 + deldelg2311)*ginv13 + deldelg2212*ginv22 + 
@@ -2220,7 +2241,7 @@ deldelg1113*ginv11 + (deldelg1123 + deldelg1213)*ginv12 +
   (deldelg1233 + deldelg1323)*ginv23 + deldelg1333*ginv33
 ;
 
-RB13
+RB31
 =
 deldelg1311*ginv11 + (deldelg1312 + deldelg2311)*ginv12 + 
   (deldelg1313 + deldelg3311)*ginv13 + deldelg2312*ginv22 + 
@@ -2241,7 +2262,7 @@ deldelg1213*ginv11 + (deldelg1223 + deldelg2213)*ginv12 +
   (deldelg2233 + deldelg2323)*ginv23 + deldelg2333*ginv33
 ;
 
-RB23
+RB32
 =
 deldelg1312*ginv11 + (deldelg1322 + deldelg2312)*ginv12 + 
   (deldelg1323 + deldelg3312)*ginv13 + deldelg2322*ginv22 + 
@@ -2524,7 +2545,8 @@ ginv11*RA11 + ginv22*RA22 + 2.*(ginv12*RA12 + ginv13*RA13 + ginv23*RA23) +
 
 RB
 =
-ginv11*RB11 + ginv22*RB22 + 2.*(ginv12*RB12 + ginv13*RB13 + ginv23*RB23) + 
+ginv11*RB11 + ginv22*RB22 + ginv12*(RB12 + RB21) + 
+  ginv13*(RB13 + RB31) + ginv23*(RB23 + RB32) + 
   ginv33*RB33
 ;
 
@@ -2663,7 +2685,7 @@ codelKB111
 -(gamma111*K11[ijk]) - gamma211*K12[ijk] - gamma311*K13[ijk]
 ;
 
-codelKB112
+codelKB121
 =
 -(gamma112*K11[ijk]) - gamma212*K12[ijk] - gamma312*K13[ijk]
 ;
@@ -2673,7 +2695,7 @@ codelKB112
 -(gamma111*K12[ijk]) - gamma211*K22[ijk] - gamma311*K23[ijk]
 ;
 
-codelKB113
+codelKB131
 =
 -(gamma113*K11[ijk]) - gamma213*K12[ijk] - gamma313*K13[ijk]
 ;
@@ -2688,7 +2710,7 @@ codelKB122
 -(gamma112*K12[ijk]) - gamma212*K22[ijk] - gamma312*K23[ijk]
 ;
 
-codelKB123
+codelKB132
 =
 -(gamma113*K12[ijk]) - gamma213*K22[ijk] - gamma313*K23[ijk]
 ;
@@ -2708,7 +2730,7 @@ codelKB211
 -(gamma121*K11[ijk]) - gamma221*K12[ijk] - gamma321*K13[ijk]
 ;
 
-codelKB212
+codelKB221
 =
 -(gamma122*K11[ijk]) - gamma222*K12[ijk] - gamma322*K13[ijk]
 ;
@@ -2718,7 +2740,7 @@ codelKB212
 -(gamma121*K12[ijk]) - gamma221*K22[ijk] - gamma321*K23[ijk]
 ;
 
-codelKB213
+codelKB231
 =
 -(gamma123*K11[ijk]) - gamma223*K12[ijk] - gamma323*K13[ijk]
 ;
@@ -2733,7 +2755,7 @@ codelKB222
 -(gamma122*K12[ijk]) - gamma222*K22[ijk] - gamma322*K23[ijk]
 ;
 
-codelKB223
+codelKB232
 =
 -(gamma123*K12[ijk]) - gamma223*K22[ijk] - gamma323*K23[ijk]
 ;
@@ -2753,7 +2775,7 @@ codelKB311
 -(gamma131*K11[ijk]) - gamma231*K12[ijk] - gamma331*K13[ijk]
 ;
 
-codelKB312
+codelKB321
 =
 -(gamma132*K11[ijk]) - gamma232*K12[ijk] - gamma332*K13[ijk]
 ;
@@ -2763,7 +2785,7 @@ codelKB312
 -(gamma131*K12[ijk]) - gamma231*K22[ijk] - gamma331*K23[ijk]
 ;
 
-codelKB313
+codelKB331
 =
 -(gamma133*K11[ijk]) - gamma233*K12[ijk] - gamma333*K13[ijk]
 ;
@@ -2778,7 +2800,7 @@ codelKB322
 -(gamma132*K12[ijk]) - gamma232*K22[ijk] - gamma332*K23[ijk]
 ;
 
-codelKB323
+codelKB332
 =
 -(gamma133*K12[ijk]) - gamma233*K22[ijk] - gamma333*K23[ijk]
 ;
@@ -2803,7 +2825,7 @@ codelKC112
 -(gamma112*K11[ijk]) - gamma212*K12[ijk] - gamma312*K13[ijk]
 ;
 
-codelKC112
+codelKC121
 =
 -(gamma111*K12[ijk]) - gamma211*K22[ijk] - gamma311*K23[ijk]
 ;
@@ -2813,7 +2835,7 @@ codelKC113
 -(gamma113*K11[ijk]) - gamma213*K12[ijk] - gamma313*K13[ijk]
 ;
 
-codelKC113
+codelKC131
 =
 -(gamma111*K13[ijk]) - gamma211*K23[ijk] - gamma311*K33[ijk]
 ;
@@ -2828,7 +2850,7 @@ codelKC123
 -(gamma113*K12[ijk]) - gamma213*K22[ijk] - gamma313*K23[ijk]
 ;
 
-codelKC123
+codelKC132
 =
 -(gamma112*K13[ijk]) - gamma212*K23[ijk] - gamma312*K33[ijk]
 ;
@@ -2848,7 +2870,7 @@ codelKC212
 -(gamma122*K11[ijk]) - gamma222*K12[ijk] - gamma322*K13[ijk]
 ;
 
-codelKC212
+codelKC221
 =
 -(gamma121*K12[ijk]) - gamma221*K22[ijk] - gamma321*K23[ijk]
 ;
@@ -2858,7 +2880,7 @@ codelKC213
 -(gamma123*K11[ijk]) - gamma223*K12[ijk] - gamma323*K13[ijk]
 ;
 
-codelKC213
+codelKC231
 =
 -(gamma121*K13[ijk]) - gamma221*K23[ijk] - gamma321*K33[ijk]
 ;
@@ -2873,7 +2895,7 @@ codelKC223
 -(gamma123*K12[ijk]) - gamma223*K22[ijk] - gamma323*K23[ijk]
 ;
 
-codelKC223
+codelKC232
 =
 -(gamma122*K13[ijk]) - gamma222*K23[ijk] - gamma322*K33[ijk]
 ;
@@ -2893,7 +2915,7 @@ codelKC312
 -(gamma132*K11[ijk]) - gamma232*K12[ijk] - gamma332*K13[ijk]
 ;
 
-codelKC312
+codelKC321
 =
 -(gamma131*K12[ijk]) - gamma231*K22[ijk] - gamma331*K23[ijk]
 ;
@@ -2903,7 +2925,7 @@ codelKC313
 -(gamma133*K11[ijk]) - gamma233*K12[ijk] - gamma333*K13[ijk]
 ;
 
-codelKC313
+codelKC331
 =
 -(gamma131*K13[ijk]) - gamma231*K23[ijk] - gamma331*K33[ijk]
 ;
@@ -2918,7 +2940,7 @@ codelKC323
 -(gamma133*K12[ijk]) - gamma233*K22[ijk] - gamma333*K23[ijk]
 ;
 
-codelKC323
+codelKC332
 =
 -(gamma132*K13[ijk]) - gamma232*K23[ijk] - gamma332*K33[ijk]
 ;
@@ -2958,16 +2980,16 @@ codelKB111*ginv11 + (codelKB112 + codelKB211)*ginv12 +
 
 cdKdB2
 =
-codelKB112*ginv11 + (codelKB122 + codelKB212)*ginv12 + 
-  (codelKB123 + codelKB312)*ginv13 + codelKB222*ginv22 + 
+codelKB121*ginv11 + (codelKB122 + codelKB221)*ginv12 + 
+  (codelKB123 + codelKB321)*ginv13 + codelKB222*ginv22 + 
   (codelKB223 + codelKB322)*ginv23 + codelKB323*ginv33
 ;
 
 cdKdB3
 =
-codelKB113*ginv11 + (codelKB123 + codelKB213)*ginv12 + 
-  (codelKB133 + codelKB313)*ginv13 + codelKB223*ginv22 + 
-  (codelKB233 + codelKB323)*ginv23 + codelKB333*ginv33
+codelKB131*ginv11 + (codelKB132 + codelKB231)*ginv12 + 
+  (codelKB133 + codelKB331)*ginv13 + codelKB232*ginv22 + 
+  (codelKB233 + codelKB332)*ginv23 + codelKB333*ginv33
 ;
 
 cdKdC1
@@ -2979,16 +3001,16 @@ codelKC111*ginv11 + (codelKC112 + codelKC211)*ginv12 +
 
 cdKdC2
 =
-codelKC112*ginv11 + (codelKC122 + codelKC212)*ginv12 + 
-  (codelKC123 + codelKC312)*ginv13 + codelKC222*ginv22 + 
+codelKC121*ginv11 + (codelKC122 + codelKC221)*ginv12 + 
+  (codelKC123 + codelKC321)*ginv13 + codelKC222*ginv22 + 
   (codelKC223 + codelKC322)*ginv23 + codelKC323*ginv33
 ;
 
 cdKdC3
 =
-codelKC113*ginv11 + (codelKC123 + codelKC213)*ginv12 + 
-  (codelKC133 + codelKC313)*ginv13 + codelKC223*ginv22 + 
-  (codelKC233 + codelKC323)*ginv23 + codelKC333*ginv33
+codelKC131*ginv11 + (codelKC132 + codelKC231)*ginv12 + 
+  (codelKC133 + codelKC331)*ginv13 + codelKC232*ginv22 + 
+  (codelKC233 + codelKC332)*ginv23 + codelKC333*ginv33
 ;
 
 codelTrKA1
@@ -3014,44 +3036,44 @@ codelKA311*ginv11 + codelKA322*ginv22 +
 
 codelTrKB1
 =
-codelKB111*ginv11 + codelKB122*ginv22 + 
-  2.*(codelKB112*ginv12 + codelKB113*ginv13 + codelKB123*ginv23) + 
-  codelKB133*ginv33
+codelKB111*ginv11 + (codelKB112 + codelKB121)*ginv12 + 
+  (codelKB113 + codelKB131)*ginv13 + codelKB122*ginv22 + 
+  (codelKB123 + codelKB132)*ginv23 + codelKB133*ginv33
 ;
 
 codelTrKB2
 =
-codelKB211*ginv11 + codelKB222*ginv22 + 
-  2.*(codelKB212*ginv12 + codelKB213*ginv13 + codelKB223*ginv23) + 
-  codelKB233*ginv33
+codelKB211*ginv11 + (codelKB212 + codelKB221)*ginv12 + 
+  (codelKB213 + codelKB231)*ginv13 + codelKB222*ginv22 + 
+  (codelKB223 + codelKB232)*ginv23 + codelKB233*ginv33
 ;
 
 codelTrKB3
 =
-codelKB311*ginv11 + codelKB322*ginv22 + 
-  2.*(codelKB312*ginv12 + codelKB313*ginv13 + codelKB323*ginv23) + 
-  codelKB333*ginv33
+codelKB311*ginv11 + (codelKB312 + codelKB321)*ginv12 + 
+  (codelKB313 + codelKB331)*ginv13 + codelKB322*ginv22 + 
+  (codelKB323 + codelKB332)*ginv23 + codelKB333*ginv33
 ;
 
 codelTrKC1
 =
-codelKC111*ginv11 + codelKC122*ginv22 + 
-  2.*(codelKC112*ginv12 + codelKC113*ginv13 + codelKC123*ginv23) + 
-  codelKC133*ginv33
+codelKC111*ginv11 + (codelKC112 + codelKC121)*ginv12 + 
+  (codelKC113 + codelKC131)*ginv13 + codelKC122*ginv22 + 
+  (codelKC123 + codelKC132)*ginv23 + codelKC133*ginv33
 ;
 
 codelTrKC2
 =
-codelKC211*ginv11 + codelKC222*ginv22 + 
-  2.*(codelKC212*ginv12 + codelKC213*ginv13 + codelKC223*ginv23) + 
-  codelKC233*ginv33
+codelKC211*ginv11 + (codelKC212 + codelKC221)*ginv12 + 
+  (codelKC213 + codelKC231)*ginv13 + codelKC222*ginv22 + 
+  (codelKC223 + codelKC232)*ginv23 + codelKC233*ginv33
 ;
 
 codelTrKC3
 =
-codelKC311*ginv11 + codelKC322*ginv22 + 
-  2.*(codelKC312*ginv12 + codelKC313*ginv13 + codelKC323*ginv23) + 
-  codelKC333*ginv33
+codelKC311*ginv11 + (codelKC312 + codelKC321)*ginv12 + 
+  (codelKC313 + codelKC331)*ginv13 + codelKC322*ginv22 + 
+  (codelKC323 + codelKC332)*ginv23 + codelKC333*ginv33
 ;
 
 denom1
diff --git a/src/physics/ADMvars/ADMconstraints.m b/src/physics/ADMvars/ADMconstraints.m
index 15988b5..40ce8f6 100644
--- a/src/physics/ADMvars/ADMconstraints.m
+++ b/src/physics/ADMvars/ADMconstraints.m
@@ -163,12 +163,9 @@ codelK[c_,a_,b_] := codelK[c,b,a] /; !OrderedQ[{a,b}]
 cdKudd[c_,a_,b_] := cdKudd[c,b,a] /; !OrderedQ[{a,b}]
 
 RA[a_,b_]         := RA[b,a] /; !OrderedQ[{a,b}]
-RB[a_,b_]         := RB[b,a] /; !OrderedQ[{a,b}]
 RC[a_,b_]         := RC[b,a] /; !OrderedQ[{a,b}]
 RD[a_,b_]         := RD[b,a] /; !OrderedQ[{a,b}]
 codelKA[c_,a_,b_] := codelKA[c,b,a] /; !OrderedQ[{a,b}]
-codelKB[c_,a_,b_] := codelKB[c,b,a] /; !OrderedQ[{a,b}]
-codelKC[c_,a_,b_] := codelKC[c,b,a] /; !OrderedQ[{a,b}]
 cdKuddA[c_,a_,b_] := cdKuddA[c,b,a] /; !OrderedQ[{a,b}]
 cdKuddB[c_,a_,b_] := cdKuddB[c,b,a] /; !OrderedQ[{a,b}]
 cdKuddC[c_,a_,b_] := cdKuddC[c,b,a] /; !OrderedQ[{a,b}]
-- 
2.43.0


From 9b4e45ccaad151b0229b4aa42d2fe79c4c99d8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:32 +0000
Subject: [PATCH 03/59] fix: Kerr-Schild conformal factor is 1+2M/rho so its
 derivatives are right

dpsiopsi and ddpsiopsi were written as if r were |x|, which is only true
without spin. psi is an ad hoc choice, so use rho=|x| throughout.
---
 src/physics/SingleBH/SingleBHKS.c | 20 ++++++++++----------
 src/physics/SingleBH/SingleBHKS.m |  8 ++++----
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/physics/SingleBH/SingleBHKS.c b/src/physics/SingleBH/SingleBHKS.c
index 24b1664..19f82d3 100644
--- a/src/physics/SingleBH/SingleBHKS.c
+++ b/src/physics/SingleBH/SingleBHKS.c
@@ -447,52 +447,52 @@ if (ConformalFactor) {
 
 psi[ijk]
 =
-1. + (2.*M)/r
+1. + (2.*M)/rho
 ;
 
 dpsiopsi1[ijk]
 =
-(-2.*M*x1[ijk])/(Power(r,3)*psi[ijk])
+(-2.*M*x1[ijk])/(Power(rho,3)*psi[ijk])
 ;
 
 dpsiopsi2[ijk]
 =
-(-2.*M*x2[ijk])/(Power(r,3)*psi[ijk])
+(-2.*M*x2[ijk])/(Power(rho,3)*psi[ijk])
 ;
 
 dpsiopsi3[ijk]
 =
-(-2.*M*x3[ijk])/(Power(r,3)*psi[ijk])
+(-2.*M*x3[ijk])/(Power(rho,3)*psi[ijk])
 ;
 
 ddpsiopsi11[ijk]
 =
-(M*(-2./Power(r,3) + (6.*pow2(x1[ijk]))/Power(r,5)))/psi[ijk]
+(M*(-2./Power(rho,3) + (6.*pow2(x1[ijk]))/Power(rho,5)))/psi[ijk]
 ;
 
 ddpsiopsi12[ijk]
 =
-(6.*M*x1[ijk]*x2[ijk])/(Power(r,5)*psi[ijk])
+(6.*M*x1[ijk]*x2[ijk])/(Power(rho,5)*psi[ijk])
 ;
 
 ddpsiopsi13[ijk]
 =
-(6.*M*x1[ijk]*x3[ijk])/(Power(r,5)*psi[ijk])
+(6.*M*x1[ijk]*x3[ijk])/(Power(rho,5)*psi[ijk])
 ;
 
 ddpsiopsi22[ijk]
 =
-(M*(-2./Power(r,3) + (6.*pow2(x2[ijk]))/Power(r,5)))/psi[ijk]
+(M*(-2./Power(rho,3) + (6.*pow2(x2[ijk]))/Power(rho,5)))/psi[ijk]
 ;
 
 ddpsiopsi23[ijk]
 =
-(6.*M*x2[ijk]*x3[ijk])/(Power(r,5)*psi[ijk])
+(6.*M*x2[ijk]*x3[ijk])/(Power(rho,5)*psi[ijk])
 ;
 
 ddpsiopsi33[ijk]
 =
-(M*(-2./Power(r,3) + (6.*pow2(x3[ijk]))/Power(r,5)))/psi[ijk]
+(M*(-2./Power(rho,3) + (6.*pow2(x3[ijk]))/Power(rho,5)))/psi[ijk]
 ;
 
 
diff --git a/src/physics/SingleBH/SingleBHKS.m b/src/physics/SingleBH/SingleBHKS.m
index b4d82a0..e7beade 100644
--- a/src/physics/SingleBH/SingleBHKS.m
+++ b/src/physics/SingleBH/SingleBHKS.m
@@ -46,10 +46,10 @@ tocompute = {
  (* Conformal Factor *)
  Cif == ConformalFactor,
 
-   (* set cconformal factor psi=1+2M/r   <-adhoc choice *)
-   psi == 1+2M/r,
-   dpsiopsi[a] == ( -(2M/r^2) x[a]/r )/psi ,  (* = ( -(2M/r^3) x[a] )/psi *)
-   ddpsiopsi[a,b] == ( (6M/r^3) (x[a]/r) (x[b]/r) -(2M/r^3)delta[a,b] )/psi,
+   (* set cconformal factor psi=1+2M/rho <-adhoc choice *)
+   psi == 1+2M/rho,
+   dpsiopsi[a] == ( -(2M/rho^2) x[a]/rho )/psi ,  (* = ( -(2M/rho^3) x[a] )/psi *)
+   ddpsiopsi[a,b] == ( (6M/rho^3) (x[a]/rho) (x[b]/rho) -(2M/rho^3)delta[a,b] )/psi,
 
  Cif == else,
 
-- 
2.43.0


From 9d6ca082b06f190b98b50e1ddbf71a7682e1b2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:41 +0000
Subject: [PATCH 04/59] fix: J_Poisson3 linearizes Chi^2 Psizz as 2 Chi lChi
 Psizz

---
 src/physics/Poisson3/Poisson3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/Poisson3/Poisson3.c b/src/physics/Poisson3/Poisson3.c
index c154540..79081d6 100644
--- a/src/physics/Poisson3/Poisson3.c
+++ b/src/physics/Poisson3/Poisson3.c
@@ -416,7 +416,7 @@ void J_Poisson3(tVarList *VLJlu, tVarList *VLlu,
     forallpoints(box, i)
     {
       JlPsi[i] = Chi[i]*lPsixx[i] + lChi[i]*Psixx[i]  +  lPsiyy[i]  +
-                 Chi[i]*Chi[i]*lPsizz[i] + 2.0*lChi[i]*Psizz[i];
+                 Chi[i]*Chi[i]*lPsizz[i] + 2.0*Chi[i]*lChi[i]*Psizz[i];
       JlChi[i] = lChixx[i] + Psix[i]*lChiyy[i] + lPsix[i]*Chiyy[i] + lChizz[i];
     }
   }
-- 
2.43.0


From 2f6940a6faecc1177829275fb1cbe135c947058e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:08 +0000
Subject: [PATCH 05/59] fix: point list loops no longer read through NULL in
 boxes without listed points

---
 src/main/MemoryMan/sgrid_MemoryMan_loops.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/MemoryMan/sgrid_MemoryMan_loops.h b/src/main/MemoryMan/sgrid_MemoryMan_loops.h
index 394f7bd..a9d360a 100644
--- a/src/main/MemoryMan/sgrid_MemoryMan_loops.h
+++ b/src/main/MemoryMan/sgrid_MemoryMan_loops.h
@@ -76,12 +76,12 @@
 /* loop over all points ijk in all boxes in list pointlist */
 #define forPointList(pointlist, boxindx, pi , ijk) \
   forallboxes(pointlist->grid,boxindx) \
-    for(pi = 0 , ijk = pointlist->point[boxindx][pi]; \
+    for(pi = 0 , ijk = (pointlist->npoints[boxindx]>0) ? pointlist->point[boxindx][pi] : 0; \
         pi < pointlist->npoints[boxindx]; \
         pi++, ijk = pointlist->point[boxindx][pi-(pi==pointlist->npoints[boxindx])])
 
 /* loop over all points ijk in all boxes in list pointlist */
 #define forPointList_inbox(pointlist, box, pi , ijk) \
-  for(pi = 0 , ijk = pointlist->point[box->b][pi]; \
+  for(pi = 0 , ijk = (pointlist->npoints[box->b]>0) ? pointlist->point[box->b][pi] : 0; \
         pi < pointlist->npoints[box->b]; \
         pi++, ijk = pointlist->point[box->b][pi-(pi==pointlist->npoints[box->b])])
-- 
2.43.0


From 0b2fddfc118b5717b19c0f208622a3914753afda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:08 +0000
Subject: [PATCH 06/59] fix: ScalarOnKerr second order evolution uses all mixed
 derivatives of psi

---
 src/physics/ScalarOnKerr/ScalarOnKerr.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/physics/ScalarOnKerr/ScalarOnKerr.c b/src/physics/ScalarOnKerr/ScalarOnKerr.c
index 3108d9d..aa83fa6 100644
--- a/src/physics/ScalarOnKerr/ScalarOnKerr.c
+++ b/src/physics/ScalarOnKerr/ScalarOnKerr.c
@@ -750,6 +750,9 @@ void ScalarOnKerr_evolve(tVarList *unew, tVarList *upre, double dt,
         psiyy = ddpsiyy[i];
         psiyz_s = ddpsiyz[i];
         psizz = ddpsizz[i];
+        psixy = psiyx = psixy_s;
+        psixz = psizx = psixz_s;
+        psiyz = psizy = psiyz_s;
       }
       /* use Scheel's def of Pi instead of Pi = psidot */
       if(ScheelsPi)
-- 
2.43.0


From 226fcc29c42868c73b61c3337a306823a0eacb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:39 +0000
Subject: [PATCH 07/59] fix: Z4secondO registers the lapse and shift_stop_time
 parameters it reads

---
 src/physics/Z4secondO/sgrid_Z4secondO.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/physics/Z4secondO/sgrid_Z4secondO.c b/src/physics/Z4secondO/sgrid_Z4secondO.c
index 51ba9e6..3704a10 100644
--- a/src/physics/Z4secondO/sgrid_Z4secondO.c
+++ b/src/physics/Z4secondO/sgrid_Z4secondO.c
@@ -50,7 +50,9 @@ int sgrid_Z4secondO(void)
          
   AddPar("Z4secondO_shift",  "constant",
          "shift equation [constant,gamma0,gamma2]");
-  AddPar("Z4secondOy_lapse", "constant", 
+  AddPar("Z4secondO_lapse", "constant", 
 	 "lapse equation [constant,1+log,harmonic;withshift]");
+  AddPar("Z4secondO_shift_stop_time", "-1.0",
+         "time when shift stops evolving (-1 for don't stop)");
   return 0;
 }
-- 
2.43.0


From 00f8eeb4d771982d9a833171af3234d41f2a1ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:32 +0000
Subject: [PATCH 08/59] fix: PolarCE drho/dx, drho/dy must use the angle, not
 the box coordinate Y

---
 src/utility/Coordinates/Coordinates.c | 20 ++++++++++++++++++--
 src/utility/Coordinates/Coordinates.h |  2 ++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/utility/Coordinates/Coordinates.c b/src/utility/Coordinates/Coordinates.c
index 40e8009..06ed539 100644
--- a/src/utility/Coordinates/Coordinates.c
+++ b/src/utility/Coordinates/Coordinates.c
@@ -126,8 +126,8 @@ int init_CoordTransform_And_Derivs(tGrid *grid)
       box->x_of_X[2] = y_ofPolarCE;
       box->x_of_X[3] = z_equals_Z;
 
-      box->dX_dx[1][1] = drho_dx;
-      box->dX_dx[1][2] = drho_dy;
+      box->dX_dx[1][1] = drhoPolarCE_dx;
+      box->dX_dx[1][2] = drhoPolarCE_dy;
       box->dX_dx[1][3] = zero_of_xyz;
       box->dX_dx[2][1] = dYPolarCE_dx;
       box->dX_dx[2][2] = dYPolarCE_dy;
@@ -1299,6 +1299,22 @@ double y_ofPolarCE(void *aux, int ind, double rho, double Y, double Z)
 }
 
 /* first coord. derivs */
+double drhoPolarCE_dx(void *aux, int ind, double rho, double Y, double Z)
+{
+  tBox *box = (tBox *) aux;
+  int N = box->n2 - 1;
+  double phi = ((2.0*N)/(N-1.0)) * acos( 1.0 - Y/PI );
+
+  return drho_dx(aux,ind, rho, phi, Z);
+}
+double drhoPolarCE_dy(void *aux, int ind, double rho, double Y, double Z)
+{
+  tBox *box = (tBox *) aux;
+  int N = box->n2 - 1;
+  double phi = ((2.0*N)/(N-1.0)) * acos( 1.0 - Y/PI );
+
+  return drho_dy(aux,ind, rho, phi, Z);
+}
 /* NOTE: Y = PI*( 1.0 - cos( ((N-1.0)/(2.0*N)) * phi ) )             */
 /* dY/dphi = PI*((N-1.0)/(2.0*N)) * sin( ((N-1.0)/(2.0*N)) * phi )   */
 double dYPolarCE_dx(void *aux, int ind, double rho, double Y, double Z)
diff --git a/src/utility/Coordinates/Coordinates.h b/src/utility/Coordinates/Coordinates.h
index a22f6eb..37c3b3b 100644
--- a/src/utility/Coordinates/Coordinates.h
+++ b/src/utility/Coordinates/Coordinates.h
@@ -77,6 +77,8 @@ double dphi_dydy(void *aux, int ind, double rho, double phi, double Z);
 /* PolarCE coordinates: */
 double x_ofPolarCE(void *aux, int ind, double rho, double Y, double Z);
 double y_ofPolarCE(void *aux, int ind, double rho, double Y, double Z);
+double drhoPolarCE_dx(void *aux, int ind, double rho, double Y, double Z);
+double drhoPolarCE_dy(void *aux, int ind, double rho, double Y, double Z);
 double dYPolarCE_dx(void *aux, int ind, double rho, double Y, double Z);
 double dYPolarCE_dy(void *aux, int ind, double rho, double Y, double Z);
 
-- 
2.43.0


From daa620cd83ceead470c9c4ccdcade0768b9f7f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:31 +0000
Subject: [PATCH 09/59] fix: AnsorgNS dB/dx has the opposite sign where BB>1 is
 mapped to 2-BB

---
 src/utility/Coordinates/Coordinates.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utility/Coordinates/Coordinates.c b/src/utility/Coordinates/Coordinates.c
index 06ed539..8e618af 100644
--- a/src/utility/Coordinates/Coordinates.c
+++ b/src/utility/Coordinates/Coordinates.c
@@ -2577,9 +2577,11 @@ void dABphi_dxyz_AnsorgNS(tBox *box, int ind, int domain,
   }
 
   /* make dABphi_dxyz_AnsorgNS periodic in BB */
+  dBBdB = 1.0;
   if(BB>1.0)
   {
     BB=2.0-BB;
+    dBBdB = -1.0; /* B is now 2 minus the original BB */
     if(phi<PI)	phi=phi+PI;
     else	phi=phi-PI;
   }
@@ -2590,7 +2592,6 @@ void dABphi_dxyz_AnsorgNS(tBox *box, int ind, int domain,
   /* B = asin(BB*sin(B_BB_c1))/B_BB_c1;
      dBBdB = B_BB_c1*cos(B*B_BB_c1)/sin(B_BB_c1);  */
   B = BB; /* we use B=BB for now */
-  dBBdB = 1.0;
 
   /* using Ap = A seems better to me */
   Ap = A;
-- 
2.43.0


From 1a434d3fa1531a259fa8d77b78acc02186954b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:25 +0000
Subject: [PATCH 10/59] fix: AnsorgNS saved values are keyed by the arguments
 of the call, not by the shifted or folded BB and phi

---
 src/utility/Coordinates/Coordinates.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/utility/Coordinates/Coordinates.c b/src/utility/Coordinates/Coordinates.c
index 8e618af..a3d8ea7 100644
--- a/src/utility/Coordinates/Coordinates.c
+++ b/src/utility/Coordinates/Coordinates.c
@@ -2324,6 +2324,7 @@ void xyz_of_AnsorgNS(tBox *box, int ind, int domain,
   static double Asav=-1, BBsav=-1, phisav=-1;
   static double xsav, ysav, zsav, Xsav, Rsav;
   static int BBshift=-1;
+  double BBarg=BB, phiarg=phi; /* BB,phi we are called with */
   int read=0;
   double X,R;
   double Rsqr=-1, Xsqr=-1, Rsqr_p_Xsqr=-1;
@@ -2505,13 +2506,13 @@ void xyz_of_AnsorgNS(tBox *box, int ind, int domain,
     xsav=*x;  ysav=*y;  zsav=*z;
     Xsav=*Xp; Rsav=*Rp;
     /* set static vars that indicate saved values */
-    Asav=A;  BBsav=BB;  phisav=phi;  boxsav=box;
+    Asav=A;  BBsav=BBarg;  phisav=phiarg;  boxsav=box;
     domainsav=domain;
   }
 #ifdef DEBUGrace
   /* check integrity of saved values (other threads may have messed them up) */
   if(!dequal(xsav,*x) || !dequal(ysav,*y) || !dequal(zsav,*z) ||
-     !dequal(Asav,A) || !dequal(BBsav,BB) || !dequal(phisav,phi) ||
+     !dequal(Asav,A) || !dequal(BBsav,BBarg) || !dequal(phisav,phiarg) ||
      boxsav!=box || domainsav!=domain)
   {
      domainsav=-42; /* do not use save values!!! */
@@ -2538,6 +2539,7 @@ void dABphi_dxyz_AnsorgNS(tBox *box, int ind, int domain,
                 dphidxsav, dphidysav, dphidzsav;
   double dBdx, dBdy, dBdz;
   static int BBshift=-1;
+  double BBarg=BB, phiarg=phi; /* BB,phi we are called with */
   int read=0;
   double X,R;
   double Rsqr=-1, Xsqr=-1, Rsqr_p_Xsqr=-1;
@@ -3165,7 +3167,7 @@ void dABphi_dxyz_AnsorgNS(tBox *box, int ind, int domain,
     dBBdxsav=*dBBdx;   dBBdysav=*dBBdy;   dBBdzsav=*dBBdz;
     dphidxsav=*dphidx; dphidysav=*dphidy; dphidzsav=*dphidz;
     /* set static vars that indicate saved values */
-    Asav=A;  BBsav=BB;  phisav=phi;  boxsav=box;
+    Asav=A;  BBsav=BBarg;  phisav=phiarg;  boxsav=box;
     domainsav=domain;    /* now we are done writing the static vars */
   }
 #ifdef DEBUGrace
@@ -3174,7 +3176,7 @@ void dABphi_dxyz_AnsorgNS(tBox *box, int ind, int domain,
      !dequal(dAdxsav,*dAdx)     || !dequal(dAdysav,*dAdy)     || !dequal(dAdzsav,*dAdz)     ||
      !dequal(dBBdxsav,*dBBdx)   || !dequal(dBBdysav,*dBBdy)   || !dequal(dBBdzsav,*dBBdz)   ||
      !dequal(dphidxsav,*dphidx) || !dequal(dphidysav,*dphidy) || !dequal(dphidzsav,*dphidz) ||
-     !dequal(Asav,A) || !dequal(BBsav,BB) || !dequal(phisav,phi) ||
+     !dequal(Asav,A) || !dequal(BBsav,BBarg) || !dequal(phisav,phiarg) ||
      boxsav!=box || domainsav!=domain)
   {
      domainsav=-42; /* do not use saved values!!! */
-- 
2.43.0


From 07076a01ff758691627973528b1e80cb362ad6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:59 +0000
Subject: [PATCH 11/59] fix: do not select the built-in FFTs for lines of
 points they cannot transform

numrec_cosft1 needs at least 2 intervals and numrec_realft and
numrec_cosft2 at least 2 points, but 1 counts as a power of two.
---
 src/utility/Spectral/spec_coeffs.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utility/Spectral/spec_coeffs.c b/src/utility/Spectral/spec_coeffs.c
index 941dd77..8d5fb95 100644
--- a/src/utility/Spectral/spec_coeffs.c
+++ b/src/utility/Spectral/spec_coeffs.c
@@ -617,9 +617,9 @@ void set_TransformType_flags_inbox(tBox *box)
     snprintf(bas, 999, "box%d_basis%d", box->b, dir);
     /* printf("str=%s=%s\nbas=%s=%s\n", str, Gets(str), bas, Gets(bas)); */
     if( Getv(str, "NUMREC_FFT") && nb>=Geti(str) && Geti(str)>=0 &&
-        ( (Getv(bas, "ChebExtrema") && is_power_of_two(nb-1)) ||
-          (Getv(bas, "ChebZeros") && is_power_of_two(nb)) ||
-          (Getv(bas, "Fourier") && is_power_of_two(nb))          )  )
+        ( (Getv(bas, "ChebExtrema") && nb>2 && is_power_of_two(nb-1)) ||
+          (Getv(bas, "ChebZeros") && nb>1 && is_power_of_two(nb)) ||
+          (Getv(bas, "Fourier") && nb>1 && is_power_of_two(nb))          )  )
       *Ttype=NUMREC_FFT;
     else if( Getv(str, "FFTW3") && nb>=Geti(str) && Geti(str)>=0 &&
              ( Getv(bas, "ChebExtrema") ||
-- 
2.43.0


From 58ee08f7d14582263ca9375c68c79ec658968550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:59 +0000
Subject: [PATCH 12/59] fix: cheb_int reads before c[] and divides by zero if
 there is only one coeff

---
 src/utility/Spectral/explicit_Cheb_trafos.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utility/Spectral/explicit_Cheb_trafos.c b/src/utility/Spectral/explicit_Cheb_trafos.c
index 1715cd0..603168f 100644
--- a/src/utility/Spectral/explicit_Cheb_trafos.c
+++ b/src/utility/Spectral/explicit_Cheb_trafos.c
@@ -101,6 +101,11 @@ void cheb_int(double a, double b, double c[], double cint[], int n)
   int j;
   double sum=0.0,fac=1.0,con;
 
+  if(n<1)
+  {
+    cint[0]=0.0; /* only one coeff, i.e. the integral needs a higher order */
+    return;
+  }
   con=0.25*(a-b);
   for (j=1;j<=n-1;j++)
   {
-- 
2.43.0


From 2db298f0426294f080f6dc678225eac5e44dd049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:59 +0000
Subject: [PATCH 13/59] fix: four_eval_alt drops the highest mode for even N

four_coeffs_alt halves c[N-1] for even N, so that four_eval_alt must
not subtract it.
---
 src/utility/Spectral/explicit_Four_trafos.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/utility/Spectral/explicit_Four_trafos.c b/src/utility/Spectral/explicit_Four_trafos.c
index 2c174f4..43d584c 100644
--- a/src/utility/Spectral/explicit_Four_trafos.c
+++ b/src/utility/Spectral/explicit_Four_trafos.c
@@ -137,10 +137,7 @@ void four_eval_alt(double c[], double u[], int n)
         Im_c_k = 0.0;
       sum += cos(k*PI2oN*j)*Re_c_k + sin(k*PI2oN*j)*Im_c_k;
     }
-    if( N%2 == 0 )
-      u[j] = ( c[0] + sum - c[N-1]*cos(PI*j) );
-    else
-      u[j] = ( c[0] + sum );
+    u[j] = c[0] + sum; /* four_coeffs_alt has already halved c[N-1] for even N */
   }
   /* we should use a FFT for eveything above this line */
 }
-- 
2.43.0


From 8e8941895bc91ac0927b040d20e8ce8f175c3b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:35 +0000
Subject: [PATCH 14/59] fix: Fourier basis functions start at X=a

The coeffs are those of points X = a + (b-a)*k/N, so the basis functions
have to be functions of X-a. Before, interpolation was wrong for a!=0.
---
 src/utility/Spectral/explicit_Four_trafos.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/utility/Spectral/explicit_Four_trafos.c b/src/utility/Spectral/explicit_Four_trafos.c
index 43d584c..2f8dd59 100644
--- a/src/utility/Spectral/explicit_Four_trafos.c
+++ b/src/utility/Spectral/explicit_Four_trafos.c
@@ -219,9 +219,9 @@ double four_basisfunc_alt(void *aux, double a, double b, int n, int N, double X)
   double K = 2.0*PI/(b-a);
   int j = n/2 + n%2;
 
-  if(n%2!=0) return cos(j*K*X);
+  if(n%2!=0) return cos(j*K*(X-a));
   if(n==0)   return 1.0;
-  return sin(j*K*X);
+  return sin(j*K*(X-a));
 }
 
 
@@ -232,9 +232,9 @@ double four_basisfunc(void *aux, double a, double b, int k, int N, double X)
   int j = k/2 + k%2;
 
   if(k==0)              return 1.0/N;
-  if(k==N-1 && N%2==0)  return cos(j*K*X)*1.0/N;;
-  if(k%2!=0)            return cos(j*K*X)*2.0/N;
-  return sin(j*K*X)*2.0/N;
+  if(k==N-1 && N%2==0)  return cos(j*K*(X-a))*1.0/N;
+  if(k%2!=0)            return cos(j*K*(X-a))*2.0/N;
+  return sin(j*K*(X-a))*2.0/N;
 }
 
 
-- 
2.43.0


From 870d14ed51b32b1bbf6ff8a5e12dfd0f1dc3926f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:30 +0000
Subject: [PATCH 15/59] fix: boxes with fd2_* bases crash and do not use their
 2nd derivs

initIntegrationMatrix calls coeffs_of_int which is NULL for the fd2_* bases,
and coeffs_of_2ndderiv was never stored in or read from the box.
---
 src/utility/Spectral/diffmatrices.c | 3 +++
 src/utility/Spectral/spec_coeffs.c  | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/src/utility/Spectral/diffmatrices.c b/src/utility/Spectral/diffmatrices.c
index aa1f74a..fd1058d 100644
--- a/src/utility/Spectral/diffmatrices.c
+++ b/src/utility/Spectral/diffmatrices.c
@@ -283,6 +283,9 @@ void initIntegrationMatrix(double a, double b, double *Int, int n1,
   double *c;
   double *d;
 
+  /* the fd2_* bases have no coeffs_of_int */
+  if(coeffs_of_int==NULL) return;
+
   u = (double *) calloc(n1, sizeof(double));
   c = (double *) calloc(n1, sizeof(double));
   d = (double *) calloc(n1, sizeof(double));
diff --git a/src/utility/Spectral/spec_coeffs.c b/src/utility/Spectral/spec_coeffs.c
index 8d5fb95..ce62e96 100644
--- a/src/utility/Spectral/spec_coeffs.c
+++ b/src/utility/Spectral/spec_coeffs.c
@@ -791,6 +791,7 @@ void init_spec_functionpointers(tBox *box)
     {
       box->get_coeffs1      = get_coeffs;
       box->coeffs_of_deriv1 = coeffs_of_deriv;
+      box->coeffs_of_2ndderiv1 = coeffs_of_2ndderiv;
       box->coeffs_of_int1   = coeffs_of_int;
       box->eval_onPoints1   = eval_onPoints;
       box->filter_coeffs1   = filter_coeffs;
@@ -800,6 +801,7 @@ void init_spec_functionpointers(tBox *box)
     {
       box->get_coeffs2      = get_coeffs;
       box->coeffs_of_deriv2 = coeffs_of_deriv;
+      box->coeffs_of_2ndderiv2 = coeffs_of_2ndderiv;
       box->coeffs_of_int2   = coeffs_of_int;
       box->eval_onPoints2   = eval_onPoints;
       box->filter_coeffs2   = filter_coeffs;
@@ -809,6 +811,7 @@ void init_spec_functionpointers(tBox *box)
     {
       box->get_coeffs3      = get_coeffs;
       box->coeffs_of_deriv3 = coeffs_of_deriv;
+      box->coeffs_of_2ndderiv3 = coeffs_of_2ndderiv;
       box->coeffs_of_int3   = coeffs_of_int;
       box->eval_onPoints3   = eval_onPoints;
       box->filter_coeffs3   = filter_coeffs;
@@ -834,6 +837,7 @@ void get_spec_functionpointers(tBox *box, int dir,
   {
     *get_coeffs      = box->get_coeffs1;
     *coeffs_of_deriv = box->coeffs_of_deriv1;
+    *coeffs_of_2ndderiv = box->coeffs_of_2ndderiv1;
     *coeffs_of_int   = box->coeffs_of_int1;
     *eval_onPoints   = box->eval_onPoints1;
     *filter_coeffs   = box->filter_coeffs1;
@@ -843,6 +847,7 @@ void get_spec_functionpointers(tBox *box, int dir,
   {
     *get_coeffs      = box->get_coeffs2;
     *coeffs_of_deriv = box->coeffs_of_deriv2;
+    *coeffs_of_2ndderiv = box->coeffs_of_2ndderiv2;
     *coeffs_of_int   = box->coeffs_of_int2;
     *eval_onPoints   = box->eval_onPoints2;
     *filter_coeffs   = box->filter_coeffs2;
@@ -852,6 +857,7 @@ void get_spec_functionpointers(tBox *box, int dir,
   {
     *get_coeffs      = box->get_coeffs3;
     *coeffs_of_deriv = box->coeffs_of_deriv3;
+    *coeffs_of_2ndderiv = box->coeffs_of_2ndderiv3;
     *coeffs_of_int   = box->coeffs_of_int3;
     *eval_onPoints   = box->eval_onPoints3;
     *filter_coeffs   = box->filter_coeffs3;
-- 
2.43.0


From 2ea33dc20d1b1073d3bf49810d2ed6ab06c7457a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:30 +0000
Subject: [PATCH 16/59] fix: sphericalDF integrals drop the highest theta mode
 for odd N

For odd N the highest mode is n=(N-1)/2=N/2, and it contributes if it is even.
---
 src/utility/Spectral/integrals.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utility/Spectral/integrals.c b/src/utility/Spectral/integrals.c
index a6b8a2f..d72de17 100644
--- a/src/utility/Spectral/integrals.c
+++ b/src/utility/Spectral/integrals.c
@@ -390,7 +390,7 @@ void spec_sphericalDF2dIntegral(tBox *box, double *u, double *U)
           sum = (1.0/PI) * U[Index(i,0,k)];
           sum += 0.5*( sin(PI2*d) * U[Index(i,1,k)]
                       +cos(PI2*d) * U[Index(i,2,k)] );
-          for(n=2;n<N/2;n+=2)
+          for(n=2;2*n<N;n+=2)
           {
             Re_c_n = U[Index(i, 2*n-1, k)]; /* c[2*n-1]; */
             Im_c_n = U[Index(i, 2*n, k)];   /* c[2*n];   */
@@ -479,7 +479,7 @@ void spec_sphericalDF2dIntegral_at_radial_index_i(tBox *box,
           sum = (1.0/PI) * U[Index(i,0,k)];
           sum += 0.5*( sin(PI2*d) * U[Index(i,1,k)]
                       +cos(PI2*d) * U[Index(i,2,k)] );
-          for(n=2;n<N/2;n+=2)
+          for(n=2;2*n<N;n+=2)
           {
             Re_c_n = U[Index(i, 2*n-1, k)]; /* c[2*n-1]; */
             Im_c_n = U[Index(i, 2*n, k)];   /* c[2*n];   */
-- 
2.43.0


From 78b92c0893f2ab337c5eebb356f6dfa511ca37a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:19 +0000
Subject: [PATCH 17/59] fix: initfiltermatrix sets the whole identity matrix if
 nothing is filtered

Only the diagonal was set, so that off-diagonal elements of an earlier
filter matrix survived when the filter was switched off and the matrices
were set up again.
---
 src/utility/Spectral/filters.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utility/Spectral/filters.c b/src/utility/Spectral/filters.c
index 5b4167e..482965f 100644
--- a/src/utility/Spectral/filters.c
+++ b/src/utility/Spectral/filters.c
@@ -45,7 +45,8 @@ void initfiltermatrix(double *F, int k, int n1,
     u[j]=0.0;
   }
   else
-    for(i=0; i<n1; i++) F[n1*i + i] = 1.0;
+    for(i=0; i<n1; i++)
+      for(j=0; j<n1; j++) F[n1*i + j] = (i==j);
 
   free(u);
   free(c);
-- 
2.43.0


From 8df19ff661ab27ae8a3545de703af2e8b2272d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:19 +0000
Subject: [PATCH 18/59] fix: initfiltermatrix must not write in front of the
 coefficients

With boxN_filterI > boxN_nI it called filter_coeffs with a negative first
index.
---
 src/utility/Spectral/filters.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utility/Spectral/filters.c b/src/utility/Spectral/filters.c
index 482965f..e8ab694 100644
--- a/src/utility/Spectral/filters.c
+++ b/src/utility/Spectral/filters.c
@@ -24,6 +24,9 @@ void initfiltermatrix(double *F, int k, int n1,
   if( !(u && c && uf) ) errorexit("initfiltermatrix: out of memory for u, c, uf");
 
 
+  /* we cannot filter out more than all n1 coeffs */
+  if(k<1) k=1;
+
   /* read matrix from functions */
   if(k<=n1) 
   for(j=0; j<n1; j++)
-- 
2.43.0


From c286d038f979fd7c1f4e715fae3900666de76d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:33 +0000
Subject: [PATCH 19/59] fix: SphHarm_sin_theta_dtheta_forRealFunc read
 coefficients beyond lmax

---
 src/utility/Spectral/SphericalHarmonics.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utility/Spectral/SphericalHarmonics.c b/src/utility/Spectral/SphericalHarmonics.c
index 02ef816..1ce8f72 100644
--- a/src/utility/Spectral/SphericalHarmonics.c
+++ b/src/utility/Spectral/SphericalHarmonics.c
@@ -312,8 +312,9 @@ void SphHarm_sin_theta_dtheta_forRealFunc(double *c, double *csdth, int lmax)
       elp1m = elp1m/( (lp1_2 + 1)*(lp1_2 - 1) );
       elp1m = sqrt(elp1m);
 
-      Rclp1 = c[i+lp1_2];
-      Iclp1 = c[i+lp1_2+1];
+      /* there are no coeffs beyond lmax in c */
+      Rclp1 = (l<lmax) ? c[i+lp1_2]   : 0.;
+      Iclp1 = (l<lmax) ? c[i+lp1_2+1] : 0.;
       Rclm1 = c[i-l_2];
       Iclm1 = c[i-l_2+1];
 
-- 
2.43.0


From a74e7342f219acb1af72892fea8c15d7af36caaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:51 +0000
Subject: [PATCH 20/59] fix: factor N.n in the last term of P^{3/2}Q (Kidder
 1995, Eq. 4.9d)

---
 src/physics/PN_CircularOrbit_GWs/compute_GWs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/PN_CircularOrbit_GWs/compute_GWs.c b/src/physics/PN_CircularOrbit_GWs/compute_GWs.c
index 86d60cc..3abe150 100644
--- a/src/physics/PN_CircularOrbit_GWs/compute_GWs.c
+++ b/src/physics/PN_CircularOrbit_GWs/compute_GWs.c
@@ -380,7 +380,7 @@ void compute_P15Qc(double y[], double lambda[], double n[], double theta, double
                                                + 7.5*NN_dot_n*pow(NN_dot_lambda,2)*(n[i]*lambda[j]+n[j]*lambda[i])
                                              )
                                 - NN_dot_lambda*(1.0/12.0*(101.0 -12.0*nu)*n[i]*n[j] - 0.5*(19.0-4.0*nu)*lambda[i]*lambda[j])
-                                - 1.0/12.0*(149.0-36.0*nu)*(n[i]*lambda[j]+n[j]*lambda[i]) 
+                                - 1.0/12.0*(149.0-36.0*nu)*NN_dot_n*(n[i]*lambda[j]+n[j]*lambda[i])
                               ) 
                     - 2.0/m/m*(  
                                 lambda[i]*lambda[j]*Ln_cap_dot_S5_p_3Delta
-- 
2.43.0


From 79a838c6172ddcbf53ae27b956ed5636a2c39c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:51 +0000
Subject: [PATCH 21/59] fix: compute the norm of Ln_cap once before
 renormalising its components

---
 src/physics/PN_CircularOrbit_GWs/compute_GWs.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/physics/PN_CircularOrbit_GWs/compute_GWs.c b/src/physics/PN_CircularOrbit_GWs/compute_GWs.c
index 3abe150..f55f21d 100644
--- a/src/physics/PN_CircularOrbit_GWs/compute_GWs.c
+++ b/src/physics/PN_CircularOrbit_GWs/compute_GWs.c
@@ -285,6 +285,7 @@ void compute_P15Qc(double y[], double lambda[], double n[], double theta, double
   double m,
          NN_dot_n, 
          NN_dot_lambda,
+         Ln_norm,
          Ln_cap_dot_S2_p_Delta,
          Ln_cap_dot_S5_p_3Delta;
   double *NN,
@@ -323,8 +324,9 @@ void compute_P15Qc(double y[], double lambda[], double n[], double theta, double
   }
 
   /* renormalize Ln_hat */
+  Ln_norm = sqrt(Ln_cap[1]*Ln_cap[1] + Ln_cap[2]*Ln_cap[2] + Ln_cap[3]*Ln_cap[3]);
   for(i=1;i<=3;i++){
-      Ln_cap[i] = Ln_cap[i]/sqrt(Ln_cap[1]*Ln_cap[1] + Ln_cap[2]*Ln_cap[2] + Ln_cap[3]*Ln_cap[3]);
+      Ln_cap[i] = Ln_cap[i]/Ln_norm;
   }
 
   /* get N_hat */
-- 
2.43.0


From 3bfef17be059549249d1b4a8bd1ed1399b5339b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:36 +0000
Subject: [PATCH 22/59] fix: sign of the (19-3nu)/3 term of P^1Q (Kidder 1995,
 Eq. 4.9c)

---
 src/physics/PN_CircularOrbit_GWs/compute_GWs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/PN_CircularOrbit_GWs/compute_GWs.c b/src/physics/PN_CircularOrbit_GWs/compute_GWs.c
index f55f21d..8acd079 100644
--- a/src/physics/PN_CircularOrbit_GWs/compute_GWs.c
+++ b/src/physics/PN_CircularOrbit_GWs/compute_GWs.c
@@ -270,7 +270,7 @@ void compute_P1Qc(double lambda[], double n[], double theta, double phi, double
                        - 8.0*NN_dot_n*NN_dot_lambda*( n[i]*lambda[j] + n[j]*lambda[i] ) 
                        + pow(NN_dot_lambda,2)*( 3.0*lambda[i]*lambda[j] - n[i]*n[j] )              
                      )                                                                  
-                    -(19.0-3.0*nu)/3.0*( n[i]*n[j]-lambda[i]*lambda[j] )                
+                    +(19.0-3.0*nu)/3.0*( n[i]*n[j]-lambda[i]*lambda[j] )                
                     +( n[i]*Delta_cross_NN[j]+n[j]*Delta_cross_NN[i])/m/m;   
       }
   } 
-- 
2.43.0


From bb9868646a1771613a08b159e56a5a9bfb148efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:00 +0000
Subject: [PATCH 23/59] fix: bicgstab reports failure when the iteration limit
 is reached

The loop ends with ii==itmax when it does not converge, so the test
ii > itmax never fired and success was reported.
---
 src/utility/GridIterators/bicgstab.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/GridIterators/bicgstab.c b/src/utility/GridIterators/bicgstab.c
index e8cc0ae..a4d75f4 100644
--- a/src/utility/GridIterators/bicgstab.c
+++ b/src/utility/GridIterators/bicgstab.c
@@ -155,7 +155,7 @@ int bicgstab(tVarList *x, tVarList *b, tVarList *r, tVarList *c1,tVarList *c2,
   VLDisableFree(v);
 
   /* iteration failed */
-  if (ii > itmax) return -1;
+  if (ii >= itmax) return -1;
 
   /* breakdown */
   if (fabs(rho) < rhotol) return -10;
-- 
2.43.0


From 875766459cc5bc45eebd64641cdcb19535f6ca67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:00 +0000
Subject: [PATCH 24/59] fix: bicgstab reports success when it converges in the
 first half step

omega is still zero if the early tolerance check succeeds in the first
iteration, which was reported as a breakdown (-11).
---
 src/utility/GridIterators/bicgstab.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utility/GridIterators/bicgstab.c b/src/utility/GridIterators/bicgstab.c
index a4d75f4..12dc437 100644
--- a/src/utility/GridIterators/bicgstab.c
+++ b/src/utility/GridIterators/bicgstab.c
@@ -154,15 +154,15 @@ int bicgstab(tVarList *x, tVarList *b, tVarList *r, tVarList *c1,tVarList *c2,
   VLDisableFree(t);
   VLDisableFree(v);
 
+  /* success! */
+  if (*normres <= tol) return ii+1;
+
   /* iteration failed */
   if (ii >= itmax) return -1;
 
   /* breakdown */
   if (fabs(rho) < rhotol) return -10;
-  if (fabs(omega) < omegatol) return -11;
-
-  /* success! */
-  return ii+1;
+  return -11;
 }
 
 
-- 
2.43.0


From c2d6a2a2718717e71f8e9df80f83c2dd92e27ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:00 +0000
Subject: [PATCH 25/59] fix: Newton_linesrch returns the residual in normres

---
 src/utility/GridIterators/Newton_linesrch.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utility/GridIterators/Newton_linesrch.c b/src/utility/GridIterators/Newton_linesrch.c
index fefa19d..f39c528 100644
--- a/src/utility/GridIterators/Newton_linesrch.c
+++ b/src/utility/GridIterators/Newton_linesrch.c
@@ -190,6 +190,7 @@ int Newton_linesrch(
   /* get residual */
   Fu(vlFu, vlu, vlc1, vlc2);
   res = norm2(vlFu);
+  *normres = res;
   if(pr) printf("Newton_linesrch: after %d steps"
                 "  Newton residual = %e\n", inewton, res);
 
-- 
2.43.0


From eeaeb960cda750f58456adc9ed305a4bac67eea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:47 +0000
Subject: [PATCH 26/59] fix: matrix_SOR reports failure when the iteration
 limit is reached

It returned the positive number itmax+1 as if it had converged. Also free
the temporary if the initial guess is already good enough.
---
 src/utility/GridIterators/SOR.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/utility/GridIterators/SOR.c b/src/utility/GridIterators/SOR.c
index 7d67674..ef3bf50 100644
--- a/src/utility/GridIterators/SOR.c
+++ b/src/utility/GridIterators/SOR.c
@@ -64,7 +64,11 @@ int matrix_SOR(tSparseVector **Aline, int nlines,
            nlines, omega, itmax, tol);
     printf("matrix_SOR: step %d  residual=%g\n", 0, *normres); fflush(stdout);
   }
-  if(*normres <= tol) return 0;
+  if(*normres <= tol)
+  {
+    free(f);
+    return 0;
+  }
 
   /* start iterations */
   for(it=1; it<=itmax; it++)
@@ -85,6 +89,10 @@ int matrix_SOR(tSparseVector **Aline, int nlines,
   } /* end iterations loop */
 
   free(f);
+
+  /* iterations failed */
+  if(it>itmax) return -1;
+
   return it;
 }
 
-- 
2.43.0


From 470c455ba1ba78479a4408af36db83f0e0c5976a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:47 +0000
Subject: [PATCH 27/59] fix: DuplicatePointList_for_grid allocates room for the
 whole box list

The size was taken from the empty new list, so copying the box list of a
point list that has points in more than two boxes overran the buffer.
---
 src/main/MemoryMan/points.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/MemoryMan/points.c b/src/main/MemoryMan/points.c
index a623b21..4d2cf9f 100644
--- a/src/main/MemoryMan/points.c
+++ b/src/main/MemoryMan/points.c
@@ -222,7 +222,7 @@ tPointList *DuplicatePointList_for_grid(tPointList *PL0, tGrid *grid)
   }
 
   /* copy the blist */
-  ret=realloc(PL->blist, ( sizeof(*(PL->blist)) )*(PL->nblist+2));
+  ret=realloc(PL->blist, ( sizeof(*(PL->blist)) )*(PL0->nblist+2));
   if(ret==NULL) 
     errorexit("DuplicatePointList: not enough memory for PL->blist");
   PL->blist  = ret;
-- 
2.43.0


From 63d070d4bc04a2c5f3ec64719c3c5902dd77ceea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:09 +0000
Subject: [PATCH 28/59] fix: WTiterator reports failure when the iteration
 limit is reached

It returned the positive number itmax+1 as if it had converged. Also free
the temporaries if the initial guess is already good enough.
---
 src/utility/GridIterators/WTsolver.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/utility/GridIterators/WTsolver.c b/src/utility/GridIterators/WTsolver.c
index 3f6d258..5f9442c 100644
--- a/src/utility/GridIterators/WTsolver.c
+++ b/src/utility/GridIterators/WTsolver.c
@@ -106,7 +106,13 @@ int WTiterator(tSparseVector **Aline, int nlines,
   { 
     printf("WTiterator: %d  res=%g\n", 0, *normres); fflush(stdout);
   }
-  if(*normres <= tol) return 0;
+  if(*normres <= tol)
+  {
+    free(mm); 
+    free(f);
+    free(dx);
+    return 0;
+  }
 
   /* start iterations */
   for(it=1; it<=itmax; it++)
@@ -159,6 +165,10 @@ int WTiterator(tSparseVector **Aline, int nlines,
   free(mm); 
   free(f);
   free(dx);
+
+  /* iterations failed */
+  if(it>itmax) return -1;
+
   return it;
 }
 
-- 
2.43.0


From 0f4891053bb93e97281ea3feb0483bf0d906903a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:09 +0000
Subject: [PATCH 29/59] fix: reflection symmetries of (ab)(ij) tensors

The 4d indices are 1-based for the spatial directions, as in all other
cases the sign belongs to direction i-1.
---
 src/main/main/tensors.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/main/tensors.c b/src/main/main/tensors.c
index 74f7740..9774bad 100644
--- a/src/main/main/tensors.c
+++ b/src/main/main/tensors.c
@@ -265,8 +265,8 @@ void tensorindexlist(char *t, int *nilist, char **ilist, int *sym)
     for (k = 0; k < 3; k++)
     for (l = k; l < 3; l++)
     {
-      if (i > 0) sym[3*n+i] *= -1; 
-      if (j > 0) sym[3*n+j] *= -1;
+      if (i > 0) sym[3*n+i-1] *= -1; 
+      if (j > 0) sym[3*n+j-1] *= -1;
       sym[3*n+k] *= -1;
       sym[3*n+l] *= -1;
       ilist[n] = calloc(ilistSTRLEN, sizeof(char));
-- 
2.43.0


From 20e01978998296325e02ca4ef9e27214de97b7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:09 +0000
Subject: [PATCH 30/59] fix: accept the written out symmetrizations of 4 index
 tensors

The index strings had a stray closing parenthesis, so e.g. the legal
string qrst+qrts+rqst+rqts that the error message lists was rejected.
---
 src/main/main/tensors.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/main/tensors.c b/src/main/main/tensors.c
index 9774bad..6dc4575 100644
--- a/src/main/main/tensors.c
+++ b/src/main/main/tensors.c
@@ -150,7 +150,7 @@ void tensorindexlist(char *t, int *nilist, char **ilist, int *sym)
     }
   }
 
-  if(strcmp(tensorindices, "ijkl+ijlk+jikl+jilk)") == 0 ||
+  if(strcmp(tensorindices, "ijkl+ijlk+jikl+jilk") == 0 ||
      strcmp(tensorindices, "(ij)(kl)") == 0) {
     for (i = 0; i < 3; i++)
     for (j = i; j < 3; j++) 
@@ -258,7 +258,7 @@ void tensorindexlist(char *t, int *nilist, char **ilist, int *sym)
     }
   }
 
-  if(strcmp(tensorindices, "abij+abji+baij+baji)") == 0 ||
+  if(strcmp(tensorindices, "abij+abji+baij+baji") == 0 ||
      strcmp(tensorindices, "(ab)(ij)") == 0) {
     for (i = 0; i <= 3; i++)
     for (j = i; j <= 3; j++) 
@@ -317,7 +317,7 @@ void tensorindexlist(char *t, int *nilist, char **ilist, int *sym)
     }
   }
 
-  if(strcmp(tensorindices, "qrst+qrts+rqst+rqts)") == 0 ||
+  if(strcmp(tensorindices, "qrst+qrts+rqst+rqts") == 0 ||
      strcmp(tensorindices, "(qr)(st)") == 0) {
     for (i = 0; i < 2; i++)
     for (j = i; j < 2; j++) 
-- 
2.43.0


From be28b6d5758cdad07c0245b976dffe7068c88222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:09 +0000
Subject: [PATCH 31/59] fix: write the time into checkpoints with full
 precision

With %g a restarted run continues at a time rounded to 6 digits.
---
 src/utility/checkpoint/checkpoint_write.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/checkpoint/checkpoint_write.c b/src/utility/checkpoint/checkpoint_write.c
index 300b044..8e3282f 100644
--- a/src/utility/checkpoint/checkpoint_write.c
+++ b/src/utility/checkpoint/checkpoint_write.c
@@ -81,7 +81,7 @@ void checkpoint_write_local(tGrid *g, FILE *fp)
   /* write one line text header, check with "head -1 checkpoint.0" */
   fprintf(fp, "$BEGIN_checkpoint_header:  ");
   fprintf(fp, "$bmin = %d , $bmax = %d , ", 0, g->nboxes-1);
-  fprintf(fp, "$time = %g , ", g->time);
+  fprintf(fp, "$time = %.17g , ", g->time);
   fprintf(fp, "$iteration = %d\n", g->iteration);
   fprintf(fp, "$END_checkpoint_header\n\n");
 
-- 
2.43.0


From d6ac9354f907dff437c7dbd4813081331623b5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:09 +0000
Subject: [PATCH 32/59] fix: do not replace a good checkpoint file if writing
 the new one failed

E.g. on a full disk the truncated file was moved over the old one.
---
 src/utility/checkpoint/checkpoint_write.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utility/checkpoint/checkpoint_write.c b/src/utility/checkpoint/checkpoint_write.c
index 8e3282f..7e855b7 100644
--- a/src/utility/checkpoint/checkpoint_write.c
+++ b/src/utility/checkpoint/checkpoint_write.c
@@ -43,8 +43,9 @@ void checkpoint_write(tGrid *g)
       prTimeIn_s("WallTime: ");
       checkpoint_write_local(g, fp);
 
-      /* done */
-      fclose(fp);
+      /* done, make sure all was written before we replace the old file */
+      if(fflush(fp) || ferror(fp)) errorexits("failed writing %s", filename_new);
+      if(fclose(fp)) errorexits("failed writing %s", filename_new);
     }
     /* everyone please wait here */
     sgrid_mpi_barrier();
-- 
2.43.0


From 712519436da3b46994754e5ccdb3289dcb7af4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 33/59] fix: Getv finds a list entry behind one that merely
 ends in it

E.g. "b" was not found in the list "ab b", because only the first match
followed by a space or the end of the string was considered.
---
 src/main/main/parameters.c | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/main/main/parameters.c b/src/main/main/parameters.c
index 60b2ac3..27dcc05 100644
--- a/src/main/main/parameters.c
+++ b/src/main/main/parameters.c
@@ -421,23 +421,21 @@ int GetvFlag(char *name, char *value, int fatal)
   tParameter *p = findparameter(name, fatal);
   char *s=NULL;
   char *parval;
-  int lv, ls, lp, startok, endok;
+  int lv, startok, endok;
 
   if (!p) return 0;
+  lv = strlen(value);
   parval = p->value;
   while( (s = strstr(parval, value)) )
   {
-    lv = strlen(value);
-    //printf("ls=%d  value=%s| s=%s| p->value=%s|\n", ls, value, s, p->value); 
-    if( s[lv]==' ' || s[lv]==0 ) break;
+    //printf("value=%s| s=%s| p->value=%s|\n", value, s, p->value); 
+    startok = (s == p->value || *(s-1) == ' ');  /* how robust is this? */
+    endok   = (s[lv] == ' ' || s[lv] == 0);
+    if (startok && endok) return 1;
+    if (*s == 0) break;
     parval = s+1;
   }
-  if (!s) return 0;
-  ls = strlen(s);
-  lp = strlen(p->value);
-  startok = (s == p->value || *(s-1) == ' ');  /* how robust is this? */
-  endok   = (s+ls == p->value+lp || *(s+ls) == ' ');
-  return startok && endok ? 1 : 0;
+  return 0;
 }
 
 int GetvLax(char *name, char *value)
-- 
2.43.0


From c7e302593dc0a1202304ee8c33ac996801e3bf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:08 +0000
Subject: [PATCH 34/59] fix: setting a parameter to (part of) its own value
 used freed memory

setparameter freed the old value before it copied the new one, but Gets
returns a pointer to the old value.
---
 src/main/main/parameters.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/main/parameters.c b/src/main/main/parameters.c
index 27dcc05..4f3714e 100644
--- a/src/main/main/parameters.c
+++ b/src/main/main/parameters.c
@@ -199,9 +199,10 @@ void makeparameter(char *name, char *value, char *description)
 void setparameter(char *name, char *value)
 {
   tParameter *p = findparameter(name, 1);
+  char *oldvalue = p->value;
 
-  free(p->value);
-  p->value = strdup(value);
+  p->value = strdup(value); /* value may point into oldvalue */
+  free(oldvalue);
   translatevalue(&p->value);
   set_numericalvalue_byIndex(p, 0, 1);
   set_booleanvalue_byIndex(p, 0, 1);
-- 
2.43.0


From 9ff4b976695ebf29b703164c9b3122b53e58d751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:00 +0000
Subject: [PATCH 35/59] fix: remove_dir also works on an absolute path

---
 src/main/main/utilities.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/main/utilities.c b/src/main/main/utilities.c
index 3cfaf03..b0f9c6f 100644
--- a/src/main/main/utilities.c
+++ b/src/main/main/utilities.c
@@ -329,7 +329,7 @@ int remove_dir(char *which_dir)
       if( strcmp( dir->d_name, "." ) == 0 || strcmp( dir->d_name, ".." ) == 0)
         continue;
 
-      snprintf(file, 999, "./%s/%s", which_dir, dir->d_name);
+      snprintf(file, 999, "%s/%s", which_dir, dir->d_name);
       //printf("*"); //print * for every deleted file
 
       if(opendir(file)!=NULL) remove_dir(file);
-- 
2.43.0


From bebc068a4cc71a4ec3202fb76b66cfe103dd62f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:04 +0000
Subject: [PATCH 36/59] fix: remove_dir leaves the targets of symbolic links
 alone and closes every directory it opens

---
 src/main/main/utilities.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/main/utilities.c b/src/main/main/utilities.c
index b0f9c6f..31d1a04 100644
--- a/src/main/main/utilities.c
+++ b/src/main/main/utilities.c
@@ -318,6 +318,7 @@ int remove_dir(char *which_dir)
 {
   DIR           *d;
   struct dirent *dir;
+  struct stat st;
   char file[1000];
   
   d = opendir(which_dir);
@@ -332,7 +333,8 @@ int remove_dir(char *which_dir)
       snprintf(file, 999, "%s/%s", which_dir, dir->d_name);
       //printf("*"); //print * for every deleted file
 
-      if(opendir(file)!=NULL) remove_dir(file);
+      /* do not follow links into other directories */
+      if(lstat(file, &st)==0 && S_ISDIR(st.st_mode)) remove_dir(file);
       else
       {
         if(remove(file) != 0)
-- 
2.43.0


From 659877be584e65cd07376782c2babce2e4147c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:09 +0000
Subject: [PATCH 37/59] fix: zbrac_P returns the result of rt_brak

---
 src/utility/numerics/NumericUtils_shims.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/numerics/NumericUtils_shims.c b/src/utility/numerics/NumericUtils_shims.c
index 80129d6..960bfff 100644
--- a/src/utility/numerics/NumericUtils_shims.c
+++ b/src/utility/numerics/NumericUtils_shims.c
@@ -62,7 +62,7 @@ int WT_newton(double *x, int n, int *check,
 int zbrac_P(double (*func)(double,void *par), double *x1, double *x2,
             void *par)
 {
-  rt_brak(func,par, x1,x2, 50);
+  return rt_brak(func,par, x1,x2, 50);
 }
 
 /* old way of finding root in bracket [x1,x2] */
-- 
2.43.0


From bb20905bcb30804e16948d9cdd4958f9d7b4d096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:09 +0000
Subject: [PATCH 38/59] fix: newton_linesearch also uses row 0 when the
 Jacobian has a zero row or column

---
 src/utility/numerics/newton_linesearch.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utility/numerics/newton_linesearch.c b/src/utility/numerics/newton_linesearch.c
index a0db34c..d9bdc9a 100644
--- a/src/utility/numerics/newton_linesearch.c
+++ b/src/utility/numerics/newton_linesearch.c
@@ -124,6 +124,7 @@ int newton_linesearch(int n, double x[], int *check,
       double ma;
       int *idx = calloc(n, sizeof(int));
       if(!idx) { printf("allocation failure!!!"); abort(); exit(1); }
+      for(l=0; l<n; l++) idx[l] = -1; /* no row chosen for col l */
       for(l=0; l<n; l++)
       {
         for(ma=0.0, k=0; k<n; k++)
@@ -143,7 +144,7 @@ int newton_linesearch(int n, double x[], int *check,
         }
         // now we have max ma in fjac[k][l], where k = idx[l]
         k = idx[l];
-        if(k>0) p[l] = p[l]/fjac[k][l];
+        if(k>=0) p[l] = p[l]/fjac[k][l];
         else    p[l] = 0.0;
       } // end l-loop
       free(idx);
-- 
2.43.0


From 016dd4b03cbccaf5af89138812f215a57a5e56e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:09 +0000
Subject: [PATCH 39/59] fix: newton_lnsrch_set_vecs_for_lininterp read an unset
 scale

---
 src/utility/numerics/newton_linesearch.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/numerics/newton_linesearch.c b/src/utility/numerics/newton_linesearch.c
index d9bdc9a..eb02223 100644
--- a/src/utility/numerics/newton_linesearch.c
+++ b/src/utility/numerics/newton_linesearch.c
@@ -403,7 +403,7 @@ void newton_lnsrch_set_vecs_for_lininterp(int n, double vec[],
     exit(1);
   }
 
-  s=1;
+  s=sc=1;
   for(i=0; i<n; i++) 
   {
     /* pos. vec. of center */
-- 
2.43.0


From 15eb8a4a42693197359607d686c36f3996547677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 40/59] fix: newton_linesearch reports a search that got stuck
 away from a root (*check=1)

---
 src/utility/numerics/newton_linesearch.c | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/utility/numerics/newton_linesearch.c b/src/utility/numerics/newton_linesearch.c
index eb02223..cbe0e1f 100644
--- a/src/utility/numerics/newton_linesearch.c
+++ b/src/utility/numerics/newton_linesearch.c
@@ -39,6 +39,7 @@ void linesrchP(int n, double xold[], double fold, double g[], double p[],
    returns its>=0   if ok, 
    returns -its-1<0 if error!!!    its = number of iterations done
    returns -its-itmax*10<0  if f=NAN.
+   *check=0 if x is a root to within tolf, *check=1 if the search got stuck
    here x[i0...n-1+i0] with i0 = vecfuncP_ilow (normally vecfuncP_ilow=0)
    The function vecfuncP has to be of the form:
     void vecfuncP(int n, double *x, double *fvec, void *par)
@@ -46,7 +47,6 @@ void linesrchP(int n, double xold[], double fold, double g[], double p[],
                   with i0 = vecfuncP_ilow, 
                   par can point to something that contains parameters.
    Then newton_linesearch will find x s.t. vecfuncP = 0.               */
-#define TOLMIN 1.0e-13
 #define TOLX 1.0e-14
 #define STPMX 100.0
 int newton_linesearch(int n, double x[], int *check,
@@ -169,14 +169,7 @@ int newton_linesearch(int n, double x[], int *check,
     }
     if(*check)
     {
-      double denom = fmax(f,0.5*n);
-      test = 0.0;
-      for(i=0; i<n; i++)
-      {
-        temp = fabs(g[i])*fmax(fabs(x[i]),1.0)/denom;
-        if(temp > test) test = temp;
-      }
-      *check=(test < TOLMIN ? 1 : 0);
+      /* no further decrease possible, but x is not a root: *check stays 1 */
       ret = its;
       goto finalize;
     }
@@ -188,6 +181,7 @@ int newton_linesearch(int n, double x[], int *check,
     }
     if(test < TOLX)
     {
+      *check=1; /* x does not change anymore, but it is not a root */
       ret = its;
       goto finalize;
     }
@@ -205,7 +199,6 @@ finalize:
   if(!finit(f)) return -its-itmax*10;
   return ret;
 }
-#undef TOLMIN
 #undef TOLX
 #undef STPMX
 
-- 
2.43.0


From ab88108794587b586c317c292237a639a2835eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:31 +0000
Subject: [PATCH 41/59] fix: newton_linesearch does not abort the program when
 its cubic model has no minimum

---
 src/utility/numerics/newton_linesearch.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utility/numerics/newton_linesearch.c b/src/utility/numerics/newton_linesearch.c
index cbe0e1f..7513d6d 100644
--- a/src/utility/numerics/newton_linesearch.c
+++ b/src/utility/numerics/newton_linesearch.c
@@ -338,8 +338,8 @@ void linesrchP(int n, double xold[], double fold,
         else
         {
           discrimi = b*b-3.*a*g_slope;
-          if(discrimi<0.)
-          { printf("Roundoff problem in linesrchP\n"); abort(); exit(1); }
+          if(discrimi<0.) /* cubic has no minimum */
+          { tmplam = 0.5*alam; }
           else
           { tmplam = (-b+sqrt(discrimi))/(3.*a); }
         }
-- 
2.43.0


From b54552fc8c2dd8aa6ea950c838e2b232db1a36d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:04 +0000
Subject: [PATCH 42/59] fix: find_external_faces_of_box looped forever if a box
 has only one point in a direction

---
 src/utility/Coordinates/Coordinates_set_bfaces.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/utility/Coordinates/Coordinates_set_bfaces.c b/src/utility/Coordinates/Coordinates_set_bfaces.c
index 596d8fa..0d3f849 100644
--- a/src/utility/Coordinates/Coordinates_set_bfaces.c
+++ b/src/utility/Coordinates/Coordinates_set_bfaces.c
@@ -156,11 +156,10 @@ void find_external_faces_of_box(tBox *box, int *extface, int inclOuterBound)
     nd  = (n1)*(dir==1) + (n2)*(dir==2) + (n3)*(dir==3);
 
     /* go over faces, but not edges */
-    for(p=0; p<nd; p+=nd-1)
+    for(f=2*d; f<=2*d+1; f++)
     {
-      /* pick face index */
-      if(p==0) f=2*d;
-      else     f=2*d+1;
+      /* pick plane index of face */
+      p = (nd-1)*(f%2);
 
       /* mark other box as non-existent by default */
       ob = -1;
-- 
2.43.0


From 1b0debcc35c710361d48129a0407fca6817ba06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:04 +0000
Subject: [PATCH 43/59] fix: set_bfaces_on_boxface moved out of the box from an
 edge if it has only one point in a direction

---
 src/utility/Coordinates/Coordinates_set_bfaces.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/utility/Coordinates/Coordinates_set_bfaces.c b/src/utility/Coordinates/Coordinates_set_bfaces.c
index 0d3f849..fd2b0c4 100644
--- a/src/utility/Coordinates/Coordinates_set_bfaces.c
+++ b/src/utility/Coordinates/Coordinates_set_bfaces.c
@@ -543,12 +543,9 @@ int set_bfaces_on_boxface(tBox *box, int f)
     {
       face[f]=0; /* remove current face */
       /* move i,j,k inward away from edge or corner */
-      i_in += face[0];
-      i_in -= face[1];
-      j_in += face[2];
-      j_in -= face[3];
-      k_in += face[4];
-      k_in -= face[5];
+      if(n1>1) i_in += face[0] - face[1];
+      if(n2>1) j_in += face[2] - face[3];
+      if(n3>1) k_in += face[4] - face[5];
     }
     ijk_in = Index(i_in,j_in,k_in);
 
-- 
2.43.0


From cc261487431a07ed98b02047c325f03cd5fba182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:04 +0000
Subject: [PATCH 44/59] fix: set_ofi_in_all_bfaces shifted by more bits than an
 int has for face index>30

---
 src/utility/Coordinates/Coordinates_set_bfaces.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/utility/Coordinates/Coordinates_set_bfaces.c b/src/utility/Coordinates/Coordinates_set_bfaces.c
index fd2b0c4..3fe0a79 100644
--- a/src/utility/Coordinates/Coordinates_set_bfaces.c
+++ b/src/utility/Coordinates/Coordinates_set_bfaces.c
@@ -663,6 +663,14 @@ int r_from_cbt_OR_nbt(unsigned int cbt, unsigned int nbt)
   return r;
 }
 
+/* bit 2^(fi+1) that stands for face index fi, 0 (i.e. overflow) if it does
+   not fit into an unsigned int */
+static unsigned int bit_from_fi(int fi)
+{
+  if(fi+1 >= (int) (8*sizeof(unsigned int))) return 0;
+  return ((unsigned int) 1)<<(fi+1);
+}
+
 /* figure out how each bface is connected to other bfaces */
 /* Recall ofi=-1 means we do not know the other face index yet. Here
    we set ofi<-1 if box b OVERLAPS with several faces of box ob. This makes
@@ -704,9 +712,9 @@ int set_ofi_in_all_bfaces(tGrid *grid)
           else if(box->bface[fi]->ofi >= 0)
           {
             int c = box->bface[fi]->ofi;
-            unsigned int cbt = 1<<(c+1); /* cbt = 2^([current ofi] + 1) */
+            unsigned int cbt = bit_from_fi(c); /* cbt = 2^([current ofi] + 1) */
             int n = ofi;
-            unsigned int nbt = 1<<(n+1); /* nbt = 2^([ofi to be added] + 1) */
+            unsigned int nbt = bit_from_fi(n); /* nbt = 2^([ofi to be added] + 1) */
             int r = r_from_cbt_OR_nbt(cbt, nbt);
             box->bface[fi]->ofi=-r;
             /* if ofi<0 and odd there was an overflow in the bits!!! */
@@ -715,7 +723,7 @@ int set_ofi_in_all_bfaces(tGrid *grid)
           else
           {
             unsigned int cbt = -box->bface[fi]->ofi; /* get current bits */
-            unsigned int nbt = 1<<(ofi+1); /* nbt = 2^([ofi to be added] + 1) */
+            unsigned int nbt = bit_from_fi(ofi); /* nbt = 2^([ofi to be added] + 1) */
             int r = r_from_cbt_OR_nbt(cbt, nbt);
             box->bface[fi]->ofi=-r;
             /* if ofi<0 and odd there was an overflow in the bits!!! */
-- 
2.43.0


From b710226f2cae7a65e59e38c4358f09f79b8413c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:04 +0000
Subject: [PATCH 45/59] fix: add_boxface_as_outerbound_bface used plane n1-1
 for the upper faces of all directions

---
 src/utility/Coordinates/Coordinates_set_bfaces.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/Coordinates/Coordinates_set_bfaces.c b/src/utility/Coordinates/Coordinates_set_bfaces.c
index 3fe0a79..3630a28 100644
--- a/src/utility/Coordinates/Coordinates_set_bfaces.c
+++ b/src/utility/Coordinates/Coordinates_set_bfaces.c
@@ -746,7 +746,7 @@ int add_boxface_as_outerbound_bface(tBox *box, int f)
   fi = add_empty_bface(box, f);
   box->bface[fi]->outerbound = 1; /* mark as outer boundary */
   dir = 1 + f/2;
-  p = ( (n1-1) )*(f%2);
+  p = ( (n1-1)*(dir==1) + (n2-1)*(dir==2) + (n3-1)*(dir==3) )*(f%2);
   forplaneN(dir, i,j,k, n1,n2,n3, p)
   {
     int ijk = Index(i,j,k);
-- 
2.43.0


From 5478206118f46f4893fc6b3da62b8f5cf70cd3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:04 +0000
Subject: [PATCH 46/59] fix: set_bits_in_all_bfaces set same_fpts for records
 with different numbers of points

---
 src/utility/Coordinates/Coordinates_set_bfaces.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utility/Coordinates/Coordinates_set_bfaces.c b/src/utility/Coordinates/Coordinates_set_bfaces.c
index 3630a28..4a7ea89 100644
--- a/src/utility/Coordinates/Coordinates_set_bfaces.c
+++ b/src/utility/Coordinates/Coordinates_set_bfaces.c
@@ -1120,7 +1120,8 @@ int set_bits_in_all_bfaces(tGrid *grid)
       }
 
       /* now check if ofpts is the same as obface->fpts */
-      if(ofpts->npoints[obox->b] == obface->fpts->npoints[obox->b])
+      if(ofpts->npoints[obox->b] == obface->fpts->npoints[obox->b] &&
+         ofpts->npoints[obox->b] == fpts->npoints[box->b])
       {
         /* make an intList point at the list in obface->fpts */
         ilist->n = obface->fpts->npoints[obox->b];
-- 
2.43.0


From 64ccb117660bfdb29b283e7d91569296bb267448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:04 +0000
Subject: [PATCH 47/59] fix:
 remove_bfacepoints_that_cause_inconsistent_touch_bits skipped the point after
 each dropped one

---
 src/utility/Coordinates/Coordinates_set_bfaces.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utility/Coordinates/Coordinates_set_bfaces.c b/src/utility/Coordinates/Coordinates_set_bfaces.c
index 4a7ea89..ed9493e 100644
--- a/src/utility/Coordinates/Coordinates_set_bfaces.c
+++ b/src/utility/Coordinates/Coordinates_set_bfaces.c
@@ -1384,6 +1384,8 @@ int remove_bfacepoints_that_cause_inconsistent_touch_bits(tGrid *grid)
               {
                 DropFromPointList(fpts, b, ind);
                 drppd++;
+                pi--;  /* the next point is now in the place of ind */
+                break;
               }
             }
           }
-- 
2.43.0


From 2b3908c2b42927c028e329b61819c5aca005388b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:04 +0000
Subject: [PATCH 48/59] fix: the setnormalderiv flag is set only on bfaces that
 touch

---
 src/utility/Coordinates/Coordinates_set_bfaces.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utility/Coordinates/Coordinates_set_bfaces.c b/src/utility/Coordinates/Coordinates_set_bfaces.c
index ed9493e..99058c1 100644
--- a/src/utility/Coordinates/Coordinates_set_bfaces.c
+++ b/src/utility/Coordinates/Coordinates_set_bfaces.c
@@ -1440,6 +1440,9 @@ int toggle_setnormalderiv_flag_in_faces4_5_of_cubes(tGrid *grid)
         tBox *obox = NULL;
         tBface *obface = NULL;
 
+        /* normal derivs can only be set on bfaces that touch other bfaces */
+        if(ob>=0 && !bface->touch) continue;
+
         /* do something only on face 4 and 5 */
         if((f == 4) || (f == 5))
         {
@@ -1517,6 +1520,9 @@ int toggle_setnormalderiv_flag_of_CubSph_doms_0_4_and_1_5(tGrid *grid)
         obface = obox->bface[ofi];
         odomain = obox->CI->dom;
 
+        /* normal derivs can only be set on bfaces that touch other bfaces */
+        if(!bface->touch) continue;
+
         /* do something only if domain,odomain is 0,4 or 1,5 */
         if((domain == 0 && odomain == 4) || (domain == 1 && odomain == 5))
         {
-- 
2.43.0


From 3811bc03e6b44e0f0bd8ffb53c114d6271e278d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:04 +0000
Subject: [PATCH 49/59] fix: set_touching_bfaces_of_boxes_with_same_facepoints
 compared the numbers of points of the wrong boxes

---
 src/utility/Coordinates/Coordinates_set_bfaces.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/Coordinates/Coordinates_set_bfaces.c b/src/utility/Coordinates/Coordinates_set_bfaces.c
index 99058c1..9b5168d 100644
--- a/src/utility/Coordinates/Coordinates_set_bfaces.c
+++ b/src/utility/Coordinates/Coordinates_set_bfaces.c
@@ -1775,7 +1775,7 @@ int set_touching_bfaces_of_boxes_with_same_facepoints(tGrid *grid, int b0, int n
 ////write_grid(grid);
           /* check if there are the same number of points in both fpts */
           if(bface2->fpts != NULL &&
-             bface->fpts->npoints[b] == bface2->fpts->npoints[b2])
+             bface->fpts->npoints[b0+b] == bface2->fpts->npoints[b0+b2])
           {
             ifaces++; /* count the number of interfaces */
 
-- 
2.43.0


From 52a1a7a75b7a1c6f1f9d75d08feea4d86a35d81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:04 +0000
Subject: [PATCH 50/59] fix: FPsi_2Dinterp_for_bface left out points in
 periodic directions and points out of range by round off

---
 src/utility/boundary/BCs_from_bfaces.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/utility/boundary/BCs_from_bfaces.c b/src/utility/boundary/BCs_from_bfaces.c
index b08ef69..ac0ff27 100644
--- a/src/utility/boundary/BCs_from_bfaces.c
+++ b/src/utility/boundary/BCs_from_bfaces.c
@@ -368,6 +368,17 @@ void FPsi_1Dinterp_for_bface(int iFPsi, tBface *bface, int idir,
   free(Pcoeffs[1]);
 }
 
+/* Return 1 if coord *C is in the range [C0,C1] or periodic, and 0 otherwise.
+   If *C is outside only because of round off, put it at the end of the range */
+static int coord_is_in_range(double *C, double C0, double C1, int periodic)
+{
+  if(periodic) return 1;
+  if(dless(*C,C0) || dless(C1,*C)) return 0;
+  if(*C<C0) *C = C0;
+  if(*C>C1) *C = C1;
+  return 1;
+}
+
 /* interpolate onto points in box on bface
    this uses 2d interplolation is done in other box, in plane plN
    if bface->setnormalderiv == 0 we set:
@@ -390,6 +401,7 @@ void FPsi_2Dinterp_for_bface(int iFPsi, tBface *bface, int plN,
   int oZi = bface->oZi;
   tBox *obox = NULL;
   int oCi1, oCi2;
+  int dC1, dC2; /* directions in obox of the coords in oCi1, oCi2 */
   double rangeC1[2], rangeC2[2];
   tBface *obface;
   int of, op;
@@ -453,6 +465,8 @@ void FPsi_2Dinterp_for_bface(int iFPsi, tBface *bface, int plN,
     rangeC2[1] = obox->bbox[3];
   }
   else errorexit("1<=plN<=3 is required");
+  dC1 = (plN==1) ? 2 : 1;
+  dC2 = (plN==3) ? 2 : 3;
   if(oCi1<=0 || oCi2<=0) errorexit("oCi1/2 > 0 is required");
 
   /* get coeffs for 2d interpolation from box ob */
@@ -473,8 +487,9 @@ void FPsi_2Dinterp_for_bface(int iFPsi, tBface *bface, int plN,
     double Pinterp[4], n[4];
 
     /* skip point if C1 or C2 are out of their range */
-    if(C1<rangeC1[0] || C1>rangeC1[1]) continue;
-    if(C2<rangeC2[0] || C2>rangeC2[1]) continue;
+    if(!coord_is_in_range(&C1, rangeC1[0],rangeC1[1], obox->periodic[dC1]) ||
+       !coord_is_in_range(&C2, rangeC2[0],rangeC2[1], obox->periodic[dC2]))
+      continue;
 
     if(bface->setnormalderiv == 0)
     {
-- 
2.43.0


From e3e3edf75ff3c493c69af491503a3d99fc431d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:04 +0000
Subject: [PATCH 51/59] fix: FPsi_3Dinterp_for_bface interpolated at points
 that are not in the other box

---
 src/utility/boundary/BCs_from_bfaces.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/utility/boundary/BCs_from_bfaces.c b/src/utility/boundary/BCs_from_bfaces.c
index ac0ff27..e12dbd6 100644
--- a/src/utility/boundary/BCs_from_bfaces.c
+++ b/src/utility/boundary/BCs_from_bfaces.c
@@ -597,6 +597,14 @@ void FPsi_3Dinterp_for_bface(int iFPsi, tBface *bface, int iPsi, int idPsi[4])
     double Z = box->v[oZi][ind];
     double Pinterp[4], n[4];
 
+    /* skip point if X,Y,Z are not in box ob. This happens if this is not the
+       last BC we set at this point, because X,Y,Z are the coords of the point
+       in the other box that we use to set the last BC at this point. */
+    if(!coord_is_in_range(&X, obox->bbox[0],obox->bbox[1], obox->periodic[1]) ||
+       !coord_is_in_range(&Y, obox->bbox[2],obox->bbox[3], obox->periodic[2]) ||
+       !coord_is_in_range(&Z, obox->bbox[4],obox->bbox[5], obox->periodic[3]))
+      continue;
+
     if(bface->setnormalderiv == 0)
     {
       Pinterp[1] = spec_interpolate(obox, Pcoeffs[1], X,Y,Z);
-- 
2.43.0


From e0ae41ca1a58ed1a5334f358045f0d51fada8547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:04 +0000
Subject: [PATCH 52/59] fix: BCs from bfaces with two or three same coords but
 other points use 2d interpolation

---
 src/utility/boundary/BCs_from_bfaces.c | 27 +++++++-------------------
 1 file changed, 7 insertions(+), 20 deletions(-)

diff --git a/src/utility/boundary/BCs_from_bfaces.c b/src/utility/boundary/BCs_from_bfaces.c
index e12dbd6..ea57023 100644
--- a/src/utility/boundary/BCs_from_bfaces.c
+++ b/src/utility/boundary/BCs_from_bfaces.c
@@ -768,7 +768,7 @@ void set_interbox_BCs_for_bface(int iFPsi, tBface *bface,
       if(bface->same_fpts) /* we can copy */
         FPsi_copy_for_bface(iFPsi, bface, iPsi, idPsi,
                             ijk_in_other_box_if_same_fpts);
-      else if(bface->sameX && bface->sameY && bface->sameZ)
+      else if(bface->sameX && bface->sameY && bface->sameZ && bface->oXi<=0)
       {
         int trouble = 0;
         if(bface->fpts==NULL) trouble=1;
@@ -780,29 +780,16 @@ void set_interbox_BCs_for_bface(int iFPsi, tBface *bface,
         FPsi_copy_for_bface(iFPsi, bface, iPsi, idPsi,
                             ijk_in_other_box_if_touch_samePoints_sameCoords);
       }
-      else if(bface->sameX && bface->sameY)
-      {
-        int idir = 3;
-        FPsi_1Dinterp_for_bface(iFPsi, bface, idir, iPsi, idPsi);
-      }
-      else if(bface->sameX && bface->sameZ)
-      {
-        int idir = 2;
-        FPsi_1Dinterp_for_bface(iFPsi, bface, idir, iPsi, idPsi);
-      }
-      else if(bface->sameY && bface->sameZ)
-      {
-        int idir = 1;
-        FPsi_1Dinterp_for_bface(iFPsi, bface, idir, iPsi, idPsi);
-      }
       else if(bface->sameX || bface->sameY || bface->sameZ)
       {
         /* we need 2d interpolation because the touching surfaces,
-           do not have any points in common */
+           do not have any points in common. This happens in the plane of the
+           other face. 1d interpolation is not needed: if two (or three) of the
+           flags are set, 2d interpolation in this plane works as well. */
+        int ofi = bface->ofi;
         int plN;
-        if(bface->sameX) plN=1;
-        if(bface->sameY) plN=2;
-        if(bface->sameZ) plN=3;
+        if(ofi<0) errorexit("can only interpolate if there is another bface");
+        plN = 1 + bface->grid->box[ob]->bface[ofi]->f/2;
         FPsi_2Dinterp_for_bface(iFPsi, bface, plN, iPsi, idPsi);
       }
       else if(bface->fpts_off_face)
-- 
2.43.0


From 91e4aa40c81238a37650d1a8f42ef810613ff0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:18 +0000
Subject: [PATCH 53/59] fix: nearestinnerXYZ_of_xyz does not leave out points
 in periodic directions or directions with less than 3 points

---
 src/utility/Coordinates/findXYZ_of_xyz.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/utility/Coordinates/findXYZ_of_xyz.c b/src/utility/Coordinates/findXYZ_of_xyz.c
index 9c7b7d1..44dcffc 100644
--- a/src/utility/Coordinates/findXYZ_of_xyz.c
+++ b/src/utility/Coordinates/findXYZ_of_xyz.c
@@ -450,10 +450,15 @@ double nearestinnerXYZ_of_xyz(tBox *box, int *ind, double *X, double *Y, double
   double *py = box->v[Ind("y")];
   double *pz = box->v[Ind("z")];
   double dxi, dyi, dzi, r, rmin=-1.0;
-
-  for(k=1; k<n3-1; k++)
-  for(j=1; j<n2-1; j++)
-  for(i=1; i<n1-1; i++)
+  /* a direction has end points that are not inner points, unless it is
+     periodic or has less than 3 points */
+  int e1 = (!box->periodic[1] && n1>2);
+  int e2 = (!box->periodic[2] && n2>2);
+  int e3 = (!box->periodic[3] && n3>2);
+
+  for(k=e3; k<n3-e3; k++)
+  for(j=e2; j<n2-e2; j++)
+  for(i=e1; i<n1-e1; i++)
   {
     ijk = Index(i,j,k);
     dxi = px[ijk] - x;
-- 
2.43.0


From f749fe551773ff8071626727a17dc4c48a3c68c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:55 +0000
Subject: [PATCH 54/59] fix: SOR_Preconditioner_from_SOR_Aline returns zero if
 the right-hand side is zero

---
 src/utility/GridIterators/SOR.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utility/GridIterators/SOR.c b/src/utility/GridIterators/SOR.c
index ef3bf50..e93b653 100644
--- a/src/utility/GridIterators/SOR.c
+++ b/src/utility/GridIterators/SOR.c
@@ -233,6 +233,11 @@ void SOR_Preconditioner_from_SOR_Aline(tVarList *vlx, tVarList *vlb,
     /* solve A x = b with SOR */
     INFO=matrix_SOR(SOR_Aline, SOR_nlines, x, b, omega, itmax, tol, &res);
   }
+  else
+  {
+    int i;
+    for(i=0; i<SOR_nlines; i++)  x[i] = 0.0;
+  }
 
   /* set vlx = x */
   copy_array_into_vl(x, vlx);
-- 
2.43.0


From 2b59a1f28599428bb2c61319b48490d61f14d4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:55 +0000
Subject: [PATCH 55/59] fix: templates_qmr/bicg_wrapper_with_Jacobi_precon used
 the Jacobi preconditioner without setting its diagonal

---
 .../GridIterators/wrappers_for_JacobiPrecon.c        | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/utility/GridIterators/wrappers_for_JacobiPrecon.c b/src/utility/GridIterators/wrappers_for_JacobiPrecon.c
index ca115fa..04d1052 100644
--- a/src/utility/GridIterators/wrappers_for_JacobiPrecon.c
+++ b/src/utility/GridIterators/wrappers_for_JacobiPrecon.c
@@ -227,11 +227,11 @@ int templates_qmr_wrapper_with_Jacobi_precon(tVarList *x, tVarList *b,
 {
   int pr = Getv("GridIterators_verbose", "yes");
   int INFO;
-  if(pr) printf("templates_qmr_wrapper_with_Jacobi_precon:\n");
+  if(pr) printf("templates_qmr_wrapper_with_Jacobi_precon: using ");
 
   /* solve A x = b with qmr and the Precon Jacobi_Preconditioner_from_DiagM */
-  INFO = templates_qmr_wrapper(x, b, r,c1,c2, itmax,tol,normres,
-                               lop, Jacobi_Preconditioner_from_DiagM);
+  INFO = linSolve_with_Jacobi_precon(x, b, r,c1,c2, templates_qmr_wrapper,
+                                     itmax,tol,normres, lop);
   return INFO;
 }
 
@@ -244,11 +244,11 @@ int templates_bicg_wrapper_with_Jacobi_precon(tVarList *x, tVarList *b,
 {
   int pr = Getv("GridIterators_verbose", "yes");
   int INFO;
-  if(pr) printf("templates_bicg_wrapper_with_Jacobi_precon:\n");
+  if(pr) printf("templates_bicg_wrapper_with_Jacobi_precon: using ");
 
   /* solve A x = b with bicg and the Precon Jacobi_Preconditioner_from_DiagM */
-  INFO = templates_bicg_wrapper(x, b, r,c1,c2, itmax,tol,normres,
-                                lop, Jacobi_Preconditioner_from_DiagM);
+  INFO = linSolve_with_Jacobi_precon(x, b, r,c1,c2, templates_bicg_wrapper,
+                                     itmax,tol,normres, lop);
   return INFO;
 }
 
-- 
2.43.0


From 3af65558602d838e5194079d6ae09a5a5f7d1501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:55 +0000
Subject: [PATCH 56/59] fix: umfpack_dl_numeric_from_tUMFPACK_A freed
 uninitialized pointers for empty blocks

---
 src/utility/LinAlg/umfpack_dl_interface.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utility/LinAlg/umfpack_dl_interface.c b/src/utility/LinAlg/umfpack_dl_interface.c
index ee59e3f..7c6a5c7 100644
--- a/src/utility/LinAlg/umfpack_dl_interface.c
+++ b/src/utility/LinAlg/umfpack_dl_interface.c
@@ -434,7 +434,8 @@ int umfpack_dl_numeric_from_tUMFPACK_A(tUMFPACK_A *umfpackA,
 
 #ifdef UMFPACK
   double *null = (double *) NULL;
-  void *Symbolic, *Numeric;
+  void *Symbolic = NULL; /* umfpack does not set these if nrows=0 */
+  void *Numeric = NULL;
 
   /* call umfpack routine */
   INFO1=umfpack_dl_symbolic(nrows, nrows,
-- 
2.43.0


From 7b114e17a6626eab46a421cf73b97735735151f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:55 +0000
Subject: [PATCH 57/59] fix: finite difference derivatives read beyond their
 arrays if there is only one point

---
 src/utility/Spectral/finite_differences.c | 35 +++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/utility/Spectral/finite_differences.c b/src/utility/Spectral/finite_differences.c
index f4e6df1..b966622 100644
--- a/src/utility/Spectral/finite_differences.c
+++ b/src/utility/Spectral/finite_differences.c
@@ -18,6 +18,13 @@ void fd2_deriv_periodic(void *aux,
   int j;
   double con = 0.5*(n+1)/(b-a);
 
+  /* only one point */
+  if(n<1)
+  {
+    cder[0] = 0.0;
+    return;
+  }
+
   for (j=1;j<n;j++)
     cder[j] =  (c[j+1] - c[j-1]) * con;
 
@@ -51,6 +58,13 @@ void fd2_2ndderiv_periodic(void *aux, double a, double b,
   double ooh = (n+1)/(b-a);
   double con = ooh*ooh;
 
+  /* only one point */
+  if(n<1)
+  {
+    cder[0] = 0.0;
+    return;
+  }
+
   for (j=1;j<n;j++)
     cder[j] =  (c[j+1] - 2.0*c[j] + c[j-1]) * con;
 
@@ -108,6 +122,13 @@ void fdcentered_deriv_onesidedBC(double x[], double c[], double cder[], int n)
 {
   int j;
 
+  /* only one point */
+  if(n<1)
+  {
+    cder[0] = 0.0;
+    return;
+  }
+
   for (j=1;j<n;j++)
     cder[j] = (c[j+1] - c[j-1]) / (x[j+1] - x[j-1]);
 
@@ -174,6 +195,13 @@ void fdDp_deriv_onesidedBC(double x[], double c[], double cder[], int n)
 {
   int j;
 
+  /* only one point */
+  if(n<1)
+  {
+    cder[0] = 0.0;
+    return;
+  }
+
   for (j=0;j<n;j++)
     cder[j] =  (c[j+1] - c[j]) / (x[j+1] - x[j]);
 
@@ -187,6 +215,13 @@ void fdDm_deriv_onesidedBC(double x[], double c[], double cder[], int n)
 {
   int j;
 
+  /* only one point */
+  if(n<1)
+  {
+    cder[0] = 0.0;
+    return;
+  }
+
   for (j=1;j<=n;j++)
     cder[j] =  (c[j] - c[j-1]) / (x[j] - x[j-1]);
 
-- 
2.43.0


From e1d0dae2504582e9f87bcf35ecfb6c41b997f538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:45 +0000
Subject: [PATCH 58/59] fix: FSurf_CubSph_sigma01_derivs dropped the l=lmax+1
 part of sin(theta) d/dtheta

---
 src/utility/Coordinates/FSurf_CubedSpheres.c | 25 +++++++++++++-------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/utility/Coordinates/FSurf_CubedSpheres.c b/src/utility/Coordinates/FSurf_CubedSpheres.c
index 28e20a1..b4dd96f 100644
--- a/src/utility/Coordinates/FSurf_CubedSpheres.c
+++ b/src/utility/Coordinates/FSurf_CubedSpheres.c
@@ -85,16 +85,22 @@ void FSurf_CubSph_sigma01_derivs(tBox *box, int si, double A, double B,
   int N = box->nnodes;
   int offset = si ? N/2 : 0;  /* offset for coeffs in co */
   int nYs = (lmax*(lmax+1))/2 + lmax+1; /* number of Ylm's we use */
+  int Lmax = lmax+1; /* sin(Theta) d/dTheta Y_l^m contains Y_{l+1}^m */
+  int nYsL = (Lmax*(Lmax+1))/2 + Lmax+1; /* number of Ylm's up to Lmax */
   int ijk, l,m;
   double sm;
   double *co = box->v[isigma01_co];
   double ft, fp; /* ft = sin(Theta) dsigma/dTheta, fp = dsigma/dPhi */
   double fth;    /* fth= dsigma/dTheta */
   double Theta,Phi, dThetadA,dThetadB, dPhidA,dPhidB;
-  double *ReYtab = alloc_Plm_Tab(lmax);
-  double *ImYtab = alloc_Plm_Tab(lmax);
-  double *csdth = calloc(nYs*2, sizeof(double));
-  double *cdphi = calloc(nYs*2, sizeof(double));
+  double *ReYtab = alloc_Plm_Tab(Lmax);
+  double *ImYtab = alloc_Plm_Tab(Lmax);
+  double *coL   = calloc(nYsL*2, sizeof(double)); /* co for Lmax */
+  double *csdth = calloc(nYsL*2, sizeof(double));
+  double *cdphi = calloc(nYsL*2, sizeof(double));
+
+  /* copy coeffs up to lmax, the ones with l=Lmax remain zero */
+  for(ijk=0; ijk<nYs*2; ijk++) coL[ijk] = co[offset+ijk];
 
   /* regularize case where A=B=0 <==> Theta=0:
      Note for Theta=0 we cannot use sin(Theta) d/dTheta Ylm
@@ -106,17 +112,17 @@ void FSurf_CubSph_sigma01_derivs(tBox *box, int si, double A, double B,
   ThetaPhi_dThetaPhidAB_of_AB_CubSph(box, A,B, &Theta,&Phi,
                                      &dThetadA,&dThetadB, &dPhidA,&dPhidB);
   /* make tables of Ylm at Theta,Phi */
-  set_YlmTabs(lmax, Theta,Phi, ReYtab, ImYtab);
+  set_YlmTabs(Lmax, Theta,Phi, ReYtab, ImYtab);
 
   /* get coeffs of derivs */
-  SphHarm_sin_theta_dtheta_forRealFunc(co+offset, csdth, lmax);
-  SphHarm_dphi_forRealFunc(co+offset, cdphi, lmax);
+  SphHarm_sin_theta_dtheta_forRealFunc(coL, csdth, Lmax);
+  SphHarm_dphi_forRealFunc(coL, cdphi, Lmax);
 
   /* get func vals ft,fp at Theta,Phi */
   fp = ft = 0.;
   ijk=0;
   /* loop over positive m, here Ylmm=Y_l^{-m}, sm = (-1)^m */
-  for(l=0; l<=lmax; l++)
+  for(l=0; l<=Lmax; l++)
     for(sm=1., m=0;  m<=l;  m++, sm=-sm)
     {
       double Re_Ylm, Im_Ylm, Re_Ylmm, Im_Ylmm;
@@ -137,7 +143,7 @@ errorexit("NAN!");
 }
 */
       /* get Ylm at Theta,Phi */
-      Ylm_from_Tabs(lmax, ReYtab, ImYtab, l,m, &Re_Ylm,&Im_Ylm);
+      Ylm_from_Tabs(Lmax, ReYtab, ImYtab, l,m, &Re_Ylm,&Im_Ylm);
 
       /* There is a choice of sign here: define the inner product by
          (f,g) = int f^* g
@@ -175,6 +181,7 @@ errorexit("NAN!");
   *dsigdB = fth*dThetadB + fp*dPhidB;
   free(cdphi);
   free(csdth);
+  free(coL);
   free(ImYtab);
   free(ReYtab);
 /*
-- 
2.43.0


From 55afd1c553248e596f29c9148a4d826b53f3e4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:45 +0000
Subject: [PATCH 59/59] fix: effective source ignored BHmass in its orbital
 radius and reset the mass at start-up

---
 src/physics/ScalarOnKerr/DV_CircSchwSource/Constants.c         | 2 +-
 src/physics/ScalarOnKerr/DV_CircSchwSource/DV_CircSchwSource.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/physics/ScalarOnKerr/DV_CircSchwSource/Constants.c b/src/physics/ScalarOnKerr/DV_CircSchwSource/Constants.c
index 1d65a4d..8537dab 100644
--- a/src/physics/ScalarOnKerr/DV_CircSchwSource/Constants.c
+++ b/src/physics/ScalarOnKerr/DV_CircSchwSource/Constants.c
@@ -26,7 +26,7 @@ void set_parameters(double m, double q, double r, int N, double width)
     ian_M = m;
     double M=ian_M;
     
-    ian_R = r*M;   
+    ian_R = r;
     double R=ian_R;                               //radius of the orbit
     
     ian_Omega = sqrt(M/(R*R*R));                  //frequency for circular orbit
diff --git a/src/physics/ScalarOnKerr/DV_CircSchwSource/DV_CircSchwSource.c b/src/physics/ScalarOnKerr/DV_CircSchwSource/DV_CircSchwSource.c
index 554e39c..7e7001a 100644
--- a/src/physics/ScalarOnKerr/DV_CircSchwSource/DV_CircSchwSource.c
+++ b/src/physics/ScalarOnKerr/DV_CircSchwSource/DV_CircSchwSource.c
@@ -11,7 +11,7 @@
 int DV_CircSchwSource_startup(tGrid *grid)
 {
   double x,y;
-  double M=1.0;
+  double M=Getd("BHmass");
   int i,j;
   printf("Initializing DV_CircSchwSource:\n");
   
-- 
2.43.0

