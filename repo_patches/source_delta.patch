From 80e3dfff7cc1e9fa35ecd9fcd08f8f6bbd8a3052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:47 +0000
Subject: [PATCH 01/47] fix: Doppler cross terms with potentials lack the
 Doppler amplitude G

---
 src/functions.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/functions.c b/src/functions.c
index 464dcaa..2397711 100644
--- a/src/functions.c
+++ b/src/functions.c
@@ -1222,9 +1222,9 @@ double functions_nonintegrated(
         par->correlation_contrib.d2
     ){
         result += -(
-                (3 - fevo2)*curlyH1*pow(curlyH2, 2)*f1*f2*(chi2*costheta - chi1)
+                (3 - fevo2)*G1*curlyH1*pow(curlyH2, 2)*f1*f2*(chi2*costheta - chi1)
                 +
-                (3 - fevo1)*curlyH2*pow(curlyH1, 2)*f2*f1*(chi1*costheta - chi2)
+                (3 - fevo1)*G2*curlyH2*pow(curlyH1, 2)*f2*f1*(chi1*costheta - chi2)
             )
            *coffe_interp_spline(&coffe_find_integral(integral, 3, 1, COFFE_INTEGER, COFFE_INTEGER)->result, sep);
     }
@@ -1234,9 +1234,9 @@ double functions_nonintegrated(
         par->correlation_contrib.g1
     ){
         result += pow(COFFE_H0 * par->h, 2) * ((
-                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a2*curlyH1*f1*(1 + G2)*(chi2*costheta - chi1)
+                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a2*G1*curlyH1*f1*(1 + G2)*(chi2*costheta - chi1)
                 +
-                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a1*curlyH2*f2*(1 + G1)*(chi1*costheta - chi2)
+                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a1*G2*curlyH2*f2*(1 + G1)*(chi1*costheta - chi2)
             )
            *coffe_interp_spline(&coffe_find_integral(integral, 3, 1, COFFE_INTEGER, COFFE_INTEGER)->result, sep));
     }
@@ -1246,9 +1246,9 @@ double functions_nonintegrated(
         par->correlation_contrib.g2
     ){
         result += pow(COFFE_H0 * par->h, 2) * ((
-                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a2*curlyH1*f1*(5*s2 - 2)*(chi2*costheta - chi1)
+                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a2*G1*curlyH1*f1*(5*s2 - 2)*(chi2*costheta - chi1)
                 +
-                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a1*curlyH2*f2*(5*s1 - 2)*(chi1*costheta - chi2)
+                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a1*G2*curlyH2*f2*(5*s1 - 2)*(chi1*costheta - chi2)
             )
            *coffe_interp_spline(&coffe_find_integral(integral, 3, 1, COFFE_INTEGER, COFFE_INTEGER)->result, sep));
     }
@@ -1258,9 +1258,9 @@ double functions_nonintegrated(
         par->correlation_contrib.g3
     ){
         result += pow(COFFE_H0 * par->h, 2) * ((
-                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a2*curlyH1*f1*(f2 - 1.)*(chi2*costheta - chi1)
+                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a2*G1*curlyH1*f1*(f2 - 1.)*(chi2*costheta - chi1)
                 +
-                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a1*curlyH2*f2*(f1 - 1.)*(chi1*costheta - chi2)
+                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a1*G2*curlyH2*f2*(f1 - 1.)*(chi1*costheta - chi2)
             )
            *coffe_interp_spline(&coffe_find_integral(integral, 3, 1, COFFE_INTEGER, COFFE_INTEGER)->result, sep));
     }
@@ -3225,11 +3225,11 @@ double functions_single_integrated(
         result += pow(COFFE_H0 * par->h, 2)*(
             3*(par->Omega0_cdm + par->Omega0_baryon)
            *(
-                coffe_interp_spline(&bg->conformal_Hz, z1_const)*coffe_interp_spline(&bg->f, z1_const)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z1_const)
+                coffe_interp_spline(&bg->G1, z1_const)*coffe_interp_spline(&bg->conformal_Hz, z1_const)*coffe_interp_spline(&bg->f, z1_const)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z1_const)
                *coffe_interp_spline(&bg->D1, z2)/coffe_interp_spline(&bg->a, z2)*(lambda2*costheta - chi1)
                *coffe_interp_spline(&coffe_find_integral(integral, 3, 1, COFFE_INTEGER, COFFE_INTEGER)->result, sqrt(r21))
                +
-                coffe_interp_spline(&bg->conformal_Hz, z2_const)*coffe_interp_spline(&bg->f, z2_const)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)
+                coffe_interp_spline(&bg->G2, z2_const)*coffe_interp_spline(&bg->conformal_Hz, z2_const)*coffe_interp_spline(&bg->f, z2_const)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)
                *coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)*(lambda1*costheta - chi2)
                *coffe_interp_spline(&coffe_find_integral(integral, 3, 1, COFFE_INTEGER, COFFE_INTEGER)->result, sqrt(r22))
             ));
@@ -3242,13 +3242,13 @@ double functions_single_integrated(
         result += pow(COFFE_H0 * par->h, 2)*(
             3*(par->Omega0_cdm + par->Omega0_baryon)
            *(
-                chi2*coffe_interp_spline(&bg->conformal_Hz, z1_const)*coffe_interp_spline(&bg->f, z1_const)
+                chi2*coffe_interp_spline(&bg->G1, z1_const)*coffe_interp_spline(&bg->conformal_Hz, z1_const)*coffe_interp_spline(&bg->f, z1_const)
                *coffe_interp_spline(&bg->G2, z2_const)*coffe_interp_spline(&bg->D1, z1_const)
                *coffe_interp_spline(&bg->conformal_Hz, z2)*(coffe_interp_spline(&bg->f, z2) - 1)
                *coffe_interp_spline(&bg->D1, z2)/coffe_interp_spline(&bg->a, z2)*(lambda2*costheta - chi1)
                *coffe_interp_spline(&coffe_find_integral(integral, 3, 1, COFFE_INTEGER, COFFE_INTEGER)->result, sqrt(r21))
                +
-                chi1*coffe_interp_spline(&bg->conformal_Hz, z2_const)*coffe_interp_spline(&bg->f, z2_const)
+                chi1*coffe_interp_spline(&bg->G2, z2_const)*coffe_interp_spline(&bg->conformal_Hz, z2_const)*coffe_interp_spline(&bg->f, z2_const)
                *coffe_interp_spline(&bg->G1, z1_const)*coffe_interp_spline(&bg->D1, z2_const)
                *coffe_interp_spline(&bg->conformal_Hz, z1)*(coffe_interp_spline(&bg->f, z1) - 1)
                *coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)*(lambda1*costheta - chi2)
-- 
2.43.0


From fccbe546006f0483a39e80b240dd90a383b6e9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:47 +0000
Subject: [PATCH 02/47] fix: second half of the Doppler-lensing term uses the
 biases of the wrong population

---
 src/functions.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/functions.c b/src/functions.c
index 2397711..0067e25 100644
--- a/src/functions.c
+++ b/src/functions.c
@@ -2559,8 +2559,8 @@ double functions_single_integrated(
                             chi1
                            *coffe_interp_spline(&bg->conformal_Hz, z2_const)
                            *coffe_interp_spline(&bg->f, z2_const)
-                           *coffe_interp_spline(&bg->G1, z2_const)
-                           *(2 - 5 * s2)
+                           *coffe_interp_spline(&bg->G2, z2_const)
+                           *(2 - 5 * s1)
                             /* integrand */
                            *(1 - x)
                            /coffe_interp_spline(&bg->a, z1)
@@ -2643,7 +2643,7 @@ double functions_single_integrated(
                         )
                         +
                         chi1*coffe_interp_spline(&bg->conformal_Hz, z2_const)*coffe_interp_spline(&bg->f, z2_const)
-                       *coffe_interp_spline(&bg->G1, z2_const)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z2_const)
+                       *coffe_interp_spline(&bg->G2, z2_const)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)
                         /* integrand */
                        *(1 - x)*coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)
                        *(
@@ -2697,8 +2697,8 @@ double functions_single_integrated(
                             chi1
                            *coffe_interp_spline(&bg->conformal_Hz, z2_const)
                            *coffe_interp_spline(&bg->f, z2_const)
-                           *coffe_interp_spline(&bg->G1, z2_const)
-                           *(2 - 5 * s2)
+                           *coffe_interp_spline(&bg->G2, z2_const)
+                           *(2 - 5 * s1)
                             /* integrand */
                            *(1 - x)
                            /coffe_interp_spline(&bg->a, z1)
@@ -2773,7 +2773,7 @@ double functions_single_integrated(
                         )
                         +
                         chi1*coffe_interp_spline(&bg->conformal_Hz, z2_const)*coffe_interp_spline(&bg->f, z2_const)
-                       *coffe_interp_spline(&bg->G1, z2_const)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z2_const)
+                       *coffe_interp_spline(&bg->G2, z2_const)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)
                         /* integrand */
                        *(1 - x)*coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)
                        *(
@@ -2860,8 +2860,8 @@ double functions_single_integrated(
                         chi1
                        *coffe_interp_spline(&bg->conformal_Hz, z2_const)
                        *coffe_interp_spline(&bg->f, z2_const)
-                       *coffe_interp_spline(&bg->G1, z2_const)
-                       *(2 - 5 * s2)
+                       *coffe_interp_spline(&bg->G2, z2_const)
+                       *(2 - 5 * s1)
                         /* integrand */
                        *(1 - x)
                        /coffe_interp_spline(&bg->a, z1)
@@ -2906,7 +2906,7 @@ double functions_single_integrated(
                         )
                         +
                         chi1*coffe_interp_spline(&bg->conformal_Hz, z2_const)*coffe_interp_spline(&bg->f, z2_const)
-                       *coffe_interp_spline(&bg->G1, z2_const)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z2_const)
+                       *coffe_interp_spline(&bg->G2, z2_const)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)
                         /* integrand */
                        *(1 - x)*coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)
                        *(
@@ -2950,8 +2950,8 @@ double functions_single_integrated(
                         chi1
                        *coffe_interp_spline(&bg->conformal_Hz, z2_const)
                        *coffe_interp_spline(&bg->f, z2_const)
-                       *coffe_interp_spline(&bg->G1, z2_const)
-                       *(2 - 5 * s2)
+                       *coffe_interp_spline(&bg->G2, z2_const)
+                       *(2 - 5 * s1)
                         /* integrand */
                        *(1 - x)
                        /coffe_interp_spline(&bg->a, z1)
@@ -2987,7 +2987,7 @@ double functions_single_integrated(
                         )
                         +
                         chi1*coffe_interp_spline(&bg->conformal_Hz, z2_const)*coffe_interp_spline(&bg->f, z2_const)
-                       *coffe_interp_spline(&bg->G1, z2_const)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z2_const)
+                       *coffe_interp_spline(&bg->G2, z2_const)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)
                         /* integrand */
                        *(1 - x)*coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)
                        *(
-- 
2.43.0


From 2374497e949f2a934177a34a309d0218533d6971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:47 +0000
Subject: [PATCH 03/47] fix: density-ISW term multiplies by the scale factor
 instead of dividing

---
 src/functions.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/functions.c b/src/functions.c
index 0067e25..11c0d0d 100644
--- a/src/functions.c
+++ b/src/functions.c
@@ -3151,13 +3151,13 @@ double functions_single_integrated(
                 chi2*b1*coffe_interp_spline(&bg->G2, z2_const)*coffe_interp_spline(&bg->D1, z1_const)
                 /* integrand */
                *coffe_interp_spline(&bg->conformal_Hz, z2)*(coffe_interp_spline(&bg->f, z2) - 1)
-               *coffe_interp_spline(&bg->D1, z2)*coffe_interp_spline(&bg->a, z2)
+               *coffe_interp_spline(&bg->D1, z2)/coffe_interp_spline(&bg->a, z2)
                *coffe_interp_spline(&coffe_find_integral(integral, 2, 0, COFFE_INTEGER, COFFE_INTEGER)->result, sqrt(r21))
                +
                 chi1*b2*coffe_interp_spline(&bg->G1, z1_const)*coffe_interp_spline(&bg->D1, z2_const)
                 /* integrand */
                *coffe_interp_spline(&bg->conformal_Hz, z1)*(coffe_interp_spline(&bg->f, z1) - 1)
-               *coffe_interp_spline(&bg->D1, z1)*coffe_interp_spline(&bg->a, z1)
+               *coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)
                *coffe_interp_spline(&coffe_find_integral(integral, 2, 0, COFFE_INTEGER, COFFE_INTEGER)->result, sqrt(r22))
             ));
     }
-- 
2.43.0


From 53d5d7f0fe783f90cb552f4049307ce9c23b9b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:47 +0000
Subject: [PATCH 04/47] fix: potential-lensing terms lack the scale factor of
 the local potential

---
 src/functions.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/functions.c b/src/functions.c
index 11c0d0d..68c84d4 100644
--- a/src/functions.c
+++ b/src/functions.c
@@ -3038,7 +3038,7 @@ double functions_single_integrated(
             /* constant in front */
             9*(par->Omega0_cdm + par->Omega0_baryon)*(par->Omega0_cdm + par->Omega0_baryon)/4.
            *(
-                chi2*(1 + coffe_interp_spline(&bg->G1, z1_const))*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z1_const)
+                chi2*(1 + coffe_interp_spline(&bg->G1, z1_const))*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z1_const)/coffe_interp_spline(&bg->a, z1_const)
                *(
                     /* integrand */
                     (1 - x)*coffe_interp_spline(&bg->D1, z2)/coffe_interp_spline(&bg->a, z2)
@@ -3048,7 +3048,7 @@ double functions_single_integrated(
                     )
                 )
                 +
-                chi1*(1 + coffe_interp_spline(&bg->G2, z2_const))*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)
+                chi1*(1 + coffe_interp_spline(&bg->G2, z2_const))*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)/coffe_interp_spline(&bg->a, z2_const)
                *(
                     /* integrand */
                     (1 - x)*coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)
@@ -3068,7 +3068,7 @@ double functions_single_integrated(
             /* constant in front */
             9*(par->Omega0_cdm + par->Omega0_baryon)*(par->Omega0_cdm + par->Omega0_baryon)/4.
            *(
-                chi2*(5*s1 - 2)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z1_const)
+                chi2*(5*s1 - 2)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z1_const)/coffe_interp_spline(&bg->a, z1_const)
                *(
                     /* integrand */
                     (1 - x)*coffe_interp_spline(&bg->D1, z2)/coffe_interp_spline(&bg->a, z2)
@@ -3078,7 +3078,7 @@ double functions_single_integrated(
                     )
                 )
                 +
-                chi1*(5*s2 - 2)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)
+                chi1*(5*s2 - 2)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)/coffe_interp_spline(&bg->a, z2_const)
                *(
                     /* integrand */
                     (1 - x)*coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)
@@ -3098,7 +3098,7 @@ double functions_single_integrated(
             /* constant in front */
             9*(par->Omega0_cdm + par->Omega0_baryon)*(par->Omega0_cdm + par->Omega0_baryon)/4.
            *(
-                chi2*(coffe_interp_spline(&bg->f, z1_const) - 1)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z1_const)
+                chi2*(coffe_interp_spline(&bg->f, z1_const) - 1)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z1_const)/coffe_interp_spline(&bg->a, z1_const)
                *(
                     /* integrand */
                     (1 - x)*coffe_interp_spline(&bg->D1, z2)/coffe_interp_spline(&bg->a, z2)
@@ -3108,7 +3108,7 @@ double functions_single_integrated(
                     )
                 )
                 +
-                chi1*(coffe_interp_spline(&bg->f, z2_const) - 1)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)
+                chi1*(coffe_interp_spline(&bg->f, z2_const) - 1)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)/coffe_interp_spline(&bg->a, z2_const)
                *(
                     /* integrand */
                     (1 - x)*coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)
-- 
2.43.0


From 72af9ca5d85680eed1eee59107063781db0f3b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:47 +0000
Subject: [PATCH 05/47] fix: ISW-lensing term uses conformal_Hz - 1 in place of
 f - 1

---
 src/functions.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/functions.c b/src/functions.c
index 68c84d4..9f4daa9 100644
--- a/src/functions.c
+++ b/src/functions.c
@@ -3927,7 +3927,7 @@ double functions_double_integrated(
                 9*(par->Omega0_cdm + par->Omega0_baryon)*(par->Omega0_cdm + par->Omega0_baryon)/2.
                *(
                     (2 - 5*s2)*coffe_interp_spline(&bg->G1, z1_const)*chi1
-                   *coffe_interp_spline(&bg->conformal_Hz, z1)*(coffe_interp_spline(&bg->conformal_Hz, z1) - 1)
+                   *coffe_interp_spline(&bg->conformal_Hz, z1)*(coffe_interp_spline(&bg->f, z1) - 1)
                    *(1 - x2)/x2*coffe_interp_spline(&bg->D1, z1)*coffe_interp_spline(&bg->D1, z2)
                    /coffe_interp_spline(&bg->a, z1)/coffe_interp_spline(&bg->a, z2)
                    *(
@@ -3936,7 +3936,7 @@ double functions_double_integrated(
                     )
                     +
                     (2 - 5*s1)*coffe_interp_spline(&bg->G2, z2_const)*chi2
-                   *coffe_interp_spline(&bg->conformal_Hz, z2)*(coffe_interp_spline(&bg->conformal_Hz, z2) - 1)
+                   *coffe_interp_spline(&bg->conformal_Hz, z2)*(coffe_interp_spline(&bg->f, z2) - 1)
                    *(1 - x1)/x1*coffe_interp_spline(&bg->D1, z1)*coffe_interp_spline(&bg->D1, z2)
                    /coffe_interp_spline(&bg->a, z1)/coffe_interp_spline(&bg->a, z2)
                    *(
@@ -3950,13 +3950,13 @@ double functions_double_integrated(
                 9*(par->Omega0_cdm + par->Omega0_baryon)*(par->Omega0_cdm + par->Omega0_baryon)/2.
                *(
                     (2 - 5*s2)*coffe_interp_spline(&bg->G1, z1_const)*chi1
-                   *coffe_interp_spline(&bg->conformal_Hz, z1)*(coffe_interp_spline(&bg->conformal_Hz, z1) - 1)
+                   *coffe_interp_spline(&bg->conformal_Hz, z1)*(coffe_interp_spline(&bg->f, z1) - 1)
                    *(1 - x2)/x2*coffe_interp_spline(&bg->D1, z1)*coffe_interp_spline(&bg->D1, z2)
                    /coffe_interp_spline(&bg->a, z1)/coffe_interp_spline(&bg->a, z2)
                    *2*lambda1*lambda2*coffe_interp_spline(&coffe_find_integral(integral, 3, 1, COFFE_INTEGER, COFFE_INTEGER)->result, 0.0)
                     +
                     (2 - 5*s1)*coffe_interp_spline(&bg->G2, z2_const)*chi2
-                   *coffe_interp_spline(&bg->conformal_Hz, z2)*(coffe_interp_spline(&bg->conformal_Hz, z2) - 1)
+                   *coffe_interp_spline(&bg->conformal_Hz, z2)*(coffe_interp_spline(&bg->f, z2) - 1)
                    *(1 - x1)/x1*coffe_interp_spline(&bg->D1, z1)*coffe_interp_spline(&bg->D1, z2)
                    /coffe_interp_spline(&bg->a, z1)/coffe_interp_spline(&bg->a, z2)
                    *2*lambda1*lambda2*coffe_interp_spline(&coffe_find_integral(integral, 3, 1, COFFE_INTEGER, COFFE_INTEGER)->result, 0.0)
-- 
2.43.0


From 15a65229f0ccd3052e68161d49f30b2607892470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:18 +0000
Subject: [PATCH 06/47] fix: zero-separation limit of the lensing-lensing
 integrand lacks the I20 table

---
 src/functions.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/functions.c b/src/functions.c
index 9f4daa9..75a2014 100644
--- a/src/functions.c
+++ b/src/functions.c
@@ -3793,8 +3793,6 @@ double functions_double_integrated(
                    *(1 - x2)
                    *(
                        4.
-                       +
-                        24. * lambda1 * lambda2
                        *coffe_interp_spline2d(
                             &coffe_find_integral(
                                 integral,
@@ -3806,6 +3804,20 @@ double functions_double_integrated(
                             (z1 + z2) / 2.,
                             sqrt(r2)
                         )
+                       /3.
+                       +
+                        24. * lambda1 * lambda2
+                       *coffe_interp_spline2d(
+                            &coffe_find_integral(
+                                integral,
+                                1,
+                                1,
+                                COFFE_INTEGER,
+                                COFFE_INTEGER
+                            )->result2d,
+                            (z1 + z2) / 2.,
+                            sqrt(r2)
+                        )
                        /15.
                     );
                 }
@@ -3827,6 +3839,7 @@ double functions_double_integrated(
                    *(1 - x2)
                    *(
                        4.
+                      *coffe_interp_spline(&coffe_find_integral(integral, 2, 0, COFFE_INTEGER, COFFE_INTEGER)->result, 0.0)/3.
                        +
                         24. * lambda1 * lambda2
                        *coffe_interp_spline(&coffe_find_integral(integral, 1, 1, COFFE_INTEGER, COFFE_INTEGER)->result, 0.0)/15.
-- 
2.43.0


From 02ffc0c8d967ed9278fb9866e2610de1c1ad0372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:41 +0000
Subject: [PATCH 07/47] fix: covariance integrals use the pixelsize of their
 own redshift bin

With covariance_window and a linear power spectrum the windowed integrals
were computed once, with pixelsize[0], and used for every redshift bin; and
for averaged multipoles the number of integrals was taken from z_mean.
---
 src/covariance.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/covariance.c b/src/covariance.c
index 467f176..13263dd 100644
--- a/src/covariance.c
+++ b/src/covariance.c
@@ -522,9 +522,12 @@ int coffe_covariance_init(
         double *separations = (double *)coffe_malloc(sizeof(double) * par->sep_len);
         for (size_t i = 0; i < par->sep_len; ++i)
             separations[i] = par->sep[i];
+        /* the integrals differ between redshift bins if P(k) or the window
+        function (via the pixelsize) does */
+        const int bin_dependent = par->pk_type || par->covariance_window;
         const size_t redshifts_to_allocate =
             /* trigraph */
-            par->pk_type ? par->z_mean_len : 1;
+            bin_dependent ? par->density1_len : 1;
         /* allocating memory for the integrals of P(k) and P^2(k) (D_l1l2 and G_l1l2) */
         /* why triple pointers, you ask? First index is redshift, second is multipole, third are separations */
         double ***integral_pk =
@@ -996,7 +999,7 @@ int coffe_covariance_init(
                        *(par->pk_type ? 1 : D1z * D1z)
                         /* trigraph */
                        *(
-                            par->pk_type
+                            bin_dependent
                             ?
                             integral_pk[k][i*par->multipole_values_len + j][par->sep_len*n + m]
                             :
@@ -1013,7 +1016,7 @@ int coffe_covariance_init(
                         /* TODO fix this abomination */
                         /* trigraph */
                        *(
-                            par->pk_type
+                            bin_dependent
                             ?
                             integral_pk2[k][i*par->multipole_values_len + j][par->sep_len*n + m]
                             :
-- 
2.43.0


From de0b0beb3ee39bf5c3bd6c3a3157154623c7a974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:05 +0000
Subject: [PATCH 08/47] fix: finite limit of the divergent integral at zero
 separation is scaled by the fourth power of the distance

---
 src/integrals.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/integrals.c b/src/integrals.c
index 27a0859..b7e9745 100644
--- a/src/integrals.c
+++ b/src/integrals.c
@@ -814,8 +814,8 @@ int coffe_integrals_init(
                 result0[i] = integrals_integrate_function(
                     &integrals_renormalization0_integrand,
                     &par->power_spectrum_norm,
-                    /* n and l don't matter in this case */
-                    4,
+                    /* n = l, since the result isn't multiplied by any power of the separation */
+                    0,
                     0,
                     COFFE_INTEGER,
                     COFFE_INTEGER,
-- 
2.43.0


From 34d31b64856f27d4cbc095d8fc690973470c088d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:26 +0000
Subject: [PATCH 09/47] fix: discard every cached result when the coordinates
 change

---
 python/coffe/coffe.pyx | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 2dc8a57..a30c3bd 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1583,6 +1583,9 @@ cdef class Coffe:
             self._parameters.sep[i] = temp[i]
         self._free_corrfunc()
         self._free_multipoles()
+        self._free_average_multipoles()
+        self._free_covariance_multipoles()
+        self._free_average_covariance_multipoles()
 
 
     @property
@@ -1965,6 +1968,7 @@ cdef class Coffe:
         for i in range(self._parameters.multipole_values_len):
             self._parameters.multipole_values[i] = temp[i]
         # we need to free the integrals since the flat-sky ones may depend on them
+        self._free_integrals()
         self._free_multipoles()
         self._free_average_multipoles()
         self._free_covariance_multipoles()
@@ -2004,6 +2008,7 @@ cdef class Coffe:
         self._parameters.z_mean = <double *> malloc(sizeof(double) * len(temp))
         for i in range(self._parameters.z_mean_len):
             self._parameters.z_mean[i] = temp[i]
+        self._free_integrals()
         self._free_corrfunc()
         self._free_multipoles()
         self._free_covariance_multipoles()
@@ -2042,6 +2047,7 @@ cdef class Coffe:
             self._parameters.zmin[i] = temp[i]
         self._free_corrfunc()
         self._free_multipoles()
+        self._free_average_multipoles()
         self._free_covariance_multipoles()
         self._free_average_covariance_multipoles()
 
@@ -2078,8 +2084,10 @@ cdef class Coffe:
         self._parameters.zmax = <double *> malloc(sizeof(double) * len(temp))
         for i in range(self._parameters.zmax_len):
             self._parameters.zmax[i] = temp[i]
+        self._free_integrals()
         self._free_corrfunc()
         self._free_multipoles()
+        self._free_average_multipoles()
         self._free_covariance_multipoles()
         self._free_average_covariance_multipoles()
 
@@ -2430,6 +2438,7 @@ cdef class Coffe:
         self._parameters.deltaz = <double *> malloc(sizeof(double) * len(temp))
         for i in range(self._parameters.deltaz_len):
             self._parameters.deltaz[i] = temp[i]
+        self._free_integrals()
         self._free_corrfunc()
         self._free_multipoles()
         self._free_covariance_multipoles()
-- 
2.43.0


From 3feb3b72d601c7953ff2dc10235ca65a4f02dc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:26 +0000
Subject: [PATCH 10/47] fix: discard every cached result when the biases change

---
 python/coffe/coffe.pyx | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index a30c3bd..229f903 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1747,6 +1747,9 @@ cdef class Coffe:
         )
         self._free_corrfunc()
         self._free_multipoles()
+        self._free_average_multipoles()
+        self._free_covariance_multipoles()
+        self._free_average_covariance_multipoles()
 
 
     def galaxy_bias2(self, z : float):
@@ -1780,6 +1783,9 @@ cdef class Coffe:
         )
         self._free_corrfunc()
         self._free_multipoles()
+        self._free_average_multipoles()
+        self._free_covariance_multipoles()
+        self._free_average_covariance_multipoles()
 
 
     def galaxy_bias3(self, z : float):
@@ -1802,6 +1808,8 @@ cdef class Coffe:
         )
         self._free_corrfunc()
         self._free_multipoles()
+        self._free_covariance_multipoles()
+        self._free_average_covariance_multipoles()
 
 
     def galaxy_bias4(self, z : float):
@@ -1824,6 +1832,8 @@ cdef class Coffe:
         )
         self._free_corrfunc()
         self._free_multipoles()
+        self._free_covariance_multipoles()
+        self._free_average_covariance_multipoles()
 
 
     def magnification_bias1(self, z : float):
@@ -1855,8 +1865,10 @@ cdef class Coffe:
             x_sampling, y_sampling,
             self._parameters.interp_method
         )
+        self._free_background()
         self._free_corrfunc()
         self._free_multipoles()
+        self._free_average_multipoles()
 
 
     def magnification_bias2(self, z : float):
@@ -1888,8 +1900,10 @@ cdef class Coffe:
             x_sampling, y_sampling,
             self._parameters.interp_method
         )
+        self._free_background()
         self._free_corrfunc()
         self._free_multipoles()
+        self._free_average_multipoles()
 
 
     def evolution_bias1(self, z : float):
@@ -1909,8 +1923,10 @@ cdef class Coffe:
             x_sampling, y_sampling,
             self._parameters.interp_method
         )
+        self._free_background()
         self._free_corrfunc()
         self._free_multipoles()
+        self._free_average_multipoles()
 
 
     def evolution_bias2(self, z : float):
@@ -1930,8 +1946,10 @@ cdef class Coffe:
             x_sampling, y_sampling,
             self._parameters.interp_method
         )
+        self._free_background()
         self._free_corrfunc()
         self._free_multipoles()
+        self._free_average_multipoles()
 
 
     @property
-- 
2.43.0


From 170d76a97380a144edc39031826ae2617e399ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:53 +0000
Subject: [PATCH 11/47] fix: the interpolation method of the covariance is also
 used by the integrals

---
 python/coffe/coffe.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 229f903..73406c9 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -2347,6 +2347,10 @@ cdef class Coffe:
             self._parameters.covariance_interpolation_method = value
         else:
             self._parameters.covariance_interpolation_method = _invert_dict(_allowed_interpolation_2d_methods)[value]
+        self._free_integrals()
+        self._free_corrfunc()
+        self._free_multipoles()
+        self._free_average_multipoles()
         self._free_covariance_multipoles()
         self._free_average_covariance_multipoles()
 
-- 
2.43.0


From 452d283c0d17c1e204548b4759df41d0ec39fd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:53 +0000
Subject: [PATCH 12/47] fix: reject the arrays from which no spline can be
 constructed

---
 python/coffe/coffe.pyx | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 73406c9..3427211 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -166,8 +166,14 @@ cdef int set_spline(
     """
     Sets the value of the spline according to some x_sampling and y_sampling
     """
-    if not np.allclose(x_sampling, np.sort(x_sampling)):
-        raise ValueError('The input array must be sorted')
+    x_sampling = [float(_) for _ in x_sampling]
+    y_sampling = [float(_) for _ in y_sampling]
+
+    if not np.all(np.diff(x_sampling) > 0):
+        raise ValueError('The input array must be sorted, without duplicates')
+    # GSL cannot construct the spline from fewer points
+    if len(x_sampling) < 5:
+        raise ValueError('The input array must have at least 5 elements')
     if len(x_sampling) != len(y_sampling):
         raise ValueError(
             f'Mismatching lengths for x ({len(x_sampling)}) and y ({len(y_sampling)})'
@@ -2980,12 +2986,19 @@ cdef class Coffe:
         None
         """
         # value checking
-        if not np.allclose(k, np.sort(k)):
-            raise ValueError('The input k array must be sorted')
+        k = [float(_) for _ in k]
+        pk = [float(_) for _ in pk]
+
+        if not np.all(np.diff(k) > 0):
+            raise ValueError('The input k array must be sorted, without duplicates')
 
         if len(k) != len(pk):
             raise ValueError('The input arrays have mismatching lengths')
 
+        # GSL cannot construct the spline from fewer points
+        if len(k) < 5:
+            raise ValueError('The input arrays must have at least 5 elements')
+
         # TODO error checking for z and rescaling if z > 0
 
         self._free_power_spectrum()
-- 
2.43.0


From be882aa7aa46f8702777046ae62635c635b98f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:53 +0000
Subject: [PATCH 13/47] fix: discard every cached result when the power
 spectrum is set

---
 python/coffe/coffe.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 3427211..d098644 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -3037,6 +3037,11 @@ cdef class Coffe:
         free(y_norm)
 
         self._free_integrals()
+        self._free_corrfunc()
+        self._free_multipoles()
+        self._free_average_multipoles()
+        self._free_covariance_multipoles()
+        self._free_average_covariance_multipoles()
 
 
     def comoving_distance(self, z : float):
-- 
2.43.0


From b8dd665fa8f3638591cae475ee1d2a2e3adbee3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:53 +0000
Subject: [PATCH 14/47] fix: keep the power spectrum set by the user when
 everything is recomputed

---
 python/coffe/coffe.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index d098644..7170534 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -3029,7 +3029,8 @@ cdef class Coffe:
             x_norm, y_norm, size, self._parameters.interp_method
         )
 
-        self._power_spectrum_flag = 1
+        # the recomputation of everything must not replace the input of the user
+        self._power_spectrum_flag = 2
 
         free(x)
         free(y)
@@ -3591,6 +3592,8 @@ cdef class Coffe:
         )
 
     def _power_spectrum_init(self):
+        if self._power_spectrum_flag == 2:
+            return
         ccoffe.parse_external_power_spectrum(&self._parameters)
         self._power_spectrum_flag = 1
 
-- 
2.43.0


From fa964fcc06cc8e5738e0d507a2c2199eb473dc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:53 +0000
Subject: [PATCH 15/47] fix: recompute the integrals when the divergent one
 becomes necessary

---
 python/coffe/coffe.pyx | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 7170534..18a58f5 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1111,8 +1111,15 @@ cdef class Coffe:
                 "'has_d1', 'has_d2', 'has_g1', 'has_g2', 'has_g3', "
                 "'has_g4', 'has_g5'"
             )
-        if any([self.has_d2, self.has_g1, self.has_g2, self.has_g3, self.has_g4, self.has_g5]):
-            self._parameters.divergent = 1
+        divergent = int(
+            any([self.has_d2, self.has_g1, self.has_g2, self.has_g3, self.has_g4, self.has_g5])
+        )
+        if divergent != self._parameters.divergent:
+            self._parameters.divergent = divergent
+            self._free_integrals()
+            self._free_corrfunc()
+            self._free_multipoles()
+            self._free_average_multipoles()
 
 
     def _balance_content(self):
-- 
2.43.0


From 0424eec4d9d2de11fdfb7bdc51ac5aa1703086cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:53 +0000
Subject: [PATCH 16/47] fix: setter of integrals_fftlog_sampling

---
 python/coffe/coffe.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 18a58f5..8698cde 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1666,7 +1666,7 @@ cdef class Coffe:
             1000000,
         )
 
-        self._parameter.bessel_bins = int(value)
+        self._parameters.bessel_bins = int(value)
         self._free_except_parameters()
 
 
-- 
2.43.0


From 7849f605211b53bd15f276ca2cf2807fb78465c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:53 +0000
Subject: [PATCH 17/47] fix: setting covariance_populations either takes effect
 completely or not at all

---
 python/coffe/coffe.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 8698cde..7bd72d2 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -2226,7 +2226,7 @@ cdef class Coffe:
         if any(_ not in [1, 2, 3, 4] for _ in value):
             raise ValueError('The values for `covariance_populations` must be one of: [1, 2, 3, 4]')
 
-        self._parameters.covariance_pop1, self._parameters.covariance_pop2, self._parameters.covariance_pop3, self._parameters.covariance_pop4 = value
+        self._parameters.covariance_pop1, self._parameters.covariance_pop2, self._parameters.covariance_pop3, self._parameters.covariance_pop4 = temp
         self._free_covariance_multipoles()
         self._free_average_covariance_multipoles()
 
-- 
2.43.0


From 9c3e8bfba02b851281cb33117abfa80a1340e9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:53 +0000
Subject: [PATCH 18/47] fix: massive neutrinos in the energy budget

---
 python/coffe/coffe.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 7bd72d2..3ab858e 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1196,7 +1196,7 @@ cdef class Coffe:
             # we set the value, rebalance the Omega budget, and free memory
             self._check_omegas(value, self.omega_baryon, self.omega_gamma, self.omega_nu)
             self._parameters.Omega0_cdm = value / self._coeff
-            self._parameters.Omega0_m = self._parameters.Omega0_cdm + self._parameters.Omega0_baryon
+            self._parameters.Omega0_m = self._parameters.Omega0_cdm + self._parameters.Omega0_baryon + self._parameters.Omega0_nu
             self._balance_content()
             self._free_except_parameters()
 
@@ -1290,7 +1290,10 @@ cdef class Coffe:
         _check_parameter('h', value, (int, float), 0, 100)
         if not np.allclose(value, self.h):
             # setting the old value equal to the new value of h
+            omega_nu = self.m_ncdm / 93.14 / value / value
             self._parameters.h = value
+            self._parameters.Omega0_nu = omega_nu
+            self._parameters.Omega0_cdm = self._parameters.Omega0_m - self._parameters.Omega0_baryon - self._parameters.Omega0_nu
             self._balance_content()
             self._free_except_parameters()
 
-- 
2.43.0


From fe182e11a86e99d7c4b4658be03dc6e8a59d94f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:53 +0000
Subject: [PATCH 19/47] fix: reading the parameters leaves the instance as it
 was

---
 python/coffe/coffe.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 3ab858e..b6c262e 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1158,9 +1158,11 @@ cdef class Coffe:
             if key != 'parameters' and hasattr(getattr(self.__class__, key), '__set__')
         }
         writable = {}
+        # setting anything on this instance would discard its cached results
+        probe = self.__class__()
         for key in properties:
             try:
-                setattr(self, key, getattr(self, key))
+                setattr(probe, key, getattr(probe, key))
                 writable[key] = getattr(self, key)
             except AttributeError:
                 pass
-- 
2.43.0


From f99626678b544d846b42c9913c417345a980b61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:17 +0000
Subject: [PATCH 20/47] fix: tell the C code which output is computed

---
 python/coffe/coffe.pyx | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index b6c262e..fe82c66 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -3247,6 +3247,7 @@ cdef class Coffe:
         """
         self._check_coords_corrfunc()
         self._check_contributions()
+        self._set_output_type(ccoffe.CORRFUNC)
 
         if not self._background.flag or recompute:
             self._background_init()
@@ -3319,6 +3320,7 @@ cdef class Coffe:
         """
         self._check_coords_multipoles()
         self._check_contributions()
+        self._set_output_type(ccoffe.MULTIPOLES)
         if not self._background.flag or recompute:
             self._background_init()
 
@@ -3380,6 +3382,7 @@ cdef class Coffe:
         """
         self._check_coords_multipoles()
         self._check_contributions()
+        self._set_output_type(ccoffe.MULTIPOLES)
         recompute = bool(recompute)
         if not self._background.flag or recompute:
             self._background_init()
@@ -3421,6 +3424,7 @@ cdef class Coffe:
         """
         self._check_coords_average_multipoles()
         self._check_contributions()
+        self._set_output_type(ccoffe.AVERAGE_MULTIPOLES)
         recompute = bool(recompute)
         if not self._background.flag or recompute:
             self._background_init()
@@ -3464,6 +3468,7 @@ cdef class Coffe:
         """
         self._check_coords_corrfunc()
         self._check_contributions()
+        self._set_output_type(ccoffe.CORRFUNC)
         recompute = bool(recompute)
         if not self._background.flag or recompute:
             self._background_init()
@@ -3597,6 +3602,16 @@ cdef class Coffe:
         ])
 
 
+    def _set_output_type(self, output_type):
+        """
+        Internal function that sets the kind of output that is about to be
+        computed, which decides which of the integrals are necessary.
+        """
+        if self._parameters.output_type != output_type:
+            self._parameters.output_type = output_type
+            self._free_integrals()
+
+
     def _background_init(self):
         ccoffe.coffe_background_init(
             &self._parameters,
-- 
2.43.0


From 8491af1806f395d89247bf27fdda712f72250bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:17 +0000
Subject: [PATCH 21/47] fix: redshift arrays with mismatching lengths are read
 out of bounds

---
 python/coffe/coffe.pyx | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index fe82c66..b92208e 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1088,6 +1088,10 @@ cdef class Coffe:
             raise ValueError(
                 f'At least one of the following parameters is empty: l ({self.l}), sep ({self.sep}), z_min ({self.z_min}), z_max ({self.z_max})'
             )
+        if len(self.z_min) != len(self.z_max):
+            raise ValueError(
+                f'Mismatching lengths for z_min ({self.z_min}) and z_max ({self.z_max})'
+            )
 
 
     def _check_contributions(self):
@@ -3625,6 +3629,15 @@ cdef class Coffe:
         self._power_spectrum_flag = 1
 
     def _integrals_init(self):
+        if self._parameters.divergent:
+            # the divergent integral depends on the largest of the redshifts
+            if self._parameters.output_type == ccoffe.AVERAGE_MULTIPOLES:
+                if not len(self.z_max):
+                    raise ValueError('The parameter `z_max` is empty')
+            elif not 0 < len(self.z_mean) <= len(self.deltaz):
+                raise ValueError(
+                    f'The parameter `deltaz` ({self.deltaz}) must have a value for each element of `z_mean` ({self.z_mean})'
+                )
         ccoffe.coffe_integrals_init(
             &self._parameters,
             &self._background,
-- 
2.43.0


From 79b89627f031cd305bcb58098b16db0e3373e552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:17 +0000
Subject: [PATCH 22/47] fix: the range checks reject NaN

---
 python/coffe/coffe.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index b92208e..305f121 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -98,12 +98,12 @@ def _check_parameter(
             f'Expected {kind}, got {type(value)}'
         )
 
-    if xmin is not None and value < xmin:
+    if xmin is not None and not value >= xmin:
         raise ValueError(
             f'Value {value} smaller than xmin ({xmin})'
         )
 
-    if xmax is not None and value > xmax:
+    if xmax is not None and not value <= xmax:
         raise ValueError(
             f'Value {value} larger than xmax ({xmax})'
         )
-- 
2.43.0


From 6b0ae25e607e23f9765989abc347fe505ed98477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:17 +0000
Subject: [PATCH 23/47] fix: choice of contributions and precision leaves the
 input power spectrum as it is

---
 python/coffe/coffe.pyx | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 305f121..0a77cf4 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -987,6 +987,16 @@ cdef class Coffe:
         ccoffe.coffe_average_covariance_free(&self._average_covariance_multipoles)
 
 
+    def _free_except_power_spectrum(self):
+        self._free_background()
+        self._free_integrals()
+        self._free_corrfunc()
+        self._free_multipoles()
+        self._free_average_multipoles()
+        self._free_covariance_multipoles()
+        self._free_average_covariance_multipoles()
+
+
     def _free_except_parameters(self):
         self._free_background()
         self._free_power_spectrum()
@@ -1676,7 +1686,7 @@ cdef class Coffe:
         )
 
         self._parameters.bessel_bins = int(value)
-        self._free_except_parameters()
+        self._free_except_power_spectrum()
 
 
     def integral(self, *, r : float, n : int, l : int):
@@ -2511,7 +2521,7 @@ cdef class Coffe:
         else:
             self._parameters.integration_1d_type = _invert_dict(_allowed_integration_1d_types)[value]
 
-        self._free_except_parameters()
+        self._free_except_power_spectrum()
 
 
     @property
@@ -2532,7 +2542,7 @@ cdef class Coffe:
             1,
         )
         self._parameters.integration_1d_prec = float(value)
-        self._free_except_parameters()
+        self._free_except_power_spectrum()
 
 
     @property
@@ -2569,7 +2579,7 @@ cdef class Coffe:
         _check_parameter('background_sampling', value, int, 0, self._max_size)
 
         self._parameters.background_bins = value
-        self._free_except_parameters()
+        self._free_except_power_spectrum()
 
 
     @property
@@ -2660,7 +2670,7 @@ cdef class Coffe:
     @has_d1.setter
     def has_d1(self, value : bool):
         self._parameters.correlation_contrib.d1 = int(bool(value))
-        self._free_except_parameters()
+        self._free_except_power_spectrum()
 
 
     @property
@@ -2674,7 +2684,7 @@ cdef class Coffe:
     @has_d2.setter
     def has_d2(self, value : bool):
         self._parameters.correlation_contrib.d2 = int(bool(value))
-        self._free_except_parameters()
+        self._free_except_power_spectrum()
 
 
     @property
@@ -2689,7 +2699,7 @@ cdef class Coffe:
     @has_g1.setter
     def has_g1(self, value : bool):
         self._parameters.correlation_contrib.g1 = int(bool(value))
-        self._free_except_parameters()
+        self._free_except_power_spectrum()
 
 
     @property
@@ -2704,7 +2714,7 @@ cdef class Coffe:
     @has_g2.setter
     def has_g2(self, value : bool):
         self._parameters.correlation_contrib.g2 = int(bool(value))
-        self._free_except_parameters()
+        self._free_except_power_spectrum()
 
 
     @property
@@ -2719,7 +2729,7 @@ cdef class Coffe:
     @has_g3.setter
     def has_g3(self, value : bool):
         self._parameters.correlation_contrib.g3 = int(bool(value))
-        self._free_except_parameters()
+        self._free_except_power_spectrum()
 
 
     @property
@@ -2734,7 +2744,7 @@ cdef class Coffe:
     @has_g4.setter
     def has_g4(self, value : bool):
         self._parameters.correlation_contrib.g4 = int(bool(value))
-        self._free_except_parameters()
+        self._free_except_power_spectrum()
 
 
     @property
@@ -2749,7 +2759,7 @@ cdef class Coffe:
     @has_g5.setter
     def has_g5(self, value : bool):
         self._parameters.correlation_contrib.g5 = int(bool(value))
-        self._free_except_parameters()
+        self._free_except_power_spectrum()
 
 
     def reset_contributions(self):
-- 
2.43.0


From 0c44aa7527467234a73f754d7f8464c26cd256eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:52 +0000
Subject: [PATCH 24/47] fix: omega_baryon is refused although the energy budget
 does not change

---
 python/coffe/coffe.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 0a77cf4..dc1536d 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1259,7 +1259,7 @@ cdef class Coffe:
         _check_parameter('omega_baryon', value, (int, float), -100, 100)
         if not np.allclose(value, self.omega_baryon):
             # we set the value, rebalance the Omega budget, and free memory
-            self._check_omegas(value, self.omega_cdm, self.omega_gamma)
+            # the matter content stays the same, so there is no budget to check
             self._parameters.Omega0_baryon = value / self._coeff
             self._parameters.Omega0_cdm = self._parameters.Omega0_m - self._parameters.Omega0_baryon - self._parameters.Omega0_nu
             self._balance_content()
-- 
2.43.0


From e979b235b549116ff8082649fc8e124a5b8f79be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:52 +0000
Subject: [PATCH 25/47] fix: empty lists in a settings file cannot be read

---
 python/coffe/coffe.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index dc1536d..33c8d2e 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -65,13 +65,15 @@ class CoffeConfigParser(ConfigParser):
         """
         Converts the value of the option to a list of floats
         """
-        return [float(_) for _ in self.get(section, option).strip("[]").split(",")]
+        value = self.get(section, option).strip("[] ")
+        return [float(_) for _ in value.split(",")] if value else []
 
     def getint_array(self, section, option, *args, **kwargs):
         """
         Converts the value of the option to a list of ints
         """
-        return [int(_) for _ in self.get(section, option).strip("[]").split(",")]
+        value = self.get(section, option).strip("[] ")
+        return [int(_) for _ in value.split(",")] if value else []
 
     def getstr_array(self, section, option, *args, **kwargs):
         """
-- 
2.43.0


From 717add269538660c279d5ff57080fe454a3ef7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:26 +0000
Subject: [PATCH 26/47] fix: from_file ignores some of the parameters that
 to_file writes

---
 python/coffe/coffe.pyx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 33c8d2e..8b256a2 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -664,7 +664,7 @@ cdef class Coffe:
             if option in config:
                 setattr(cosmo, option, config.getfloat_array(option))
 
-        options_int_array = ["l"]
+        options_int_array = ["l", "covariance_populations"]
         for option in options_int_array:
             if option in config:
                 setattr(cosmo, option, config.getint_array(option))
@@ -682,7 +682,7 @@ cdef class Coffe:
             "A_s",
             "k_per_decade_for_bao",
             "k_per_decade_for_pk",
-            "start_large_k_at_tau_c_over_tau_h",
+            "start_large_k_at_tau_h_over_tau_k",
             "l_max_g",
             "l_max_ur",
             "tol_perturb_integration",
@@ -693,18 +693,22 @@ cdef class Coffe:
             "k_min",
             "k_max",
             "YHe",
+            "integration_1d_prec",
         }
         for option in options_float:
             if option in config:
                 setattr(cosmo, option, config.getfloat(option))
 
         options_int = {
+            "verbose",
+            "has_only_cross_correlations",
             "has_density",
             "has_lensing",
             "has_rsd",
             "has_d1",
             "has_d2",
             "has_g1",
+            "has_g2",
             "has_g3",
             "has_g4",
             "has_g5",
-- 
2.43.0


From 3d52d48722eb8e576115dd6d3ce0d53dbccc4a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:26 +0000
Subject: [PATCH 27/47] fix: from_file depends on the order of a set

---
 python/coffe/coffe.pyx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 8b256a2..e6003e0 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -669,7 +669,12 @@ cdef class Coffe:
             if option in config:
                 setattr(cosmo, option, config.getint_array(option))
 
-        options_float = {
+        # the matter content is read before the radiation, in a fixed order and
+        # with an empty radiation budget: the default values of one must not
+        # lead to a refusal of the other
+        if "omega_gamma" in config:
+            cosmo.omega_gamma = 0
+        options_float = [
             "omega_m",
             "omega_baryon",
             "omega_gamma",
@@ -694,7 +699,7 @@ cdef class Coffe:
             "k_max",
             "YHe",
             "integration_1d_prec",
-        }
+        ]
         for option in options_float:
             if option in config:
                 setattr(cosmo, option, config.getfloat(option))
-- 
2.43.0


From c3af637cbb2ac953f6ac3fe2ed2e4fd8447ade8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:28 +0000
Subject: [PATCH 28/47] fix: biases at unevenly spaced redshifts are written as
 if the redshifts were even

---
 python/coffe/coffe.pyx | 61 ++++++++----------------------------------
 1 file changed, 11 insertions(+), 50 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index e6003e0..8ae3dc7 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -127,17 +127,10 @@ cdef int get_spline_size(
 
 
 
-cdef double get_spline_min(
+cdef list get_spline_nodes(
     ccoffe.coffe_interpolation *interp,
-) except *:
-    return dereference(interp.spline).x[0]
-
-
-
-cdef double get_spline_max(
-    ccoffe.coffe_interpolation *interp,
-) except *:
-    return dereference(interp.spline).x[get_spline_size(interp) - 1]
+):
+    return [dereference(interp.spline).x[i] for i in range(get_spline_size(interp))]
 
 
 
@@ -862,11 +855,7 @@ cdef class Coffe:
 
     def galaxy_bias1_redshifts(self):
         """Return the redshifts of the galaxy bias 1 spline."""
-        size = get_spline_size(&self._parameters.galaxy_bias1)
-        xmin = get_spline_min(&self._parameters.galaxy_bias1)
-        xmax = get_spline_max(&self._parameters.galaxy_bias1)
-
-        return np.linspace(xmin, xmax, size)
+        return np.array(get_spline_nodes(&self._parameters.galaxy_bias1))
 
     def galaxy_bias1_values(self):
         """Return the values of the galaxy bias 1 spline."""
@@ -875,11 +864,7 @@ cdef class Coffe:
 
     def galaxy_bias2_redshifts(self):
         """Return the redshifts of the galaxy bias 2 spline."""
-        size = get_spline_size(&self._parameters.galaxy_bias2)
-        xmin = get_spline_min(&self._parameters.galaxy_bias2)
-        xmax = get_spline_max(&self._parameters.galaxy_bias2)
-
-        return np.linspace(xmin, xmax, size)
+        return np.array(get_spline_nodes(&self._parameters.galaxy_bias2))
 
     def galaxy_bias2_values(self):
         """Return the values of the galaxy bias 2 spline."""
@@ -887,11 +872,7 @@ cdef class Coffe:
 
     def galaxy_bias3_redshifts(self):
         """Return the redshifts of the galaxy bias 3 spline."""
-        size = get_spline_size(&self._parameters.galaxy_bias3)
-        xmin = get_spline_min(&self._parameters.galaxy_bias3)
-        xmax = get_spline_max(&self._parameters.galaxy_bias3)
-
-        return np.linspace(xmin, xmax, size)
+        return np.array(get_spline_nodes(&self._parameters.galaxy_bias3))
 
     def galaxy_bias3_values(self):
         """Return the values of the galaxy bias 3 spline."""
@@ -899,11 +880,7 @@ cdef class Coffe:
 
     def galaxy_bias4_redshifts(self):
         """Return the redshifts of the galaxy bias 4 spline."""
-        size = get_spline_size(&self._parameters.galaxy_bias4)
-        xmin = get_spline_min(&self._parameters.galaxy_bias4)
-        xmax = get_spline_max(&self._parameters.galaxy_bias4)
-
-        return np.linspace(xmin, xmax, size)
+        return np.array(get_spline_nodes(&self._parameters.galaxy_bias4))
 
     def galaxy_bias4_values(self):
         """Return the values of the galaxy bias 4 spline."""
@@ -912,11 +889,7 @@ cdef class Coffe:
 
     def magnification_bias1_redshifts(self):
         """Return the redshifts of the magnification bias 1 spline."""
-        size = get_spline_size(&self._parameters.magnification_bias1)
-        xmin = get_spline_min(&self._parameters.magnification_bias1)
-        xmax = get_spline_max(&self._parameters.magnification_bias1)
-
-        return np.linspace(xmin, xmax, size)
+        return np.array(get_spline_nodes(&self._parameters.magnification_bias1))
 
     def magnification_bias1_values(self):
         """Return the values of the magnification bias 1 spline."""
@@ -925,11 +898,7 @@ cdef class Coffe:
 
     def magnification_bias2_redshifts(self):
         """Return the redshifts of the magnification bias 2 spline."""
-        size = get_spline_size(&self._parameters.magnification_bias2)
-        xmin = get_spline_min(&self._parameters.magnification_bias2)
-        xmax = get_spline_max(&self._parameters.magnification_bias2)
-
-        return np.linspace(xmin, xmax, size)
+        return np.array(get_spline_nodes(&self._parameters.magnification_bias2))
 
     def magnification_bias2_values(self):
         """Return the values of the magnification bias 2 spline."""
@@ -938,11 +907,7 @@ cdef class Coffe:
 
     def evolution_bias1_redshifts(self):
         """Return the redshifts of the evolution bias 1 spline."""
-        size = get_spline_size(&self._parameters.evolution_bias1)
-        xmin = get_spline_min(&self._parameters.evolution_bias1)
-        xmax = get_spline_max(&self._parameters.evolution_bias1)
-
-        return np.linspace(xmin, xmax, size)
+        return np.array(get_spline_nodes(&self._parameters.evolution_bias1))
 
     def evolution_bias1_values(self):
         """Return the values of the evolution bias 1 spline."""
@@ -951,11 +916,7 @@ cdef class Coffe:
 
     def evolution_bias2_redshifts(self):
         """Return the redshifts of the evolution bias 2 spline."""
-        size = get_spline_size(&self._parameters.evolution_bias2)
-        xmin = get_spline_min(&self._parameters.evolution_bias2)
-        xmax = get_spline_max(&self._parameters.evolution_bias2)
-
-        return np.linspace(xmin, xmax, size)
+        return np.array(get_spline_nodes(&self._parameters.evolution_bias2))
 
     def evolution_bias2_values(self):
         """Return the values of the evolution bias 2 spline."""
-- 
2.43.0


From 046f47e2a9c5c27c891ca8e6f2a52186afd25b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:03 +0000
Subject: [PATCH 29/47] fix: maximum_separation aborts the process for a bin
 reaching beyond z = 15

The far edge z_mean + deltaz was not checked, and the C code terminates the
process when it is outside the tabulated redshifts.
---
 python/coffe/coffe.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 8ae3dc7..11a3782 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -2815,7 +2815,8 @@ cdef class Coffe:
         float
         """
         _check_parameter('z_mean', z_mean, (int, float), 0, 15)
-        _check_parameter('deltaz', deltaz, (int, float), 0, z_mean)
+        # the far edge of the bin must be within the tabulated redshifts as well
+        _check_parameter('deltaz', deltaz, (int, float), 0, min(z_mean, 15 - z_mean))
 
         if not self._background.flag:
             self._background_init()
-- 
2.43.0


From 2b6684f453481e7e4767e322565bac225e5b37a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:03 +0000
Subject: [PATCH 30/47] fix: set_power_spectrum_linear ignores the redshift of
 the spectrum

The argument z was accepted and had no effect, so a spectrum given at z > 0
was taken to be the one at z = 0.
---
 python/coffe/coffe.pyx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 11a3782..e256ce9 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -2998,7 +2998,12 @@ cdef class Coffe:
         if len(k) < 5:
             raise ValueError('The input arrays must have at least 5 elements')
 
-        # TODO error checking for z and rescaling if z > 0
+        _check_parameter('z', z, (int, float), 0, 15)
+
+        # internally the spectrum is always the one at z = 0
+        if z > 0:
+            growth = self.growth_factor(z)
+            pk = [_ / growth**2 for _ in pk]
 
         self._free_power_spectrum()
         self._parameters.k_min = k[0]
-- 
2.43.0


From c936c11445f91d0dfdf16743b977f8d3d98def46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:03 +0000
Subject: [PATCH 31/47] fix: compute_average_covariance_bulk checks the
 coordinates of another output

It refused to run when z_mean was empty, and did not check z_min and z_max.
---
 python/coffe/coffe.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index e256ce9..4dfec04 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -3554,7 +3554,7 @@ cdef class Coffe:
         -------
         an array of instances of `coffe.representation.AverageCovariance`.
         """
-        self._check_coords_multipoles()
+        self._check_coords_average_multipoles()
         self._check_contributions()
         recompute = bool(recompute)
 
-- 
2.43.0


From 453511073a5c9704268189ad331c919d48afbb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:02 +0000
Subject: [PATCH 32/47] fix: twofast: the taper is defined at the edges of its
 plateau

A sample exactly at xleft or xright matched no branch and the window was computed
from an uninitialised variable.
---
 src/twofast.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/twofast.c b/src/twofast.c
index f0a11ef..3750793 100644
--- a/src/twofast.c
+++ b/src/twofast.c
@@ -61,7 +61,7 @@ static double twofast_window(
 {
     if (xmin <= xleft && xleft <= xright && xright <= xmax){
         double result;
-        if (value > xleft && value < xright && value > xmin && value < xmax){
+        if (value >= xleft && value <= xright && value > xmin && value < xmax){
             result = 1.0;
         }
         else if (value <= xmin || value >= xmax){
-- 
2.43.0


From f360db9657fbf18ed867cc07a3f137c4b84860f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:24 +0000
Subject: [PATCH 33/47] fix: sample counts too small to interpolate are refused

background_sampling below 5, integrals_fftlog_sampling below 2 and
covariance_integration_sampling below 8 passed the checks of the setters, and
the next computation then aborted or crashed the process (too few nodes for
the spline) or returned nan (an empty window).
---
 python/coffe/coffe.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 4dfec04..43257c1 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1653,7 +1653,7 @@ cdef class Coffe:
             "integrals_fftlog_sampling",
             value,
             int,
-            0,
+            2,
             1000000,
         )
 
@@ -2316,7 +2316,7 @@ cdef class Coffe:
             "covariance_integration_sampling",
             value,
             int,
-            0,
+            8,
             1000000,
         )
 
@@ -2548,7 +2548,7 @@ cdef class Coffe:
 
     @background_sampling.setter
     def background_sampling(self, value):
-        _check_parameter('background_sampling', value, int, 0, self._max_size)
+        _check_parameter('background_sampling', value, int, 5, self._max_size)
 
         self._parameters.background_bins = value
         self._free_except_power_spectrum()
-- 
2.43.0


From d1c637221c8cae5805b278521912b145327deedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:24 +0000
Subject: [PATCH 34/47] fix: an odd covariance_integration_sampling ended the
 process

two_sph_bessel only takes an even number of samples, and calls exit(0) for an
odd one, so computing a covariance with the FFTlog method silently ended the
interpreter.
---
 src/covariance.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/covariance.c b/src/covariance.c
index 13263dd..e2ffb06 100644
--- a/src/covariance.c
+++ b/src/covariance.c
@@ -724,8 +724,10 @@ int coffe_covariance_init(
                     );
                 }
 
-                /* first point of order: logarithmically sample k and P(k) */
-                const size_t sampling_points = par->covariance_integration_bins;
+                /* first point of order: logarithmically sample k and P(k); the
+                transform takes an even number of samples */
+                const size_t sampling_points =
+                    par->covariance_integration_bins + par->covariance_integration_bins % 2;
 
                 /* compute the whole thing (just the upper half to save time and space) */
                 for (size_t i = 0; i < par->multipole_values_len; ++i){
-- 
2.43.0


From 032a6352ba3319265cca5d30c2b84c137c7396c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:54 +0000
Subject: [PATCH 35/47] fix: the command line program ignored deltaz

The width of the redshift bins was only read for the covariance, so that the
divergent integrals of the signal used the default of a single bin, and read
past its end for several redshifts.
---
 src/parser.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/parser.c b/src/parser.c
index 2e7f8f5..0c001c2 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1096,6 +1096,30 @@ int coffe_parser_init(
         }
     }
 
+    /* width of the redshift bins */
+    if (
+        par->output_type == CORRFUNC ||
+        par->output_type == MULTIPOLES
+    ){
+        if (config_lookup(conf, "deltaz") != NULL){
+            free(par->deltaz);
+            parse_double_array(conf, "deltaz", &par->deltaz, &par->deltaz_len);
+            if (par->deltaz_len != par->z_mean_len){
+                print_error_verbose(PROG_VALUE_ERROR, "deltaz");
+                exit(EXIT_FAILURE);
+            }
+        }
+        else{
+            /* the default one for each of the bins */
+            const double deltaz = par->deltaz[0];
+            free(par->deltaz);
+            par->deltaz = (double *)coffe_malloc(sizeof(double) * par->z_mean_len);
+            for (size_t i = 0; i < par->z_mean_len; ++i)
+                par->deltaz[i] = deltaz;
+            par->deltaz_len = par->z_mean_len;
+        }
+    }
+
     /* range of integration for redshift averaged multipoles */
     if (par->output_type == AVERAGE_MULTIPOLES){
         parse_double_array(conf, "z_min", &par->zmin, &par->zmin_len);
-- 
2.43.0


From b88f3a52204a92742a454d6f379c03023958b364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:54 +0000
Subject: [PATCH 36/47] fix: the interpolation method was undefined when the
 settings file has none

---
 src/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index 0c001c2..efe6874 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1128,7 +1128,7 @@ int coffe_parser_init(
 
     /* the interpolation method for GSL */
     {
-    int temp;
+    int temp = par->interp_method;
     parse_int(conf, "interpolation", &temp, COFFE_FALSE);
     par->interp_method = (enum coffe_interp1d_type)temp;
     }
-- 
2.43.0


From 03d38c1e345798424bd8931f748cea1880e14a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:54 +0000
Subject: [PATCH 37/47] fix: the separations were ignored for the covariance of
 averaged multipoles

---
 src/parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index efe6874..1beb3f8 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1156,7 +1156,8 @@ int coffe_parser_init(
         par->output_type == CORRFUNC ||
         par->output_type == MULTIPOLES ||
         par->output_type == AVERAGE_MULTIPOLES ||
-        par->output_type == COVARIANCE_MULTIPOLES
+        par->output_type == COVARIANCE_MULTIPOLES ||
+        par->output_type == COVARIANCE_AVERAGE_MULTIPOLES
     ){
         double xmin, xmax;
         parse_double(conf, "separations_min", &xmin, COFFE_TRUE);
-- 
2.43.0


From 5a49ddfa4833daf04fc6d4c03a4c7990de196336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:54 +0000
Subject: [PATCH 38/47] fix: separations_step had no effect

With separations_step instead of separations_sampling in the settings file,
there were no separations, and the output was empty.
---
 src/parser.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/parser.c b/src/parser.c
index 1beb3f8..14fe9c7 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1178,6 +1178,16 @@ int coffe_parser_init(
             fprintf(stderr, "You need to specify one of `separations_sampling` and `separations_step`");
             exit(EXIT_FAILURE);
         }
+        if (error2 == EXIT_SUCCESS){
+            if (!(step > 0)){
+                print_error_verbose(PROG_VALUE_ERROR, "separations_step");
+                exit(EXIT_FAILURE);
+            }
+            /* the largest separation is excluded */
+            sampling = (int)ceil((xmax - xmin) / step);
+            xmax = xmin + sampling * step;
+        }
+
         if (par->sep_len)
             free(par->sep);
         par->sep = coffe_generate_range(xmin, xmax, sampling);
-- 
2.43.0


From 8cdc3461aa0fb25cab2674510f8eca4096098f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:54 +0000
Subject: [PATCH 39/47] fix: results were appended to those of a previous run

The other files are overwritten, as announced by the warning.
---
 src/output.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/output.c b/src/output.c
index 6623d99..f0bc867 100644
--- a/src/output.c
+++ b/src/output.c
@@ -116,7 +116,7 @@ static int output_corrfunc(
     strncat(header, "\n", COFFE_MAX_STRLEN);
     strncat(header, "# z_mean, sep, mu, value\n", COFFE_MAX_STRLEN);
 
-    FILE *data = fopen(filepath, "a");
+    FILE *data = fopen(filepath, "w");
     fprintf(data, header);
 
     for (size_t i = 0; i < cf->size; ++i){
@@ -149,7 +149,7 @@ static int output_multipoles(
     strncat(header, "\n", COFFE_MAX_STRLEN);
     strncat(header, "# z_mean, l, sep, value\n", COFFE_MAX_STRLEN);
 
-    FILE *data = fopen(filepath, "a");
+    FILE *data = fopen(filepath, "w");
     fprintf(data, header);
 
     for (size_t i = 0; i < mp->size; ++i){
@@ -175,7 +175,7 @@ static int output_covariance(
 )
 {
     char header[COFFE_MAX_STRLEN];
-    FILE *output = fopen(filepath, "a");
+    FILE *output = fopen(filepath, "w");
     snprintf(
         header, COFFE_MAX_STRLEN,
         "# correlation contributions: "
-- 
2.43.0


From a5174477bd56f3c2b40b9cdd482a30ccd894a002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:54 +0000
Subject: [PATCH 40/47] fix: the redshift averaged multipoles were computed but
 not written

---
 src/output.c | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/src/output.c b/src/output.c
index f0bc867..a53a606 100644
--- a/src/output.c
+++ b/src/output.c
@@ -168,6 +168,41 @@ static int output_multipoles(
 }
 
 
+static int output_average_multipoles(
+    const char *filepath,
+    const struct coffe_correlation_contributions cc,
+    const coffe_average_multipoles_array_t *mp
+)
+{
+    char header[COFFE_MAX_STRLEN];
+    snprintf(
+        header, COFFE_MAX_STRLEN,
+        "# correlation contributions: "
+    );
+    output_correlation_contributions_header(cc, header);
+    strncat(header, "\n", COFFE_MAX_STRLEN);
+    strncat(header, "# z_min, z_max, l, sep, value\n", COFFE_MAX_STRLEN);
+
+    FILE *data = fopen(filepath, "w");
+    fprintf(data, header);
+
+    for (size_t i = 0; i < mp->size; ++i){
+        fprintf(
+            data,
+            "%.10e %.10e %d %.10e %.10e\n",
+            mp->array[i].coords.z_min,
+            mp->array[i].coords.z_max,
+            mp->array[i].coords.l,
+            mp->array[i].coords.separation,
+            mp->array[i].value
+        );
+    }
+    fclose(data);
+
+    return EXIT_SUCCESS;
+}
+
+
 static int output_covariance(
     const char *filepath,
     const struct coffe_correlation_contributions cc,
@@ -372,6 +407,11 @@ int coffe_output_init(
         output_multipoles(filepath, par->correlation_contrib, mp);
     }
 
+    /* redshift averaged multipoles */
+    else if (par->output_type == AVERAGE_MULTIPOLES){
+        snprintf(filepath, COFFE_MAX_STRLEN, "%saverage_multipoles.dat", prefix);
+        output_average_multipoles(filepath, par->correlation_contrib, ramp);
+    }
     /* covariance of multipoles */
     else if (par->output_type == COVARIANCE_MULTIPOLES){
         snprintf(filepath, COFFE_MAX_STRLEN, "%scovariance_multipoles.dat", prefix);
-- 
2.43.0


From 52c83123d1a7a7df4106e6d44d055db68661c1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:54 +0000
Subject: [PATCH 41/47] fix: the labels of the covariance of averaged
 multipoles

---
 src/output.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output.c b/src/output.c
index a53a606..ddd5ce3 100644
--- a/src/output.c
+++ b/src/output.c
@@ -425,7 +425,7 @@ int coffe_output_init(
         );
 
         FILE *output = fopen(filepath, "w");
-        fprintf(output, "# sep[Mpc/h]\tsep[Mpc/h]\tresult\n");
+        fprintf(output, "# sep1, sep2, l1, l2, z_min, z_max, value\n");
 
         for (size_t i = 0; i < cov_ramp->size; ++i){
             fprintf(
-- 
2.43.0


From 4497c02b4699e50166b78b0e49ad4361d27c42ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:10 +0000
Subject: [PATCH 42/47] fix: a missing text setting was read from an undefined
 address

---
 src/parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index 14fe9c7..6d320a3 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -115,7 +115,8 @@ static int parse_string(
 {
     const char *temp_value;
     int error = config_lookup_string(conf, setting, &temp_value);
-    strcpy(value, (char *)temp_value);
+    if (error == 1)
+        strcpy(value, (char *)temp_value);
     if (safe == COFFE_TRUE){
         if (error != 1){
             fprintf(stderr,
-- 
2.43.0


From 53437020adb12e347968af5cb2c113f4b2112a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:10 +0000
Subject: [PATCH 43/47] fix: a bias file which cannot be read was used all the
 same

---
 src/parser.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index 6d320a3..2de32c0 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -253,12 +253,16 @@ static int parse_bias(
         double *redshifts, *values;
         size_t len;
         parse_string(conf, setting, filename, COFFE_TRUE);
-        read_2col(
+        const int error = read_2col(
             filename,
             &redshifts,
             &values,
             &len
         );
+        if (error != EXIT_SUCCESS){
+            print_error_verbose(PROG_VALUE_ERROR, setting);
+            exit(EXIT_FAILURE);
+        }
         coffe_init_spline(spline, redshifts, values, len, method);
         free(redshifts);
         free(values);
-- 
2.43.0


From 82f8aaddb322bca3054212687ff8680a6f212b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:10 +0000
Subject: [PATCH 44/47] fix: the number of pixel sizes was not checked

---
 src/parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index 2de32c0..9d57dbc 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1455,7 +1455,8 @@ int coffe_parser_init(
             par->density1_len != par->fsky_len ||
             par->density1_len != par->density2_len ||
             par->density1_len != par->zmin_len ||
-            par->density1_len != par->zmax_len
+            par->density1_len != par->zmax_len ||
+            par->density1_len != par->pixelsize_len
         ){
             fprintf(
                 stderr,
-- 
2.43.0


From cb3470e466ef209e00bfe43b8f4d85a0d90463bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:10 +0000
Subject: [PATCH 45/47] fix: the last row of a file was lost if it has no
 newline

---
 src/common.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/common.c b/src/common.c
index 5ab3058..e88d0c7 100644
--- a/src/common.c
+++ b/src/common.c
@@ -184,12 +184,11 @@ int read_2col(
         return EXIT_FAILURE;
     }
     size_t n = 0;
-    char c, temp_string[COFFE_MAX_STRLEN];
+    char temp_string[COFFE_MAX_STRLEN];
     char *temp_token;
 
-    while ((c=fgetc(data)) != EOF){
-        if (c == '\n') ++n;
-    }
+    /* the last line needn't end with a newline */
+    while (fgets(temp_string, COFFE_MAX_STRLEN, data) != NULL) ++n;
 
     error = fseek(data, 0, SEEK_SET);
     if (error){
-- 
2.43.0


From 35b3c3c67f6a29a9566e138eb5a2a5e93bc8d30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:27 +0000
Subject: [PATCH 46/47] fix: refuse z_min and z_max lists of different lengths
 for the averaged multipoles

---
 src/parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser.c b/src/parser.c
index 9d57dbc..9343871 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1129,6 +1129,10 @@ int coffe_parser_init(
     if (par->output_type == AVERAGE_MULTIPOLES){
         parse_double_array(conf, "z_min", &par->zmin, &par->zmin_len);
         parse_double_array(conf, "z_max", &par->zmax, &par->zmax_len);
+        if (par->zmin_len != par->zmax_len){
+            print_error_verbose(PROG_VALUE_ERROR, "z_max");
+            exit(EXIT_FAILURE);
+        }
     }
 
     /* the interpolation method for GSL */
-- 
2.43.0


From 541c5fa12ae308a9d12e8404e0feba63b3d712ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:39 +0000
Subject: [PATCH 47/47] fix: an empty output path is the current directory

---
 src/output.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/output.c b/src/output.c
index ddd5ce3..0b0a78b 100644
--- a/src/output.c
+++ b/src/output.c
@@ -45,6 +45,9 @@ static int output_make_path(char *path)
     struct stat temp_status = {0};
     char *current_dir;
     char temp_path[COFFE_MAX_STRLEN];
+
+    /* an empty path is the current directory */
+    if (path[0] == '\0') strncpy(path, "./", COFFE_MAX_STRLEN);
     strncpy(temp_path, path, COFFE_MAX_STRLEN);
 
     if (stat(path, &temp_status) == 0){
-- 
2.43.0

