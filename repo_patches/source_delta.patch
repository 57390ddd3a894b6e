From bb40e5b66e76bccca2f931e864c4a8e837057d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:20 +0000
Subject: [PATCH 01/11] fix: do not modify outercore shells passed by the user

---
 libgrpp/outercore_integrals.c | 37 +++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/libgrpp/outercore_integrals.c b/libgrpp/outercore_integrals.c
index 99b8073..b645bc2 100644
--- a/libgrpp/outercore_integrals.c
+++ b/libgrpp/outercore_integrals.c
@@ -103,13 +103,6 @@ void libgrpp_outercore_potential_integrals(
     memset(esop_y, 0, size_A * size_B * sizeof(double));
     memset(esop_z, 0, size_A * size_B * sizeof(double));
 
-    // bind outercore shells of the GRPP to the RPP center
-    for (int ioc = 0; ioc < num_oc_shells; ioc++) {
-        oc_shells[ioc]->origin[0] = rpp_origin[0];
-        oc_shells[ioc]->origin[1] = rpp_origin[1];
-        oc_shells[ioc]->origin[2] = rpp_origin[2];
-    }
-
     // 1. the U * |nlj><nlj| + |nlj><nlj| * U part
     for (int ioc = 0; ioc < num_oc_shells; ioc++) {
         libgrpp_potential_t *pot = oc_potentials[ioc];
@@ -157,11 +150,15 @@ void libgrpp_outercore_potential_integrals_part_1(
     int size_nlj = libgrpp_get_shell_size(oc_shell);
 
     /*
-     * foolproof: bind outercore shells to the ECP center
+     * foolproof: bind outercore shells to the ECP center.
+     * (a local shallow copy is used: the shell passed by the user must not be changed,
+     * since it can be shared between RPP centers and between threads)
      */
-    oc_shell->origin[0] = C[0];
-    oc_shell->origin[1] = C[1];
-    oc_shell->origin[2] = C[2];
+    libgrpp_shell_t oc_shell_at_C = *oc_shell;
+    oc_shell_at_C.origin[0] = C[0];
+    oc_shell_at_C.origin[1] = C[1];
+    oc_shell_at_C.origin[2] = C[2];
+    oc_shell = &oc_shell_at_C;
 
     /*
      * Transformation coefficients: Cartesian -> Real spherical
@@ -293,13 +290,19 @@ void libgrpp_outercore_potential_integrals_part_2(
 
     /*
      * foolproof: bind outercore shells to the ECP center
+     * (local shallow copies are used in order not to change shells passed by the user)
      */
-    oc_shell_1->origin[0] = C[0];
-    oc_shell_1->origin[1] = C[1];
-    oc_shell_1->origin[2] = C[2];
-    oc_shell_2->origin[0] = C[0];
-    oc_shell_2->origin[1] = C[1];
-    oc_shell_2->origin[2] = C[2];
+    libgrpp_shell_t oc_shell_1_at_C = *oc_shell_1;
+    oc_shell_1_at_C.origin[0] = C[0];
+    oc_shell_1_at_C.origin[1] = C[1];
+    oc_shell_1_at_C.origin[2] = C[2];
+    oc_shell_1 = &oc_shell_1_at_C;
+
+    libgrpp_shell_t oc_shell_2_at_C = *oc_shell_2;
+    oc_shell_2_at_C.origin[0] = C[0];
+    oc_shell_2_at_C.origin[1] = C[1];
+    oc_shell_2_at_C.origin[2] = C[2];
+    oc_shell_2 = &oc_shell_2_at_C;
 
     /*
      * just to be consistent with the MOLGEP code by A. Titov, N. Mosyagin, A. Petrov:
-- 
2.43.0


From 85b903dd17978aff9247cca4bd738639c354498d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:11 +0000
Subject: [PATCH 02/11] fix: do not modify the Cartesian list of the bra shell
 in overlap gradients

---
 libgrpp/overlap_gradient.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/libgrpp/overlap_gradient.c b/libgrpp/overlap_gradient.c
index de99af4..fc08ab6 100644
--- a/libgrpp/overlap_gradient.c
+++ b/libgrpp/overlap_gradient.c
@@ -115,8 +115,17 @@ void overlap_gradient_diff_bra_contribution(
         for (int i = 0; i < shell_A->cart_size; i++) {
             for (int j = 0; j < shell_B->cart_size; j++) {
 
-                int *bra_nlm = shell_A->cart_list + 3 * i;
-                int *ket_nlm = shell_B->cart_list + 3 * j;
+                // local copies are modified below, not the lists belonging to the shells
+                int bra_nlm[3];
+                bra_nlm[0] = shell_A->cart_list[3 * i + 0];
+                bra_nlm[1] = shell_A->cart_list[3 * i + 1];
+                bra_nlm[2] = shell_A->cart_list[3 * i + 2];
+
+                int ket_nlm[3];
+                ket_nlm[0] = shell_B->cart_list[3 * j + 0];
+                ket_nlm[1] = shell_B->cart_list[3 * j + 1];
+                ket_nlm[2] = shell_B->cart_list[3 * j + 2];
+
                 int index = i * shell_B->cart_size + j;
 
                 /*
-- 
2.43.0


From 284f9a1b962801fc8619bb2faba33fa15d046e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:11 +0000
Subject: [PATCH 03/11] fix: do not look up nonexistent Cartesian components
 (n-1 < 0) in gradients

---
 libgrpp/grpp_integrals_gradient.c | 6 +++---
 libgrpp/overlap_gradient.c        | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/libgrpp/grpp_integrals_gradient.c b/libgrpp/grpp_integrals_gradient.c
index 5e56128..f342a9f 100644
--- a/libgrpp/grpp_integrals_gradient.c
+++ b/libgrpp/grpp_integrals_gradient.c
@@ -456,7 +456,7 @@ void grpp_gradient_diff_bra_contribution(
                 /*
                  * contribution from the L-1 gaussian
                  */
-                if (shell_A->L > 0) {
+                if (bra_nlm[icoord] > 0) {
                     bra_nlm[icoord] -= 1;
                     int bra_index = nlm_to_linear(bra_nlm);
                     int ket_index = nlm_to_linear(ket_nlm);
@@ -650,7 +650,7 @@ void grpp_gradient_diff_ket_contribution(
                 /*
                  * contribution from the L-1 gaussian
                  */
-                if (shell_B->L > 0) {
+                if (ket_nlm[icoord] > 0) {
                     ket_nlm[icoord] -= 1;
                     int bra_index = nlm_to_linear(bra_nlm);
                     int ket_index = nlm_to_linear(ket_nlm);
@@ -852,7 +852,7 @@ void grpp_gradient_contribution(
                 /*
                  * contribution from the L-1 gaussian
                  */
-                if (cart_size_down > 0) {
+                if (diff_nlm[icoord] > 0) {
                     diff_nlm[icoord] -= 1;
                     int bra_index = nlm_to_linear(bra_nlm);
                     int ket_index = nlm_to_linear(ket_nlm);
diff --git a/libgrpp/overlap_gradient.c b/libgrpp/overlap_gradient.c
index fc08ab6..8912615 100644
--- a/libgrpp/overlap_gradient.c
+++ b/libgrpp/overlap_gradient.c
@@ -131,7 +131,7 @@ void overlap_gradient_diff_bra_contribution(
                 /*
                  * contribution from the L-1 gaussian
                  */
-                if (shell_A->L > 0) {
+                if (bra_nlm[icoord] > 0) {
                     bra_nlm[icoord] -= 1;
                     int bra_index = nlm_to_linear(bra_nlm);
                     int ket_index = nlm_to_linear(ket_nlm);
-- 
2.43.0


From 14318573b2cb1f31feb88cb301772f00b600acf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:12 +0000
Subject: [PATCH 04/11] fix: sizes of work arrays for shells with L =
 LIBGRPP_MAX_BASIS_L

---
 libgrpp/kinetic.c                  | 4 ++--
 libgrpp/momentum.c                 | 4 ++--
 libgrpp/overlap.c                  | 3 ++-
 libgrpp/type1_mcmurchie_davidson.c | 5 ++++-
 4 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/libgrpp/kinetic.c b/libgrpp/kinetic.c
index 2c6fca3..bce3f7d 100644
--- a/libgrpp/kinetic.c
+++ b/libgrpp/kinetic.c
@@ -83,7 +83,7 @@ void kinetic_energy_integrals_shell_pair_obara_saika(
     double *B = shell_B->origin;
 
     // calculate S_ij
-    double S[3][LIBGRPP_MAX_BASIS_L + 2][LIBGRPP_MAX_BASIS_L + 2];
+    double S[3][LIBGRPP_MAX_BASIS_L + 3][LIBGRPP_MAX_BASIS_L + 3];
 
     for (int coord = 0; coord < 3; coord++) {
         double P = (alpha_A * A[coord] + alpha_B * B[coord]) / p;
@@ -124,7 +124,7 @@ void kinetic_energy_integrals_shell_pair_obara_saika(
 
     // calculate D^2_ij
 
-    double D2[3][LIBGRPP_MAX_BASIS_L][LIBGRPP_MAX_BASIS_L];
+    double D2[3][LIBGRPP_MAX_BASIS_L + 1][LIBGRPP_MAX_BASIS_L + 1];
 
     for (int coord = 0; coord < 3; coord++) {
         for (int i = 0; i <= L_A; i++) {
diff --git a/libgrpp/momentum.c b/libgrpp/momentum.c
index 849457c..0a30146 100644
--- a/libgrpp/momentum.c
+++ b/libgrpp/momentum.c
@@ -105,7 +105,7 @@ void momentum_integrals_shell_pair_obara_saika(
     double *B = shell_B->origin;
 
     // calculate S_ij
-    double S[3][LIBGRPP_MAX_BASIS_L + 1][LIBGRPP_MAX_BASIS_L + 1];
+    double S[3][LIBGRPP_MAX_BASIS_L + 2][LIBGRPP_MAX_BASIS_L + 2];
 
     for (int coord = 0; coord < 3; coord++) {
         double P = (alpha_A * A[coord] + alpha_B * B[coord]) / p;
@@ -146,7 +146,7 @@ void momentum_integrals_shell_pair_obara_saika(
 
     // calculate D^1_ij
 
-    double D1[3][LIBGRPP_MAX_BASIS_L][LIBGRPP_MAX_BASIS_L];
+    double D1[3][LIBGRPP_MAX_BASIS_L + 1][LIBGRPP_MAX_BASIS_L + 1];
 
     for (int coord = 0; coord < 3; coord++) {
         for (int i = 0; i <= L_A; i++) {
diff --git a/libgrpp/overlap.c b/libgrpp/overlap.c
index fed9620..ce2080e 100644
--- a/libgrpp/overlap.c
+++ b/libgrpp/overlap.c
@@ -83,7 +83,8 @@ void overlap_integrals_shell_pair_obara_saika(
     double *A = shell_A->origin;
     double *B = shell_B->origin;
 
-    double S[3][LIBGRPP_MAX_BASIS_L][LIBGRPP_MAX_BASIS_L];
+    // angular momenta up to LIBGRPP_MAX_BASIS_L + 1 are required for gradients
+    double S[3][LIBGRPP_MAX_BASIS_L + 2][LIBGRPP_MAX_BASIS_L + 2];
 
     for (int coord = 0; coord < 3; coord++) {
         double P = (alpha_A * A[coord] + alpha_B * B[coord]) / p;
diff --git a/libgrpp/type1_mcmurchie_davidson.c b/libgrpp/type1_mcmurchie_davidson.c
index a658bb0..32b4441 100644
--- a/libgrpp/type1_mcmurchie_davidson.c
+++ b/libgrpp/type1_mcmurchie_davidson.c
@@ -48,7 +48,10 @@
 #include "norm_gaussian.h"
 #include "utils.h"
 
-#define LMAX LIBGRPP_MAX_BASIS_L
+/*
+ * array dimension: angular momenta up to LIBGRPP_MAX_BASIS_L + 1 (gradients), plus zero
+ */
+#define LMAX (LIBGRPP_MAX_BASIS_L + 2)
 
 
 /*
-- 
2.43.0


From 15d6916811704cc58593043a010e0d8386c6c2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:12 +0000
Subject: [PATCH 05/11] fix: double factorials of n > 30 are allowed

---
 libgrpp/factorial.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libgrpp/factorial.c b/libgrpp/factorial.c
index 1e1fae9..444dc88 100644
--- a/libgrpp/factorial.c
+++ b/libgrpp/factorial.c
@@ -104,7 +104,7 @@ static uint64_t pretabulated_double_factorials[] = {
 
 double double_factorial(int n)
 {
-    assert(n >= -1 && n <= 30);
+    assert(n >= -1);
     if (n == -1) {
         return 1;
     } else if (n <= 30) {
-- 
2.43.0


From 99e9084eaac879d2986a545232803f9539090687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:12 +0000
Subject: [PATCH 06/11] fix: parameters of nuclear models in the convenience
 wrappers

---
 libgrpp/nuclear_attraction.c | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/libgrpp/nuclear_attraction.c b/libgrpp/nuclear_attraction.c
index a2fb118..04f2bec 100644
--- a/libgrpp/nuclear_attraction.c
+++ b/libgrpp/nuclear_attraction.c
@@ -196,8 +196,7 @@ void libgrpp_nuclear_attraction_integrals_charged_ball(
     double *charge_origin, int charge, double r_rms, double *coulomb_matrix)
 {
     double params[10];
-    params[0] = charge;
-    params[1] = r_rms;
+    params[0] = r_rms;
 
     libgrpp_nuclear_attraction_integrals(shell_A, shell_B, charge_origin, charge,
                                          LIBGRPP_NUCLEAR_MODEL_CHARGED_BALL, params, coulomb_matrix);
@@ -216,8 +215,7 @@ void libgrpp_nuclear_attraction_integrals_gaussian_model(
     double *charge_origin, int charge, double r_rms, double *coulomb_matrix)
 {
     double params[10];
-    params[0] = charge;
-    params[1] = r_rms;
+    params[0] = r_rms;
 
     libgrpp_nuclear_attraction_integrals(shell_A, shell_B, charge_origin, charge,
                                          LIBGRPP_NUCLEAR_MODEL_GAUSSIAN, params, coulomb_matrix);
@@ -236,9 +234,8 @@ void libgrpp_nuclear_attraction_integrals_fermi_model(
     double *charge_origin, int charge, double fermi_param_c, double fermi_param_a, double *coulomb_matrix)
 {
     double params[10];
-    params[0] = charge;
-    params[1] = fermi_param_c;
-    params[2] = fermi_param_a;
+    params[0] = fermi_param_c;
+    params[1] = fermi_param_a;
 
     libgrpp_nuclear_attraction_integrals(shell_A, shell_B, charge_origin, charge,
                                          LIBGRPP_NUCLEAR_MODEL_FERMI, params, coulomb_matrix);
@@ -258,10 +255,9 @@ void libgrpp_nuclear_attraction_integrals_fermi_bubble_model(
     double *charge_origin, int charge, double param_c, double param_a, double param_k, double *coulomb_matrix)
 {
     double params[10];
-    params[0] = charge;
-    params[1] = param_c;
-    params[2] = param_a;
-    params[3] = param_k;
+    params[0] = param_c;
+    params[1] = param_a;
+    params[2] = param_k;
 
     libgrpp_nuclear_attraction_integrals(shell_A, shell_B, charge_origin, charge,
                                          LIBGRPP_NUCLEAR_MODEL_FERMI_BUBBLE, params, coulomb_matrix);
-- 
2.43.0


From 215bf95bc0bc9727c9e71ec2988b365dbb0a2142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:32 +0000
Subject: [PATCH 07/11] fix: tolerance of type 2 radial integrals is given by
 the libgrpp_params.radial_tolerance parameter

---
 libgrpp/radial_type2_integral.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libgrpp/radial_type2_integral.c b/libgrpp/radial_type2_integral.c
index 1befa4a..393cf28 100644
--- a/libgrpp/radial_type2_integral.c
+++ b/libgrpp/radial_type2_integral.c
@@ -28,6 +28,7 @@
 #include "screening.h"
 #include "utils.h"
 #include "norm_gaussian.h"
+#include "parameters.h"
 
 #define MIN_GRID 31
 #define MAX_GRID 10000
@@ -180,12 +181,13 @@ radial_type2_table_t *tabulate_radial_type2_integrals(
     /*
      * calculate radial integrals and store them into the table
      */
+    double const tolerance = libgrpp_params.radial_tolerance;
     for (int lambda_1 = 0; lambda_1 <= lambda1_max; lambda_1++) {
         for (int lambda_2 = 0; lambda_2 <= lambda2_max; lambda_2++) {
             for (int n = 0; n <= n_max; n++) {
 
                 int converged;
-                double Q = calculate_radial_type2_integral(grid, n, lambda_1, lambda_2, 1e-16, &converged);
+                double Q = calculate_radial_type2_integral(grid, n, lambda_1, lambda_2, tolerance, &converged);
 
                 int dim1 = lambda1_max + 1;
                 int dim2 = lambda2_max + 1;
-- 
2.43.0


From 16c08ec8a27917a660f1e580538b643c706c755a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:40 +0000
Subject: [PATCH 08/11] fix: use angular_screening_tolerance in type 2 angular
 sums

---
 libgrpp/type2_integrals.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libgrpp/type2_integrals.c b/libgrpp/type2_integrals.c
index 58bff68..d58fee2 100644
--- a/libgrpp/type2_integrals.c
+++ b/libgrpp/type2_integrals.c
@@ -230,7 +230,7 @@ double type2_angular_sum(int L,
      */
     for (int m = -L; m <= L; m++) {
         double omega_1 = angular_type2_integral(lambda_1, L, m, a, b, c, rsh_values_kA);
-        if (fabs(omega_1) < 1e-16) {
+        if (fabs(omega_1) < libgrpp_params.angular_screening_tolerance) {
             continue;
         }
 
-- 
2.43.0


From c7a7c03ae876d701b2fb7f85a757bacf80bb718f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:40 +0000
Subject: [PATCH 09/11] fix: remove declaration of the function which is not
 defined

---
 libgrpp/libgrpp.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/libgrpp/libgrpp.h b/libgrpp/libgrpp.h
index b15dc52..cf9b4c0 100644
--- a/libgrpp/libgrpp.h
+++ b/libgrpp/libgrpp.h
@@ -57,8 +57,6 @@ double libgrpp_potential_value(libgrpp_potential_t *potential, double r);
 
 libgrpp_potential_t *libgrpp_shrink_potential(libgrpp_potential_t *src_potential);
 
-libgrpp_potential_t *libgrpp_shrink_potential_n0(libgrpp_potential_t *src_potential);
-
 
 /*
  * representation of atom-centered shell of contracted Gaussian functions
-- 
2.43.0


From 9c50a7ad4205d8c776729700c80150d968a35ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:40 +0000
Subject: [PATCH 10/11] fix: return type of evaluate_rpp_type1_mmd_n* functions
 which return nothing

---
 libgrpp/nuclear_attraction.c       |  2 +-
 libgrpp/type1_mcmurchie_davidson.c | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/libgrpp/nuclear_attraction.c b/libgrpp/nuclear_attraction.c
index 04f2bec..246d2d2 100644
--- a/libgrpp/nuclear_attraction.c
+++ b/libgrpp/nuclear_attraction.c
@@ -47,7 +47,7 @@ void evaluate_radially_local_potential_integral_primitive_gaussians(
     double *matrix
 );
 
-double evaluate_rpp_type1_mmd_n1_primitive_shell_pair(
+void evaluate_rpp_type1_mmd_n1_primitive_shell_pair(
     libgrpp_shell_t *shell_A, double alpha_A,
     libgrpp_shell_t *shell_B, double alpha_B,
     double *rpp_origin, double rpp_alpha,
diff --git a/libgrpp/type1_mcmurchie_davidson.c b/libgrpp/type1_mcmurchie_davidson.c
index 32b4441..f1b0b50 100644
--- a/libgrpp/type1_mcmurchie_davidson.c
+++ b/libgrpp/type1_mcmurchie_davidson.c
@@ -75,21 +75,21 @@ struct mmd_data {
  * functions used below in the file
  */
 
-double evaluate_rpp_type1_mmd_n2_primitive_shell_pair(
+void evaluate_rpp_type1_mmd_n2_primitive_shell_pair(
     libgrpp_shell_t *shell_A, double alpha_A,
     libgrpp_shell_t *shell_B, double alpha_B,
     double *rpp_origin, double rpp_alpha,
     double *rpp_matrix
 );
 
-double evaluate_rpp_type1_mmd_n1_primitive_shell_pair(
+void evaluate_rpp_type1_mmd_n1_primitive_shell_pair(
     libgrpp_shell_t *shell_A, double alpha_A,
     libgrpp_shell_t *shell_B, double alpha_B,
     double *rpp_origin, double rpp_alpha,
     double *rpp_matrix
 );
 
-double evaluate_rpp_type1_mmd_n0_primitive_shell_pair(
+void evaluate_rpp_type1_mmd_n0_primitive_shell_pair(
     libgrpp_shell_t *shell_A, double alpha_A,
     libgrpp_shell_t *shell_B, double alpha_B,
     double *rpp_origin, double rpp_alpha,
@@ -172,7 +172,7 @@ void libgrpp_type1_integrals_mcmurchie_davidson_1978(
 /**
  * Integrals of the operator: e^{-ar^2}/r^2
  */
-double evaluate_rpp_type1_mmd_n0_primitive_shell_pair(
+void evaluate_rpp_type1_mmd_n0_primitive_shell_pair(
     libgrpp_shell_t *shell_A, double alpha_A,
     libgrpp_shell_t *shell_B, double alpha_B,
     double *rpp_origin, double rpp_alpha,
@@ -273,7 +273,7 @@ double evaluate_rpp_type1_mmd_n0_primitive_shell_pair(
 /**
  * Integrals of the operator: e^{-ar^2}/r
  */
-double evaluate_rpp_type1_mmd_n1_primitive_shell_pair(
+void evaluate_rpp_type1_mmd_n1_primitive_shell_pair(
     libgrpp_shell_t *shell_A, double alpha_A,
     libgrpp_shell_t *shell_B, double alpha_B,
     double *rpp_origin, double rpp_alpha,
@@ -375,7 +375,7 @@ double evaluate_rpp_type1_mmd_n1_primitive_shell_pair(
 /**
  * Integrals of the operator: e^{-ar^2}
  */
-double evaluate_rpp_type1_mmd_n2_primitive_shell_pair(
+void evaluate_rpp_type1_mmd_n2_primitive_shell_pair(
     libgrpp_shell_t *shell_A, double alpha_A,
     libgrpp_shell_t *shell_B, double alpha_B,
     double *rpp_origin, double rpp_alpha,
-- 
2.43.0


From d3e144fd4e9564c73da45fde265289c2db9ebf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:26 +0000
Subject: [PATCH 11/11] fix: deep copy of a shell keeps the order of its
 Cartesian components

---
 libgrpp/shell.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libgrpp/shell.c b/libgrpp/shell.c
index 3024fd5..ee93097 100644
--- a/libgrpp/shell.c
+++ b/libgrpp/shell.c
@@ -56,6 +56,11 @@ libgrpp_shell_t *libgrpp_shell_deep_copy(libgrpp_shell_t *src_shell)
         src_shell->alpha
     );
 
+    // the order of Cartesian components could have been changed since the source shell was constructed
+    for (int i = 0; i < 3 * src_shell->cart_size; i++) {
+        new_shell->cart_list[i] = src_shell->cart_list[i];
+    }
+
     return new_shell;
 }
 
-- 
2.43.0

