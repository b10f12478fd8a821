From 38cbf081862b0eccba1248aca13daf626a468296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:16 +0000
Subject: [PATCH 01/35] fix: nsev: do not modify the caller's or the default
 options

---
 src/fnft_nsev.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index 2e491e8..41b0275 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -183,8 +183,10 @@ INT fnft_nsev(
         if (K_ptr == NULL)
             return E_INVALID_ARGUMENT(K_ptr);
     }
-    if (opts == NULL)
-        opts = &default_opts;
+    // Work on a copy so that neither the options of the caller nor the default
+    // options are modified
+    fnft_nsev_opts_t opts_copy = (opts == NULL) ? default_opts : *opts;
+    opts = &opts_copy;
 
     // This switch checks for incompatible bound_state_localization options
     switch (opts->discretization) {
-- 
2.43.0


From a81b727ac8d958c12c9adcaf483193a619825a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:48 +0000
Subject: [PATCH 02/35] fix: kdvv, manakovv: do not modify the caller's or the
 default options

---
 src/fnft_kdvv.c     | 6 ++++--
 src/fnft_manakovv.c | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index bcd66c5..b0efdeb 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -168,8 +168,10 @@ INT fnft_kdvv(
             return E_INVALID_ARGUMENT(XI);
     }
 
-    if (opts == NULL)
-        opts = &default_opts;
+    // Work on a copy so that neither the options of the caller nor the default
+    // options are modified
+    fnft_kdvv_opts_t opts_copy = (opts == NULL) ? default_opts : *opts;
+    opts = &opts_copy;
 
     if (bound_states != NULL) {
         if (K_ptr == NULL) {
diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index bd5fe19..277011d 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -156,8 +156,10 @@ INT fnft_manakovv(
 		if (K_ptr == NULL)
 			return E_INVALID_ARGUMENT(K_ptr);
 	}
-	if (opts == NULL)
-		opts = &default_opts;
+	// Work on a copy so that neither the options of the caller nor the default
+	// options are modified
+	fnft_manakovv_opts_t opts_copy = (opts == NULL) ? default_opts : *opts;
+	opts = &opts_copy;
 
 	// This switch checks for incompatible bound_state_localization options
     switch (opts->discretization) {
-- 
2.43.0


From 89248b415287f0287286de1811116af60bcd7c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:30 +0000
Subject: [PATCH 03/35] fix: nsep: do not modify the caller's or the default
 options

---
 src/fnft_nsep.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index 955a70d..05e3b65 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -122,8 +122,10 @@ INT fnft_nsep(const UINT D, COMPLEX const * const q,
         return E_INVALID_ARGUMENT(M_ptr);
     if (sheet_indices != NULL)
         return E_NOT_YET_IMPLEMENTED(sheet_indices, Pass sheet_indices="NULL".);
-    if (opts_ptr == NULL)
-        opts_ptr = &default_opts;
+    // Work on a local copy of the options, because the bounding box might be
+    // changed below.
+    fnft_nsep_opts_t opts_copy = (opts_ptr == NULL) ? default_opts : *opts_ptr;
+    opts_ptr = &opts_copy;
     if (opts_ptr->filtering != fnft_nsep_filt_NONE && main_spec == NULL && aux_spec != NULL)
         return E_INVALID_ARGUMENT(main_spec. Filtering of the auxiliary spectrum is not possible if the main spectrum is not computed.);
 
@@ -225,11 +227,6 @@ INT fnft_nsep(const UINT D, COMPLEX const * const q,
         aux_spec[i] += Lam_shift;
     }
 
-    // Restoring changed limits
-    if (opts_ptr->filtering == fnft_nsep_filt_MANUAL){
-        opts_ptr->bounding_box[0] += Lam_shift;
-        opts_ptr->bounding_box[1] += Lam_shift;
-    }
         leave_fun:
             free(q_preprocessed);
             return ret_code;
-- 
2.43.0


From eb0b3719dacaf35a5fa249d0d248a24c3b178e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:43 +0000
Subject: [PATCH 04/35] fix: nsep: free memory on all error paths

---
 src/fnft_nsep.c | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index 05e3b65..330b3dc 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -174,8 +174,10 @@ INT fnft_nsep(const UINT D, COMPLEX const * const q,
 
             // Store lengths of still unused parts of user-provided arrays in temp
             // variables
-            if (K1 > *K_ptr || M1 > *M_ptr)
-                return E_ASSERTION_FAILED;
+            if (K1 > *K_ptr || M1 > *M_ptr) {
+                ret_code = E_ASSERTION_FAILED;
+                goto leave_fun;
+            }
             K2 = *K_ptr - K1;
             M2 = *M_ptr - M1;
 
@@ -216,7 +218,8 @@ INT fnft_nsep(const UINT D, COMPLEX const * const q,
 
         default:
 
-            return E_INVALID_ARGUMENT(opts_ptr->discretization);
+            ret_code = E_INVALID_ARGUMENT(opts_ptr->localization);
+            goto leave_fun;
     }
     if (main_spec != NULL) {
     for (i=0; i < *K_ptr; i++)
@@ -298,8 +301,10 @@ static inline INT gridsearch(const UINT D,
 
     // Will be required later for coordinate transforms
     degree1step = nse_discretization_degree(opts_ptr->discretization);
-    if (degree1step == NAN)
-        return E_INVALID_ARGUMENT(opts_ptr->discretization);
+    if (degree1step != degree1step) { // NaN
+        ret_code = E_INVALID_ARGUMENT(opts_ptr->discretization);
+        goto release_mem;
+    }
     map_coeff = 2/degree1step;
     update_bounding_box_if_auto(eps_t, map_coeff, opts_ptr);
     PHI[0] = map_coeff*eps_t*opts_ptr->bounding_box[0];
@@ -517,10 +522,12 @@ static inline INT subsample_and_refine(const UINT D,
     CHECK_RETCODE(ret_code, release_mem);
 
     nskip_per_step = D/Dsub;
-    if ( first_last_index[0] != 0 || first_last_index[1]+nskip_per_step != D )
-        return E_ASSERTION_FAILED; // Correct update of T for general
-                                   // downsampling still needs to be
-                                 // implemented
+    if ( first_last_index[0] != 0 || first_last_index[1]+nskip_per_step != D ) {
+        ret_code = E_ASSERTION_FAILED; // Correct update of T for general
+                                       // downsampling still needs to be
+                                       // implemented
+        goto release_mem;
+    }
 
     if (upsampling_factor == 2) {
         nse_discretization = nse_discretization_CF4_2;
@@ -558,8 +565,10 @@ static inline INT subsample_and_refine(const UINT D,
 
     // Will be required later for coordinate transforms and filtering
     degree1step = nse_discretization_degree(opts_ptr->discretization);
-    if (degree1step == NAN)
-        return E_INVALID_ARGUMENT(opts_ptr->discretization);
+    if (degree1step != degree1step) { // NaN
+        ret_code = E_INVALID_ARGUMENT(opts_ptr->discretization);
+        goto release_mem;
+    }
     map_coeff = 2/degree1step;
     update_bounding_box_if_auto(eps_t_sub, map_coeff, opts_ptr);
     tol_im = opts_ptr->bounding_box[3] - opts_ptr->bounding_box[2];
@@ -783,8 +792,10 @@ static inline INT newton(const UINT D,
 
     // Will be required later for coordinate transforms and filtering
     degree1step = nse_discretization_degree(opts_ptr->discretization);
-    if (degree1step == NAN)
-        return E_INVALID_ARGUMENT(opts_ptr->discretization);
+    if (degree1step != degree1step) { // NaN
+        ret_code = E_INVALID_ARGUMENT(opts_ptr->discretization);
+        goto release_mem;
+    }
     map_coeff = 2/degree1step;
     update_bounding_box_if_auto(eps_t, map_coeff, opts_ptr);
     tol_im = opts_ptr->bounding_box[1] - opts_ptr->bounding_box[0];
-- 
2.43.0


From 88c6a5375cdfcd127a292fdce63c1348d75f4ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:43 +0000
Subject: [PATCH 05/35] fix: nsep: do not drop the return code of
 poly_roots_fasteigen

---
 src/fnft_nsep.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index 330b3dc..0e20eb2 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -674,7 +674,7 @@ static inline INT subsample_and_refine(const UINT D,
     if (aux_spec != NULL) {
         ret_code = poly_roots_fasteigen(deg, transfer_matrix + (deg + 1),
                 roots);
-
+        CHECK_RETCODE(ret_code, release_mem);
 
         // Set number of points in the aux spectrum
         M = deg;
-- 
2.43.0


From 9254ea8248efae856b26d155ab689fed7e8f8d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:43 +0000
Subject: [PATCH 06/35] fix: nsep: do not read an uninitialized value if
 main_spec is NULL

---
 src/fnft_nsep.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index 0e20eb2..8bbef0b 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -252,7 +252,7 @@ static inline INT gridsearch(const UINT D,
     REAL PHI[2] = { 0.0, 2.0*PI };
     UINT deg;
     INT W = 0, *W_ptr = NULL;
-    UINT K, K_filtered;
+    UINT K = 0, K_filtered;
     UINT M = 0;
     UINT i, upsampling_factor, D_effective;// upsampling_factor*D gives the effective number of samples
     INT ret_code = SUCCESS;
-- 
2.43.0


From 9a47e9c31510c260f9abcd8202435d554cd87c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:07 +0000
Subject: [PATCH 07/35] fix: detect unknown discretizations (a comparison with
 NAN is never true)

---
 src/fnft_nsev_inverse.c                    | 2 +-
 src/private/fnft__akns_scatter.c           | 2 +-
 src/private/fnft__kdv_discretization.c     | 6 +++---
 src/private/fnft__manakov_discretization.c | 6 +++---
 src/private/fnft__nse_discretization.c     | 6 +++---
 5 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/fnft_nsev_inverse.c b/src/fnft_nsev_inverse.c
index f677c86..6310863 100644
--- a/src/fnft_nsev_inverse.c
+++ b/src/fnft_nsev_inverse.c
@@ -651,7 +651,7 @@ static INT transfer_matrix_from_B_of_tau(
     INT ret_code = SUCCESS;
     UINT i;
     const REAL degree1step = nse_discretization_degree(opts_ptr->discretization);
-    if (degree1step == NAN)
+    if (degree1step == 0)
         return E_INVALID_ARGUMENT(discretization);
     COMPLEX * const b_coeffs = transfer_matrix + 2*(deg+1) + 1;
     const REAL eps_t = (T[1] - T[0])/(D - 1);
diff --git a/src/private/fnft__akns_scatter.c b/src/private/fnft__akns_scatter.c
index 396db69..76248b1 100644
--- a/src/private/fnft__akns_scatter.c
+++ b/src/private/fnft__akns_scatter.c
@@ -460,7 +460,7 @@ INT akns_scatter_bound_states(UINT const D,
     if (upsampling_factor == 0)
         return E_INVALID_ARGUMENT(discretization);
     REAL const boundary_coeff = akns_discretization_boundary_coeff(discretization);
-    if (boundary_coeff == NAN)
+    if (boundary_coeff != boundary_coeff) // NaN
         return E_INVALID_ARGUMENT(>discretization);
     if (D%upsampling_factor != 0)
         return E_ASSERTION_FAILED;
diff --git a/src/private/fnft__kdv_discretization.c b/src/private/fnft__kdv_discretization.c
index 64e9ae1..3c47028 100644
--- a/src/private/fnft__kdv_discretization.c
+++ b/src/private/fnft__kdv_discretization.c
@@ -272,7 +272,7 @@ INT fnft__kdv_discretization_phase_factor_rho(const REAL eps_t, const REAL T1,
 {
     REAL boundary_coeff;
     boundary_coeff = kdv_discretization_boundary_coeff(kdv_discretization);
-    if (boundary_coeff == NAN)
+    if (boundary_coeff != boundary_coeff) // NaN
         return E_INVALID_ARGUMENT(kdv_discretization);
     *phase_factor_rho = -2.0*(T1 + eps_t*boundary_coeff);
     return SUCCESS;
@@ -288,7 +288,7 @@ INT fnft__kdv_discretization_phase_factor_a(const REAL eps_t, const UINT D, REAL
 {
     REAL boundary_coeff;
     boundary_coeff = kdv_discretization_boundary_coeff(kdv_discretization);
-    if (boundary_coeff == NAN)
+    if (boundary_coeff != boundary_coeff) // NaN
         return E_INVALID_ARGUMENT(kdv_discretization);
 
     switch (kdv_discretization) {
@@ -373,7 +373,7 @@ INT fnft__kdv_discretization_phase_factor_b(const REAL eps_t, const UINT D, REAL
 {
     REAL boundary_coeff;
     boundary_coeff = kdv_discretization_boundary_coeff(kdv_discretization);
-    if (boundary_coeff == NAN)
+    if (boundary_coeff != boundary_coeff) // NaN
         return E_INVALID_ARGUMENT(kdv_discretization);
 
     switch (kdv_discretization) {
diff --git a/src/private/fnft__manakov_discretization.c b/src/private/fnft__manakov_discretization.c
index ca07500..4abee4a 100644
--- a/src/private/fnft__manakov_discretization.c
+++ b/src/private/fnft__manakov_discretization.c
@@ -307,7 +307,7 @@ INT fnft__manakov_discretization_phase_factor_rho(const REAL eps_t, const REAL T
 {
     REAL boundary_coeff;
     boundary_coeff = manakov_discretization_boundary_coeff(discretization);
-    if (boundary_coeff == NAN)
+    if (boundary_coeff != boundary_coeff) // NaN
         return E_INVALID_ARGUMENT(discretization);
 
     switch (discretization) {
@@ -350,7 +350,7 @@ INT fnft__manakov_discretization_phase_factor_a(const REAL eps_t, const UINT D,
 {
     REAL boundary_coeff;
     boundary_coeff = manakov_discretization_boundary_coeff(discretization);
-    if (boundary_coeff == NAN)
+    if (boundary_coeff != boundary_coeff) // NaN
         return E_INVALID_ARGUMENT(discretization);
 
     switch (discretization) {
@@ -396,7 +396,7 @@ INT fnft__manakov_discretization_phase_factor_b(const REAL eps_t, const UINT D,
 {
     REAL boundary_coeff;
     boundary_coeff = manakov_discretization_boundary_coeff(discretization);
-    if (boundary_coeff == NAN)
+    if (boundary_coeff != boundary_coeff) // NaN
         return E_INVALID_ARGUMENT(discretization);
     UINT degree1step = 0;
     switch (discretization) {
diff --git a/src/private/fnft__nse_discretization.c b/src/private/fnft__nse_discretization.c
index 4db9e57..cb3e113 100644
--- a/src/private/fnft__nse_discretization.c
+++ b/src/private/fnft__nse_discretization.c
@@ -245,7 +245,7 @@ INT fnft__nse_discretization_phase_factor_rho(const REAL eps_t, const REAL T1,
 {
     REAL boundary_coeff;
     boundary_coeff = nse_discretization_boundary_coeff(nse_discretization);
-    if (boundary_coeff == NAN)
+    if (boundary_coeff != boundary_coeff) // NaN
         return E_INVALID_ARGUMENT(nse_discretization);
     if (nse_discretization == nse_discretization_2SPLIT2A ||
         nse_discretization == nse_discretization_2SPLIT2_MODAL) {
@@ -269,7 +269,7 @@ INT fnft__nse_discretization_phase_factor_a(const REAL eps_t, const UINT D, REAL
 {
     REAL boundary_coeff;
     boundary_coeff = nse_discretization_boundary_coeff(nse_discretization);
-    if (boundary_coeff == NAN)
+    if (boundary_coeff != boundary_coeff) // NaN
         return E_INVALID_ARGUMENT(nse_discretization);
 
     switch (nse_discretization) {
@@ -326,7 +326,7 @@ INT fnft__nse_discretization_phase_factor_b(const REAL eps_t, const UINT D, REAL
 {
     REAL boundary_coeff;
     boundary_coeff = nse_discretization_boundary_coeff(nse_discretization);
-    if (boundary_coeff == NAN)
+    if (boundary_coeff != boundary_coeff) // NaN
         return E_INVALID_ARGUMENT(nse_discretization);
 
     UINT degree1step = 0;
-- 
2.43.0


From d1c528348e2eeb8fa3f7a4509e351074f27bb68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:38 +0000
Subject: [PATCH 08/35] fix: nsev: Richardson extrapolation with NULL
 arguments, residues and on error paths

---
 src/fnft_nsev.c | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index 41b0275..5212e9d 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -263,10 +263,12 @@ INT fnft_nsev(
         ds_type_opt = opts->discspec_type;
         if (ds_type_opt == nsev_dstype_RESIDUES){
             opts->discspec_type = nsev_dstype_BOTH;
-            normconsts_or_residues_reserve = malloc(*K_ptr*2 * sizeof(COMPLEX));
-            if (normconsts_or_residues_reserve == NULL) {
-                ret_code = E_NOMEM;
-                goto leave_fun;
+            if (bound_states != NULL && normconsts_or_residues != NULL) {
+                normconsts_or_residues_reserve = malloc(*K_ptr*2 * sizeof(COMPLEX));
+                if (normconsts_or_residues_reserve == NULL) {
+                    ret_code = E_NOMEM;
+                    goto leave_fun;
+                }
             }
         }
     }
@@ -319,7 +321,7 @@ INT fnft_nsev(
         opts->bound_state_localization = nsev_bsloc_SUBSAMPLE_AND_REFINE;
     } else {
         ret_code = fnft_nsev_base(D_effective, q_preprocessed, r_preprocessed, T, M, contspec, XI, K_ptr,
-                    bound_states, normconsts_or_residues, kappa, opts);
+                    bound_states, normconsts_or_residues_reserve, kappa, opts);
         CHECK_RETCODE(ret_code, leave_fun);
     }
 
@@ -384,10 +386,10 @@ INT fnft_nsev(
         // required for obtaining a second approximation of the spectrum
         // which will be used for Richardson extrapolation.
         Dsub = (UINT) CEIL(D/2);
-        if (qsub_preprocessed != NULL)
-            free(qsub_preprocessed);
-        if (rsub_preprocessed != NULL)
-            free(rsub_preprocessed);
+        free(qsub_preprocessed);
+        qsub_preprocessed = NULL;
+        free(rsub_preprocessed);
+        rsub_preprocessed = NULL;
         ret_code = nse_discretization_preprocess_signal(D, q, eps_t, kappa, &Dsub, &qsub_preprocessed, &rsub_preprocessed,
                 first_last_index, opts->discretization);
         CHECK_RETCODE(ret_code, leave_fun);
@@ -409,8 +411,8 @@ INT fnft_nsev(
         // Richardson extrapolation of the continuous spectrum
         REAL const scl_num = POW(eps_t_sub/eps_t,method_order);
         REAL const scl_den = scl_num - 1.0;
-        REAL const dxi = (XI[1]-XI[0])/(M-1);
         if (contspec != NULL && M > 0){
+            REAL const dxi = (XI[1]-XI[0])/(M-1);
             for (i=0; i<M; i++){
                 if (FABS(XI[0]+dxi*i) < 0.9*PI/(2.0*eps_t_sub)){
                     for (j=0; j<contspec_len; j+=M)
@@ -437,7 +439,8 @@ INT fnft_nsev(
                 }
                 if (loc < K_sub){
                     bound_states[i] = (scl_num*bound_states[i] - bound_states_sub[loc])/scl_den;
-                    if (ds_type_opt == nsev_dstype_RESIDUES || ds_type_opt == nsev_dstype_BOTH){
+                    if (normconsts_or_residues_reserve != NULL &&
+                            (ds_type_opt == nsev_dstype_RESIDUES || ds_type_opt == nsev_dstype_BOTH)){
                         // Computing aprimes from residues and norming constants
                         normconsts_or_residues_reserve[K+i] = normconsts_or_residues_reserve[i]/normconsts_or_residues_reserve[K+i];
                         normconsts_or_residues_sub[K_sub+loc] = normconsts_or_residues_sub[loc]/normconsts_or_residues_sub[K_sub+loc];
@@ -448,11 +451,10 @@ INT fnft_nsev(
                     }
                 }
             }
-            if (ds_type_opt == nsev_dstype_RESIDUES)
-                memcpy(normconsts_or_residues,normconsts_or_residues_reserve+K,K* sizeof(COMPLEX));
-            else if(ds_type_opt == nsev_dstype_BOTH)
-                memcpy(normconsts_or_residues,normconsts_or_residues_reserve,2*K* sizeof(COMPLEX));
         }
+        // Copy the residues to the user-provided array
+        if (normconsts_or_residues_reserve != normconsts_or_residues)
+            memcpy(normconsts_or_residues,normconsts_or_residues_reserve+*K_ptr,*K_ptr * sizeof(COMPLEX));
     }
 
     leave_fun:
-- 
2.43.0


From 0fc62186c8e33978832e5613facfd8378adf385b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:53 +0000
Subject: [PATCH 09/35] fix: nsev: free memory on all error paths

---
 src/fnft_nsev.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index 5212e9d..6c0701f 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -828,7 +828,7 @@ static inline INT nsev_compute_contspec(
     // Allocate memory for transfer matrix values
     H11_vals = malloc(2*M * sizeof(COMPLEX));
     if (H11_vals == NULL){
-        return E_NOMEM;
+        ret_code = E_NOMEM;
         goto leave_fun;}
     H21_vals = H11_vals + M;
 
@@ -894,7 +894,7 @@ static inline INT nsev_compute_contspec(
 
             for (i = 0; i < M; i++) {
                 if (H11_vals[i] == 0.0){
-                    return E_DIV_BY_ZERO;
+                    ret_code = E_DIV_BY_ZERO;
                     goto leave_fun;
                 }
                 result[i] = H21_vals[i] * CEXP(I*xi[i]*phase_factor_rho) / H11_vals[i];
@@ -1006,13 +1006,17 @@ static inline INT nsev_compute_normconsts_or_residues(
             memcpy(normconsts_or_residues + offset,
                     normconsts_or_residues,
                     offset*sizeof(COMPLEX));
-        } else
-            return E_INVALID_ARGUMENT(opts->discspec_type);
+        } else {
+            ret_code = E_INVALID_ARGUMENT(opts->discspec_type);
+            goto leave_fun;
+        }
 
         // Divide norming constants by derivatives to get residues
         for (i = 0; i < K; i++) {
-            if (aprime_vals[i] == 0.0)
-                return E_DIV_BY_ZERO;
+            if (aprime_vals[i] == 0.0) {
+                ret_code = E_DIV_BY_ZERO;
+                goto leave_fun;
+            }
             normconsts_or_residues[offset + i] /= aprime_vals[i];
             if (Ws != NULL) // normalization is on
                 normconsts_or_residues[offset + i] /= POW(2, Ws[i]);
-- 
2.43.0


From 5e42fd40549e8e4c47301e2714cf2ad4a5d21465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:11 +0000
Subject: [PATCH 10/35] fix: kdvv: Richardson extrapolation with NULL arguments
 and residues; XI is not needed without contspec

---
 src/fnft_kdvv.c | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index b0efdeb..d993a26 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -162,10 +162,10 @@ INT fnft_kdvv(
     if (contspec != NULL) {
         if (XI == NULL || XI[0] >= XI[1])
             return E_INVALID_ARGUMENT(XI);
-    }
-    for (i=0; i<M; i++){
-        if (XI[0]+i*(XI[1]-XI[0])/(M-1) == 0)
-            return E_INVALID_ARGUMENT(XI);
+        for (i=0; i<M; i++){
+            if (XI[0]+i*(XI[1]-XI[0])/(M-1) == 0)
+                return E_INVALID_ARGUMENT(XI);
+        }
     }
 
     // Work on a copy so that neither the options of the caller nor the default
@@ -219,10 +219,12 @@ INT fnft_kdvv(
         ds_type_opt = opts->discspec_type;
         if (ds_type_opt == kdvv_dstype_RESIDUES){
             opts->discspec_type = kdvv_dstype_BOTH;
-            normconsts_or_residues_reserve = malloc(*K_ptr*2 * sizeof(COMPLEX));
-            if (normconsts_or_residues_reserve == NULL) {
-                ret_code = E_NOMEM;
-                goto leave_fun;
+            if (bound_states != NULL && normconsts_or_residues != NULL) {
+                normconsts_or_residues_reserve = malloc(*K_ptr*2 * sizeof(COMPLEX));
+                if (normconsts_or_residues_reserve == NULL) {
+                    ret_code = E_NOMEM;
+                    goto leave_fun;
+                }
             }
         }
     }
@@ -240,7 +242,7 @@ INT fnft_kdvv(
     CHECK_RETCODE(ret_code, leave_fun);
 
     ret_code = fnft_kdvv_base(D_effective, q_preprocessed, r_preprocessed, T, M, contspec, XI, K_ptr,
-                bound_states, normconsts_or_residues, kappa, opts);
+                bound_states, normconsts_or_residues_reserve, kappa, opts);
     CHECK_RETCODE(ret_code, leave_fun);
 
     if (opts->richardson_extrapolation_flag == 1){
@@ -325,8 +327,8 @@ INT fnft_kdvv(
         // Richardson extrapolation of the continuous spectrum
         REAL const scl_num = POW(eps_t_sub/eps_t,method_order);
         REAL const scl_den = scl_num - 1.0;
-        REAL const dxi = (XI[1]-XI[0])/(M-1);
         if (contspec != NULL && M > 0){
+            REAL const dxi = (XI[1]-XI[0])/(M-1);
             for (i=0; i<M; i++){
                 if (FABS(XI[0]+dxi*i) < 0.9*PI/(2.0*eps_t_sub)){
                     for (j=0; j<contspec_len; j+=M)
@@ -353,7 +355,8 @@ INT fnft_kdvv(
                 }
                 if (loc < K_sub){
                     bound_states[i] = (scl_num*bound_states[i] - bound_states_sub[loc])/scl_den;
-                    if (ds_type_opt == kdvv_dstype_RESIDUES || ds_type_opt == kdvv_dstype_BOTH){
+                    if (normconsts_or_residues_reserve != NULL &&
+                            (ds_type_opt == kdvv_dstype_RESIDUES || ds_type_opt == kdvv_dstype_BOTH)){
                         // Computing aprimes from residues and norming constants
                         normconsts_or_residues_reserve[K+i] = normconsts_or_residues_reserve[i]/normconsts_or_residues_reserve[K+i];
                         normconsts_or_residues_sub[K_sub+loc] = normconsts_or_residues_sub[loc]/normconsts_or_residues_sub[K_sub+loc];
@@ -364,11 +367,10 @@ INT fnft_kdvv(
                     }
                 }
             }
-            if (ds_type_opt == kdvv_dstype_RESIDUES)
-                memcpy(normconsts_or_residues,normconsts_or_residues_reserve+K,K* sizeof(COMPLEX));
-            else if(ds_type_opt == kdvv_dstype_BOTH)
-                memcpy(normconsts_or_residues,normconsts_or_residues_reserve,2*K* sizeof(COMPLEX));
         }
+        // Copy the residues to the user-provided array
+        if (normconsts_or_residues_reserve != normconsts_or_residues)
+            memcpy(normconsts_or_residues,normconsts_or_residues_reserve+*K_ptr,*K_ptr * sizeof(COMPLEX));
     }
 
     leave_fun:
-- 
2.43.0


From 1b70bbd029304d7071c919ef2819a6961c25a8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:21 +0000
Subject: [PATCH 11/35] fix: kdvv: free memory on all error paths

---
 src/fnft_kdvv.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index d993a26..4a0f1d2 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -748,7 +748,7 @@ static inline INT kdvv_compute_contspec(
     // Allocate memory for transfer matrix values
     H11_vals = malloc(4*M * sizeof(COMPLEX));
     if (H11_vals == NULL){
-        return E_NOMEM;
+        ret_code = E_NOMEM;
         goto leave_fun;}
     COMPLEX * const H12_vals = H11_vals + M;
     COMPLEX * const H21_vals = H12_vals + M;
@@ -853,7 +853,7 @@ static inline INT kdvv_compute_contspec(
 
             for (i = 0; i < M; i++) {
                 if (H11_vals[i] == 0.0){
-                    return E_DIV_BY_ZERO;
+                    ret_code = E_DIV_BY_ZERO;
                     goto leave_fun;
                 }
                 result[i] = H21_vals[i] * CEXP(I*xi[i]*phase_factor_rho) / H11_vals[i];
@@ -957,13 +957,17 @@ static inline INT kdvv_compute_normconsts_or_residues(
             memcpy(normconsts_or_residues + offset,
                     normconsts_or_residues,
                     offset*sizeof(complex double));
-        } else
-            return E_INVALID_ARGUMENT(opts->discspec_type);
+        } else {
+            ret_code = E_INVALID_ARGUMENT(opts->discspec_type);
+            goto leave_fun;
+        }
 
         // Divide norming constants by derivatives to get residues
         for (i = 0; i < K; i++) {
-            if (aprime_vals[i] == 0.0)
-                return E_DIV_BY_ZERO;
+            if (aprime_vals[i] == 0.0) {
+                ret_code = E_DIV_BY_ZERO;
+                goto leave_fun;
+            }
             normconsts_or_residues[offset + i] /= aprime_vals[i];
             if (Ws != NULL) // if normalization is on
                 normconsts_or_residues[offset + i] /= POW(2, Ws[i]);
-- 
2.43.0


From 3fc79e9a5f55708854b00bc0744d0b6e07dbfb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:51 +0000
Subject: [PATCH 12/35] fix: manakovv: free memory exactly once on all error
 paths

---
 src/fnft_manakovv.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index 277011d..0f67ffa 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -292,10 +292,10 @@ INT fnft_manakovv(
 		// required for obtaining a second approximation of the spectrum
 		// which will be used for Richardson extrapolation.
 		Dsub = (UINT)CEIL(D / 2);
-        if (q1sub_preprocessed != NULL)
-            free(q1sub_preprocessed);
-        if (q2sub_preprocessed != NULL)
-            free(q2sub_preprocessed);
+        free(q1sub_preprocessed);
+        q1sub_preprocessed = NULL;
+        free(q2sub_preprocessed);
+        q2sub_preprocessed = NULL;
 		ret_code = manakov_discretization_preprocess_signal(D, q1, q2, eps_t, &Dsub, &q1sub_preprocessed, &q2sub_preprocessed,
 			first_last_index, opts->discretization);
 		CHECK_RETCODE(ret_code, leave_fun);
@@ -558,7 +558,7 @@ static inline INT manakovv_compute_contspec(
 	// Allocate memory for transfer matrix values
 	H11_vals = malloc(3 * M * sizeof(COMPLEX));
 	if (H11_vals == NULL) {
-		return E_NOMEM;
+		ret_code = E_NOMEM;
 		goto leave_fun;
 	}
 	H21_vals = H11_vals + M;
@@ -625,7 +625,7 @@ static inline INT manakovv_compute_contspec(
 
 		for (i = 0; i < M; i++) {
 			if (H11_vals[i] == 0.0) {
-				return E_DIV_BY_ZERO;
+				ret_code = E_DIV_BY_ZERO;
 				goto leave_fun;
 			}
 			result[i] = H21_vals[i] * CEXP(I * xi[i] * phase_factor_rho) / H11_vals[i];
-- 
2.43.0


From 9980d8744cc8d7ad2a4668c8741f84559ce76fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:51 +0000
Subject: [PATCH 13/35] fix: manakovv: Richardson extrapolation with NULL
 arguments

---
 src/fnft_manakovv.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index 0f67ffa..1c9eec6 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -205,10 +205,12 @@ INT fnft_manakovv(
 		ds_type_opt = opts->discspec_type;
 		if (ds_type_opt == manakovv_dstype_RESIDUES) {
 			opts->discspec_type = manakovv_dstype_BOTH;
-			normconsts_or_residues_reserve = malloc(*K_ptr * 2 * sizeof(COMPLEX));
-			if (normconsts_or_residues_reserve == NULL) {
-				ret_code = E_NOMEM;
-				goto leave_fun;
+			if (bound_states != NULL && normconsts_or_residues != NULL) {
+				normconsts_or_residues_reserve = malloc(*K_ptr * 2 * sizeof(COMPLEX));
+				if (normconsts_or_residues_reserve == NULL) {
+					ret_code = E_NOMEM;
+					goto leave_fun;
+				}
 			}
 		}
 	}
@@ -316,8 +318,8 @@ INT fnft_manakovv(
 		// Richardson extrapolation of the continuous spectrum
 		REAL const scl_num = POW(eps_t_sub / eps_t, method_order);
 		REAL const scl_den = scl_num - 1.0;
-		REAL const dxi = (XI[1] - XI[0]) / (M - 1);
 		if (contspec != NULL && M > 0) {
+			REAL const dxi = (XI[1] - XI[0]) / (M - 1);
 			for (i = 0; i < M; i++) {
 				if (FABS(XI[0] + dxi * i) < 0.9 * PI / (2.0 * eps_t_sub)) {
 					for (j = 0; j < contspec_len; j += M)
@@ -333,8 +335,7 @@ leave_fun:
     free(q1sub_preprocessed);
 	free(q2sub_preprocessed);
 	free(contspec_sub);
-	if (normconsts_or_residues_reserve != normconsts_or_residues)
-		free(normconsts_or_residues_reserve);
+	free(normconsts_or_residues_reserve);
 	return ret_code;
 }
 
-- 
2.43.0


From b6df3a93336cfbf82369620f85b7ec3422d6fec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:51 +0000
Subject: [PATCH 14/35] fix: manakovv: compute the bound states once and always
 set *K_ptr

---
 src/fnft_manakovv.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index 1c9eec6..41d84db 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -228,10 +228,6 @@ INT fnft_manakovv(
 	CHECK_RETCODE(ret_code, leave_fun);
 
 	if (contspec != NULL){
-		ret_code = fnft_manakovv_base(D*upsampling_factor, q1_preprocessed, q2_preprocessed, T, M, NULL, XI, K_ptr,
-			bound_states, kappa, opts);
-		CHECK_RETCODE(ret_code, leave_fun);
-
 		ret_code = fnft_manakovv_base(D*upsampling_factor, q1_preprocessed, q2_preprocessed, T, M, contspec, XI, K_ptr,
 			NULL, kappa, opts);
 		CHECK_RETCODE(ret_code, leave_fun);
@@ -254,6 +250,8 @@ INT fnft_manakovv(
 		ret_code = fnft_manakovv_base(Dsub*upsampling_factor, q1sub_preprocessed, q2sub_preprocessed, T, M, NULL, XI, K_ptr,
 			bound_states, kappa, opts);
 		CHECK_RETCODE(ret_code, leave_fun);
+	} else if (K_ptr != NULL) {
+		*K_ptr = 0;
 	}
 
 	if (opts->richardson_extrapolation_flag == 1) {
-- 
2.43.0


From 0bf4f580a956cf688f5da4e39afdd4cc1e3fbfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:19 +0000
Subject: [PATCH 15/35] fix: nsev_inverse: free memory on all error paths

---
 src/fnft_nsev_inverse.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fnft_nsev_inverse.c b/src/fnft_nsev_inverse.c
index 6310863..4c8619c 100644
--- a/src/fnft_nsev_inverse.c
+++ b/src/fnft_nsev_inverse.c
@@ -901,8 +901,10 @@ static INT add_discrete_spectrum(
             q[n] = qn;
         }
     }
-    else
-        return E_INVALID_ARGUMENT(opts_ptr->contspec_inversion_method);
+    else {
+        ret_code = E_INVALID_ARGUMENT(opts_ptr->contspec_inversion_method);
+        goto leave_fun;
+    }
 
     leave_fun:
         free(t);
-- 
2.43.0


From 9584bbfdd7c72b779a8a815b054db13d3690b4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:19 +0000
Subject: [PATCH 16/35] fix: nsev_inverse: do not put arrays of user-controlled
 size on the stack

---
 src/fnft_nsev_inverse.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/fnft_nsev_inverse.c b/src/fnft_nsev_inverse.c
index 4c8619c..ca752d7 100644
--- a/src/fnft_nsev_inverse.c
+++ b/src/fnft_nsev_inverse.c
@@ -704,6 +704,7 @@ static INT add_discrete_spectrum(
     COMPLEX * phi = NULL;
     COMPLEX * psi = NULL;
     COMPLEX * r = NULL;
+    COMPLEX * buf = NULL;
     INT * Ws = NULL;
     UINT i,j;
     UINT zc_point = 0; //index of zero-crossing of time
@@ -716,9 +717,10 @@ static INT add_discrete_spectrum(
     bnd_states_conj = malloc(K * sizeof(COMPLEX));
     bnd_states_diff = malloc(K * sizeof(COMPLEX));
     acoeff_cs = malloc(3*K * sizeof(COMPLEX));
+    buf = malloc(2*K * sizeof(COMPLEX)); // on the heap because K can be large
     if (t == NULL || bnd_states == NULL ||
             bnd_states_conj == NULL || bnd_states_diff == NULL ||
-            norm_consts == NULL || acoeff_cs == NULL) {
+            norm_consts == NULL || acoeff_cs == NULL || buf == NULL) {
         ret_code = E_NOMEM;
         goto leave_fun;
     }
@@ -810,7 +812,8 @@ static INT add_discrete_spectrum(
     if (contspec_flag == 0 &&
             opts_ptr->contspec_inversion_method != fnft_nsev_inverse_csmethod_USE_SEED_POTENTIAL_INSTEAD){
 
-        COMPLEX qt, rho, rhok[K], rhoc, f;
+        COMPLEX qt, rho, rhoc, f;
+        COMPLEX * const rhok = buf;
         UINT n;
         for (n = zc_point; n < D; n++){
             qt = 0.0;
@@ -872,7 +875,9 @@ static INT add_discrete_spectrum(
 
         ret_code = compute_eigenfunctions(K, bnd_states, D, q, T, phi, psi);
         CHECK_RETCODE(ret_code, leave_fun);
-        COMPLEX S1[K], S2[K], phi1, phi2, psi1, psi2, beta, qn;
+        COMPLEX * const S1 = buf;
+        COMPLEX * const S2 = buf + K;
+        COMPLEX phi1, phi2, psi1, psi2, beta, qn;
         UINT n;
         for (n = 0; n < D; n++){
             qn = q[n];
@@ -915,6 +920,7 @@ static INT add_discrete_spectrum(
         free(bnd_states_diff);
         free(norm_consts);
         free(acoeff_cs);
+        free(buf);
         free(r);
         free(Ws);
         return ret_code;
-- 
2.43.0


From a7e1aaab0a3d252a80ba99e03ef6b910d2bc127a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:28 +0000
Subject: [PATCH 17/35] fix: nsev_inverse_XI: do not write results after a
 subroutine failed

---
 src/fnft_nsev_inverse.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fnft_nsev_inverse.c b/src/fnft_nsev_inverse.c
index ca752d7..099ae84 100644
--- a/src/fnft_nsev_inverse.c
+++ b/src/fnft_nsev_inverse.c
@@ -60,8 +60,11 @@ INT fnft_nsev_inverse_XI(const UINT D, REAL const * const T,
     XIC[0] = CEXP(2.0*FNFT_PI*I * (M/2 + 1)/M);
     XIC[1] = -1.0;
     ret_code = nse_discretization_z_to_lambda(2, eps_t, XIC, discretization);
+    CHECK_RETCODE(ret_code, leave_fun);
     XI[0] = CREAL(XIC[0]);
     XI[1] = CREAL(XIC[1]);
+
+leave_fun:
     return ret_code;
 }
 
-- 
2.43.0


From f6432e46184a742665bfa8da860d344d4aec0a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:58 +0000
Subject: [PATCH 18/35] fix: akns_discretization_preprocess_signal: free memory
 on all error paths

---
 src/private/fnft__akns_discretization.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/private/fnft__akns_discretization.c b/src/private/fnft__akns_discretization.c
index f758f9a..ec89ea5 100644
--- a/src/private/fnft__akns_discretization.c
+++ b/src/private/fnft__akns_discretization.c
@@ -434,6 +434,8 @@ INT fnft__akns_discretization_preprocess_signal(UINT const D,
     COMPLEX *q_1 = NULL;
     COMPLEX *q_2 = NULL;
     COMPLEX *q_3 = NULL;
+    COMPLEX *q_preprocessed = NULL;
+    COMPLEX *r_preprocessed = NULL;
 
     COMPLEX *qr_weights = NULL;
     COMPLEX *eps_t_weights = NULL;
@@ -471,8 +473,8 @@ INT fnft__akns_discretization_preprocess_signal(UINT const D,
         goto release_mem;
     }
     D_effective = Dsub * upsampling_factor;
-    COMPLEX * const q_preprocessed = malloc(D_effective * sizeof(COMPLEX));
-    COMPLEX * const r_preprocessed = malloc(D_effective * sizeof(COMPLEX));
+    q_preprocessed = malloc(D_effective * sizeof(COMPLEX));
+    r_preprocessed = malloc(D_effective * sizeof(COMPLEX));
     if (q_preprocessed == NULL || r_preprocessed == NULL) {
         ret_code = E_NOMEM;
         goto release_mem;
@@ -666,6 +668,10 @@ INT fnft__akns_discretization_preprocess_signal(UINT const D,
     *Dsub_ptr = Dsub;
 
     release_mem:
+        if (ret_code != SUCCESS) {
+            free(q_preprocessed);
+            free(r_preprocessed);
+        }
         free(q_1);
         free(q_2);
         free(q_3);
-- 
2.43.0


From a7d6acf0dc507a8c1fa4822a6c5c6149e8298684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:58 +0000
Subject: [PATCH 19/35] fix: manakov_discretization_preprocess_signal: check
 all return codes and free memory on error paths

---
 src/private/fnft__manakov_discretization.c | 26 ++++++++++++++++------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/private/fnft__manakov_discretization.c b/src/private/fnft__manakov_discretization.c
index 4abee4a..3ee703a 100644
--- a/src/private/fnft__manakov_discretization.c
+++ b/src/private/fnft__manakov_discretization.c
@@ -113,6 +113,8 @@ INT manakov_discretization_preprocess_signal(const UINT D, COMPLEX const * const
         UINT * const first_last_index,  manakov_discretization_t discretization){
 
     UINT isub, i, D_effective;
+    COMPLEX *q1_preprocessed = NULL;
+    COMPLEX *q2_preprocessed = NULL;
     COMPLEX *q1_c1 = NULL;
     COMPLEX *q1_c2 = NULL;
     COMPLEX *q2_c1 = NULL;
@@ -156,15 +158,17 @@ INT manakov_discretization_preprocess_signal(const UINT D, COMPLEX const * const
         goto release_mem;
     }
     D_effective = Dsub*upsampling_factor;
-    COMPLEX * const q1_preprocessed = malloc(D_effective * sizeof(COMPLEX));
-    COMPLEX * const q2_preprocessed = malloc(D_effective * sizeof(COMPLEX));
+    q1_preprocessed = malloc(D_effective * sizeof(COMPLEX));
+    q2_preprocessed = malloc(D_effective * sizeof(COMPLEX));
     q1_c1 = malloc(Dsub*sizeof(COMPLEX));
     q2_c1 = malloc(Dsub*sizeof(COMPLEX));
     q1_c2 = malloc(Dsub*sizeof(COMPLEX));
     q2_c2 = malloc(Dsub*sizeof(COMPLEX));
     q1_sub = malloc(Dsub * sizeof(COMPLEX));
 	q2_sub = malloc(Dsub * sizeof(COMPLEX));
-    if (q1_preprocessed == NULL || q2_preprocessed == NULL) {
+    if (q1_preprocessed == NULL || q2_preprocessed == NULL
+        || q1_c1 == NULL || q2_c1 == NULL || q1_c2 == NULL || q2_c2 == NULL
+        || q1_sub == NULL || q2_sub == NULL) {
         ret_code = E_NOMEM;
         goto release_mem;
     }
@@ -200,10 +204,14 @@ INT manakov_discretization_preprocess_signal(const UINT D, COMPLEX const * const
         // Getting non-equidistant samples. qci has sample points at T0+(n+ci)*eps_t,
 		// c1 = 0.5-sqrt(3)/6, c2 = 0.5+sqrt(3)/6
 		// Getting new samples:
-		misc_resample(Dsub, (eps_t/nskip_per_step), q1_sub, (0.5 - SQRT(3) / 6) * (eps_t/nskip_per_step), q1_c1);
-		misc_resample(Dsub, (eps_t/nskip_per_step), q1_sub, (0.5 + SQRT(3) / 6) * (eps_t/nskip_per_step), q1_c2);
-		misc_resample(Dsub, (eps_t/nskip_per_step), q2_sub, (0.5 - SQRT(3) / 6) * (eps_t/nskip_per_step), q2_c1);
-		misc_resample(Dsub, (eps_t/nskip_per_step), q2_sub, (0.5 + SQRT(3) / 6) * (eps_t/nskip_per_step), q2_c2);
+		ret_code = misc_resample(Dsub, (eps_t/nskip_per_step), q1_sub, (0.5 - SQRT(3) / 6) * (eps_t/nskip_per_step), q1_c1);
+		CHECK_RETCODE(ret_code, release_mem);
+		ret_code = misc_resample(Dsub, (eps_t/nskip_per_step), q1_sub, (0.5 + SQRT(3) / 6) * (eps_t/nskip_per_step), q1_c2);
+		CHECK_RETCODE(ret_code, release_mem);
+		ret_code = misc_resample(Dsub, (eps_t/nskip_per_step), q2_sub, (0.5 - SQRT(3) / 6) * (eps_t/nskip_per_step), q2_c1);
+		CHECK_RETCODE(ret_code, release_mem);
+		ret_code = misc_resample(Dsub, (eps_t/nskip_per_step), q2_sub, (0.5 + SQRT(3) / 6) * (eps_t/nskip_per_step), q2_c2);
+		CHECK_RETCODE(ret_code, release_mem);
 
 		for (i = 0; i < Dsub; i++) {
 			q1_preprocessed[2 * i] = a1 * q1_c1[i] + a2 * q1_c2[i];
@@ -226,6 +234,10 @@ INT manakov_discretization_preprocess_signal(const UINT D, COMPLEX const * const
     *Dsub_ptr = Dsub;
 
     release_mem:
+        if (ret_code != SUCCESS) {
+            free(q1_preprocessed);
+            free(q2_preprocessed);
+        }
         free(q1_c1);
         free(q1_c2);
         free(q2_c1);
-- 
2.43.0


From 99a7ac1406593203659e505a1ec6a6d09dd83c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:13 +0000
Subject: [PATCH 20/35] fix: akns_scatter_bound_states: check allocation of
 WPSI, initialize the first scaling factors

---
 src/private/fnft__akns_scatter.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/private/fnft__akns_scatter.c b/src/private/fnft__akns_scatter.c
index 76248b1..bf69707 100644
--- a/src/private/fnft__akns_scatter.c
+++ b/src/private/fnft__akns_scatter.c
@@ -496,7 +496,10 @@ INT akns_scatter_bound_states(UINT const D,
         WPHI = malloc((D_given + 1)*sizeof(COMPLEX));
         CHECK_NOMEM(WPHI, ret_code, leave_fun);
         WPSI = malloc((D_given + 1)*sizeof(COMPLEX));
-        CHECK_NOMEM(WPHI, ret_code, leave_fun);
+        CHECK_NOMEM(WPSI, ret_code, leave_fun);
+        // The initial conditions of PHI and PSI are not scaled
+        WPHI[0] = 0;
+        WPSI[D_given] = 0;
     }
 
     // Define stepsize constants that are often needed
-- 
2.43.0


From 4105370237d2d65e6bcdb91503e36267fd004861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:35 +0000
Subject: [PATCH 21/35] fix: kdv_fscatter: check return code of
 kdv_discretization_vanilla_flag

---
 src/private/fnft__kdv_fscatter.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/private/fnft__kdv_fscatter.c b/src/private/fnft__kdv_fscatter.c
index 647d654..9982d55 100644
--- a/src/private/fnft__kdv_fscatter.c
+++ b/src/private/fnft__kdv_fscatter.c
@@ -66,7 +66,8 @@ INT kdv_fscatter(const UINT D, COMPLEX const * const q, COMPLEX const * const r,
     CHECK_RETCODE(ret_code, leave_fun);
 
     UINT vanilla_flag;
-    kdv_discretization_vanilla_flag(&vanilla_flag, discretization);
+    ret_code = kdv_discretization_vanilla_flag(&vanilla_flag, discretization);
+    CHECK_RETCODE(ret_code, leave_fun);
     if(vanilla_flag) {
         ret_code = akns_fscatter(D, q, r, eps_t, result, deg_ptr, W_ptr, akns_discretization);
         CHECK_RETCODE(ret_code, leave_fun);
-- 
2.43.0


From 8dbfd91935fa9bde4410f348c0335633f2a3ae28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:35 +0000
Subject: [PATCH 22/35] fix: manakov_discretization_method_order: add missing
 discretizations BO and CF4_2

---
 src/private/fnft__manakov_discretization.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/private/fnft__manakov_discretization.c b/src/private/fnft__manakov_discretization.c
index 3ee703a..84d8c35 100644
--- a/src/private/fnft__manakov_discretization.c
+++ b/src/private/fnft__manakov_discretization.c
@@ -91,6 +91,7 @@ UINT fnft__manakov_discretization_method_order(manakov_discretization_t discreti
         case manakov_discretization_2SPLIT4B:
         case manakov_discretization_2SPLIT4A:
         case manakov_discretization_2SPLIT6B:
+        case manakov_discretization_BO:
             return 2;
         case manakov_discretization_4SPLIT4A:
         case manakov_discretization_4SPLIT4B:
@@ -98,6 +99,7 @@ UINT fnft__manakov_discretization_method_order(manakov_discretization_t discreti
         case manakov_discretization_FTES4_4A:
         case manakov_discretization_FTES4_4B:
 		case manakov_discretization_FTES4_suzuki:
+        case manakov_discretization_CF4_2:
             return 4;
 
         default: // discretization not implemented for manakov
-- 
2.43.0


From 231c2931c9629324abb4d25ae41874df0bb10cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:52 +0000
Subject: [PATCH 23/35] fix: poly_fmult, poly_fmult2x2, poly_fmult3x3: return
 the correct result if there is only one factor

---
 src/private/fnft__poly_fmult.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/private/fnft__poly_fmult.c b/src/private/fnft__poly_fmult.c
index 830a8ee..c0880bb 100644
--- a/src/private/fnft__poly_fmult.c
+++ b/src/private/fnft__poly_fmult.c
@@ -147,7 +147,7 @@ INT fnft__poly_fmult(UINT * const d, UINT n, COMPLEX * const p,
     fft_wrapper_plan_t plan_inv = fft_wrapper_safe_plan_init();
     COMPLEX *buf0 = NULL, *buf1 = NULL, *buf2 = NULL;
     INT W = 0;
-    INT ret_code;
+    INT ret_code = SUCCESS;
 
     // Pad with z^deg if n is not a power of two
     const UINT n_excess = misc_nextpowerof2(n) - n;
@@ -613,7 +613,7 @@ INT fnft__poly_fmult2x2(UINT * const d, UINT n, COMPLEX * const p,
     fft_wrapper_plan_t plan_inv = fft_wrapper_safe_plan_init();
     COMPLEX *buf0 = NULL, *buf1 = NULL, *buf2 = NULL;
     INT W = 0;
-    INT ret_code;
+    INT ret_code = SUCCESS;
 
     // Setup pointers to the individual polynomials in p
     deg = *d;
@@ -678,6 +678,10 @@ INT fnft__poly_fmult2x2(UINT * const d, UINT n, COMPLEX * const p,
 
     const UINT p_stride = n*(deg + 1);
 
+    // There is nothing to multiply if there is only one matrix
+    if (n == 1)
+        memmove(result, p, 4*(deg+1)*sizeof(COMPLEX));
+
     // Main loop, n is the current number of polynomials, deg is their degree
     while (n >= 2) {
 
@@ -783,7 +787,7 @@ INT fnft__poly_fmult3x3(UINT * const d, UINT n, COMPLEX * const p,
     fft_wrapper_plan_t plan_inv = fft_wrapper_safe_plan_init();
     COMPLEX *buf0 = NULL, *buf1 = NULL, *buf2 = NULL;
     INT W = 0;
-    INT ret_code;
+    INT ret_code = SUCCESS;
 
     // Setup pointers to the individual polynomials in p
     deg = *d;
@@ -889,6 +893,10 @@ INT fnft__poly_fmult3x3(UINT * const d, UINT n, COMPLEX * const p,
 
     const UINT p_stride = n*(deg + 1);
 
+    // There is nothing to multiply if there is only one matrix
+    if (n == 1)
+        memmove(result, p, 9*(deg+1)*sizeof(COMPLEX));
+
     // Main loop, n is the current number of polynomials, deg is their degree
     while (n >= 2) {
 
-- 
2.43.0


From 5c0a4cd3a5f1c3ae0d9660f0e720aba7e513d272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:33 +0000
Subject: [PATCH 24/35] fix: kiss_fft: report failed allocations of temporary
 buffers

---
 include/3rd_party/kiss_fft/kiss_fft.h |  5 ++--
 include/private/fnft__fft_wrapper.h   |  3 ++-
 src/3rd_party/kiss_fft/kiss_fft.c     | 39 ++++++++++++++++++---------
 3 files changed, 31 insertions(+), 16 deletions(-)

diff --git a/include/3rd_party/kiss_fft/kiss_fft.h b/include/3rd_party/kiss_fft/kiss_fft.h
index 86c187b..affc5c1 100644
--- a/include/3rd_party/kiss_fft/kiss_fft.h
+++ b/include/3rd_party/kiss_fft/kiss_fft.h
@@ -91,12 +91,13 @@ kiss_fft_cfg kiss_fft_alloc(FNFT_UINT nfft,FNFT_UINT inverse_fft,void * mem,FNFT
  * Note that each element is complex and can be accessed like
     f[k].r and f[k].i
  * */
-void kiss_fft(kiss_fft_cfg cfg,const kiss_fft_cpx *fin,kiss_fft_cpx *fout);
+/* Returns 0 on success and -1 if out of memory. */
+int kiss_fft(kiss_fft_cfg cfg,const kiss_fft_cpx *fin,kiss_fft_cpx *fout);
 
 /*
  A more generic version of the above function. It reads its input from every Nth sample.
  * */
-void kiss_fft_stride(kiss_fft_cfg cfg,const kiss_fft_cpx *fin,kiss_fft_cpx *fout,FNFT_UINT fin_stride);
+int kiss_fft_stride(kiss_fft_cfg cfg,const kiss_fft_cpx *fin,kiss_fft_cpx *fout,FNFT_UINT fin_stride);
 
 /* If kiss_fft_alloc allocated a buffer, it is one contiguous 
    buffer and can be simply free()d when no longer needed*/
diff --git a/include/private/fnft__fft_wrapper.h b/include/private/fnft__fft_wrapper.h
index ca32228..2a95982 100644
--- a/include/private/fnft__fft_wrapper.h
+++ b/include/private/fnft__fft_wrapper.h
@@ -134,7 +134,8 @@ static inline FNFT_INT fnft__fft_wrapper_execute_plan(
 #ifdef HAVE_FFTW3
     fftw_execute_dft((fftw_plan)plan, (fftw_complex *)in, (fftw_complex *)out);
 #else    
-    kiss_fft((kiss_fft_cfg)plan, (kiss_fft_cpx *)in, (kiss_fft_cpx *)out);
+    if (kiss_fft((kiss_fft_cfg)plan, (kiss_fft_cpx *)in, (kiss_fft_cpx *)out) != 0)
+        return FNFT__E_NOMEM;
 #endif
 
     return FNFT_SUCCESS;
diff --git a/src/3rd_party/kiss_fft/kiss_fft.c b/src/3rd_party/kiss_fft/kiss_fft.c
index f051be3..b379416 100644
--- a/src/3rd_party/kiss_fft/kiss_fft.c
+++ b/src/3rd_party/kiss_fft/kiss_fft.c
@@ -198,7 +198,7 @@ static void kf_bfly5(
 }
 
 /* perform the butterfly for one stage of a mixed radix FFT */
-static void kf_bfly_generic(
+static int kf_bfly_generic(
         kiss_fft_cpx * Fout,
         const FNFT_UINT fstride,
         const kiss_fft_cfg st,
@@ -212,6 +212,8 @@ static void kf_bfly_generic(
     FNFT_UINT Norig = st->nfft;
 
     kiss_fft_cpx * scratch = (kiss_fft_cpx*)KISS_FFT_TMP_ALLOC(sizeof(kiss_fft_cpx)*p);
+    if (scratch == NULL)
+        return -1;
 
     for ( u=0; u<m; ++u ) {
         k=u;
@@ -235,10 +237,12 @@ static void kf_bfly_generic(
         }
     }
     KISS_FFT_TMP_FREE(scratch);
+    return 0;
 }
 
+/* returns 0 on success and -1 if out of memory */
 static
-void kf_work(
+int kf_work(
         kiss_fft_cpx * Fout,
         const kiss_fft_cpx * f,
         const FNFT_UINT fstride,
@@ -258,11 +262,14 @@ void kf_work(
     if (fstride==1 && p<=5)
     {
         FNFT_UINT k;
+        int failed = 0;
 
         // execute the p different work units in different threads
-#       pragma omp parallel for
+#       pragma omp parallel for reduction(|:failed)
         for (k=0;k<p;++k) 
-            kf_work( Fout +k*m, f+ fstride*in_stride*k,fstride*p,in_stride,factors,st);
+            failed |= kf_work( Fout +k*m, f+ fstride*in_stride*k,fstride*p,in_stride,factors,st);
+        if (failed)
+            return -1;
         // all threads have joined by this point
 
         switch (p) {
@@ -270,9 +277,9 @@ void kf_work(
             case 3: kf_bfly3(Fout,fstride,st,m); break; 
             case 4: kf_bfly4(Fout,fstride,st,m); break;
             case 5: kf_bfly5(Fout,fstride,st,m); break; 
-            default: kf_bfly_generic(Fout,fstride,st,m,p); break;
+            default: return kf_bfly_generic(Fout,fstride,st,m,p);
         }
-        return;
+        return 0;
     }
 #endif
 
@@ -287,7 +294,8 @@ void kf_work(
             // DFT of size m*p performed by doing
             // p instances of smaller DFTs of size m, 
             // each one takes a decimated version of the input
-            kf_work( Fout , f, fstride*p, in_stride, factors,st);
+            if (kf_work( Fout , f, fstride*p, in_stride, factors,st) != 0)
+                return -1;
             f += fstride*in_stride;
         }while( (Fout += m) != Fout_end );
     }
@@ -300,8 +308,9 @@ void kf_work(
         case 3: kf_bfly3(Fout,fstride,st,m); break; 
         case 4: kf_bfly4(Fout,fstride,st,m); break;
         case 5: kf_bfly5(Fout,fstride,st,m); break; 
-        default: kf_bfly_generic(Fout,fstride,st,m,p); break;
+        default: return kf_bfly_generic(Fout,fstride,st,m,p);
     }
+    return 0;
 }
 
 /*  facbuf is populated by p1,m1,p2,m2, ...
@@ -371,23 +380,27 @@ kiss_fft_cfg kiss_fft_alloc(FNFT_UINT nfft,FNFT_UINT inverse_fft,void * mem,FNFT
 }
 
 
-void kiss_fft_stride(kiss_fft_cfg st,const kiss_fft_cpx *fin,kiss_fft_cpx *fout,FNFT_UINT in_stride)
+int kiss_fft_stride(kiss_fft_cfg st,const kiss_fft_cpx *fin,kiss_fft_cpx *fout,FNFT_UINT in_stride)
 {
     if (fin == fout) {
         //NOTE: this is not really an in-place FFT algorithm.
         //It just performs an out-of-place FFT into a temp buffer
         kiss_fft_cpx * tmpbuf = (kiss_fft_cpx*)KISS_FFT_TMP_ALLOC( sizeof(kiss_fft_cpx)*st->nfft);
-        kf_work(tmpbuf,fin,1,in_stride, st->factors,st);
+        int ret;
+        if (tmpbuf == NULL)
+            return -1;
+        ret = kf_work(tmpbuf,fin,1,in_stride, st->factors,st);
         memcpy(fout,tmpbuf,sizeof(kiss_fft_cpx)*st->nfft);
         KISS_FFT_TMP_FREE(tmpbuf);
+        return ret;
     }else{
-        kf_work( fout, fin, 1,in_stride, st->factors,st );
+        return kf_work( fout, fin, 1,in_stride, st->factors,st );
     }
 }
 
-void kiss_fft(kiss_fft_cfg cfg,const kiss_fft_cpx *fin,kiss_fft_cpx *fout)
+int kiss_fft(kiss_fft_cfg cfg,const kiss_fft_cpx *fin,kiss_fft_cpx *fout)
 {
-    kiss_fft_stride(cfg,fin,fout,1);
+    return kiss_fft_stride(cfg,fin,fout,1);
 }
 
 
-- 
2.43.0


From 6df0745c622b23577717991062835a4a2ba9b232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:33 +0000
Subject: [PATCH 25/35] fix: fft_wrapper: announce failed assertion when FFTW
 is used

---
 include/private/fnft__fft_wrapper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/private/fnft__fft_wrapper.h b/include/private/fnft__fft_wrapper.h
index 2a95982..4f5cc96 100644
--- a/include/private/fnft__fft_wrapper.h
+++ b/include/private/fnft__fft_wrapper.h
@@ -98,7 +98,7 @@ static inline FNFT_INT fnft__fft_wrapper_create_plan(
     // Check if typecast to unsigned int is lossless
 #ifdef HAVE_FFTW3
     if (fft_length>INT_MAX) // overflow
-        return FNFT_EC_ASSERTION_FAILED;
+        return FNFT__E_ASSERTION_FAILED;
     *plan_ptr = fftw_plan_dft_1d((int) fft_length, in, out, is_inverse, FFTW_ESTIMATE);
 #else
     (void)in;
-- 
2.43.0


From bd38455c849a9a25001cf6fad1c4f5a9baa92b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:30 +0000
Subject: [PATCH 26/35] fix: poly_fmult2x2, poly_fmult3x3: handle a single
 factor before padding

---
 src/private/fnft__poly_fmult.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/private/fnft__poly_fmult.c b/src/private/fnft__poly_fmult.c
index c0880bb..4f82c38 100644
--- a/src/private/fnft__poly_fmult.c
+++ b/src/private/fnft__poly_fmult.c
@@ -615,6 +615,14 @@ INT fnft__poly_fmult2x2(UINT * const d, UINT n, COMPLEX * const p,
     INT W = 0;
     INT ret_code = SUCCESS;
 
+    // There is nothing to multiply if there is only one matrix
+    if (n == 1) {
+        memmove(result, p, 4*(*d + 1)*sizeof(COMPLEX));
+        if (W_ptr != NULL)
+            *W_ptr = 0;
+        return SUCCESS;
+    }
+
     // Setup pointers to the individual polynomials in p
     deg = *d;
     p11 = p;
@@ -678,10 +686,6 @@ INT fnft__poly_fmult2x2(UINT * const d, UINT n, COMPLEX * const p,
 
     const UINT p_stride = n*(deg + 1);
 
-    // There is nothing to multiply if there is only one matrix
-    if (n == 1)
-        memmove(result, p, 4*(deg+1)*sizeof(COMPLEX));
-
     // Main loop, n is the current number of polynomials, deg is their degree
     while (n >= 2) {
 
@@ -789,6 +793,14 @@ INT fnft__poly_fmult3x3(UINT * const d, UINT n, COMPLEX * const p,
     INT W = 0;
     INT ret_code = SUCCESS;
 
+    // There is nothing to multiply if there is only one matrix
+    if (n == 1) {
+        memmove(result, p, 9*(*d + 1)*sizeof(COMPLEX));
+        if (W_ptr != NULL)
+            *W_ptr = 0;
+        return SUCCESS;
+    }
+
     // Setup pointers to the individual polynomials in p
     deg = *d;
     p11 = p;
@@ -893,10 +905,6 @@ INT fnft__poly_fmult3x3(UINT * const d, UINT n, COMPLEX * const p,
 
     const UINT p_stride = n*(deg + 1);
 
-    // There is nothing to multiply if there is only one matrix
-    if (n == 1)
-        memmove(result, p, 9*(deg+1)*sizeof(COMPLEX));
-
     // Main loop, n is the current number of polynomials, deg is their degree
     while (n >= 2) {
 
-- 
2.43.0


From 0208e22169eb4c4757be1087137b5bcc18c1dd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:16 +0000
Subject: [PATCH 27/35] fix: finvscatter: initialize the return code for a
 polynomial of degree one

---
 src/private/fnft__akns_finvscatter_q_from_r.inc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/private/fnft__akns_finvscatter_q_from_r.inc b/src/private/fnft__akns_finvscatter_q_from_r.inc
index 2c1f1ae..e31869a 100644
--- a/src/private/fnft__akns_finvscatter_q_from_r.inc
+++ b/src/private/fnft__akns_finvscatter_q_from_r.inc
@@ -80,7 +80,7 @@ static INT finvscatter_recurse(
     COMPLEX * const buf1,
     COMPLEX * const buf2)
 {
-    INT ret_code;
+    INT ret_code = SUCCESS;
     INT i = 0;
 
     while (i >= 0) { // repeat until level zero of the recursion is finished
-- 
2.43.0


From 768606c57955473220d564495dcf3506ff013a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:27 +0000
Subject: [PATCH 28/35] fix: fnft_version: reject suffix==NULL like the other
 NULL pointers

---
 src/fnft_version.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fnft_version.c b/src/fnft_version.c
index 04b1c04..bcc5f72 100644
--- a/src/fnft_version.c
+++ b/src/fnft_version.c
@@ -28,7 +28,7 @@ INT fnft_version(UINT * const major,
                  UINT * const patch,
                  char suffix[FNFT_VERSION_SUFFIX_MAXLEN+1])
 {
-    if (major == NULL || minor == NULL || patch == NULL)
+    if (major == NULL || minor == NULL || patch == NULL || suffix == NULL)
         return E_INVALID_ARGUMENT(NULL pointer passed.);
     *major = FNFT_VERSION_MAJOR;
     *minor = FNFT_VERSION_MINOR;
-- 
2.43.0


From 640929ba3fff2489ac844ee4f5253167b072c0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:19 +0000
Subject: [PATCH 29/35] fix: poly_roots_fasteigen: return an error code if
 memory allocation fails in the eigenvalue solver

---
 src/3rd_party/eiscor/z_poly_roots_modified.f90 | 13 ++++++++++---
 src/private/fnft__poly_roots_fasteigen.c       |  4 +++-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/3rd_party/eiscor/z_poly_roots_modified.f90 b/src/3rd_party/eiscor/z_poly_roots_modified.f90
index 4d7d2bf..582044b 100644
--- a/src/3rd_party/eiscor/z_poly_roots_modified.f90
+++ b/src/3rd_party/eiscor/z_poly_roots_modified.f90
@@ -3,6 +3,7 @@
 ! Changes:
 !   - Residuals are not computed
 !   - The roots are no longer printed (forgotten printf?)
+!   - INFO is set if memory allocation fails (instead of ending the program)
 !   - Always use QR since it is as good as QZ -> https://arxiv.org/pdf/1611.02435.pdf
 !
 !!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!
@@ -34,6 +35,7 @@
 !
 !  INFO            INTEGER
 !                    INFO = 1 implies companion QR algorithm failed
+!                    INFO = 2 implies that memory allocation failed
 !
 !!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!
 subroutine z_poly_roots_modified(N,COEFFS,ROOTS,INFO)
@@ -47,7 +49,7 @@ subroutine z_poly_roots_modified(N,COEFFS,ROOTS,INFO)
   complex(8), intent(inout) :: ROOTS(N)
 
   ! compute variables
-  integer :: ii
+  integer :: ii, ierr
   real(8) :: scl
   logical, allocatable :: P(:)
   integer, allocatable :: ITS(:)
@@ -85,8 +87,13 @@ subroutine z_poly_roots_modified(N,COEFFS,ROOTS,INFO)
   end interface
 
   ! allocate memory
-  allocate(P(N-2),ITS(N-1),Q(3*(N-1)),D1(2*(N+1)),C1(3*N),B1(3*N))
-  allocate(V(N),W(N),D2(2*(N+1)),C2(3*N),B2(3*N))
+  allocate(P(N-2),ITS(N-1),Q(3*(N-1)),D1(2*(N+1)),C1(3*N),B1(3*N),stat=ierr)
+  if (ierr.EQ.0) allocate(V(N),W(N),D2(2*(N+1)),C2(3*N),B2(3*N),stat=ierr)
+  if (ierr.NE.0) then
+     ! arrays that have been allocated are deallocated automatically
+     INFO = 2
+     return
+  end if
 
   ! initialize INFO
   INFO = 0
diff --git a/src/private/fnft__poly_roots_fasteigen.c b/src/private/fnft__poly_roots_fasteigen.c
index 9aa2683..17a2add 100644
--- a/src/private/fnft__poly_roots_fasteigen.c
+++ b/src/private/fnft__poly_roots_fasteigen.c
@@ -43,6 +43,8 @@ INT poly_roots_fasteigen(const UINT deg,
 
     if (info == 0)
         return SUCCESS;
-    else
+    else if (info == 2) {
+        return E_NOMEM;
+    } else
         return E_SUBROUTINE(FNFT_EC_OTHER);
 }
-- 
2.43.0


From 2ef3ef41bf06ea27f4431e84cb9cb5cac27864d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:20 +0000
Subject: [PATCH 30/35] fix: document the defaults that fnft_nsep and fnft_kdvv
 actually use

---
 include/fnft_kdvv.h | 4 ++--
 include/fnft_nsep.h | 9 +++++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/fnft_kdvv.h b/include/fnft_kdvv.h
index a9aa2b3..bfea704 100644
--- a/include/fnft_kdvv.h
+++ b/include/fnft_kdvv.h
@@ -180,14 +180,14 @@ typedef struct {
  * default settings.
  *
  * @returns A \link fnft_kdvv_opts_t \endlink object with the following options.\n
- *  bound_state_filtering = fnft_kdvv_bsfilt_FULL\n
- *  bound_state_localization = fnft_kdvv_bsloc_SUBSAMPLE_AND_REFINE\n
+ *  bound_state_localization = fnft_kdvv_bsloc_GRIDSEARCH_AND_REFINE\n
  *  niter = 10\n
  *  discspec_type = fnft_kdvv_dstype_NORMING_CONSTANTS\n
  *  contspec_type = fnft_kdvv_cstype_REFLECTION_COEFFICIENT\n
  *  normalization_flag = 1\n
  *  discretization = fnft_kdv_discretization_2SPLIT4B\n
  *  richardson_extrapolation_flag = 0\n
+ *  grid_spacing = 0\n
  *
   * @ingroup fnft
  */
diff --git a/include/fnft_nsep.h b/include/fnft_nsep.h
index 292121a..8432014 100644
--- a/include/fnft_nsep.h
+++ b/include/fnft_nsep.h
@@ -161,9 +161,9 @@ typedef struct {
  *
  * @ingroup fnft
  * @returns A \link fnft_nsep_opts_t \endlink object with the following options.\n
- *  localization = fnft_nsep_loc_MIXED\n
+ *  localization = fnft_nsep_loc_SUBSAMPLE_AND_REFINE\n
  *  filtering = fnft_nsep_filt_AUTO\n
- *  max_evals = 20\n
+ *  max_evals = 50\n
  *  bounding_box[0] = -FNFT_INF\n
  *  bounding_box[1] = FNFT_INF\n
  *  bounding_box[2] = -FNFT_INF\n
@@ -171,8 +171,9 @@ typedef struct {
  *  normalization_flag = 1\n
  *  discretization = fnft_nse_discretization_2SPLIT2A\n
  *  floquet_range = {-1, 1}\n
- *  floquet_nvals = 2\n
- *  Dsub = 0
+ *  points_per_spine = 2\n
+ *  Dsub = 0\n
+ *  tol = -1
  */
 fnft_nsep_opts_t fnft_nsep_default_opts();
 
-- 
2.43.0


From b40d69f29bc84535f23943022abffc5f0f1f856e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:59 +0000
Subject: [PATCH 31/35] fix: fnft_nsev: carry out niter Newton iterations
 instead of half as many

---
 src/fnft_nsev.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index 6c0701f..2223e87 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -1094,7 +1094,6 @@ static inline INT nsev_refine_bound_states_newton(
             // We don't have to scale a and a' by 2^W because that factor cancels.
             error = a_val / aprime_val;
             bound_states[i] -= error;
-            iter++;
             if (CIMAG(bound_states[i]) > bounding_box[3]
                     || CREAL(bound_states[i]) > bounding_box[1]
                     || CREAL(bound_states[i]) < bounding_box[0]
-- 
2.43.0


From 5019a6df4ec36c3f3099efd28a5e7e33b8f987f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:06 +0000
Subject: [PATCH 32/35] fix: mex_fnft_kdvv accepted a string (or another
 non-double input) as signal and read it as doubles

---
 matlab/mex_fnft_kdvv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matlab/mex_fnft_kdvv.c b/matlab/mex_fnft_kdvv.c
index 0751803..af5e2fc 100644
--- a/matlab/mex_fnft_kdvv.c
+++ b/matlab/mex_fnft_kdvv.c
@@ -59,7 +59,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
     if (nrhs < 3)
         mexErrMsgTxt("At least three inputs expected.");
-    if ( mxIsComplex(prhs[0]) || mxGetM(prhs[0]) != 1)
+    if ( !mxIsDouble(prhs[0]) || mxIsComplex(prhs[0]) || mxGetM(prhs[0]) != 1)
         mexErrMsgTxt("First input q should be a real row vector. Try passing complex(q).");
     if ( !mxIsDouble(prhs[1]) || mxGetM(prhs[1]) != 1 || mxGetN(prhs[1]) != 2 )
         mexErrMsgTxt("Second input T should be a double 1x2 vector.");
-- 
2.43.0


From 1f26f512f96bccb30237de5ff9b878c6824be31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:06 +0000
Subject: [PATCH 33/35] fix: mex_fnft_manakovv stored a second output although
 only one was requested

---
 matlab/mex_fnft_manakovv.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/matlab/mex_fnft_manakovv.c b/matlab/mex_fnft_manakovv.c
index b009fa9..fe06739 100644
--- a/matlab/mex_fnft_manakovv.c
+++ b/matlab/mex_fnft_manakovv.c
@@ -53,13 +53,10 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
     /* Check number of inputs to avoid computing results that have not been
     requested. We treat nlhs==0 like nlhs==1 because it that case, the result
-    will be stored in Matlabs ans variable. 
-    We do not need this as we are only calculating the contspec anyway
+    will be stored in Matlabs ans variable. */
+
     if (nlhs < 2)
         skip_bound_states_flag = 1;
-    if (nlhs < 3)
-        skip_normconsts_flag = 1;
-    */
     /* Check types and dimensions of the first five inputs: q1, q2, T, XI, kappa */
 
     if (nrhs < 5)
-- 
2.43.0


From 740e66ddccebfe44f50565b7cb05099ba9826eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:06 +0000
Subject: [PATCH 34/35] fix: mex_fnft_nsep stored a second output although only
 one was requested

---
 matlab/mex_fnft_nsep.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/matlab/mex_fnft_nsep.c b/matlab/mex_fnft_nsep.c
index cb35e5c..ece73ff 100644
--- a/matlab/mex_fnft_nsep.c
+++ b/matlab/mex_fnft_nsep.c
@@ -44,9 +44,6 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     fnft_nsep_opts_t opts;
     int ret_code;
 
-    /* To suppress unused parameter warning */
-    (void) nlhs;
-
     /* Check types and dimensions of the first three inputs: q, T, kappa */
     if (nrhs < 3)
         mexErrMsgTxt("At least three inputs expected.");
@@ -292,20 +289,23 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
     /* Allocate memory for the outputs */
     plhs[0] = mxCreateDoubleMatrix(1, K, mxCOMPLEX);
-    plhs[1] = mxCreateDoubleMatrix(1, M, mxCOMPLEX);
+    if (nlhs >= 2)
+        plhs[1] = mxCreateDoubleMatrix(1, M, mxCOMPLEX);
 
     /* Convert outputs */
     msr = mxGetPr(plhs[0]);
     msi = mxGetPi(plhs[0]);
-    asr = mxGetPr(plhs[1]);
-    asi = mxGetPi(plhs[1]);
     for (i=0; i<K; i++) {
         msr[i] = creal(main_spec[i]);
         msi[i] = cimag(main_spec[i]);
     }
-    for (i=0; i<M; i++) {
-        asr[i] = creal(aux_spec[i]);
-        asi[i] = cimag(aux_spec[i]);
+    if (nlhs >= 2) {
+        asr = mxGetPr(plhs[1]);
+        asi = mxGetPi(plhs[1]);
+        for (i=0; i<M; i++) {
+            asr[i] = creal(aux_spec[i]);
+            asi[i] = cimag(aux_spec[i]);
+        }
     }
 
     /* Free memory that is no longer needed */
-- 
2.43.0


From b5a3c6bcd4c52a552d4cb1c0a8347de7b7f3e183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:06 +0000
Subject: [PATCH 35/35] fix: mex_fnft_nsep divided by zero if points_per_spine
 is zero and Newton localization is chosen

---
 matlab/mex_fnft_nsep.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matlab/mex_fnft_nsep.c b/matlab/mex_fnft_nsep.c
index ece73ff..fc523eb 100644
--- a/matlab/mex_fnft_nsep.c
+++ b/matlab/mex_fnft_nsep.c
@@ -258,7 +258,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
         main_spec = mxMalloc(K * sizeof(double complex));
         aux_spec = mxMalloc(M * sizeof(double complex));
     } else { /* Newton */
-        if (K%opts.points_per_spine != 0) {
+        if (opts.points_per_spine == 0 || K%opts.points_per_spine != 0) {
             snprintf(msg, sizeof msg, "The lengths of the first initial guess vector for Newton localization has to be a multiple of points_per_spine (=%u).",
                 (unsigned int)opts.points_per_spine);
             goto on_error;
-- 
2.43.0

