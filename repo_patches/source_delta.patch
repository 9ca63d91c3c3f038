From 488526d0ecab776f7ad51c2122a698c57d87b7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:51 +0000
Subject: [PATCH 01/42] fix: MoL SIMD update loop had an unbalanced brace and a
 nonexistent header path

The loop header is a plain string, so the doubled brace was emitted literally.
The intrinsics header is copied to intrinsics/simd_intrinsics.h.
---
 nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py | 4 ++--
 nrpy/infrastructures/superB/MoL.py               | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py b/nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py
index 4bdbff9..7f9b492 100644
--- a/nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py
+++ b/nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py
@@ -296,7 +296,7 @@ def single_RK_substep_input_symbolic(
             "enable_simd in MoL is not properly supported -- MoL update loops are not properly bounds checked."
         )
         return_str += "#pragma omp parallel for\n"
-        return_str += "for(int i=0;i<Nxx_plus_2NGHOSTS0*Nxx_plus_2NGHOSTS1*Nxx_plus_2NGHOSTS2*NUM_EVOL_GFS;i+=simd_width) {{\n"
+        return_str += "for(int i=0;i<Nxx_plus_2NGHOSTS0*Nxx_plus_2NGHOSTS1*Nxx_plus_2NGHOSTS2*NUM_EVOL_GFS;i+=simd_width) {\n"
     else:
         return_str += "LOOP_ALL_GFS_GPS(i) {\n"
 
@@ -430,7 +430,7 @@ def register_CFunction_MoL_step_forward_in_time(
     """
     includes = ["BHaH_defines.h", "BHaH_function_prototypes.h"]
     if enable_simd:
-        includes += [os.path.join("SIMD", "SIMD_intrinsics.h")]
+        includes += [os.path.join("intrinsics", "simd_intrinsics.h")]
 
     desc = f'Method of Lines (MoL) for "{MoL_method}" method: Step forward one full timestep.\n'
     cfunc_type = "void"
diff --git a/nrpy/infrastructures/superB/MoL.py b/nrpy/infrastructures/superB/MoL.py
index 502db8e..6c28e7c 100644
--- a/nrpy/infrastructures/superB/MoL.py
+++ b/nrpy/infrastructures/superB/MoL.py
@@ -131,7 +131,7 @@ switch (which_MOL_part) {
             "enable_simd in MoL is not properly supported -- MoL update loops are not properly bounds checked."
         )
         return_str += "#pragma omp parallel for\n"
-        return_str += "for(int i=0;i<Nxx_plus_2NGHOSTS0*Nxx_plus_2NGHOSTS1*Nxx_plus_2NGHOSTS2*NUM_EVOL_GFS;i+=simd_width) {{\n"
+        return_str += "for(int i=0;i<Nxx_plus_2NGHOSTS0*Nxx_plus_2NGHOSTS1*Nxx_plus_2NGHOSTS2*NUM_EVOL_GFS;i+=simd_width) {\n"
     else:
         return_str += "LOOP_ALL_GFS_GPS(i) {\n"
 
@@ -450,7 +450,7 @@ def register_CFunction_MoL_step_forward_in_time(
     """
     includes = ["BHaH_defines.h", "BHaH_function_prototypes.h"]
     if enable_simd:
-        includes += [os.path.join("SIMD", "SIMD_intrinsics.h")]
+        includes += [os.path.join("intrinsics", "simd_intrinsics.h")]
 
     desc = f'Method of Lines (MoL) for "{MoL_method}" method: Step forward one full timestep.\n'
     cfunc_type = "void"
-- 
2.43.0


From e80c81bda91c8a835049196c381aefdea7a3abe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:51 +0000
Subject: [PATCH 02/42] fix: superB Euler time step had no case label, so it
 was never executed

---
 nrpy/infrastructures/superB/MoL.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nrpy/infrastructures/superB/MoL.py b/nrpy/infrastructures/superB/MoL.py
index 6c28e7c..43b8c7b 100644
--- a/nrpy/infrastructures/superB/MoL.py
+++ b/nrpy/infrastructures/superB/MoL.py
@@ -698,6 +698,10 @@ REAL *restrict {y_n_gridfunctions} = {gf_prefix}{y_n_gridfunctions};
             if (
                 MoL_method == "Euler"
             ):  # Euler's method doesn't require any k_i, and gets its own unique algorithm
+                body += """
+          case RK_SUBSTEP_K1:
+          {
+"""
                 body += single_RK_substep_input_symbolic(
                     comment_block="// ***Euler timestepping only requires one RHS evaluation***",
                     substep_time_offset_dt=Butcher[0][0],
@@ -712,6 +716,9 @@ REAL *restrict {y_n_gridfunctions} = {gf_prefix}{y_n_gridfunctions};
                     gf_aliases=gf_aliases,
                     post_rhs_string=post_rhs_string,
                 )
+                body += """
+          break;
+          }"""
             else:
                 for s in range(num_steps):
                     # If we're on the first step (s=0), we use y_n gridfunction as input.
-- 
2.43.0


From 6b883346c027338d0b38ebcb5399881a3db37c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:27 +0000
Subject: [PATCH 03/42] fix: superB MoL skipped the boundary operation in
 non-diagonal and diagonal-RK3 substeps

---
 nrpy/infrastructures/superB/MoL.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nrpy/infrastructures/superB/MoL.py b/nrpy/infrastructures/superB/MoL.py
index 43b8c7b..9d4b66f 100644
--- a/nrpy/infrastructures/superB/MoL.py
+++ b/nrpy/infrastructures/superB/MoL.py
@@ -587,6 +587,7 @@ REAL *restrict {y_n_gridfunctions} = {gf_prefix}{y_n_gridfunctions};
                     + Butcher[3][2] * k2_or_y_nplus_a32_k2_gfs * dt,
                     Butcher[2][2] * k2_or_y_nplus_a32_k2_gfs * dt + y_n_gfs,
                 ],
+                post_rhs_bcs_str=post_rhs_bcs_str,
                 post_rhs_output_list=[
                     k2_or_y_nplus_a32_k2_gfs,
                     k1_or_y_nplus_a21_k1_or_y_nplus1_running_total_gfs,
@@ -683,6 +684,7 @@ REAL *restrict {y_n_gridfunctions} = {gf_prefix}{y_n_gridfunctions};
                     rhs_output_expr=rhs_output,
                     RK_lhs_list=[RK_lhs],
                     RK_rhs_list=[RK_rhs],
+                    post_rhs_bcs_str=post_rhs_bcs_str,
                     post_rhs_output_list=[post_rhs_output],
                     enable_simd=enable_simd,
                     gf_aliases=gf_aliases,
-- 
2.43.0


From b01e154badaf91595eb6b214feb578dfde07b70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:27 +0000
Subject: [PATCH 04/42] fix: superB MoL SIMD loop pragma did not start on its
 own line

---
 nrpy/infrastructures/superB/MoL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/superB/MoL.py b/nrpy/infrastructures/superB/MoL.py
index 9d4b66f..3ca5a04 100644
--- a/nrpy/infrastructures/superB/MoL.py
+++ b/nrpy/infrastructures/superB/MoL.py
@@ -130,7 +130,7 @@ switch (which_MOL_part) {
         warnings.warn(
             "enable_simd in MoL is not properly supported -- MoL update loops are not properly bounds checked."
         )
-        return_str += "#pragma omp parallel for\n"
+        return_str += "\n#pragma omp parallel for\n"
         return_str += "for(int i=0;i<Nxx_plus_2NGHOSTS0*Nxx_plus_2NGHOSTS1*Nxx_plus_2NGHOSTS2*NUM_EVOL_GFS;i+=simd_width) {\n"
     else:
         return_str += "LOOP_ALL_GFS_GPS(i) {\n"
-- 
2.43.0


From fee20db8c9e75280efcd254bc96d804719d8b372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:40 +0000
Subject: [PATCH 05/42] fix: superB timestepping.cpp destructor was unbalanced
 without CurviBCs

---
 nrpy/infrastructures/superB/timestepping_chare.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/superB/timestepping_chare.py b/nrpy/infrastructures/superB/timestepping_chare.py
index bb09298..00dd8ec 100644
--- a/nrpy/infrastructures/superB/timestepping_chare.py
+++ b/nrpy/infrastructures/superB/timestepping_chare.py
@@ -776,7 +776,8 @@ Timestepping::~Timestepping() {
     for (int i = 0; i < griddata_chare[grid].nonlocalinnerbcstruct.tot_num_dst_chares; i++) {
       free(griddata_chare[grid].nonlocalinnerbcstruct.globalidx3_srcpts_tosend[i]);
     }
-    free(griddata_chare[grid].nonlocalinnerbcstruct.globalidx3_srcpts_tosend);
+    free(griddata_chare[grid].nonlocalinnerbcstruct.globalidx3_srcpts_tosend);"""
+    file_output_str += r"""
   }
   free(griddata);
   free(griddata_chare);
-- 
2.43.0


From f29ecf69a04d0a43b5f111f197d1bb99c1e1f5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:40 +0000
Subject: [PATCH 06/42] fix: Cart_to_xx_and_nearest_i0i1i2 relative to the
 global grid center had an unmatched brace

---
 nrpy/infrastructures/BHaH/xx_tofrom_Cart.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/BHaH/xx_tofrom_Cart.py b/nrpy/infrastructures/BHaH/xx_tofrom_Cart.py
index 81395e8..3d57baa 100644
--- a/nrpy/infrastructures/BHaH/xx_tofrom_Cart.py
+++ b/nrpy/infrastructures/BHaH/xx_tofrom_Cart.py
@@ -64,7 +64,8 @@ def register_CFunction__Cart_to_xx_and_nearest_i0i1i2(
   Cartx -= Cart_originx;
   Carty -= Cart_originy;
   Cartz -= Cart_originz;
-  {
+"""
+    body += """  {
 """
     if "theta_adj" in CoordSystem:
         body += ccg.c_codegen(
-- 
2.43.0


From 1f9306523a186e1b3f764033e75a7167e86c6434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:43 +0000
Subject: [PATCH 07/42] fix: CarpetX rhs_eval with CAHD or SIMD+SSL emitted
 code that cannot compile

---
 .../CarpetX/general_relativity/rhs_eval.py    | 56 ++++++++++++++-----
 1 file changed, 41 insertions(+), 15 deletions(-)

diff --git a/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py b/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py
index cfadab8..a4b49e5 100644
--- a/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py
+++ b/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py
@@ -110,13 +110,6 @@ def register_CFunction_rhs_eval(
             body += f"""
   const CCTK_REAL *param_diss_strength CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("diss_strength", "{thorn_name}", NULL);
   const REAL_SIMD_ARRAY diss_strength CCTK_ATTRIBUTE_UNUSED = ConstSIMD(*param_diss_strength);
-"""
-        if enable_CAHD:
-            body += f"""
-  const CCTK_REAL *param_C_CAHD CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("C_CAHD", "{thorn_name}", NULL);
-  const REAL_SIMD_ARRAY C_CAHD CCTK_ATTRIBUTE_UNUSED = ConstSIMD(*param_C_CAHD);
-  // cahdprefactor = C_CAHD * sp.symbols("CFL_FACTOR") * sp.symbols("dsmin")
-  const REAL_SIMD_ARRAY cahdprefactor CCTK_ATTRIBUTE_UNUSED = MulSIMD(C_CAHD, MulSIMD(,));
 """
         if enable_SSL:
             body += f"""
@@ -124,7 +117,7 @@ def register_CFunction_rhs_eval(
     const CCTK_REAL *SSL_sigma CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("SSL_sigma", "{thorn_name}", NULL);
 
     const CCTK_REAL noSIMD_SSL_Gaussian_prefactor CCTK_ATTRIBUTE_UNUSED = *SSL_h * exp(-CCTK_TIME * CCTK_TIME / (2 * (*SSL_sigma) * (*SSL_sigma)));
-    const REAL_SIMD_ARRAY SSL_Gaussian_prefactor CCTK_ATTRIBUTE_UNUSED = ConstSIMD(*noSIMD_SSL_Gaussian_prefactor);
+    const REAL_SIMD_ARRAY SSL_Gaussian_prefactor CCTK_ATTRIBUTE_UNUSED = ConstSIMD(noSIMD_SSL_Gaussian_prefactor);
 """
     else:
         body += """  const CCTK_REAL invdxx0 CCTK_ATTRIBUTE_UNUSED = 1.0/CCTK_DELTA_SPACE(0);
@@ -133,11 +126,6 @@ def register_CFunction_rhs_eval(
   DECLARE_CCTK_PARAMETERS;
 
   #define UPWIND_ALG(UpwindVecU) UpwindVecU > 0.0 ? 1.0 : 0.0
-"""
-        if enable_CAHD:
-            body += """
-  // cahdprefactor = C_CAHD * sp.symbols("CFL_FACTOR") * sp.symbols("dsmin")
-  const CCTK_REAL cahdprefactor = C_CAHD * ;
 """
         if enable_SSL:
             body += """
@@ -259,9 +247,47 @@ def register_CFunction_rhs_eval(
             + ("_RbarDD_gridfunctions" if enable_RbarDD_gridfunctions else "")
             + ("_T4munu" if enable_T4munu else "")
         ]
-        _C_CAHD = par.register_CodeParameter(
-            "REAL", __name__, "C_CAHD", 0.15, commondata=True, add_to_parfile=True
+        _C_CAHD, _CFL_FACTOR__ignore_repeats_Carpet_timeref_factors = (
+            par.register_CodeParameters(
+                "REAL",
+                __name__,
+                [
+                    "C_CAHD",
+                    "CFL_FACTOR__ignore_repeats_Carpet_timeref_factors",
+                ],
+                [
+                    0.15,
+                    0.5,
+                ],
+                commondata=True,
+                add_to_parfile=True,
+            )
         )
+        body += """
+#ifndef MIN
+#define MIN(A, B) ( ((A) < (B)) ? (A) : (B) )
+#endif
+  // cahdprefactor = C_CAHD * sp.symbols("CFL_FACTOR") * sp.symbols("dsmin")
+  // Original prescription: -dt * (orig_C_H * dsmin / dt * CFL_FACTOR__ignore_repeats_Carpet_timeref_factors) * H / 4
+  // New prescription: cancel the dt's, set orig_C_H/4 = C_CAHD ->
+  // -C_CAHD * dsmin * CFL_FACTOR__ignore_repeats_Carpet_timeref_factors) * H ,
+  // where CFL_FACTOR is most typically 0.45 or 0.5, and C_CAHD = 0.15 = orig_C_H / 4 = 0.6 / 4
+  // Thus, New & Original prescriptions are the same, just with some redefinitions.
+  const CCTK_REAL dsmin CCTK_ATTRIBUTE_UNUSED = MIN(CCTK_DELTA_SPACE(0),MIN(CCTK_DELTA_SPACE(1),CCTK_DELTA_SPACE(2)));
+"""
+        if enable_simd:
+            body += f"""
+  const CCTK_REAL *param_CFL_FACTOR__ignore_repeats_Carpet_timeref_factors =
+  CCTK_ParameterGet("CFL_FACTOR__ignore_repeats_Carpet_timeref_factors", "{thorn_name}", NULL);
+  const CCTK_REAL *param_C_CAHD CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("C_CAHD", "{thorn_name}", NULL);
+  const CCTK_REAL cahdprefactor_NOSIMD = (*param_C_CAHD) * (*param_CFL_FACTOR__ignore_repeats_Carpet_timeref_factors) * dsmin;
+  const REAL_SIMD_ARRAY cahdprefactor CCTK_ATTRIBUTE_UNUSED = ConstSIMD(cahdprefactor_NOSIMD);
+"""
+        else:
+            body += """
+  const CCTK_REAL cahdprefactor CCTK_ATTRIBUTE_UNUSED = C_CAHD * CFL_FACTOR__ignore_repeats_Carpet_timeref_factors * dsmin;
+"""
+
         # Initialize CAHD_term assuming phi is the evolved conformal factor. CFL_FACTOR is defined in MoL.
         # CAHD_term = -C_CAHD * (sp.symbols("CFL_FACTOR") * sp.symbols("dsmin")) * Bcon.H
         # -> cahdprefactor = C_CAHD * sp.symbols("CFL_FACTOR") * sp.symbols("dsmin")
-- 
2.43.0


From d5990c520cf78d3c3547198aba4cd5f8c0689e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:00 +0000
Subject: [PATCH 08/42] fix: parameter-file parser could write past size_str,
 values[] and trimmed_value

---
 .../BHaH/cmdline_input_and_parfiles.py           | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
index 515a98a..7f938d2 100644
--- a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
+++ b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
@@ -249,6 +249,10 @@ static void parse_param(const char *param_str, char *param_name, int *array_size
   if (bracket_start != NULL) {
     // It's an array parameter
     size_t name_len = bracket_start - param_str;
+    if (name_len >= PARAM_SIZE) {
+      fprintf(stderr, "Error: Parameter name too long in %s.\n", param_str);
+      exit(1);
+    }
     strncpy(param_name, param_str, name_len);
     param_name[name_len] = '\0';
     const char *bracket_end = strchr(bracket_start + 1, ']');
@@ -258,6 +262,10 @@ static void parse_param(const char *param_str, char *param_name, int *array_size
     }
     char size_str[16];
     size_t size_len = bracket_end - bracket_start - 1;
+    if (size_len >= sizeof(size_str)) {
+      fprintf(stderr, "Error: Invalid array size in parameter %s.\n", param_name);
+      exit(1);
+    }
     strncpy(size_str, bracket_start + 1, size_len);
     size_str[size_len] = '\0';
     *array_size = atoi(size_str);
@@ -291,12 +299,12 @@ static void parse_value(const char *value_str, char values[][PARAM_SIZE], int *v
     char *saveptr;
     val_token = strtok_r(value_copy, ",", &saveptr);
     while (val_token != NULL) {
-      safe_copy(values[count], trim_space(val_token), PARAM_SIZE);
-      count++;
-      if (count > MAX_ARRAY_SIZE) {
+      if (count >= MAX_ARRAY_SIZE) {
         fprintf(stderr, "Error: Array size exceeds maximum allowed.\n");
         exit(1);
       }
+      safe_copy(values[count], trim_space(val_token), PARAM_SIZE);
+      count++;
       val_token = strtok_r(NULL, ",", &saveptr);
     }
     *value_count = count;
@@ -354,7 +362,7 @@ static void read_chararray(const char *value, char *result, const char *param_na
   size_t len = strlen(value);
   char trimmed_value[PARAM_SIZE];
   if (value[0] == '"' && value[len - 1] == '"') {
-    if (len - 2 >= size) {
+    if (len < 2 || len - 2 >= size || len - 2 >= PARAM_SIZE) {
       fprintf(stderr, "Error: Buffer overflow detected for %s.\n", param_name);
       exit(1);
     }
-- 
2.43.0


From c22f7e0a6c8a810f41ca76598e5ba135917b099e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:16 +0000
Subject: [PATCH 09/42] fix: boolean parameters listed in the parameter file
 were ignored by the parser

---
 .../BHaH/cmdline_input_and_parfiles.py                | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
index 7f938d2..2953281 100644
--- a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
+++ b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
@@ -134,7 +134,7 @@ static void print_usage() {{
 #define MAX_ARRAY_SIZE 100 // Adjust as needed
 
 // Parameter types
-typedef enum { PARAM_REAL, PARAM_INT, PARAM_CHARARRAY, PARAM_REAL_ARRAY, PARAM_INT_ARRAY } param_type;
+typedef enum { PARAM_REAL, PARAM_INT, PARAM_BOOL, PARAM_CHARARRAY, PARAM_REAL_ARRAY, PARAM_INT_ARRAY } param_type;
 
 // Parameter descriptor struct
 typedef struct {
@@ -180,6 +180,9 @@ param_descriptor param_table[] = {
             elif cparam_type == "REAL":
                 param_type = "PARAM_REAL"
                 found_REAL = True
+            elif cparam_type == "bool":
+                param_type = "PARAM_BOOL"
+                found_boolean = True
             elif "char" in cparam_type and "[" in cparam_type and "]" in cparam_type:
                 param_type = "PARAM_CHARARRAY"
                 buffer_size = int(cparam_type.split("[")[1].split("]")[0])
@@ -576,6 +579,12 @@ static void read_boolean(const char *value, bool *result, const char *param_name
                 f'            read_integer(values_array[0], &commondata->{param_name}, "{param_name}");\n'
                 f"        }}\n"
             )
+        elif param_type == "PARAM_BOOL":
+            assignment_code += (
+                f"        {prefix} (param_desc->index == {index}) {{\n"
+                f'            read_boolean(values_array[0], &commondata->{param_name}, "{param_name}");\n'
+                f"        }}\n"
+            )
         elif param_type == "PARAM_CHARARRAY":
             # buffer_size is used instead of array_size
             assignment_code += (
-- 
2.43.0


From 3e1003cab3f05d2b3a165bbcef1085fb0f01a7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:16 +0000
Subject: [PATCH 10/42] fix: parameter-file parser had a dangling else when no
 parameter is parsable

---
 nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
index 2953281..b41dead 100644
--- a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
+++ b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
@@ -611,11 +611,13 @@ static void read_boolean(const char *value, bool *result, const char *param_name
 
     # Add the assignment code and the else block
     body += assignment_code
-    body += r"""        else {
+    if assignment_code:
+        body += r"""        else {
             fprintf(stderr, "Error: Unknown parameter index for %s.\n", param_name);
             exit(1);
         }
-    }
+"""
+    body += r"""    }
 }
 
     // Handling options 3 and 4: Overwriting steerable parameters
-- 
2.43.0


From f5582e88859d2ed5111fc16c996c388704f28341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:16 +0000
Subject: [PATCH 11/42] fix: parameter-file parser rejected array values its
 own default parameter file contains

---
 nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
index b41dead..0504d0b 100644
--- a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
+++ b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
@@ -477,7 +477,7 @@ static void read_boolean(const char *value, bool *result, const char *param_name
 
   char line[LINE_SIZE];
   char param[PARAM_SIZE];
-  char value[PARAM_SIZE];
+  char value[LINE_SIZE]; // Array values may be longer than PARAM_SIZE
   int params_set[NUM_PARAMETERS] = {{0}}; // Track which parameters have been set.
 
   // Iterate through each line of the parameter file.
-- 
2.43.0


From e4fc77c67e6ba9d5131822fe5b6b92121881eb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:37 +0000
Subject: [PATCH 12/42] fix: NegFusedMulSubSIMD returned a*b - c instead of
 -a*b - c on SSE2 with FMA

---
 nrpy/helpers/simd_intrinsics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nrpy/helpers/simd_intrinsics.h b/nrpy/helpers/simd_intrinsics.h
index 5780cca..bd1f547 100644
--- a/nrpy/helpers/simd_intrinsics.h
+++ b/nrpy/helpers/simd_intrinsics.h
@@ -162,7 +162,7 @@
 #define FusedMulAddSIMD(a, b, c) _mm_fmadd_pd((a), (b), (c))
 #define FusedMulSubSIMD(a, b, c) _mm_fmsub_pd((a), (b), (c))
 #define NegFusedMulAddSIMD(a, b, c) _mm_sub_pd((c), _mm_mul_pd((a), (b)))                                   // c - a*b
-#define NegFusedMulSubSIMD(a, b, c) _mm_sub_pd((c), _mm_sub_pd((c), _mm_sub_pd(_mm_mul_pd((a), (b)), (c)))) // -a*b - c = c - (c + a*b + c)
+#define NegFusedMulSubSIMD(a, b, c) _mm_sub_pd((c), _mm_add_pd((c), _mm_add_pd(_mm_mul_pd((a), (b)), (c)))) // -a*b - c = c - (c + a*b + c)
 #else
 // Fused Multiply-Add/Subtract Operations without FMA
 #define FusedMulAddSIMD(a, b, c) _mm_add_pd(_mm_mul_pd((a), (b)), (c))    // a*b + c
-- 
2.43.0


From 7147404eed04a869beb0007ac8e652b82b96e9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:52 +0000
Subject: [PATCH 13/42] fix: declare the constant 1 used for negative
 half-integer powers in SIMD code

---
 nrpy/helpers/simd.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/nrpy/helpers/simd.py b/nrpy/helpers/simd.py
index 78606c9..1982ddf 100644
--- a/nrpy/helpers/simd.py
+++ b/nrpy/helpers/simd.py
@@ -322,6 +322,13 @@ def expr_convert_to_simd_intrins(
         # n == 0 case. Should never be called.
         return a
 
+    def Integer_1_symbol() -> Symbol:
+        # Helper Function: Return the symbol for 1, ensuring that it gets declared.
+        one = Symbol(prefix + "_Integer_1")
+        if sympify(1) not in map_rat_to_sym:
+            symbol_to_Rational_dict[one], map_rat_to_sym[sympify(1)] = S.One, one
+        return one
+
     def lookup_rational(
         arg: Union[Expr, Symbol, Rational, Basic]
     ) -> Union[Expr, Symbol, Rational, Basic]:
@@ -336,19 +343,20 @@ def expr_convert_to_simd_intrins(
         func = subtree.expr.func
         args = subtree.expr.args
         if func == Pow:
-            one = Symbol(prefix + "_Integer_1")
             exponent = lookup_rational(args[1])
             if exponent in (Rational(1, 2), 0.5):
                 subtree.expr = SqrtSIMD(args[0])
                 subtree.children.pop(1)
             elif exponent in (-Rational(1, 2), -0.5):
-                subtree.expr = DivSIMD(one, SqrtSIMD(args[0]))
+                subtree.expr = DivSIMD(Integer_1_symbol(), SqrtSIMD(args[0]))
                 tree.build(subtree)
             elif exponent in (-Rational(3, 2), -1.5):
-                subtree.expr = DivSIMD(one, SqrtSIMD(args[0]) * args[0])
+                subtree.expr = DivSIMD(Integer_1_symbol(), SqrtSIMD(args[0]) * args[0])
                 tree.build(subtree)
             elif exponent in (-Rational(5, 2), -2.5):
-                subtree.expr = DivSIMD(one, SqrtSIMD(args[0]) * args[0] * args[0])
+                subtree.expr = DivSIMD(
+                    Integer_1_symbol(), SqrtSIMD(args[0]) * args[0] * args[0]
+                )
                 tree.build(subtree)
             elif exponent == Rational(1, 3):
                 subtree.expr = CbrtSIMD(args[0])
-- 
2.43.0


From 956b3a7e4e234c3cc1c3a0af27ffeee76a0409e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:20 +0000
Subject: [PATCH 14/42] fix: declare the constant 1 that replaces even powers
 of the symbol for -1

---
 nrpy/helpers/cse_preprocess_postprocess.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nrpy/helpers/cse_preprocess_postprocess.py b/nrpy/helpers/cse_preprocess_postprocess.py
index 4f9eea6..4396aa1 100644
--- a/nrpy/helpers/cse_preprocess_postprocess.py
+++ b/nrpy/helpers/cse_preprocess_postprocess.py
@@ -218,6 +218,14 @@ def cse_preprocess(
                         subtree.expr = (
                             _One_ if sp.Integer(exponent) % 2 == 0 else _NegativeOne_
                         )
+                        if (
+                            subtree.expr == _One_
+                            and map_rat_to_sym.get(sp.S.One) is None
+                        ):
+                            symbol_to_Rational_dict[_One_], map_rat_to_sym[sp.S.One] = (
+                                sp.S.One,
+                                _One_,
+                            )
                         tree.build(subtree)
                         changed_expr = True
             if changed_expr:
-- 
2.43.0


From ca034f8782c7637e70f43257f78c10ec8582b550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:58 +0000
Subject: [PATCH 15/42] fix: apply postproc_substitution_dict to common
 subexpressions

c_codegen() assigned into the (symbol, expression) tuple of a common
subexpression, so any postproc_substitution_dict combined with CSE temporaries
failed with a TypeError.
---
 nrpy/c_codegen.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nrpy/c_codegen.py b/nrpy/c_codegen.py
index c464d6d..c597738 100644
--- a/nrpy/c_codegen.py
+++ b/nrpy/c_codegen.py
@@ -591,14 +591,15 @@ def c_codegen(
                     f"{full_type_string}{common_subexpression[0]} = {simd_expr};\n"
                 )
             else:
+                cse_expr = common_subexpression[1]
                 if CCGParams.postproc_substitution_dict:
-                    common_subexpression[1] = apply_substitution_dict(
-                        common_subexpression[1], CCGParams.postproc_substitution_dict
+                    cse_expr = apply_substitution_dict(
+                        cse_expr, CCGParams.postproc_substitution_dict
                     )
                 outstring += (
                     full_type_string
                     + sp.ccode(
-                        common_subexpression[1],
+                        cse_expr,
                         common_subexpression[0],
                         user_functions=custom_functions_for_SymPy_ccode[
                             CCGParams.fp_type
-- 
2.43.0


From d47380364b564fb122dd69bf65ddeebe64a9f56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:44 +0000
Subject: [PATCH 16/42] fix: ph_array was written by every thread in the psi4
 decomposition's parallel loop

---
 .../BHaH/general_relativity/BSSN_C_codegen_library.py         | 3 +--
 nrpy/infrastructures/superB/diagnostics.py                    | 4 ++--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/general_relativity/BSSN_C_codegen_library.py b/nrpy/infrastructures/BHaH/general_relativity/BSSN_C_codegen_library.py
index da906e7..8cb489a 100644
--- a/nrpy/infrastructures/BHaH/general_relativity/BSSN_C_codegen_library.py
+++ b/nrpy/infrastructures/BHaH/general_relativity/BSSN_C_codegen_library.py
@@ -968,13 +968,12 @@ static void lowlevel_decompose_psi4_into_swm2_modes(const int Nxx_plus_2NGHOSTS1
       }
 
       // Step 2.b: Compute psi_4 at this extraction radius and store to a local 2D array.
+      for(int i2=NGHOSTS;i2<Nxx_plus_2NGHOSTS2-NGHOSTS;i2++) ph_array[i2-NGHOSTS] = xx[2][i2];
 #pragma omp parallel for
       for(int i1=NGHOSTS;i1<Nxx_plus_2NGHOSTS1-NGHOSTS;i1++) {
         th_array[i1-NGHOSTS]    =     xx[1][i1];
         sinth_array[i1-NGHOSTS] = sin(xx[1][i1]);
         for(int i2=NGHOSTS;i2<Nxx_plus_2NGHOSTS2-NGHOSTS;i2++) {
-          ph_array[i2-NGHOSTS] = xx[2][i2];
-
           REAL sum_psi4r=0;
           REAL sum_psi4i=0;
           // Perform radial interpolation to get psi4 at desired extraction radius R_ext.
diff --git a/nrpy/infrastructures/superB/diagnostics.py b/nrpy/infrastructures/superB/diagnostics.py
index 8bb806e..c8a8502 100644
--- a/nrpy/infrastructures/superB/diagnostics.py
+++ b/nrpy/infrastructures/superB/diagnostics.py
@@ -457,13 +457,13 @@ static void lowlevel_decompose_psi4_into_swm2_modes(const int Nxx_plus_2NGHOSTS1
       }
 
       // Step 2.b: Compute psi_4 at this extraction radius and store to a local 2D array.
+      for (int i2 = NGHOSTS; i2 < Nxx_plus_2NGHOSTS2chare - NGHOSTS; i2++)
+        ph_array[i2 - NGHOSTS] = xx_chare[2][i2];
 #pragma omp parallel for
       for (int i1 = NGHOSTS; i1 < Nxx_plus_2NGHOSTS1chare - NGHOSTS; i1++) {
         th_array[i1 - NGHOSTS] = xx_chare[1][i1];
         sinth_array[i1 - NGHOSTS] = sin(xx_chare[1][i1]);
         for (int i2 = NGHOSTS; i2 < Nxx_plus_2NGHOSTS2chare - NGHOSTS; i2++) {
-          ph_array[i2 - NGHOSTS] = xx_chare[2][i2];
-
           REAL sum_psi4r = 0;
           REAL sum_psi4i = 0;
           // Perform radial interpolation to get psi4 at desired extraction radius R_ext.
-- 
2.43.0


From 4d311a5948f989a4dfae9bd588ea6b0901f05446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:58 +0000
Subject: [PATCH 17/42] fix: rhs_eval left fd_order changed when returning the
 validation dictionary

---
 nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py  | 1 +
 nrpy/infrastructures/ETLegacy/general_relativity/rhs_eval.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py b/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py
index a4b49e5..5e25ee4 100644
--- a/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py
+++ b/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py
@@ -354,6 +354,7 @@ def register_CFunction_rhs_eval(
         local_BSSN_RHSs_varname_to_expr_dict, fixed_mpfs_for_free_symbols=True
     )
     if validate_expressions:
+        par.set_parval_from_str("fd_order", old_fd_order)
         return results_dictionary
     ve.compare_or_generate_trusted_results(
         os.path.abspath(__file__),
diff --git a/nrpy/infrastructures/ETLegacy/general_relativity/rhs_eval.py b/nrpy/infrastructures/ETLegacy/general_relativity/rhs_eval.py
index 4666531..c7ce84e 100644
--- a/nrpy/infrastructures/ETLegacy/general_relativity/rhs_eval.py
+++ b/nrpy/infrastructures/ETLegacy/general_relativity/rhs_eval.py
@@ -360,6 +360,7 @@ def register_CFunction_rhs_eval(
             local_BSSN_RHSs_varname_to_expr_dict, fixed_mpfs_for_free_symbols=True
         )
         if return_validation_dict:
+            par.set_parval_from_str("fd_order", old_fd_order)
             return results_dictionary
         ve.compare_or_generate_trusted_results(
             os.path.abspath(__file__),
-- 
2.43.0


From 0919f8376d0a234b42ad5f60d6932a495c252ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:08 +0000
Subject: [PATCH 18/42] fix: register_gridfunctions_for_single_rank1 ignored
 its dimension argument

---
 nrpy/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nrpy/grid.py b/nrpy/grid.py
index de95448..ba8c5dd 100644
--- a/nrpy/grid.py
+++ b/nrpy/grid.py
@@ -890,7 +890,7 @@ def register_gridfunctions_for_single_rank1(
 
     # Step 2: Register each gridfunction
     gf_list = []
-    for i in range(3):
+    for i in range(dimension):
         gf_list += [str(IDX_OBJ_TMP[i])]
     # Manually adjust kwargs so that basename is not checked (we're not passing the basename!),
     # and rank is set to 1.
-- 
2.43.0


From 2dfc229410ec40163c314f2760d966f08353dd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:08 +0000
Subject: [PATCH 19/42] fix: ETLegacy gridfunctions accepted unsupported groups

---
 nrpy/grid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nrpy/grid.py b/nrpy/grid.py
index ba8c5dd..6024065 100644
--- a/nrpy/grid.py
+++ b/nrpy/grid.py
@@ -477,6 +477,7 @@ class ETLegacyGridFunction(GridFunction):
             is_basename,
         )
         _gf_array_name = gf_array_name
+        self.verify_gridfunction_group_is_valid()
 
     def verify_gridfunction_group_is_valid(self) -> None:
         """
-- 
2.43.0


From 656aaad622b837a7d35807d52eed565143d04b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:09 +0000
Subject: [PATCH 20/42] fix: register_gridfunctions_for_single_rankN registered
 components in hash order

---
 nrpy/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nrpy/grid.py b/nrpy/grid.py
index 6024065..fb48bdc 100644
--- a/nrpy/grid.py
+++ b/nrpy/grid.py
@@ -1063,7 +1063,7 @@ def register_gridfunctions_for_single_rankN(
         for sublist in flatten_list(IDX_OBJ_TMP)
         for item in (sublist if isinstance(sublist, list) else [sublist])
     ]
-    unique_gf_list = list(set(map(str, flat_list)))
+    unique_gf_list = list(dict.fromkeys(map(str, flat_list)))
 
     # Manually adjust kwargs for registration
     kwargs["is_basename"] = False
-- 
2.43.0


From b26a5d6418b794c69203d5f56a71a395dcf8a877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:09 +0000
Subject: [PATCH 21/42] fix: parameter-file parser stored integers outside the
 range of int with a wrapped value

---
 nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
index 0504d0b..54a6b7f 100644
--- a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
+++ b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
@@ -331,7 +331,7 @@ static void read_integer(const char *value, int *result, const char *param_name)
   errno = 0; // To detect overflow
   long int_val = strtol(value, &endptr, 10);
 
-  if (endptr == value || *endptr != '\0' || errno == ERANGE) {
+  if (endptr == value || *endptr != '\0' || errno == ERANGE || int_val != (int)int_val) {
     fprintf(stderr, "Error: Invalid integer value for %s: %s.\n", param_name, value);
     exit(1);
   }
-- 
2.43.0


From 2ed0e7bd1ed5538638b6f034be9250d8a546779c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:59 +0000
Subject: [PATCH 22/42] fix: string defaults of REAL parameters (e.g. M_PI)
 were lowercased in the default routines

---
 nrpy/infrastructures/BHaH/CodeParameters.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/CodeParameters.py b/nrpy/infrastructures/BHaH/CodeParameters.py
index ddf7508..97a320d 100644
--- a/nrpy/infrastructures/BHaH/CodeParameters.py
+++ b/nrpy/infrastructures/BHaH/CodeParameters.py
@@ -98,17 +98,23 @@ def register_CFunctions_params_commondata_struct_set_to_default() -> None:
                     CPtype = CodeParam.cparam_type
                     comment = f"  // {CodeParam.module}::{parname}"
                     defaultval = CodeParam.defaultvalue
+                    # Python booleans must be lowercased for C; strings (e.g., "M_PI") must not.
+                    c_defaultval = (
+                        defaultval
+                        if isinstance(defaultval, str)
+                        else str(defaultval).lower()
+                    )
                     if "char" in CPtype and "[" in CPtype and "]" in CPtype:
                         chararray_size = CPtype.split("[")[1].replace("]", "")
                         c_output = f'snprintf({struct}->{parname}, {chararray_size}, "{defaultval}");{comment}\n'
                     elif "[" in CPtype and "]" in CPtype:
                         # Handle REAL[N] and int[N] arrays
                         array_size = CPtype.split("[")[1].split("]")[0]
-                        c_output = f"for(int i=0; i<{array_size}; i++) {{ {struct}->{parname}[i] = {str(defaultval).lower()}; }}{comment}\n"
+                        c_output = f"for(int i=0; i<{array_size}; i++) {{ {struct}->{parname}[i] = {c_defaultval}; }}{comment}\n"
                     elif isinstance(defaultval, (bool, int, float)) or (
                         CPtype == "REAL" and isinstance(defaultval, str)
                     ):
-                        c_output = f"{struct}->{parname} = {str(defaultval).lower()};{comment}\n"
+                        c_output = f"{struct}->{parname} = {c_defaultval};{comment}\n"
                     else:
                         raise ValueError(
                             f"{CodeParam.defaultvalue} is not a valid default value type ({type(CodeParam.defaultvalue)}), for parameter {CodeParam.module}::{parname}, commondata = {CodeParam.commondata}"
-- 
2.43.0


From 8c8469333ba84967c030b2f7bcf32403e91b9fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:06 +0000
Subject: [PATCH 23/42] fix: SIMD BSSN kernels of vacuum thorns read the
 parameter PI, which they do not declare

---
 .../CarpetX/general_relativity/BSSN_constraints.py        | 6 ++++--
 .../CarpetX/general_relativity/rhs_eval.py                | 8 +++++---
 .../ETLegacy/general_relativity/BSSN_constraints.py       | 6 ++++--
 .../ETLegacy/general_relativity/rhs_eval.py               | 8 +++++---
 4 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/nrpy/infrastructures/CarpetX/general_relativity/BSSN_constraints.py b/nrpy/infrastructures/CarpetX/general_relativity/BSSN_constraints.py
index a680ad5..f20b6b3 100644
--- a/nrpy/infrastructures/CarpetX/general_relativity/BSSN_constraints.py
+++ b/nrpy/infrastructures/CarpetX/general_relativity/BSSN_constraints.py
@@ -62,10 +62,12 @@ def register_CFunction_BSSN_constraints(
   const REAL_SIMD_ARRAY invdxx0 CCTK_ATTRIBUTE_UNUSED = ConstSIMD(1.0/CCTK_DELTA_SPACE(0));
   const REAL_SIMD_ARRAY invdxx1 CCTK_ATTRIBUTE_UNUSED = ConstSIMD(1.0/CCTK_DELTA_SPACE(1));
   const REAL_SIMD_ARRAY invdxx2 CCTK_ATTRIBUTE_UNUSED = ConstSIMD(1.0/CCTK_DELTA_SPACE(2));
-  const CCTK_REAL *param_PI CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("PI", "{thorn_name}", NULL);
+"""
+        if enable_T4munu:
+            body += f"""  const CCTK_REAL *param_PI CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("PI", "{thorn_name}", NULL);
   const REAL_SIMD_ARRAY PI CCTK_ATTRIBUTE_UNUSED = ConstSIMD(*param_PI);
-
 """
+        body += "\n"
     else:
         body += """  const CCTK_REAL invdxx0 CCTK_ATTRIBUTE_UNUSED = 1.0/CCTK_DELTA_SPACE(0);
   const CCTK_REAL invdxx1 CCTK_ATTRIBUTE_UNUSED = 1.0/CCTK_DELTA_SPACE(1);
diff --git a/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py b/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py
index 5e25ee4..c5f2116 100644
--- a/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py
+++ b/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py
@@ -94,10 +94,12 @@ def register_CFunction_rhs_eval(
   const REAL_SIMD_ARRAY invdxx0 CCTK_ATTRIBUTE_UNUSED = ConstSIMD(1.0/CCTK_DELTA_SPACE(0));
   const REAL_SIMD_ARRAY invdxx1 CCTK_ATTRIBUTE_UNUSED = ConstSIMD(1.0/CCTK_DELTA_SPACE(1));
   const REAL_SIMD_ARRAY invdxx2 CCTK_ATTRIBUTE_UNUSED = ConstSIMD(1.0/CCTK_DELTA_SPACE(2));
-  const CCTK_REAL *param_PI CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("PI", "{thorn_name}", NULL);
-  const REAL_SIMD_ARRAY PI CCTK_ATTRIBUTE_UNUSED = ConstSIMD(*param_PI);
   const CCTK_REAL *param_eta CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("eta", "{thorn_name}", NULL);
   const REAL_SIMD_ARRAY eta CCTK_ATTRIBUTE_UNUSED = ConstSIMD(*param_eta);
+"""
+        if enable_T4munu:
+            body += f"""  const CCTK_REAL *param_PI CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("PI", "{thorn_name}", NULL);
+  const REAL_SIMD_ARRAY PI CCTK_ATTRIBUTE_UNUSED = ConstSIMD(*param_PI);
 """
         if enable_CAKO:
             body += f"""
@@ -403,7 +405,7 @@ if(FD_order == {fd_order}) {{
             "C_CAHD",
             "CFL_FACTOR__ignore_repeats_Carpet_timeref_factors",
         ]
-    if thorn_name == "Baikal":
+    if enable_T4munu:
         params += ["PI"]
 
     cfc.register_CFunction(
diff --git a/nrpy/infrastructures/ETLegacy/general_relativity/BSSN_constraints.py b/nrpy/infrastructures/ETLegacy/general_relativity/BSSN_constraints.py
index 3cb2fbf..83fccd5 100644
--- a/nrpy/infrastructures/ETLegacy/general_relativity/BSSN_constraints.py
+++ b/nrpy/infrastructures/ETLegacy/general_relativity/BSSN_constraints.py
@@ -65,10 +65,12 @@ def register_CFunction_BSSN_constraints(
   const REAL_SIMD_ARRAY invdxx0 CCTK_ATTRIBUTE_UNUSED = ConstSIMD(1.0/CCTK_DELTA_SPACE(0));
   const REAL_SIMD_ARRAY invdxx1 CCTK_ATTRIBUTE_UNUSED = ConstSIMD(1.0/CCTK_DELTA_SPACE(1));
   const REAL_SIMD_ARRAY invdxx2 CCTK_ATTRIBUTE_UNUSED = ConstSIMD(1.0/CCTK_DELTA_SPACE(2));
-  const CCTK_REAL *param_PI CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("PI", "{thorn_name}", NULL);
+"""
+        if enable_T4munu:
+            body += f"""  const CCTK_REAL *param_PI CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("PI", "{thorn_name}", NULL);
   const REAL_SIMD_ARRAY PI CCTK_ATTRIBUTE_UNUSED = ConstSIMD(*param_PI);
-
 """
+        body += "\n"
     else:
         body += """  DECLARE_CCTK_PARAMETERS;
 
diff --git a/nrpy/infrastructures/ETLegacy/general_relativity/rhs_eval.py b/nrpy/infrastructures/ETLegacy/general_relativity/rhs_eval.py
index c7ce84e..76c8511 100644
--- a/nrpy/infrastructures/ETLegacy/general_relativity/rhs_eval.py
+++ b/nrpy/infrastructures/ETLegacy/general_relativity/rhs_eval.py
@@ -98,10 +98,12 @@ def register_CFunction_rhs_eval(
   const REAL_SIMD_ARRAY invdxx0 CCTK_ATTRIBUTE_UNUSED = ConstSIMD(1.0/CCTK_DELTA_SPACE(0));
   const REAL_SIMD_ARRAY invdxx1 CCTK_ATTRIBUTE_UNUSED = ConstSIMD(1.0/CCTK_DELTA_SPACE(1));
   const REAL_SIMD_ARRAY invdxx2 CCTK_ATTRIBUTE_UNUSED = ConstSIMD(1.0/CCTK_DELTA_SPACE(2));
-  const CCTK_REAL *param_PI CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("PI", "{thorn_name}", NULL);
-  const REAL_SIMD_ARRAY PI CCTK_ATTRIBUTE_UNUSED = ConstSIMD(*param_PI);
   const CCTK_REAL *param_eta CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("eta", "{thorn_name}", NULL);
   const REAL_SIMD_ARRAY eta CCTK_ATTRIBUTE_UNUSED = ConstSIMD(*param_eta);
+"""
+        if enable_T4munu:
+            body += f"""  const CCTK_REAL *param_PI CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("PI", "{thorn_name}", NULL);
+  const REAL_SIMD_ARRAY PI CCTK_ATTRIBUTE_UNUSED = ConstSIMD(*param_PI);
 """
     else:
         body += """
@@ -409,7 +411,7 @@ if(FD_order == {fd_order}) {{
             "C_CAHD",
             "CFL_FACTOR__ignore_repeats_Carpet_timeref_factors",
         ]
-    if thorn_name == "Baikal":
+    if enable_T4munu:
         params += ["PI"]
 
     cfc.register_CFunction(
-- 
2.43.0


From 0afe7a61871821b6ea87335738f6c0eed1e049c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:06 +0000
Subject: [PATCH 24/42] fix: CarpetX T4DD_to_T4UU was registered for other
 schedule bins than its schedule entries name

---
 .../CarpetX/general_relativity/T4DD_to_T4UU.py                | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nrpy/infrastructures/CarpetX/general_relativity/T4DD_to_T4UU.py b/nrpy/infrastructures/CarpetX/general_relativity/T4DD_to_T4UU.py
index 7eea11f..865554f 100644
--- a/nrpy/infrastructures/CarpetX/general_relativity/T4DD_to_T4UU.py
+++ b/nrpy/infrastructures/CarpetX/general_relativity/T4DD_to_T4UU.py
@@ -135,8 +135,8 @@ schedule FUNC_NAME in ODESolvers_PostStep before {thorn_name}_BSSN_constraints
           T4UU22GF(everywhere), T4UU23GF(everywhere), T4UU33GF(everywhere)
 }} "Compute T4UU from T4DD (provided in eT?? from TmunuBaseX), needed for BSSN constraints"
 """
-    schedule_RHS = ("ODESolvers_CalcRHS", schedule1)
-    schedule_constraints = ("ODESolvers_PseudoEvolution", schedule2)
+    schedule_RHS = ("ODESolvers_RHS", schedule1)
+    schedule_constraints = ("ODESolvers_PostStep", schedule2)
 
     cfc.register_CFunction(
         subdirectory=thorn_name,
-- 
2.43.0


From 6685e4de5ecb6544a0051d7e49f3b3325be2d823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:00 +0000
Subject: [PATCH 25/42] fix: SEOBNRv5_aligned_spin_NQC_corrections leaked the
 Omega array

---
 .../BHaH/seobnr/SEOBNR_BOB_C_waveform_codegen_library.py         | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nrpy/infrastructures/BHaH/seobnr/SEOBNR_BOB_C_waveform_codegen_library.py b/nrpy/infrastructures/BHaH/seobnr/SEOBNR_BOB_C_waveform_codegen_library.py
index e7c1f0a..7b1c2e2 100644
--- a/nrpy/infrastructures/BHaH/seobnr/SEOBNR_BOB_C_waveform_codegen_library.py
+++ b/nrpy/infrastructures/BHaH/seobnr/SEOBNR_BOB_C_waveform_codegen_library.py
@@ -259,6 +259,7 @@ free(r);
 free(hamp);
 free(phase);
 free(phase_unwrapped);
+free(Omega);
 
 // apply the nqc correction
 commondata->nsteps_inspiral = commondata->nsteps_low + commondata->nsteps_fine;
-- 
2.43.0


From 31b23563a65c43c0ebdb70cafa1c01dffb1bfb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:06 +0000
Subject: [PATCH 26/42] fix: read_checkpoint leaked the y_n_gfs array allocated
 before initial data are set

---
 nrpy/infrastructures/BHaH/checkpointing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nrpy/infrastructures/BHaH/checkpointing.py b/nrpy/infrastructures/BHaH/checkpointing.py
index 20b320d..35c7546 100644
--- a/nrpy/infrastructures/BHaH/checkpointing.py
+++ b/nrpy/infrastructures/BHaH/checkpointing.py
@@ -78,6 +78,8 @@ def register_CFunction_read_checkpoint(
     FREAD(out_data_indices, sizeof(int), count, cp_file);
     FREAD(compact_out_data, sizeof(REAL), count * NUM_EVOL_GFS, cp_file);
 
+    // y_n_gfs was allocated before initial data are set; replace it by storage for the grid read above.
+    MoL_free_memory_y_n_gfs(&griddata[grid].gridfuncs);
     MoL_malloc_y_n_gfs(commondata, &griddata[grid].params, &griddata[grid].gridfuncs);
 #pragma omp parallel for
     for (int i = 0; i < count; i++) {
-- 
2.43.0


From 80f1c807c6f575720c04df70b9d2a39a9dbda253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:28 +0000
Subject: [PATCH 27/42] fix: Euler's method pointed diagnostic_output_gfs2 at
 k_odd_gfs, which is neither declared nor allocated

---
 nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py b/nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py
index 7f9b492..438be3c 100644
--- a/nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py
+++ b/nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py
@@ -136,7 +136,10 @@ def generate_gridfunction_names(
                 # Need k_odd for k_1,3,5... and k_even for k_2,4,6...
                 non_y_n_gridfunctions_list.extend(["k_odd_gfs", "k_even_gfs"])
             diagnostic_gridfunctions_point_to = "y_nplus1_running_total_gfs"
-            diagnostic_gridfunctions2_point_to = "k_odd_gfs"
+            # Euler's method has no second array to point to.
+            diagnostic_gridfunctions2_point_to = (
+                "k_odd_gfs" if MoL_method != "Euler" else None
+            )
 
     non_y_n_gridfunctions_list.append("auxevol_gfs")
 
@@ -207,7 +210,10 @@ def register_CFunction_MoL_malloc(
         )
 
     body += f"\ngridfuncs->diagnostic_output_gfs  = gridfuncs->{diagnostic_gridfunctions_point_to};\n"
-    body += f"gridfuncs->diagnostic_output_gfs2 = gridfuncs->{diagnostic_gridfunctions2_point_to};\n"
+    if diagnostic_gridfunctions2_point_to is None:
+        body += "gridfuncs->diagnostic_output_gfs2 = NULL;\n"
+    else:
+        body += f"gridfuncs->diagnostic_output_gfs2 = gridfuncs->{diagnostic_gridfunctions2_point_to};\n"
 
     cfc.register_CFunction(
         includes=includes,
-- 
2.43.0


From adbb08aa2f490251c78e6543fa07e52777c34190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:28 +0000
Subject: [PATCH 28/42] fix: bhah_initialize sized griddata by NUMGRIDS before
 numerical_grids_and_timestep sets it

---
 nrpy/infrastructures/BHaH/bhah_lib.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/bhah_lib.py b/nrpy/infrastructures/BHaH/bhah_lib.py
index 003e37a..d2eb78a 100644
--- a/nrpy/infrastructures/BHaH/bhah_lib.py
+++ b/nrpy/infrastructures/BHaH/bhah_lib.py
@@ -30,10 +30,9 @@ commondata_struct *commondata = (commondata_struct *)malloc(sizeof(commondata_st
 // Step 1.b: Set each commondata CodeParameter to default.
 commondata_struct_set_to_default(commondata);
 
-// Step 1.c: Allocate NUMGRIDS griddata arrays, each containing
+// Step 1.c: Allocate MAXNUMGRIDS griddata arrays, each containing
 //           data specific to an individual grid.
-const int n_grids = commondata->NUMGRIDS;
-griddata_struct *griddata = (griddata_struct *)malloc(sizeof(griddata_struct) * n_grids);
+griddata_struct *griddata = (griddata_struct *)malloc(sizeof(griddata_struct) * MAXNUMGRIDS);
 
 // Step 1.d: Set each CodeParameter in griddata.params to default.
 params_struct_set_to_default(commondata, griddata);
@@ -45,7 +44,7 @@ const bool calling_for_first_time = true;
 numerical_grids_and_timestep(commondata, griddata, calling_for_first_time);
 
 // Step 1.f: Allocate memory for all gridfunctions
-for(int grid = 0; grid < n_grids; grid++) {
+for(int grid = 0; grid < commondata->NUMGRIDS; grid++) {
   MoL_malloc_y_n_gfs(commondata, &griddata[grid].params, &griddata[grid].gridfuncs); 
   MoL_malloc_non_y_n_gfs(commondata, &griddata[grid].params, &griddata[grid].gridfuncs);
 }
-- 
2.43.0


From 7e65985e96963df082a72e03ec3c475a175ab8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:29 +0000
Subject: [PATCH 29/42] fix: bhah_finalize leaked the coordinate and
 boundary-condition arrays of every grid

---
 nrpy/infrastructures/BHaH/bhah_lib.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nrpy/infrastructures/BHaH/bhah_lib.py b/nrpy/infrastructures/BHaH/bhah_lib.py
index d2eb78a..3d88f71 100644
--- a/nrpy/infrastructures/BHaH/bhah_lib.py
+++ b/nrpy/infrastructures/BHaH/bhah_lib.py
@@ -87,6 +87,9 @@ def register_CFunction_bhah_finalize() -> None:
               MoL_free_memory_y_n_gfs(&griddata[grid].gridfuncs);
               MoL_free_memory_non_y_n_gfs(&griddata[grid].gridfuncs);
       rfm_precompute_free(commondata, &griddata[grid].params, &griddata[grid].rfmstruct);
+      free(griddata[grid].bcstruct.inner_bc_array);
+      for(int ng = 0; ng < NGHOSTS*3; ng++) free(griddata[grid].bcstruct.pure_outer_bc_array[ng]);
+      for(int i = 0; i < 3; i++) free(griddata[grid].xx[i]);
     }
     free(bhah_struct->commondata);
     free(bhah_struct->griddata);
-- 
2.43.0


From 7ba8b96091638315313f3e25bb00908d25c6ec2d Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 05:55:26 +0000
Subject: [PATCH 30/42] fix: cache files were visible to other processes while
 only partly written

write_cached() and cached_simplify() opened the published file name for
writing, so a concurrent generator process (or the next run after a crash)
could find the entry and fail on an empty or truncated pickle.
---
 nrpy/helpers/cached_functions.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/nrpy/helpers/cached_functions.py b/nrpy/helpers/cached_functions.py
index 073b37f..dbd7252 100644
--- a/nrpy/helpers/cached_functions.py
+++ b/nrpy/helpers/cached_functions.py
@@ -11,6 +11,7 @@ Author: Zachariah B. Etienne
 """
 
 import hashlib
+import os
 import pickle
 from pathlib import Path
 from typing import Any, cast
@@ -97,6 +98,19 @@ def read_cached(unique_id: str) -> Any:
         return pickle.load(file)
 
 
+def _publish(path: Path, data: Any) -> None:
+    """
+    Store data in a cache file such that other processes only ever see the complete file.
+
+    :param path: Path of the cache file.
+    :param data: The data to be written to the cache.
+    """
+    scratch = path.with_name(f"{path.name}.{os.getpid()}.tmp")
+    with open(scratch, "wb") as file:
+        file.write(pickle.dumps(data))
+    os.replace(scratch, path)
+
+
 def write_cached(unique_id: str, data: Any) -> None:
     """
     Write data to the cache file associated with a unique ID.
@@ -110,9 +124,7 @@ def write_cached(unique_id: str, data: Any) -> None:
     True
     """
     # print(f"Writing " + str(unique_id[:80]).replace("\n", ""))
-    with open(cache_file(unique_id), "wb") as file:
-        # print(f"Writing cached file {file.name}.")
-        pickle.dump(data, file)
+    _publish(cache_file(unique_id), data)
 
 
 def cached_simplify(expr: sp.Basic) -> sp.Expr:
@@ -141,8 +153,7 @@ def cached_simplify(expr: sp.Basic) -> sp.Expr:
                 return cast(sp.Expr, pickle.load(file))
         else:
             simplified = sp.simplify(expr)
-            with open(cache_fle, "wb") as file:
-                pickle.dump(simplified, file)
+            _publish(cache_fle, simplified)
             return cast(sp.Expr, simplified)
     except pickle.PicklingError:
         return cast(sp.Expr, sp.simplify(expr))
-- 
2.43.0


From 694e2efdddaead5a540b9f34830bd3787b85ea15 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 05:55:26 +0000
Subject: [PATCH 31/42] fix: ConditionalFileUpdater overwrote the file with
 partial text when the with-body raised

---
 nrpy/helpers/conditional_file_updater.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nrpy/helpers/conditional_file_updater.py b/nrpy/helpers/conditional_file_updater.py
index a89dc80..58fdfef 100644
--- a/nrpy/helpers/conditional_file_updater.py
+++ b/nrpy/helpers/conditional_file_updater.py
@@ -77,6 +77,10 @@ class ConditionalFileUpdater:
         :param exception_value: Exception value if an exception was raised within the context.
         :param traceback: Traceback object if an exception was raised within the context.
         """
+        # If producing the content failed, the content is incomplete: leave the file alone.
+        if exception_type is not None:
+            return
+
         print(f"Checking {self.fname}...", end="")
         new_content = self.fd.getvalue()
         if self.do_format:
-- 
2.43.0


From 327faf5042c4aeea5ddd605d96318ffc28e5c3aa Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 06:09:02 +0000
Subject: [PATCH 32/42] fix: parallel codegen merged the workers' environments
 in completion order

---
 nrpy/helpers/parallel_codegen.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nrpy/helpers/parallel_codegen.py b/nrpy/helpers/parallel_codegen.py
index ec351e5..98cdfd3 100644
--- a/nrpy/helpers/parallel_codegen.py
+++ b/nrpy/helpers/parallel_codegen.py
@@ -251,7 +251,11 @@ def do_parallel_codegen() -> None:
             ],
         )
 
-    unpack_NRPy_environment_dict(dict(NRPy_environment_to_unpack))
+    # Workers fill the shared dictionary in the order in which they finish; merge
+    # their environments in registration order, so that the result is reproducible.
+    unpack_NRPy_environment_dict(
+        {key: NRPy_environment_to_unpack[key] for key in ParallelCodeGen_dict}
+    )
 
 
 if __name__ == "__main__":
-- 
2.43.0


From a1e1e6361d2598d0ce7aedc2e4df9703992efc67 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 06:22:32 +0000
Subject: [PATCH 33/42] fix: superB pup_rfm_struct was unbalanced for several
 coordinate systems and ignored array sizes

---
 .../superB/superB/superB_pup.py               | 28 +++++++++----------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/nrpy/infrastructures/superB/superB/superB_pup.py b/nrpy/infrastructures/superB/superB/superB_pup.py
index 796b5af..f8455c3 100644
--- a/nrpy/infrastructures/superB/superB/superB_pup.py
+++ b/nrpy/infrastructures/superB/superB/superB_pup.py
@@ -92,27 +92,25 @@ void pup_rfm_struct(PUP::er &p, rfm_struct &rfm, const params_struct *restrict p
   const int Nxx_plus_2NGHOSTS0 = params->Nxx_plus_2NGHOSTS0;
   const int Nxx_plus_2NGHOSTS1 = params->Nxx_plus_2NGHOSTS1;
   const int Nxx_plus_2NGHOSTS2 = params->Nxx_plus_2NGHOSTS2;
-  if (p.isUnpacking()) {
+  switch (params->CoordSystem_hash) {
 """
     for CoordSystem in list_of_CoordSystems:
         rfm_precompute = ReferenceMetricPrecompute(CoordSystem)
+        prefunc += f"  case {CoordSystem.upper()}: {{\n"
         # Add memory allocation code
+        prefunc += "  if (p.isUnpacking()) {\n"
         prefunc += rfm_precompute.rfm_struct__malloc.replace("rfmstruct->", "rfm.")
-        prefunc += """}
-        """
-        # Add PUParray calls
-        for define in rfm_precompute.BHaH_defines_list:
-            # Extract variable names from the define strings
-            var_name = define.split()[2].strip(";")
-            # Assuming all variables have the same allocation size, adjust as necessary
-            if "xx0" in var_name:
-                size = "Nxx_plus_2NGHOSTS0"
-            elif "xx1" in var_name:
-                size = "Nxx_plus_2NGHOSTS1"
-            else:
-                size = "Nxx_plus_2NGHOSTS2"
+        prefunc += "  }\n"
+        # Add PUParray calls; each array is transferred with the size it is allocated with
+        for line in rfm_precompute.rfm_struct__malloc.splitlines():
+            var_name, alloc = line.replace("rfmstruct->", "").split(" = ")
+            size = alloc.split("malloc(sizeof(REAL)*")[1].replace(");", "")
             prefunc += f"  PUParray(p, rfm.{var_name}, {size});\n"
-    prefunc += """
+        prefunc += "  break;\n  }\n"
+    prefunc += r"""  default:
+    fprintf(stderr, "ERROR in pup_rfm_struct(): CoordSystem hash = %d not #define'd!\n", params->CoordSystem_hash);
+    exit(1);
+  }
 }
 """
 
-- 
2.43.0


From 63cace63fe597cc9522eb190524b3531ad536919 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 06:22:32 +0000
Subject: [PATCH 34/42] fix: superB migration truncated
 idx3chare_to_{src,dst}_chare_id to the number of communicating chares

---
 nrpy/infrastructures/superB/superB/superB_pup.py  | 15 ++++++++-------
 .../superB/superB_pup_function_prototypes.h       |  4 ++--
 nrpy/infrastructures/superB/timestepping_chare.py |  2 +-
 3 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/nrpy/infrastructures/superB/superB/superB_pup.py b/nrpy/infrastructures/superB/superB/superB_pup.py
index f8455c3..cf7f8fe 100644
--- a/nrpy/infrastructures/superB/superB/superB_pup.py
+++ b/nrpy/infrastructures/superB/superB/superB_pup.py
@@ -376,16 +376,17 @@ void pup_tmpBuffers_struct(PUP::er &p, tmpBuffers_struct &tmpBuffers, const para
 }
 
 // PUP routine for struct nonlocalinnerbc_struct
-void pup_nonlocalinnerbc_struct(PUP::er &p, nonlocalinnerbc_struct &nonlocal) {
+void pup_nonlocalinnerbc_struct(PUP::er &p, nonlocalinnerbc_struct &nonlocal, const commondata_struct &commondata) {
+  const int tot_num_chares = commondata.Nchare0 * commondata.Nchare1 * commondata.Nchare2;
   p | nonlocal.tot_num_src_chares;
   p | nonlocal.tot_num_dst_chares;
   if (p.isUnpacking()) {
     nonlocal.idx3_of_src_chares = (int *restrict)malloc(sizeof(int) * nonlocal.tot_num_src_chares);
-    nonlocal.idx3chare_to_src_chare_id = (int *restrict)malloc(sizeof(int) * nonlocal.tot_num_src_chares);
+    nonlocal.idx3chare_to_src_chare_id = (int *restrict)malloc(sizeof(int) * tot_num_chares);
     nonlocal.num_srcpts_each_chare = (int *restrict)malloc(sizeof(int) * nonlocal.tot_num_src_chares);
 
     nonlocal.idx3_of_dst_chares = (int *restrict)malloc(sizeof(int) * nonlocal.tot_num_dst_chares);
-    nonlocal.idx3chare_to_dst_chare_id = (int *restrict)malloc(sizeof(int) * nonlocal.tot_num_dst_chares);
+    nonlocal.idx3chare_to_dst_chare_id = (int *restrict)malloc(sizeof(int) * tot_num_chares);
     nonlocal.num_srcpts_tosend_each_chare = (int *restrict)malloc(sizeof(int) * nonlocal.tot_num_dst_chares);
 
     nonlocal.map_srcchare_and_srcpt_id_to_linear_id = (int **)malloc(sizeof(int *) * nonlocal.tot_num_src_chares);
@@ -394,11 +395,11 @@ void pup_nonlocalinnerbc_struct(PUP::er &p, nonlocalinnerbc_struct &nonlocal) {
     nonlocal.globalidx3_srcpts_tosend = (int **)malloc(sizeof(int *) * nonlocal.tot_num_dst_chares);
   }
   PUParray(p, nonlocal.idx3_of_src_chares, nonlocal.tot_num_src_chares);
-  PUParray(p, nonlocal.idx3chare_to_src_chare_id, nonlocal.tot_num_src_chares);
+  PUParray(p, nonlocal.idx3chare_to_src_chare_id, tot_num_chares);
   PUParray(p, nonlocal.num_srcpts_each_chare, nonlocal.tot_num_src_chares);
 
   PUParray(p, nonlocal.idx3_of_dst_chares, nonlocal.tot_num_dst_chares);
-  PUParray(p, nonlocal.idx3chare_to_dst_chare_id, nonlocal.tot_num_dst_chares);
+  PUParray(p, nonlocal.idx3chare_to_dst_chare_id, tot_num_chares);
   PUParray(p, nonlocal.num_srcpts_tosend_each_chare, nonlocal.tot_num_dst_chares);
 
   for (int src_chare = 0; src_chare < nonlocal.tot_num_src_chares; src_chare++) {
@@ -436,7 +437,7 @@ void pup_griddata(PUP::er &p, griddata_struct &gd) {
 
 // PUP routine for struct griddata_chare
 // For unpacking order is important, unpacked structs are used for unpacking the subsequent structs
-void pup_griddata_chare(PUP::er &p, griddata_struct &gd, const params_struct &params) {
+void pup_griddata_chare(PUP::er &p, griddata_struct &gd, const params_struct &params, const commondata_struct &commondata) {
 
   pup_params_struct(p, gd.params);
 
@@ -455,7 +456,7 @@ void pup_griddata_chare(PUP::er &p, griddata_struct &gd, const params_struct &pa
 
   pup_bc_struct(p, gd.bcstruct);
 
-  pup_nonlocalinnerbc_struct(p, gd.nonlocalinnerbcstruct);
+  pup_nonlocalinnerbc_struct(p, gd.nonlocalinnerbcstruct, commondata);
 
   pup_MoL_gridfunctions_struct(p, gd.gridfuncs, gd.params);
 
diff --git a/nrpy/infrastructures/superB/superB/superB_pup_function_prototypes.h b/nrpy/infrastructures/superB/superB/superB_pup_function_prototypes.h
index e83da9e..cdb1832 100644
--- a/nrpy/infrastructures/superB/superB/superB_pup_function_prototypes.h
+++ b/nrpy/infrastructures/superB/superB/superB_pup_function_prototypes.h
@@ -9,7 +9,7 @@ void pup_MoL_gridfunctions_struct(PUP::er &p, MoL_gridfunctions_struct &mol_gfs,
 void pup_charecomm_struct(PUP::er &p, charecomm_struct &cc, const params_struct &params, const params_struct &params_chare);
 void pup_diagnostic_struct(PUP::er &p, diagnostic_struct &ds, const int num_diagnostics_chare);
 void pup_tmpBuffers_struct(PUP::er &p, tmpBuffers_struct &tmpBuffers, const params_struct &params, const nonlocalinnerbc_struct &nonlocalinnerbc);
-void pup_nonlocalinnerbc_struct(PUP::er &p, nonlocalinnerbc_struct &nonlocal);
+void pup_nonlocalinnerbc_struct(PUP::er &p, nonlocalinnerbc_struct &nonlocal, const commondata_struct &commondata);
 void pup_griddata(PUP::er &p, griddata_struct &gd);
-void pup_griddata_chare(PUP::er &p, griddata_struct &gd, const params_struct &params);
+void pup_griddata_chare(PUP::er &p, griddata_struct &gd, const params_struct &params, const commondata_struct &commondata);
 
diff --git a/nrpy/infrastructures/superB/timestepping_chare.py b/nrpy/infrastructures/superB/timestepping_chare.py
index 00dd8ec..b3dfdb7 100644
--- a/nrpy/infrastructures/superB/timestepping_chare.py
+++ b/nrpy/infrastructures/superB/timestepping_chare.py
@@ -249,7 +249,7 @@ void Timestepping::pup(PUP::er &p) {
     griddata_chare = (griddata_struct *restrict)malloc(sizeof(griddata_struct) * commondata.NUMGRIDS);
   }
   for (int i = 0; i < commondata.NUMGRIDS; i++) {
-    pup_griddata_chare(p, griddata_chare[i], griddata[i].params);
+    pup_griddata_chare(p, griddata_chare[i], griddata[i].params, commondata);
   }
   p | is_boundarychare;
   p | time_start;
-- 
2.43.0


From 96174eef944aed98bc5edb363ffc7b1d7dd98456 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 06:22:32 +0000
Subject: [PATCH 35/42] fix: superB migration code for array-valued and #define
 parameters

---
 nrpy/infrastructures/superB/main_chare.py      | 10 ++++------
 .../superB/superB/superB_pup.py                | 18 +++++++-----------
 2 files changed, 11 insertions(+), 17 deletions(-)

diff --git a/nrpy/infrastructures/superB/main_chare.py b/nrpy/infrastructures/superB/main_chare.py
index ff4f04a..5912ac3 100644
--- a/nrpy/infrastructures/superB/main_chare.py
+++ b/nrpy/infrastructures/superB/main_chare.py
@@ -44,15 +44,13 @@ class CommondataObject {
 """
     struct_list: List[str] = []  # List to store individual struct elements
     for parname, CodeParam in par.glb_code_params_dict.items():
-        if CodeParam.commondata:
+        if CodeParam.commondata and CodeParam.cparam_type != "#define":
             struct = "commondata"
             CPtype = CodeParam.cparam_type
             comment = f"  // {CodeParam.module}::{parname}"
-            if "char" in CPtype and "[" in CPtype and "]" in CPtype:
-                chararray_size = CPtype.split("[")[1].replace("]", "")
-                c_output = (
-                    f"PUParray(p, {struct}.{parname}, {chararray_size});{comment}\n"
-                )
+            if "[" in CPtype and "]" in CPtype:
+                array_size = CPtype.split("[")[1].replace("]", "")
+                c_output = f"PUParray(p, {struct}.{parname}, {array_size});{comment}\n"
             elif "TIMEVAR" in CPtype:
                 c_output = f"p|{struct}.{parname}.tv_sec;{comment}\n"
                 c_output += f"p|{struct}.{parname}.tv_nsec;{comment}\n"
diff --git a/nrpy/infrastructures/superB/superB/superB_pup.py b/nrpy/infrastructures/superB/superB/superB_pup.py
index cf7f8fe..30fcafb 100644
--- a/nrpy/infrastructures/superB/superB/superB_pup.py
+++ b/nrpy/infrastructures/superB/superB/superB_pup.py
@@ -38,15 +38,13 @@ void pup_commondata_struct(PUP::er &p, commondata_struct &commondata) {
 """
     struct_list: List[str] = []  # List to store individual struct elements
     for parname, CodeParam in par.glb_code_params_dict.items():
-        if CodeParam.commondata:
+        if CodeParam.commondata and CodeParam.cparam_type != "#define":
             struct = "commondata"
             CPtype = CodeParam.cparam_type
             comment = f"  // {CodeParam.module}::{parname}"
-            if "char" in CPtype and "[" in CPtype and "]" in CPtype:
-                chararray_size = CPtype.split("[")[1].replace("]", "")
-                c_output = (
-                    f"PUParray(p, {struct}.{parname}, {chararray_size});{comment}\n"
-                )
+            if "[" in CPtype and "]" in CPtype:
+                array_size = CPtype.split("[")[1].replace("]", "")
+                c_output = f"PUParray(p, {struct}.{parname}, {array_size});{comment}\n"
             elif "TIMEVAR" in CPtype:
                 c_output = f"p|{struct}.{parname}.tv_sec;{comment}\n"
                 c_output += f"p|{struct}.{parname}.tv_nsec;{comment}\n"
@@ -69,11 +67,9 @@ void pup_params_struct(PUP::er &p, params_struct &params) {
         if not CodeParam.commondata and CPtype != "#define":
             struct = "params"
             comment = f"  // {CodeParam.module}::{parname}"
-            if "char" in CPtype and "[" in CPtype and "]" in CPtype:
-                chararray_size = CPtype.split("[")[1].replace("]", "")
-                c_output = (
-                    f"PUParray(p, {struct}.{parname}, {chararray_size});{comment}\n"
-                )
+            if "[" in CPtype and "]" in CPtype:
+                array_size = CPtype.split("[")[1].replace("]", "")
+                c_output = f"PUParray(p, {struct}.{parname}, {array_size});{comment}\n"
             elif "TIMEVAR" in CPtype:
                 c_output = f"p|{struct}.{parname}.tv_sec;{comment}\n"
                 c_output += f"p|{struct}.{parname}.tv_nsec;{comment}\n"
-- 
2.43.0


From 21a72859c505d04caa4e1c3b689230f881f96d97 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 06:23:01 +0000
Subject: [PATCH 36/42] fix: superB migration used uninitialized array lengths
 when psi4 diagnostics are off

---
 nrpy/infrastructures/superB/timestepping_chare.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/superB/timestepping_chare.py b/nrpy/infrastructures/superB/timestepping_chare.py
index b3dfdb7..3fab66a 100644
--- a/nrpy/infrastructures/superB/timestepping_chare.py
+++ b/nrpy/infrastructures/superB/timestepping_chare.py
@@ -652,7 +652,8 @@ Timestepping::Timestepping(CommondataObject &&inData) {
 
   // Step 1.c: Allocate NUMGRIDS griddata arrays, each containing data specific to an individual grid.
   griddata = (griddata_struct *restrict)malloc(sizeof(griddata_struct) * commondata.NUMGRIDS);
-  griddata_chare = (griddata_struct *restrict)malloc(sizeof(griddata_struct) * commondata.NUMGRIDS);
+  // Zero-initialize: members that are only set up for some diagnostics (e.g., psi4) hold the array lengths used by pup().
+  griddata_chare = (griddata_struct *restrict)calloc(commondata.NUMGRIDS, sizeof(griddata_struct));
 
   // Step 1.d: Set each CodeParameter in griddata.params to default.
   params_struct_set_to_default(&commondata, griddata);
-- 
2.43.0


From 40de6b77ddffba1ea2ef1b679dca547f8ace85df Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 06:32:54 +0000
Subject: [PATCH 37/42] fix: superB migration routine pointed
 diagnostic_output_gfs2 at gridfuncs.None for methods without a second
 diagnostics array

---
 nrpy/infrastructures/superB/superB/superB_pup.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/superB/superB/superB_pup.py b/nrpy/infrastructures/superB/superB/superB_pup.py
index 30fcafb..d426908 100644
--- a/nrpy/infrastructures/superB/superB/superB_pup.py
+++ b/nrpy/infrastructures/superB/superB/superB_pup.py
@@ -223,7 +223,10 @@ void pup_MoL_gridfunctions_struct(PUP::er &p, MoL_gridfunctions_struct &gridfunc
         )
     # In superB, allocate separate memory to diagnostic_output_gfs
     prefunc += "gridfuncs.diagnostic_output_gfs  = (REAL *restrict)malloc(sizeof(REAL) * NUM_EVOL_GFS * Nxx_plus_2NGHOSTS_tot);\n"
-    prefunc += f"gridfuncs.diagnostic_output_gfs2 = gridfuncs.{diagnostic_gridfunctions2_point_to};\n"
+    if diagnostic_gridfunctions2_point_to is None:
+        prefunc += "gridfuncs.diagnostic_output_gfs2 = NULL;\n"
+    else:
+        prefunc += f"gridfuncs.diagnostic_output_gfs2 = gridfuncs.{diagnostic_gridfunctions2_point_to};\n"
     prefunc += """
   }"""
     for gridfunctions in gridfunctions_list:
-- 
2.43.0


From a8a1aca63ff2778cdc91c0ceeb623eda9210a5dd Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 07:06:58 +0000
Subject: [PATCH 38/42] fix: refuse unknown Cartesian-, Spherical- and
 wedge-like coordinate systems

A name such as TypoSinhSpherical was silently treated as SinhSpherical, and
unknown names containing Cartesian or Wedge were not refused by name.
---
 nrpy/reference_metric.py | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/nrpy/reference_metric.py b/nrpy/reference_metric.py
index 1e59528..0cee225 100644
--- a/nrpy/reference_metric.py
+++ b/nrpy/reference_metric.py
@@ -684,7 +684,11 @@ class ReferenceMetric:
         ) + slope * x
 
     def cartesian_like(self) -> None:
-        """Initialize class for Cartesian-like coordinate systems."""
+        """
+        Initialize class for Cartesian-like coordinate systems.
+
+        :raises ValueError: If an unrecognized Cartesian-like coordinate system is specified.
+        """
         if self.CoordSystem == "Cartesian":
             # return values of par.Cparameters() in the following line of code are unused, so we ignore them.
             par.register_CodeParameters(
@@ -789,6 +793,11 @@ class ReferenceMetric:
             self.scalefactor_orthog_funcform[1] = self.f1_of_xx1_funcform
             self.scalefactor_orthog_funcform[2] = self.f3_of_xx2_funcform
 
+        else:
+            raise ValueError(
+                f"Cartesian-like CoordSystem == {self.CoordSystem} unrecognized"
+            )
+
         # Set the transpose of the matrix of unit vectors
         self.UnitVectors = [
             [sp.sympify(1), sp.sympify(0), sp.sympify(0)],
@@ -797,7 +806,15 @@ class ReferenceMetric:
         ]
 
     def spherical_wedge_like(self) -> None:
-        """Initialize class for Spherical wedge-like coordinate systems."""
+        """
+        Initialize class for Spherical wedge-like coordinate systems.
+
+        :raises ValueError: If an unrecognized Spherical wedge-like coordinate system is specified.
+        """
+        if self.CoordSystem not in ("UWedgeHSinhSph", "LWedgeHSinhSph"):
+            raise ValueError(
+                f"Spherical wedge-like CoordSystem == {self.CoordSystem} unrecognized"
+            )
         # Definitions:
         # * UWHSinhSpherical = Upper-wedge HoleySinhSpherical
         # * LWHSinhSpherical = Lower-wedge HoleySinhSpherical
@@ -957,7 +974,11 @@ class ReferenceMetric:
             self.Cart_to_xx[0] = sp.sqrt(self.Cartx**2 + self.Carty**2 + self.Cartz**2)
             self.Cart_to_xx[1] = sp.acos(self.Cartz / self.Cart_to_xx[0])
             self.Cart_to_xx[2] = sp.atan2(self.Carty, self.Cartx)
-        elif self.CoordSystem.endswith("SinhSpherical"):
+        elif self.CoordSystem in (
+            "SinhSpherical",
+            "HoleySinhSpherical",
+            "RingHoleySinhSpherical",
+        ):
             AMPL = par.register_CodeParameter(
                 "REAL",
                 self.CodeParam_modulename,
-- 
2.43.0


From 7a7283b0da4b44a267857795b07c8ddfe54ce43d Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 07:06:58 +0000
Subject: [PATCH 39/42] fix: superB: refuse an unknown outer_bcs_type

Any value other than radiation and extrapolation silently generated a time
step that exchanges no boundary data.
---
 nrpy/infrastructures/superB/timestepping_chare.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nrpy/infrastructures/superB/timestepping_chare.py b/nrpy/infrastructures/superB/timestepping_chare.py
index 3fab66a..099f6f9 100644
--- a/nrpy/infrastructures/superB/timestepping_chare.py
+++ b/nrpy/infrastructures/superB/timestepping_chare.py
@@ -79,7 +79,13 @@ def generate_mol_step_forward_code(
     :param post_rhs_output_list: List of outputs for post-RHS expressions.
     :param outer_bcs_type: type of outer boundary BCs to apply. Only options are radiation or extrapolation in superB.
     :return: Code for MoL step forward in time.
+    :raises ValueError: If outer_bcs_type is neither radiation nor extrapolation.
     """
+    if outer_bcs_type not in ("radiation", "extrapolation"):
+        raise ValueError(
+            f"outer_bcs_type = {outer_bcs_type} not supported. Choose radiation or extrapolation."
+        )
+
     return_str = f"""
     serial{{
         MoL_step_forward_in_time(&commondata, griddata_chare, time_start, {rk_substep},  MOL_PRE_RK_UPDATE);
-- 
2.43.0


From eb58424968342c733fc1bbdaab799bf30f286379 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 07:50:27 +0000
Subject: [PATCH 40/42] fix: superB: 1d/2d diagnostic records overflowed their
 fixed length for three-digit exponents, nan and integers

---
 .../output_0d_1d_2d_nearest_gridpoint_slices.py  | 16 ++++++++--------
 .../infrastructures/superB/timestepping_chare.py |  2 +-
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/nrpy/infrastructures/superB/output_0d_1d_2d_nearest_gridpoint_slices.py b/nrpy/infrastructures/superB/output_0d_1d_2d_nearest_gridpoint_slices.py
index e349752..86b46a6 100644
--- a/nrpy/infrastructures/superB/output_0d_1d_2d_nearest_gridpoint_slices.py
+++ b/nrpy/infrastructures/superB/output_0d_1d_2d_nearest_gridpoint_slices.py
@@ -204,12 +204,12 @@ for (int which_pt = 0; which_pt < num_diagnostic_pts; which_pt++) {{
   REAL xCart[3];
   xx_to_Cart(commondata, params, xx, i0, i1, i2, xCart);
   const REAL xCart_axis = {'xCart[1];' if axis == "y" else 'xCart[2];'}
-  int sizeinbytes = 23 * (diagnosticstruct->num_output_quantities + 1);
+  int sizeinbytes = 24 * (diagnosticstruct->num_output_quantities + 1);
   char out[sizeinbytes+1];
   snprintf(out, sizeof(out),"""
-    output_to_file = """ "% .15e """
+    output_to_file = """ "% 23.15e """
     for key in out_quantities_dict.keys():
-        printf_c_type = "% .15e" if key[0] != "int" else "%d"
+        printf_c_type = "% 23.15e" if key[0] != "int" else "%23d"
         output_to_file += f"{printf_c_type} "
 
     output_to_file = f'{output_to_file[:-1]}\\n", xCart_axis, '
@@ -284,12 +284,12 @@ for (int which_pt = 0; which_pt < num_diagnostic_pts; which_pt++) {{
   const int i2 = i2_diagnostic_pt[which_pt];
   REAL xCart[3];
   xx_to_Cart(commondata, params, xx, i0, i1, i2, xCart);
-  int sizeinbytes = 23 * (diagnosticstruct->num_output_quantities + 2);
+  int sizeinbytes = 24 * (diagnosticstruct->num_output_quantities + 2);
   char out[sizeinbytes+1];
   snprintf(out, sizeof(out),"""
-    output_to_file = """ "% .15e % .15e """
+    output_to_file = """ "% 23.15e % 23.15e """
     for key in out_quantities_dict.keys():
-        printf_c_type = "% .15e" if key[0] != "int" else "%d"
+        printf_c_type = "% 23.15e" if key[0] != "int" else "%23d"
         output_to_file += f"{printf_c_type} "
 
     if plane == "xy":
@@ -402,7 +402,7 @@ diagnosticstruct->locali2_diagnostic_1d_{axis}_pt = (int *restrict)malloc(sizeof
 diagnosticstruct->offset_diagnostic_1d_{axis}_pt = (int *restrict)malloc(sizeof(int) * num_diagnostics_chare);
 
 // compute offset in bytes for first field for each diagnostic pt
-int sizeinbytes = 23 * (diagnosticstruct->num_output_quantities + 1);
+int sizeinbytes = 24 * (diagnosticstruct->num_output_quantities + 1);
 int which_diagnostics_chare = 0;
 int which_diagnostic_global = 0;
 for (int i = 0; i < data_index; i++) {{
@@ -516,7 +516,7 @@ diagnosticstruct->locali2_diagnostic_2d_{plane}_pt = (int *restrict)malloc(sizeo
 diagnosticstruct->localidx3_diagnostic_2d_{plane}_pt = (int *restrict)malloc(sizeof(int) * num_diagnostics_chare);
 diagnosticstruct->offset_diagnostic_2d_{plane}_pt = (int *restrict)malloc(sizeof(int) * num_diagnostics_chare);
 // compute offset in bytes for first field for each diagnostic pt
-int sizeinbytes = 23 * (diagnosticstruct->num_output_quantities + 2);
+int sizeinbytes = 24 * (diagnosticstruct->num_output_quantities + 2);
 
 int which_diagnostics_chare = 0;
 int which_diagnostic_global = 0;
diff --git a/nrpy/infrastructures/superB/timestepping_chare.py b/nrpy/infrastructures/superB/timestepping_chare.py
index 099f6f9..e4d4658 100644
--- a/nrpy/infrastructures/superB/timestepping_chare.py
+++ b/nrpy/infrastructures/superB/timestepping_chare.py
@@ -200,7 +200,7 @@ def generate_diagnostics_code(
         CkCallback sessionEnd_{dimension}_{direction}(CkIndex_Timestepping::test_written_{dimension}_{direction}(0), thisProxy);
         int num_fields = {num_fields};
         int tot_num_diagnostic_pts = {tot_num_diagnostic_pts};
-        int totsizeinbytes = 23 * num_fields * tot_num_diagnostic_pts;
+        int totsizeinbytes = 24 * num_fields * tot_num_diagnostic_pts;
         Ck::IO::startSession(f_{dimension}_{direction}, totsizeinbytes, 0, sessionStart_{dimension}_{direction}, sessionEnd_{dimension}_{direction});
         delete m_{dimension}_{direction};
         }}
-- 
2.43.0


From 7f8caaec3549a175aa2b16d0fd2a3cc70e466f73 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 07:50:48 +0000
Subject: [PATCH 41/42] fix: superB: xxmax of a chare's grid lay a whole grid
 minus one chare beyond its last point

---
 nrpy/infrastructures/superB/numerical_grids.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nrpy/infrastructures/superB/numerical_grids.py b/nrpy/infrastructures/superB/numerical_grids.py
index 59c7c59..65a51de 100644
--- a/nrpy/infrastructures/superB/numerical_grids.py
+++ b/nrpy/infrastructures/superB/numerical_grids.py
@@ -75,10 +75,10 @@ params_chare->Nxx_plus_2NGHOSTS2 = params_chare->Nxx2 + 2*NGHOSTS;
         body += f"params_chare->{key} = {value};\n"
 
     body += "\n// Set xxmin, xxmax\n"
-    for minmax in ["min", "max"]:
+    for minmax, chare_offset in [("min", ""), ("max", " + 1")]:
         for dirn in range(3):
             param_dir = f"params_chare->xx{minmax}{dirn}"
-            body += f"{param_dir} = params->xx{minmax}{dirn} + (params->dxx{dirn} * (REAL)(params_chare->Nxx{dirn} * chare_index[{dirn}]));\n"
+            body += f"{param_dir} = params->xxmin{dirn} + (params->dxx{dirn} * (REAL)(params_chare->Nxx{dirn} * (chare_index[{dirn}]{chare_offset})));\n"
 
     body += r"""
 
-- 
2.43.0


From 824702ca598b0afd145808f91bbfeaa19ebbc491 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 08:28:45 +0000
Subject: [PATCH 42/42] fix: superB: z-axis output of RingHoleySinhSpherical
 printed points far off the axis

---
 .../superB/simple_loop_diagnostic.py               | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/nrpy/infrastructures/superB/simple_loop_diagnostic.py b/nrpy/infrastructures/superB/simple_loop_diagnostic.py
index a6ec095..ed45b83 100644
--- a/nrpy/infrastructures/superB/simple_loop_diagnostic.py
+++ b/nrpy/infrastructures/superB/simple_loop_diagnostic.py
@@ -74,10 +74,16 @@ def simple_loop_1D(
             i0_pts += [Nxx_plus_2NGHOSTS[0] / 2]
             i1_pts += [Nxx_plus_2NGHOSTS[1] / 2]
         elif "Spherical" in CoordSystem:
-            # z-axis == { th_min & th_max, phi_min  }
-            i1_pts += [NGHOSTS]
-            i1_pts += [Nxx_plus_2NGHOSTS[1] - NGHOSTS - 1]
-            i2_pts += [NGHOSTS]
+            if "Ring" in CoordSystem:
+                # NO POINTS ON Z AXIS
+                i0_pts += [-1]
+                i1_pts += [-1]
+                i2_pts += [-1]
+            else:
+                # z-axis == { th_min & th_max, phi_min  }
+                i1_pts += [NGHOSTS]
+                i1_pts += [Nxx_plus_2NGHOSTS[1] - NGHOSTS - 1]
+                i2_pts += [NGHOSTS]
         elif "Cylindrical" in CoordSystem:
             # Cylindrical: rho,phi,z
             # z-axis == { rho_min & phi_min }
-- 
2.43.0

