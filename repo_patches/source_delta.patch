From 5d9474b60f9f7b93af31e7f742b57626bf24a8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:08 +0000
Subject: [PATCH 01/10] fix: honour a customised integration method in the
 zero-Matsubara polarization defaults

The default zero-Matsubara gluon polarization functions replace the tolerance of
the default integration method with 1E-8 'unless the user customized the
integration method', but the check compared the current default method with
itself, so that set_default_tol_integral was silently ignored. Compare with the
initial defaults instead.
---
 qcd-sme/src/consts.rs                         | 11 ++++++--
 .../src/low_level/oneloop/thermal/gluon.rs    | 27 ++++++++++---------
 2 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/qcd-sme/src/consts.rs b/qcd-sme/src/consts.rs
index a747912..804c757 100644
--- a/qcd-sme/src/consts.rs
+++ b/qcd-sme/src/consts.rs
@@ -97,8 +97,11 @@ pub(crate) fn m_quark() -> R {
     unsafe { M_QUARK }
 }
 
+// The initial value of the default tolerance for numerical integrals.
+pub(crate) const DEFAULT_TOL_INTEGRAL: R = 1E-10;
+
 /// The default tolerance for numerical integrals.
-static mut TOL_INTEGRAL: R = 1E-10;
+static mut TOL_INTEGRAL: R = DEFAULT_TOL_INTEGRAL;
 
 /// Get the default tolerance for numerical integrals. Equals `1E-10` if never
 /// changed.
@@ -126,8 +129,12 @@ pub(crate) fn tol_integral() -> R {
     unsafe { TOL_INTEGRAL }
 }
 
+// The initial value of the default maximum number of iterations for numerical
+// integrals.
+pub(crate) const DEFAULT_MAX_ITER_INTEGRAL: u32 = 50;
+
 /// The default maximum number of iterations for numerical integrals.
-static mut MAX_ITER_INTEGRAL: u32 = 50;
+static mut MAX_ITER_INTEGRAL: u32 = DEFAULT_MAX_ITER_INTEGRAL;
 
 /// Get the default maximum number of iterations for numerical integrals.
 /// Equals `50` if never changed.
diff --git a/qcd-sme/src/low_level/oneloop/thermal/gluon.rs b/qcd-sme/src/low_level/oneloop/thermal/gluon.rs
index fe9890b..d2421c1 100644
--- a/qcd-sme/src/low_level/oneloop/thermal/gluon.rs
+++ b/qcd-sme/src/low_level/oneloop/thermal/gluon.rs
@@ -576,7 +576,8 @@ pub mod zero_matsubara {
         use super::inlines;
         use crate::common::thermal::inlines::fermi_momentum;
         use crate::consts::{
-            get_default_integration_method, matsubara_reg, max_iter_integral, tol_integral,
+            get_default_integration_method, matsubara_reg, DEFAULT_MAX_ITER_INTEGRAL,
+            DEFAULT_TOL_INTEGRAL,
         };
         use crate::{C, R};
         use peroxide::numerical::integral::{integrate, Integral};
@@ -764,10 +765,10 @@ pub mod zero_matsubara {
         // the error meaningfully, since the error due to EPS being non zero is larger
         // by at least two orders of magnitude (given the defaults at the time of writing).
         pub fn polarization_glue_l_thermal_part_landau(p: R, m: R, beta: R) -> R {
-            let (mut integral, dti) = (get_default_integration_method(), tol_integral());
+            let mut integral = get_default_integration_method();
             if let crate::Integral::G7K15(ti, mi) = integral {
                 #[allow(clippy::float_cmp)]
-                if ti == dti && mi == max_iter_integral() {
+                if ti == DEFAULT_TOL_INTEGRAL && mi == DEFAULT_MAX_ITER_INTEGRAL {
                     integral = crate::Integral::G7K15(DEFAULT_TOL_INT_REPL, mi);
                 }
             }
@@ -775,10 +776,10 @@ pub mod zero_matsubara {
         }
 
         pub fn polarization_glue_t_thermal_part_landau(p: R, m: R, beta: R) -> R {
-            let (mut integral, dti) = (get_default_integration_method(), tol_integral());
+            let mut integral = get_default_integration_method();
             if let crate::Integral::G7K15(ti, mi) = integral {
                 #[allow(clippy::float_cmp)]
-                if ti == dti && mi == max_iter_integral() {
+                if ti == DEFAULT_TOL_INTEGRAL && mi == DEFAULT_MAX_ITER_INTEGRAL {
                     integral = crate::Integral::G7K15(DEFAULT_TOL_INT_REPL, mi);
                 }
             }
@@ -786,10 +787,10 @@ pub mod zero_matsubara {
         }
 
         pub fn polarization_quark_l_thermal_part_landau(p: R, mq: R, beta: R, mu: R) -> R {
-            let (mut integral, dti) = (get_default_integration_method(), tol_integral());
+            let mut integral = get_default_integration_method();
             if let crate::Integral::G7K15(ti, mi) = integral {
                 #[allow(clippy::float_cmp)]
-                if ti == dti && mi == max_iter_integral() {
+                if ti == DEFAULT_TOL_INTEGRAL && mi == DEFAULT_MAX_ITER_INTEGRAL {
                     integral = crate::Integral::G7K15(DEFAULT_TOL_INT_REPL, mi);
                 }
             }
@@ -797,10 +798,10 @@ pub mod zero_matsubara {
         }
 
         pub fn polarization_quark_t_thermal_part_landau(p: R, mq: R, beta: R, mu: R) -> R {
-            let (mut integral, dti) = (get_default_integration_method(), tol_integral());
+            let mut integral = get_default_integration_method();
             if let crate::Integral::G7K15(ti, mi) = integral {
                 #[allow(clippy::float_cmp)]
-                if ti == dti && mi == max_iter_integral() {
+                if ti == DEFAULT_TOL_INTEGRAL && mi == DEFAULT_MAX_ITER_INTEGRAL {
                     integral = crate::Integral::G7K15(DEFAULT_TOL_INT_REPL, mi);
                 }
             }
@@ -808,10 +809,10 @@ pub mod zero_matsubara {
         }
 
         pub fn polarization_quark_l_thermal_part_zero_temp_landau(p: R, mq: R, mu: R) -> R {
-            let (mut integral, dti) = (get_default_integration_method(), tol_integral());
+            let mut integral = get_default_integration_method();
             if let crate::Integral::G7K15(ti, mi) = integral {
                 #[allow(clippy::float_cmp)]
-                if ti == dti && mi == max_iter_integral() {
+                if ti == DEFAULT_TOL_INTEGRAL && mi == DEFAULT_MAX_ITER_INTEGRAL {
                     integral = crate::Integral::G7K15(DEFAULT_TOL_INT_REPL, mi);
                 }
             }
@@ -819,10 +820,10 @@ pub mod zero_matsubara {
         }
 
         pub fn polarization_quark_t_thermal_part_zero_temp_landau(p: R, mq: R, mu: R) -> R {
-            let (mut integral, dti) = (get_default_integration_method(), tol_integral());
+            let mut integral = get_default_integration_method();
             if let crate::Integral::G7K15(ti, mi) = integral {
                 #[allow(clippy::float_cmp)]
-                if ti == dti && mi == max_iter_integral() {
+                if ti == DEFAULT_TOL_INTEGRAL && mi == DEFAULT_MAX_ITER_INTEGRAL {
                     integral = crate::Integral::G7K15(DEFAULT_TOL_INT_REPL, mi);
                 }
             }
-- 
2.43.0


From 74cc00457dc4e8e4b350ef85ccda6b7af9ebcce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:08 +0000
Subject: [PATCH 02/10] fix: classify points on a flat stretch of the phase
 boundary as confined

is_deconfined_phase compared chemical potentials as soon as it met a boundary
point at the requested temperature. When several consecutive boundary points
share that temperature (which happens, since critical temperatures are read off a
grid), or when the boundary is not monotonic, points on or below the boundary were
reported as deconfined. Comparing with the interpolated critical temperature
already covers the case.
---
 tc_long_prop/src/lib.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/tc_long_prop/src/lib.rs b/tc_long_prop/src/lib.rs
index 514948f..5d69fe8 100644
--- a/tc_long_prop/src/lib.rs
+++ b/tc_long_prop/src/lib.rs
@@ -159,16 +159,12 @@ pub fn is_deconfined_phase(mu: R, t: R, phase_boundary: &[(R, R)]) -> bool {
     }
 
     // We scan from lower to higher chemical potentials. If the chemical
-    // potentials match we compare temperatures, if the temperatures match
-    // we compare chemical potentials. Otherwise we interpolate (read below
-    // and compare temperatures.
+    // potentials match we compare temperatures. Otherwise we interpolate
+    // (read below) and compare temperatures.
     for (i, (mmu, tt)) in phase_boundary.iter().enumerate() {
         if *mmu == mu {
             return t > *tt;
         }
-        if *tt == t {
-            return mu > *mmu;
-        }
         if *mmu > mu {
             // mmu is the smallest chemical potential in our set greater than mu,
             // therefore mu0 must be the largest chemical potential in our set less
-- 
2.43.0


From 78b8a174668c83b7f9eb413d10c033b386ac9654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:23 +0000
Subject: [PATCH 03/10] fix: make FieldConfig evaluations follow its public
 fields

FieldConfig caches ratios derived from its public fields at construction time.
Since the fields can be modified afterwards, the cache could go stale and the
*_w_field_config functions silently used a mixture of old and new parameters.
Compute the ratios on the fly instead.
---
 qcd-sme/src/qcd/gluon.rs   |  8 ++++----
 qcd-sme/src/qcd/thermal.rs | 36 ++++++++++++------------------------
 qcd-sme/src/qcd/types.rs   | 19 ++++++++-----------
 3 files changed, 24 insertions(+), 39 deletions(-)

diff --git a/qcd-sme/src/qcd/gluon.rs b/qcd-sme/src/qcd/gluon.rs
index 11d6a28..7996602 100644
--- a/qcd-sme/src/qcd/gluon.rs
+++ b/qcd-sme/src/qcd/gluon.rs
@@ -357,7 +357,7 @@ pub(crate) mod inlines {
         let ln_s = s.ln();
         let ln_s_pl_1 = s_pl_1.ln();
         let mut res = ym_dressing_inv_landau_sep(s, ln_s, ln_s_pl_1, f0);
-        for qi in &config.quarks_internal {
+        for qi in config.quarks_internal() {
             let s_q = s / qi.mq_div_m_2;
             res += f_q(s_q) * qi.nf_div_nc;
         }
@@ -370,7 +370,7 @@ pub(crate) mod inlines {
         let ln_s = s.ln();
         let ln_s_pl_1 = s_pl_1.ln();
         let mut res = ym_dressing_inv_sep(s, ln_s, ln_s_pl_1, f0, xi);
-        for qi in &config.quarks_internal {
+        for qi in config.quarks_internal() {
             let s_q = s / qi.mq_div_m_2;
             res += f_q(s_q) * qi.nf_div_nc;
         }
@@ -407,7 +407,7 @@ pub(crate) mod inlines {
         let ln_s = s.ln();
         let ln_s_pl_1 = s_pl_1.ln();
         let mut res = ym_dressing_inv_landau_sep(s, ln_s, ln_s_pl_1, f0);
-        for qi in &config.quarks_internal {
+        for qi in config.quarks_internal() {
             let s_q = s / qi.mq_div_m_2;
             res += f_q_crossed(s_q) * qi.nf_div_nc;
         }
@@ -425,7 +425,7 @@ pub(crate) mod inlines {
         let ln_s = s.ln();
         let ln_s_pl_1 = s_pl_1.ln();
         let mut res = ym_dressing_inv_sep(s, ln_s, ln_s_pl_1, f0, xi);
-        for qi in &config.quarks_internal {
+        for qi in config.quarks_internal() {
             let s_q = s / qi.mq_div_m_2;
             res += f_q_crossed(s_q) * qi.nf_div_nc;
         }
diff --git a/qcd-sme/src/qcd/thermal.rs b/qcd-sme/src/qcd/thermal.rs
index 24efcff..601431a 100644
--- a/qcd-sme/src/qcd/thermal.rs
+++ b/qcd-sme/src/qcd/thermal.rs
@@ -108,8 +108,7 @@ pub mod gluon {
         let sdim = om * om + (p * p).into();
         let s = sdim / (m * m);
         let quark_contribution: C = config
-            .quarks_internal
-            .iter()
+            .quarks_internal()
             .map(|qi| {
                 gluon_thermal_parts::polarization_quark_l_thermal_part_landau(
                     om, p, qi.mq, beta, mu,
@@ -135,8 +134,7 @@ pub mod gluon {
         let sdim = om * om + p * p;
         let s = sdim / (m * m);
         let quark_contribution: C = config
-            .quarks_internal
-            .iter()
+            .quarks_internal()
             .map(|qi| {
                 gluon_thermal_parts::polarization_quark_t_thermal_part_landau(
                     om, p, qi.mq, beta, mu,
@@ -206,8 +204,7 @@ pub mod gluon {
         let sdim = om * om + (p * p).into();
         let s = sdim / (m * m);
         let quark_contribution: C = config
-            .quarks_internal
-            .iter()
+            .quarks_internal()
             .map(|qi| {
                 gluon_thermal_parts::polarization_quark_l_thermal_part_zero_temp_landau(
                     om, p, qi.mq, mu,
@@ -229,8 +226,7 @@ pub mod gluon {
         let sdim = om * om + p * p;
         let s = sdim / (m * m);
         let quark_contribution: C = config
-            .quarks_internal
-            .iter()
+            .quarks_internal()
             .map(|qi| {
                 gluon_thermal_parts::polarization_quark_t_thermal_part_zero_temp_landau(
                     om, p, qi.mq, mu,
@@ -470,8 +466,7 @@ pub mod zero_matsubara {
             let sdim = p * p;
             let s = sdim / (m * m);
             let quark_contribution: R = config
-                .quarks_internal
-                .iter()
+                .quarks_internal()
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_l_thermal_part_landau(
                         p, qi.mq, beta, mu,
@@ -496,8 +491,7 @@ pub mod zero_matsubara {
             let sdim = p * p;
             let s = sdim / (m * m);
             let quark_contribution: R = config
-                .quarks_internal
-                .iter()
+                .quarks_internal()
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_t_thermal_part_landau(
                         p, qi.mq, beta, mu,
@@ -560,8 +554,7 @@ pub mod zero_matsubara {
             let m = config.gluon;
             let s = p * p / (m * m);
             let quark_contribution: R = config
-                .quarks_internal
-                .iter()
+                .quarks_internal()
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_l_thermal_part_zero_temp_landau(
                         p, qi.mq, mu,
@@ -581,8 +574,7 @@ pub mod zero_matsubara {
             let m = config.gluon;
             let s = p * p / (m * m);
             let quark_contribution: R = config
-                .quarks_internal
-                .iter()
+                .quarks_internal()
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_t_thermal_part_zero_temp_landau(
                         p, qi.mq, mu,
@@ -741,8 +733,7 @@ pub mod zero_momentum {
             let sdim = om * om;
             let s = sdim / (m * m);
             let quark_contribution: C = config
-                .quarks_internal
-                .iter()
+                .quarks_internal()
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_l_thermal_part_landau(
                         om, qi.mq, beta, mu,
@@ -767,8 +758,7 @@ pub mod zero_momentum {
             let sdim = om * om;
             let s = sdim / (m * m);
             let quark_contribution: C = config
-                .quarks_internal
-                .iter()
+                .quarks_internal()
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_t_thermal_part_landau(
                         om, qi.mq, beta, mu,
@@ -832,8 +822,7 @@ pub mod zero_momentum {
             let sdim = om * om;
             let s = sdim / (m * m);
             let quark_contribution: C = config
-                .quarks_internal
-                .iter()
+                .quarks_internal()
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_l_thermal_part_zero_temp_landau(
                         om, qi.mq, mu,
@@ -854,8 +843,7 @@ pub mod zero_momentum {
             let sdim = om * om;
             let s = sdim / (m * m);
             let quark_contribution: C = config
-                .quarks_internal
-                .iter()
+                .quarks_internal()
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_t_thermal_part_zero_temp_landau(
                         om, qi.mq, mu,
diff --git a/qcd-sme/src/qcd/types.rs b/qcd-sme/src/qcd/types.rs
index c012499..0f3a5a3 100644
--- a/qcd-sme/src/qcd/types.rs
+++ b/qcd-sme/src/qcd/types.rs
@@ -11,22 +11,19 @@ pub struct FieldConfig {
     /// Quark mass configuration: number of quarks (`quarks[i].0`) with a given
     /// mass parameter (`quarks[i].1`).
     pub quarks: Vec<(NFTYPE, R)>,
-    // (nf, mq, nf/nc, mq/m)
-    pub(crate) quarks_internal: Vec<QuarkInternal>,
 }
 
 impl FieldConfig {
     pub fn new(nc: NCTYPE, gluon: R, quarks: Vec<(NFTYPE, R)>) -> Self {
-        let quarks_internal = quarks
+        Self { nc, gluon, quarks }
+    }
+
+    // Computed on the fly since the fields of the configuration are public and
+    // may change after construction.
+    pub(crate) fn quarks_internal(&self) -> impl Iterator<Item = QuarkInternal> + '_ {
+        self.quarks
             .iter()
-            .map(|&(nf, mq)| QuarkInternal::new(nc, gluon, nf, mq))
-            .collect();
-        Self {
-            nc,
-            gluon,
-            quarks,
-            quarks_internal,
-        }
+            .map(|&(nf, mq)| QuarkInternal::new(self.nc, self.gluon, nf, mq))
     }
 }
 
-- 
2.43.0


From 549096ded78055d409fb9b83c3e4f3fe8a740a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:51 +0000
Subject: [PATCH 04/10] fix: use the number of colors of the FieldConfig in the
 thermal functions

The thermal *_w_field_config functions took the number of colors of the quark
polarization from the global setting instead of the configuration, so they were
wrong for any configuration with a different number of colors and not thread-safe
with respect to set_number_of_colors. Thread the number of colors through the
quark polarization, and drop the corresponding build warning.
---
 qcd-sme/build.rs                              |   2 -
 .../src/low_level/oneloop/thermal/gluon.rs    | 473 +++++++++++++++---
 qcd-sme/src/qcd/thermal.rs                    |  48 +-
 3 files changed, 435 insertions(+), 88 deletions(-)

diff --git a/qcd-sme/build.rs b/qcd-sme/build.rs
index 4ebdef0..800b9e2 100644
--- a/qcd-sme/build.rs
+++ b/qcd-sme/build.rs
@@ -13,8 +13,6 @@ const CYTHON_HEADER_FILE: &str = "qcd_sme.pxd";
 const INCLUDE_GUARD: &str = "__QCD_SME_H__";
 
 fn main() {
-    println!("cargo::warning=There's a known bug in the *_w_field_config functions: you still have to call qcd_sme::consts::set_number_of_colors(nc) for nc != 3 and nf != 0. This bug also makes the functions not thread-safe with respect to a change of nc. I will eventually fix this but I'm too busy right now.");
-
     let crate_dir = path::PathBuf::from(env::var("CARGO_MANIFEST_DIR").unwrap());
     let mut target_dir = crate_dir.join("target");
     // This crate depends on other crates and it will be built last, by which
diff --git a/qcd-sme/src/low_level/oneloop/thermal/gluon.rs b/qcd-sme/src/low_level/oneloop/thermal/gluon.rs
index d2421c1..9cb0139 100644
--- a/qcd-sme/src/low_level/oneloop/thermal/gluon.rs
+++ b/qcd-sme/src/low_level/oneloop/thermal/gluon.rs
@@ -10,7 +10,8 @@ pub use native::*;
 mod native {
     use super::inlines;
     use crate::common::thermal::inlines::fermi_momentum;
-    use crate::consts::get_default_integration_method;
+    use crate::consts::{get_default_integration_method, nc};
+    use crate::types::NCTYPE;
     use crate::{Num, C, R};
     use peroxide::numerical::integral::{integrate, Integral};
 
@@ -42,7 +43,7 @@ mod native {
         beta: R,
         mu: R,
     ) -> C {
-        inlines::polarization_quark_l_thermal_part_landau_i(q, om, p, mq, beta, mu)
+        inlines::polarization_quark_l_thermal_part_landau_i(q, om, p, mq, beta, mu, nc())
     }
 
     pub fn polarization_quark_t_thermal_part_landau_i<T: Num>(
@@ -53,7 +54,7 @@ mod native {
         beta: R,
         mu: R,
     ) -> C {
-        inlines::polarization_quark_t_thermal_part_landau_i(q, om, p, mq, beta, mu)
+        inlines::polarization_quark_t_thermal_part_landau_i(q, om, p, mq, beta, mu, nc())
     }
 
     pub fn polarization_quark_l_thermal_part_zero_temp_landau_i<T: Num>(
@@ -63,7 +64,7 @@ mod native {
         mq: R,
         mu: R,
     ) -> C {
-        inlines::polarization_quark_l_thermal_part_zero_temp_landau_i(q, om, p, mq, mu)
+        inlines::polarization_quark_l_thermal_part_zero_temp_landau_i(q, om, p, mq, mu, nc())
     }
 
     pub fn polarization_quark_t_thermal_part_zero_temp_landau_i<T: Num>(
@@ -73,7 +74,7 @@ mod native {
         mq: R,
         mu: R,
     ) -> C {
-        inlines::polarization_quark_t_thermal_part_zero_temp_landau_i(q, om, p, mq, mu)
+        inlines::polarization_quark_t_thermal_part_zero_temp_landau_i(q, om, p, mq, mu, nc())
     }
 
     pub fn polarization_glue_l_thermal_part_landau_w_method<T1: Num, T2: Num>(
@@ -117,6 +118,18 @@ mod native {
         beta: R,
         mu: R,
         integral: Integral,
+    ) -> C {
+        polarization_quark_l_thermal_part_landau_w_method_w_nc(om, p, mq, beta, mu, integral, nc())
+    }
+
+    pub(crate) fn polarization_quark_l_thermal_part_landau_w_method_w_nc<T1: Num, T2: Num>(
+        om: T1,
+        p: T2,
+        mq: R,
+        beta: R,
+        mu: R,
+        integral: Integral,
+        nc: NCTYPE,
     ) -> C {
         integrate(
             |t| {
@@ -127,6 +140,7 @@ mod native {
                     mq,
                     beta,
                     mu,
+                    nc,
                 ) / (t * t)
             },
             (0., 1.),
@@ -141,6 +155,18 @@ mod native {
         beta: R,
         mu: R,
         integral: Integral,
+    ) -> C {
+        polarization_quark_t_thermal_part_landau_w_method_w_nc(om, p, mq, beta, mu, integral, nc())
+    }
+
+    pub(crate) fn polarization_quark_t_thermal_part_landau_w_method_w_nc<T: Num>(
+        om: T,
+        p: R,
+        mq: R,
+        beta: R,
+        mu: R,
+        integral: Integral,
+        nc: NCTYPE,
     ) -> C {
         integrate(
             |t| {
@@ -151,6 +177,7 @@ mod native {
                     mq,
                     beta,
                     mu,
+                    nc,
                 ) / (t * t)
             },
             (0., 1.),
@@ -164,12 +191,33 @@ mod native {
         mq: R,
         mu: R,
         integral: Integral,
+    ) -> C {
+        polarization_quark_l_thermal_part_zero_temp_landau_w_method_w_nc(
+            om,
+            p,
+            mq,
+            mu,
+            integral,
+            nc(),
+        )
+    }
+
+    pub(crate) fn polarization_quark_l_thermal_part_zero_temp_landau_w_method_w_nc<
+        T1: Num,
+        T2: Num,
+    >(
+        om: T1,
+        p: T2,
+        mq: R,
+        mu: R,
+        integral: Integral,
+        nc: NCTYPE,
     ) -> C {
         if mu.abs() < mq.abs() {
             return C::new(0., 0.);
         };
         integrate(
-            |q| inlines::polarization_quark_l_thermal_part_zero_temp_landau_i(q, om, p, mq, mu),
+            |q| inlines::polarization_quark_l_thermal_part_zero_temp_landau_i(q, om, p, mq, mu, nc),
             (0., fermi_momentum(mq, mu)),
             integral,
         )
@@ -181,12 +229,30 @@ mod native {
         mq: R,
         mu: R,
         integral: Integral,
+    ) -> C {
+        polarization_quark_t_thermal_part_zero_temp_landau_w_method_w_nc(
+            om,
+            p,
+            mq,
+            mu,
+            integral,
+            nc(),
+        )
+    }
+
+    pub(crate) fn polarization_quark_t_thermal_part_zero_temp_landau_w_method_w_nc<T: Num>(
+        om: T,
+        p: R,
+        mq: R,
+        mu: R,
+        integral: Integral,
+        nc: NCTYPE,
     ) -> C {
         if mu.abs() < mq.abs() {
             return C::new(0., 0.);
         };
         integrate(
-            |q| inlines::polarization_quark_t_thermal_part_zero_temp_landau_i(q, om, p, mq, mu),
+            |q| inlines::polarization_quark_t_thermal_part_zero_temp_landau_i(q, om, p, mq, mu, nc),
             (0., fermi_momentum(mq, mu)),
             integral,
         )
@@ -224,13 +290,25 @@ mod native {
         beta: R,
         mu: R,
     ) -> C {
-        polarization_quark_l_thermal_part_landau_w_method(
+        polarization_quark_l_thermal_part_landau_w_nc(om, p, mq, beta, mu, nc())
+    }
+
+    pub(crate) fn polarization_quark_l_thermal_part_landau_w_nc<T1: Num, T2: Num>(
+        om: T1,
+        p: T2,
+        mq: R,
+        beta: R,
+        mu: R,
+        nc: NCTYPE,
+    ) -> C {
+        polarization_quark_l_thermal_part_landau_w_method_w_nc(
             om,
             p,
             mq,
             beta,
             mu,
             get_default_integration_method(),
+            nc,
         )
     }
 
@@ -241,13 +319,25 @@ mod native {
         beta: R,
         mu: R,
     ) -> C {
-        polarization_quark_t_thermal_part_landau_w_method(
+        polarization_quark_t_thermal_part_landau_w_nc(om, p, mq, beta, mu, nc())
+    }
+
+    pub(crate) fn polarization_quark_t_thermal_part_landau_w_nc<T: Num>(
+        om: T,
+        p: R,
+        mq: R,
+        beta: R,
+        mu: R,
+        nc: NCTYPE,
+    ) -> C {
+        polarization_quark_t_thermal_part_landau_w_method_w_nc(
             om,
             p,
             mq,
             beta,
             mu,
             get_default_integration_method(),
+            nc,
         )
     }
 
@@ -257,12 +347,23 @@ mod native {
         mq: R,
         mu: R,
     ) -> C {
-        polarization_quark_l_thermal_part_zero_temp_landau_w_method(
+        polarization_quark_l_thermal_part_zero_temp_landau_w_nc(om, p, mq, mu, nc())
+    }
+
+    pub(crate) fn polarization_quark_l_thermal_part_zero_temp_landau_w_nc<T1: Num, T2: Num>(
+        om: T1,
+        p: T2,
+        mq: R,
+        mu: R,
+        nc: NCTYPE,
+    ) -> C {
+        polarization_quark_l_thermal_part_zero_temp_landau_w_method_w_nc(
             om,
             p,
             mq,
             mu,
             get_default_integration_method(),
+            nc,
         )
     }
 
@@ -272,12 +373,23 @@ mod native {
         mq: R,
         mu: R,
     ) -> C {
-        polarization_quark_t_thermal_part_zero_temp_landau_w_method(
+        polarization_quark_t_thermal_part_zero_temp_landau_w_nc(om, p, mq, mu, nc())
+    }
+
+    pub(crate) fn polarization_quark_t_thermal_part_zero_temp_landau_w_nc<T: Num>(
+        om: T,
+        p: R,
+        mq: R,
+        mu: R,
+        nc: NCTYPE,
+    ) -> C {
+        polarization_quark_t_thermal_part_zero_temp_landau_w_method_w_nc(
             om,
             p,
             mq,
             mu,
             get_default_integration_method(),
+            nc,
         )
     }
 }
@@ -293,6 +405,7 @@ mod native {
 //   number (one function for real arguments, another for complex arguments).
 pub(crate) mod ffi {
     use super::inlines;
+    use crate::consts::nc;
     use crate::{C, R};
 
     pub use super::zero_matsubara::ffi::*;
@@ -329,7 +442,7 @@ pub(crate) mod ffi {
         beta: R,
         mu: R,
     ) -> C {
-        inlines::polarization_quark_l_thermal_part_landau_i(q, om, p, mq, beta, mu)
+        inlines::polarization_quark_l_thermal_part_landau_i(q, om, p, mq, beta, mu, nc())
     }
 
     #[no_mangle]
@@ -341,7 +454,7 @@ pub(crate) mod ffi {
         beta: R,
         mu: R,
     ) -> C {
-        inlines::polarization_quark_t_thermal_part_landau_i(q, om, p, mq, beta, mu)
+        inlines::polarization_quark_t_thermal_part_landau_i(q, om, p, mq, beta, mu, nc())
     }
 
     #[no_mangle]
@@ -352,7 +465,7 @@ pub(crate) mod ffi {
         mq: R,
         mu: R,
     ) -> C {
-        inlines::polarization_quark_l_thermal_part_zero_temp_landau_i(q, om, p, mq, mu)
+        inlines::polarization_quark_l_thermal_part_zero_temp_landau_i(q, om, p, mq, mu, nc())
     }
 
     #[no_mangle]
@@ -363,7 +476,7 @@ pub(crate) mod ffi {
         mq: R,
         mu: R,
     ) -> C {
-        inlines::polarization_quark_t_thermal_part_zero_temp_landau_i(q, om, p, mq, mu)
+        inlines::polarization_quark_t_thermal_part_zero_temp_landau_i(q, om, p, mq, mu, nc())
     }
 }
 
@@ -377,8 +490,8 @@ pub(crate) mod inlines {
     use crate::common::thermal::inlines::{
         fermi_distribution_double, fermi_distribution_double_zero_temp,
     };
-    use crate::consts::nc;
     use crate::low_level::oneloop::thermal::*;
+    use crate::types::NCTYPE;
     use crate::{Num, C, I, R};
     use std::f64::consts::PI;
 
@@ -480,6 +593,7 @@ pub(crate) mod inlines {
         mq: R,
         beta: R,
         mu: R,
+        nc: NCTYPE,
     ) -> C {
         let p2 = p * p;
         let s = om * om + p2.into();
@@ -488,7 +602,7 @@ pub(crate) mod inlines {
         let tl_opp = tlog_same_mass(q, -om, p, en);
         let t1 = (s - en * en * 4. + om * 4. * I * en) * tl;
         let t1_opp = (s - en * en * 4. - om * 4. * I * en) * tl_opp;
-        -(p2 * en * (nc() as R) * 2. * PI2).inv()
+        -(p2 * en * (nc as R) * 2. * PI2).inv()
             * fermi_distribution_double(en, beta, mu)
             * s
             * q
@@ -504,6 +618,7 @@ pub(crate) mod inlines {
         mq: R,
         beta: R,
         mu: R,
+        nc: NCTYPE,
     ) -> C {
         let p2 = p * p;
         let om2 = om * om;
@@ -517,7 +632,7 @@ pub(crate) mod inlines {
         let tl_opp = tlog_same_mass(q, -om, p, en);
         let t1 = (b - c) * tl;
         let t1_opp = (b + c) * tl_opp;
-        -fermi_distribution_double(en, beta, mu) * q2 / (p2 * en * (nc() as R) * 4. * PI2)
+        -fermi_distribution_double(en, beta, mu) * q2 / (p2 * en * (nc as R) * 4. * PI2)
             * (a - (t1 + t1_opp) / (8. * q * p))
     }
 
@@ -528,6 +643,7 @@ pub(crate) mod inlines {
         p: T2,
         mq: R,
         mu: R,
+        nc: NCTYPE,
     ) -> C {
         let p2 = p * p;
         let s = om * om + p2.into();
@@ -536,7 +652,7 @@ pub(crate) mod inlines {
         let tl_opp = tlog_same_mass(q, -om, p, en);
         let t1 = (s - en * en * 4. + om * 4. * I * en) * tl;
         let t1_opp = (s - en * en * 4. - om * 4. * I * en) * tl_opp;
-        -(p2 * en * (nc() as R) * 2. * PI2).inv()
+        -(p2 * en * (nc as R) * 2. * PI2).inv()
             * fermi_distribution_double_zero_temp(en, mu)
             * s
             * q
@@ -551,6 +667,7 @@ pub(crate) mod inlines {
         p: R,
         mq: R,
         mu: R,
+        nc: NCTYPE,
     ) -> C {
         let p2 = p * p;
         let om2 = om * om;
@@ -564,7 +681,7 @@ pub(crate) mod inlines {
         let tl_opp = tlog_same_mass(q, -om, p, en);
         let t1 = (b - c) * tl;
         let t1_opp = (b + c) * tl_opp;
-        -fermi_distribution_double_zero_temp(en, mu) * q2 / (p2 * en * (nc() as R) * 4. * PI2)
+        -fermi_distribution_double_zero_temp(en, mu) * q2 / (p2 * en * (nc as R) * 4. * PI2)
             * (a - (t1 + t1_opp) / (8. * q * p))
     }
 }
@@ -576,9 +693,10 @@ pub mod zero_matsubara {
         use super::inlines;
         use crate::common::thermal::inlines::fermi_momentum;
         use crate::consts::{
-            get_default_integration_method, matsubara_reg, DEFAULT_MAX_ITER_INTEGRAL,
+            get_default_integration_method, matsubara_reg, nc, DEFAULT_MAX_ITER_INTEGRAL,
             DEFAULT_TOL_INTEGRAL,
         };
+        use crate::types::NCTYPE;
         use crate::{C, R};
         use peroxide::numerical::integral::{integrate, Integral};
 
@@ -593,19 +711,19 @@ pub mod zero_matsubara {
         }
 
         pub fn polarization_quark_l_thermal_part_landau_i(q: R, p: R, mq: R, beta: R, mu: R) -> R {
-            inlines::polarization_quark_l_thermal_part_landau_i(q, p, mq, beta, mu)
+            inlines::polarization_quark_l_thermal_part_landau_i(q, p, mq, beta, mu, nc())
         }
 
         pub fn polarization_quark_t_thermal_part_landau_i(q: R, p: R, mq: R, beta: R, mu: R) -> R {
-            inlines::polarization_quark_t_thermal_part_landau_i(q, p, mq, beta, mu)
+            inlines::polarization_quark_t_thermal_part_landau_i(q, p, mq, beta, mu, nc())
         }
 
         pub fn polarization_quark_l_thermal_part_zero_temp_landau_i(q: R, p: R, mq: R, mu: R) -> R {
-            inlines::polarization_quark_l_thermal_part_zero_temp_landau_i(q, p, mq, mu)
+            inlines::polarization_quark_l_thermal_part_zero_temp_landau_i(q, p, mq, mu, nc())
         }
 
         pub fn polarization_quark_t_thermal_part_zero_temp_landau_i(q: R, p: R, mq: R, mu: R) -> R {
-            inlines::polarization_quark_t_thermal_part_zero_temp_landau_i(q, p, mq, mu)
+            inlines::polarization_quark_t_thermal_part_zero_temp_landau_i(q, p, mq, mu, nc())
         }
 
         pub fn polarization_glue_l_thermal_part_landau_w_method(
@@ -666,6 +784,17 @@ pub mod zero_matsubara {
             beta: R,
             mu: R,
             integral: Integral,
+        ) -> R {
+            polarization_quark_l_thermal_part_landau_w_method_w_nc(p, mq, beta, mu, integral, nc())
+        }
+
+        pub(crate) fn polarization_quark_l_thermal_part_landau_w_method_w_nc(
+            p: R,
+            mq: R,
+            beta: R,
+            mu: R,
+            integral: Integral,
+            nc: NCTYPE,
         ) -> R {
             integrate(
                 |t| {
@@ -676,6 +805,7 @@ pub mod zero_matsubara {
                         mq,
                         beta,
                         mu,
+                        nc,
                     )
                     .re / (t * t)
                 },
@@ -690,6 +820,17 @@ pub mod zero_matsubara {
             beta: R,
             mu: R,
             integral: Integral,
+        ) -> R {
+            polarization_quark_t_thermal_part_landau_w_method_w_nc(p, mq, beta, mu, integral, nc())
+        }
+
+        pub(crate) fn polarization_quark_t_thermal_part_landau_w_method_w_nc(
+            p: R,
+            mq: R,
+            beta: R,
+            mu: R,
+            integral: Integral,
+            nc: NCTYPE,
         ) -> R {
             integrate(
                 |t| {
@@ -700,6 +841,7 @@ pub mod zero_matsubara {
                         mq,
                         beta,
                         mu,
+                        nc,
                     )
                     .re / (t * t)
                 },
@@ -713,6 +855,22 @@ pub mod zero_matsubara {
             mq: R,
             mu: R,
             integral: Integral,
+        ) -> R {
+            polarization_quark_l_thermal_part_zero_temp_landau_w_method_w_nc(
+                p,
+                mq,
+                mu,
+                integral,
+                nc(),
+            )
+        }
+
+        pub(crate) fn polarization_quark_l_thermal_part_zero_temp_landau_w_method_w_nc(
+            p: R,
+            mq: R,
+            mu: R,
+            integral: Integral,
+            nc: NCTYPE,
         ) -> R {
             if mu.abs() < mq.abs() {
                 return 0.;
@@ -725,6 +883,7 @@ pub mod zero_matsubara {
                         p,
                         mq,
                         mu,
+                        nc,
                     )
                     .re
                 },
@@ -738,6 +897,22 @@ pub mod zero_matsubara {
             mq: R,
             mu: R,
             integral: Integral,
+        ) -> R {
+            polarization_quark_t_thermal_part_zero_temp_landau_w_method_w_nc(
+                p,
+                mq,
+                mu,
+                integral,
+                nc(),
+            )
+        }
+
+        pub(crate) fn polarization_quark_t_thermal_part_zero_temp_landau_w_method_w_nc(
+            p: R,
+            mq: R,
+            mu: R,
+            integral: Integral,
+            nc: NCTYPE,
         ) -> R {
             if mu.abs() < mq.abs() {
                 return 0.;
@@ -750,6 +925,7 @@ pub mod zero_matsubara {
                         p,
                         mq,
                         mu,
+                        nc,
                     )
                     .re
                 },
@@ -787,6 +963,16 @@ pub mod zero_matsubara {
         }
 
         pub fn polarization_quark_l_thermal_part_landau(p: R, mq: R, beta: R, mu: R) -> R {
+            polarization_quark_l_thermal_part_landau_w_nc(p, mq, beta, mu, nc())
+        }
+
+        pub(crate) fn polarization_quark_l_thermal_part_landau_w_nc(
+            p: R,
+            mq: R,
+            beta: R,
+            mu: R,
+            nc: NCTYPE,
+        ) -> R {
             let mut integral = get_default_integration_method();
             if let crate::Integral::G7K15(ti, mi) = integral {
                 #[allow(clippy::float_cmp)]
@@ -794,10 +980,20 @@ pub mod zero_matsubara {
                     integral = crate::Integral::G7K15(DEFAULT_TOL_INT_REPL, mi);
                 }
             }
-            polarization_quark_l_thermal_part_landau_w_method(p, mq, beta, mu, integral)
+            polarization_quark_l_thermal_part_landau_w_method_w_nc(p, mq, beta, mu, integral, nc)
         }
 
         pub fn polarization_quark_t_thermal_part_landau(p: R, mq: R, beta: R, mu: R) -> R {
+            polarization_quark_t_thermal_part_landau_w_nc(p, mq, beta, mu, nc())
+        }
+
+        pub(crate) fn polarization_quark_t_thermal_part_landau_w_nc(
+            p: R,
+            mq: R,
+            beta: R,
+            mu: R,
+            nc: NCTYPE,
+        ) -> R {
             let mut integral = get_default_integration_method();
             if let crate::Integral::G7K15(ti, mi) = integral {
                 #[allow(clippy::float_cmp)]
@@ -805,10 +1001,19 @@ pub mod zero_matsubara {
                     integral = crate::Integral::G7K15(DEFAULT_TOL_INT_REPL, mi);
                 }
             }
-            polarization_quark_t_thermal_part_landau_w_method(p, mq, beta, mu, integral)
+            polarization_quark_t_thermal_part_landau_w_method_w_nc(p, mq, beta, mu, integral, nc)
         }
 
         pub fn polarization_quark_l_thermal_part_zero_temp_landau(p: R, mq: R, mu: R) -> R {
+            polarization_quark_l_thermal_part_zero_temp_landau_w_nc(p, mq, mu, nc())
+        }
+
+        pub(crate) fn polarization_quark_l_thermal_part_zero_temp_landau_w_nc(
+            p: R,
+            mq: R,
+            mu: R,
+            nc: NCTYPE,
+        ) -> R {
             let mut integral = get_default_integration_method();
             if let crate::Integral::G7K15(ti, mi) = integral {
                 #[allow(clippy::float_cmp)]
@@ -816,10 +1021,21 @@ pub mod zero_matsubara {
                     integral = crate::Integral::G7K15(DEFAULT_TOL_INT_REPL, mi);
                 }
             }
-            polarization_quark_l_thermal_part_zero_temp_landau_w_method(p, mq, mu, integral)
+            polarization_quark_l_thermal_part_zero_temp_landau_w_method_w_nc(
+                p, mq, mu, integral, nc,
+            )
         }
 
         pub fn polarization_quark_t_thermal_part_zero_temp_landau(p: R, mq: R, mu: R) -> R {
+            polarization_quark_t_thermal_part_zero_temp_landau_w_nc(p, mq, mu, nc())
+        }
+
+        pub(crate) fn polarization_quark_t_thermal_part_zero_temp_landau_w_nc(
+            p: R,
+            mq: R,
+            mu: R,
+            nc: NCTYPE,
+        ) -> R {
             let mut integral = get_default_integration_method();
             if let crate::Integral::G7K15(ti, mi) = integral {
                 #[allow(clippy::float_cmp)]
@@ -827,12 +1043,15 @@ pub mod zero_matsubara {
                     integral = crate::Integral::G7K15(DEFAULT_TOL_INT_REPL, mi);
                 }
             }
-            polarization_quark_t_thermal_part_zero_temp_landau_w_method(p, mq, mu, integral)
+            polarization_quark_t_thermal_part_zero_temp_landau_w_method_w_nc(
+                p, mq, mu, integral, nc,
+            )
         }
     }
 
     pub(crate) mod ffi {
         use super::inlines;
+        use crate::consts::nc;
         use crate::{C, R};
 
         #[no_mangle]
@@ -863,7 +1082,7 @@ pub mod zero_matsubara {
             beta: R,
             mu: R,
         ) -> R {
-            inlines::polarization_quark_l_thermal_part_landau_i(q, p, mq, beta, mu)
+            inlines::polarization_quark_l_thermal_part_landau_i(q, p, mq, beta, mu, nc())
         }
 
         #[no_mangle]
@@ -874,7 +1093,7 @@ pub mod zero_matsubara {
             beta: R,
             mu: R,
         ) -> R {
-            inlines::polarization_quark_t_thermal_part_landau_i(q, p, mq, beta, mu)
+            inlines::polarization_quark_t_thermal_part_landau_i(q, p, mq, beta, mu, nc())
         }
 
         #[no_mangle]
@@ -884,7 +1103,7 @@ pub mod zero_matsubara {
             mq: R,
             mu: R,
         ) -> R {
-            inlines::polarization_quark_l_thermal_part_zero_temp_landau_i(q, p, mq, mu)
+            inlines::polarization_quark_l_thermal_part_zero_temp_landau_i(q, p, mq, mu, nc())
         }
 
         #[no_mangle]
@@ -894,7 +1113,7 @@ pub mod zero_matsubara {
             mq: R,
             mu: R,
         ) -> R {
-            inlines::polarization_quark_t_thermal_part_zero_temp_landau_i(q, p, mq, mu)
+            inlines::polarization_quark_t_thermal_part_zero_temp_landau_i(q, p, mq, mu, nc())
         }
     }
 
@@ -903,12 +1122,12 @@ pub mod zero_matsubara {
         use crate::common::thermal::inlines::{
             fermi_distribution_double, fermi_distribution_double_zero_temp,
         };
-        use crate::consts::nc;
         use crate::low_level::oneloop::thermal::zero_matsubara::*;
         use crate::low_level::oneloop::thermal::{
             d2_j_m_i, d2_j_m_l_i, d2_j_m_t_i, d_j_m_i, d_j_m_l_i, d_j_m_t_i, j_0_i, j_0_l_i,
             j_0_t_i, j_m_i, j_m_l_i, j_m_t_i,
         };
+        use crate::types::NCTYPE;
         use crate::{C, R};
         use std::f64::consts::PI;
 
@@ -980,40 +1199,66 @@ pub mod zero_matsubara {
         }
 
         #[inline(always)]
-        pub fn polarization_quark_l_thermal_part_landau_i(q: R, p: R, mq: R, beta: R, mu: R) -> R {
+        pub fn polarization_quark_l_thermal_part_landau_i(
+            q: R,
+            p: R,
+            mq: R,
+            beta: R,
+            mu: R,
+            nc: NCTYPE,
+        ) -> R {
             let s = p * p;
             let en = energy(q, mq);
             let t1 = (en * en).mul_add(-4., s) / (4. * q * p) * tlog_same_mass(q, p);
-            -fermi_distribution_double(en, beta, mu) * q * q / (en * (nc() as R) * 2. * PI2)
+            -fermi_distribution_double(en, beta, mu) * q * q / (en * (nc as R) * 2. * PI2)
                 * (1. - t1)
         }
 
         #[inline(always)]
-        pub fn polarization_quark_t_thermal_part_landau_i(q: R, p: R, mq: R, beta: R, mu: R) -> R {
+        pub fn polarization_quark_t_thermal_part_landau_i(
+            q: R,
+            p: R,
+            mq: R,
+            beta: R,
+            mu: R,
+            nc: NCTYPE,
+        ) -> R {
             let p2 = p * p;
             let q2 = q * q;
             let en = energy(q, mq);
             let t1 = 4.0f64.mul_add(q2, p2) * tlog_same_mass(q, p);
-            -fermi_distribution_double(en, beta, mu) * q2 / (en * (nc() as R) * 4. * PI2)
+            -fermi_distribution_double(en, beta, mu) * q2 / (en * (nc as R) * 4. * PI2)
                 * (1. - t1 / (4. * q * p))
         }
 
         #[inline(always)]
-        pub fn polarization_quark_l_thermal_part_zero_temp_landau_i(q: R, p: R, mq: R, mu: R) -> R {
+        pub fn polarization_quark_l_thermal_part_zero_temp_landau_i(
+            q: R,
+            p: R,
+            mq: R,
+            mu: R,
+            nc: NCTYPE,
+        ) -> R {
             let s = p * p;
             let en = energy(q, mq);
             let t1 = (en * en).mul_add(-4., s) / (4. * q * p) * tlog_same_mass(q, p);
-            -fermi_distribution_double_zero_temp(en, mu) * q * q / (en * (nc() as R) * 2. * PI2)
+            -fermi_distribution_double_zero_temp(en, mu) * q * q / (en * (nc as R) * 2. * PI2)
                 * (1. - t1)
         }
 
         #[inline(always)]
-        pub fn polarization_quark_t_thermal_part_zero_temp_landau_i(q: R, p: R, mq: R, mu: R) -> R {
+        pub fn polarization_quark_t_thermal_part_zero_temp_landau_i(
+            q: R,
+            p: R,
+            mq: R,
+            mu: R,
+            nc: NCTYPE,
+        ) -> R {
             let p2 = p * p;
             let q2 = q * q;
             let en = energy(q, mq);
             let t1 = 4.0f64.mul_add(q2, p2) * tlog_same_mass(q, p);
-            -fermi_distribution_double_zero_temp(en, mu) * q2 / (en * (nc() as R) * 4. * PI2)
+            -fermi_distribution_double_zero_temp(en, mu) * q2 / (en * (nc as R) * 4. * PI2)
                 * (1. - t1 / (4. * q * p))
         }
     }
@@ -1025,7 +1270,8 @@ pub mod zero_momentum {
     mod native {
         use super::inlines;
         use crate::common::thermal::inlines::fermi_momentum;
-        use crate::consts::get_default_integration_method;
+        use crate::consts::{get_default_integration_method, nc};
+        use crate::types::NCTYPE;
         use crate::{Num, C, R};
         use peroxide::numerical::integral::{integrate, Integral};
 
@@ -1044,7 +1290,7 @@ pub mod zero_momentum {
             beta: R,
             mu: R,
         ) -> T {
-            inlines::polarization_quark_l_thermal_part_landau_i(q, om, mq, beta, mu)
+            inlines::polarization_quark_l_thermal_part_landau_i(q, om, mq, beta, mu, nc())
         }
 
         pub fn polarization_quark_t_thermal_part_landau_i<T: Num>(
@@ -1054,7 +1300,7 @@ pub mod zero_momentum {
             beta: R,
             mu: R,
         ) -> T {
-            inlines::polarization_quark_t_thermal_part_landau_i(q, om, mq, beta, mu)
+            inlines::polarization_quark_t_thermal_part_landau_i(q, om, mq, beta, mu, nc())
         }
 
         pub fn polarization_quark_l_thermal_part_zero_temp_landau_i<T: Num>(
@@ -1063,7 +1309,7 @@ pub mod zero_momentum {
             mq: R,
             mu: R,
         ) -> T {
-            inlines::polarization_quark_l_thermal_part_zero_temp_landau_i(q, om, mq, mu)
+            inlines::polarization_quark_l_thermal_part_zero_temp_landau_i(q, om, mq, mu, nc())
         }
 
         pub fn polarization_quark_t_thermal_part_zero_temp_landau_i<T: Num>(
@@ -1072,7 +1318,7 @@ pub mod zero_momentum {
             mq: R,
             mu: R,
         ) -> T {
-            inlines::polarization_quark_t_thermal_part_zero_temp_landau_i(q, om, mq, mu)
+            inlines::polarization_quark_t_thermal_part_zero_temp_landau_i(q, om, mq, mu, nc())
         }
 
         pub fn polarization_glue_l_thermal_part_landau_w_method<T: Num>(
@@ -1113,6 +1359,17 @@ pub mod zero_momentum {
             beta: R,
             mu: R,
             integral: Integral,
+        ) -> C {
+            polarization_quark_l_thermal_part_landau_w_method_w_nc(om, mq, beta, mu, integral, nc())
+        }
+
+        pub(crate) fn polarization_quark_l_thermal_part_landau_w_method_w_nc<T: Num>(
+            om: T,
+            mq: R,
+            beta: R,
+            mu: R,
+            integral: Integral,
+            nc: NCTYPE,
         ) -> C {
             integrate(
                 |t| {
@@ -1122,6 +1379,7 @@ pub mod zero_momentum {
                         mq,
                         beta,
                         mu,
+                        nc,
                     )
                     .into()
                         / (t * t)
@@ -1137,6 +1395,17 @@ pub mod zero_momentum {
             beta: R,
             mu: R,
             integral: Integral,
+        ) -> C {
+            polarization_quark_t_thermal_part_landau_w_method_w_nc(om, mq, beta, mu, integral, nc())
+        }
+
+        pub(crate) fn polarization_quark_t_thermal_part_landau_w_method_w_nc<T: Num>(
+            om: T,
+            mq: R,
+            beta: R,
+            mu: R,
+            integral: Integral,
+            nc: NCTYPE,
         ) -> C {
             integrate(
                 |t| {
@@ -1146,6 +1415,7 @@ pub mod zero_momentum {
                         mq,
                         beta,
                         mu,
+                        nc,
                     )
                     .into()
                         / (t * t)
@@ -1160,13 +1430,29 @@ pub mod zero_momentum {
             mq: R,
             mu: R,
             integral: Integral,
+        ) -> C {
+            polarization_quark_l_thermal_part_zero_temp_landau_w_method_w_nc(
+                om,
+                mq,
+                mu,
+                integral,
+                nc(),
+            )
+        }
+
+        pub(crate) fn polarization_quark_l_thermal_part_zero_temp_landau_w_method_w_nc<T: Num>(
+            om: T,
+            mq: R,
+            mu: R,
+            integral: Integral,
+            nc: NCTYPE,
         ) -> C {
             if mu.abs() < mq.abs() {
                 return C::new(0., 0.);
             };
             integrate(
                 |q| {
-                    inlines::polarization_quark_l_thermal_part_zero_temp_landau_i(q, om, mq, mu)
+                    inlines::polarization_quark_l_thermal_part_zero_temp_landau_i(q, om, mq, mu, nc)
                         .into()
                 },
                 (0., fermi_momentum(mq, mu)),
@@ -1179,13 +1465,29 @@ pub mod zero_momentum {
             mq: R,
             mu: R,
             integral: Integral,
+        ) -> C {
+            polarization_quark_t_thermal_part_zero_temp_landau_w_method_w_nc(
+                om,
+                mq,
+                mu,
+                integral,
+                nc(),
+            )
+        }
+
+        pub(crate) fn polarization_quark_t_thermal_part_zero_temp_landau_w_method_w_nc<T: Num>(
+            om: T,
+            mq: R,
+            mu: R,
+            integral: Integral,
+            nc: NCTYPE,
         ) -> C {
             if mu.abs() < mq.abs() {
                 return C::new(0., 0.);
             };
             integrate(
                 |q| {
-                    inlines::polarization_quark_t_thermal_part_zero_temp_landau_i(q, om, mq, mu)
+                    inlines::polarization_quark_t_thermal_part_zero_temp_landau_i(q, om, mq, mu, nc)
                         .into()
                 },
                 (0., fermi_momentum(mq, mu)),
@@ -1212,22 +1514,44 @@ pub mod zero_momentum {
         }
 
         pub fn polarization_quark_l_thermal_part_landau<T: Num>(om: T, mq: R, beta: R, mu: R) -> C {
-            polarization_quark_l_thermal_part_landau_w_method(
+            polarization_quark_l_thermal_part_landau_w_nc(om, mq, beta, mu, nc())
+        }
+
+        pub(crate) fn polarization_quark_l_thermal_part_landau_w_nc<T: Num>(
+            om: T,
+            mq: R,
+            beta: R,
+            mu: R,
+            nc: NCTYPE,
+        ) -> C {
+            polarization_quark_l_thermal_part_landau_w_method_w_nc(
                 om,
                 mq,
                 beta,
                 mu,
                 get_default_integration_method(),
+                nc,
             )
         }
 
         pub fn polarization_quark_t_thermal_part_landau<T: Num>(om: T, mq: R, beta: R, mu: R) -> C {
-            polarization_quark_t_thermal_part_landau_w_method(
+            polarization_quark_t_thermal_part_landau_w_nc(om, mq, beta, mu, nc())
+        }
+
+        pub(crate) fn polarization_quark_t_thermal_part_landau_w_nc<T: Num>(
+            om: T,
+            mq: R,
+            beta: R,
+            mu: R,
+            nc: NCTYPE,
+        ) -> C {
+            polarization_quark_t_thermal_part_landau_w_method_w_nc(
                 om,
                 mq,
                 beta,
                 mu,
                 get_default_integration_method(),
+                nc,
             )
         }
 
@@ -1236,11 +1560,21 @@ pub mod zero_momentum {
             mq: R,
             mu: R,
         ) -> C {
-            polarization_quark_l_thermal_part_zero_temp_landau_w_method(
+            polarization_quark_l_thermal_part_zero_temp_landau_w_nc(om, mq, mu, nc())
+        }
+
+        pub(crate) fn polarization_quark_l_thermal_part_zero_temp_landau_w_nc<T: Num>(
+            om: T,
+            mq: R,
+            mu: R,
+            nc: NCTYPE,
+        ) -> C {
+            polarization_quark_l_thermal_part_zero_temp_landau_w_method_w_nc(
                 om,
                 mq,
                 mu,
                 get_default_integration_method(),
+                nc,
             )
         }
 
@@ -1249,17 +1583,28 @@ pub mod zero_momentum {
             mq: R,
             mu: R,
         ) -> C {
-            polarization_quark_t_thermal_part_zero_temp_landau_w_method(
+            polarization_quark_t_thermal_part_zero_temp_landau_w_nc(om, mq, mu, nc())
+        }
+
+        pub(crate) fn polarization_quark_t_thermal_part_zero_temp_landau_w_nc<T: Num>(
+            om: T,
+            mq: R,
+            mu: R,
+            nc: NCTYPE,
+        ) -> C {
+            polarization_quark_t_thermal_part_zero_temp_landau_w_method_w_nc(
                 om,
                 mq,
                 mu,
                 get_default_integration_method(),
+                nc,
             )
         }
     }
 
     pub(crate) mod ffi {
         use super::inlines;
+        use crate::consts::nc;
         use crate::{C, R};
 
         #[no_mangle]
@@ -1290,7 +1635,7 @@ pub mod zero_momentum {
             beta: R,
             mu: R,
         ) -> R {
-            inlines::polarization_quark_l_thermal_part_landau_i(q, om, mq, beta, mu)
+            inlines::polarization_quark_l_thermal_part_landau_i(q, om, mq, beta, mu, nc())
         }
 
         #[no_mangle]
@@ -1301,7 +1646,7 @@ pub mod zero_momentum {
             beta: R,
             mu: R,
         ) -> R {
-            inlines::polarization_quark_t_thermal_part_landau_i(q, om, mq, beta, mu)
+            inlines::polarization_quark_t_thermal_part_landau_i(q, om, mq, beta, mu, nc())
         }
 
         #[no_mangle]
@@ -1311,7 +1656,7 @@ pub mod zero_momentum {
             mq: R,
             mu: R,
         ) -> R {
-            inlines::polarization_quark_l_thermal_part_zero_temp_landau_i(q, om, mq, mu)
+            inlines::polarization_quark_l_thermal_part_zero_temp_landau_i(q, om, mq, mu, nc())
         }
 
         #[no_mangle]
@@ -1321,7 +1666,7 @@ pub mod zero_momentum {
             mq: R,
             mu: R,
         ) -> R {
-            inlines::polarization_quark_t_thermal_part_zero_temp_landau_i(q, om, mq, mu)
+            inlines::polarization_quark_t_thermal_part_zero_temp_landau_i(q, om, mq, mu, nc())
         }
     }
 
@@ -1330,11 +1675,11 @@ pub mod zero_momentum {
         use crate::common::thermal::inlines::{
             fermi_distribution_double, fermi_distribution_double_zero_temp,
         };
-        use crate::consts::nc;
         use crate::low_level::oneloop::thermal::zero_momentum::*;
         use crate::low_level::oneloop::thermal::{
             d2_j_m_i, d2_j_m_t_i, d_j_m_i, d_j_m_t_i, j_0_i, j_0_t_i, j_m_i, j_m_t_i,
         };
+        use crate::types::NCTYPE;
         use crate::{Num, C, R};
         use std::f64::consts::PI;
 
@@ -1387,12 +1732,13 @@ pub mod zero_momentum {
             mq: R,
             beta: R,
             mu: R,
+            nc: NCTYPE,
         ) -> T {
             let en = energy(q, mq);
             let en2 = en * en;
             let q2 = q * q;
 
-            ((om * om + 4. * en2) * en * 3. * PI2 * (nc() as R)).inv()
+            ((om * om + 4. * en2) * en * 3. * PI2 * (nc as R)).inv()
                 * 2.
                 * fermi_distribution_double(en, beta, mu)
                 * q2
@@ -1406,8 +1752,9 @@ pub mod zero_momentum {
             mq: R,
             beta: R,
             mu: R,
+            nc: NCTYPE,
         ) -> T {
-            polarization_quark_l_thermal_part_landau_i(q, om, mq, beta, mu)
+            polarization_quark_l_thermal_part_landau_i(q, om, mq, beta, mu, nc)
         }
 
         #[inline(always)]
@@ -1416,12 +1763,13 @@ pub mod zero_momentum {
             om: T,
             mq: R,
             mu: R,
+            nc: NCTYPE,
         ) -> T {
             let en = energy(q, mq);
             let en2 = en * en;
             let q2 = q * q;
 
-            ((om * om + 4. * en2) * en * 3. * PI2 * (nc() as R)).inv()
+            ((om * om + 4. * en2) * en * 3. * PI2 * (nc as R)).inv()
                 * 2.
                 * fermi_distribution_double_zero_temp(en, mu)
                 * q2
@@ -1434,8 +1782,9 @@ pub mod zero_momentum {
             om: T,
             mq: R,
             mu: R,
+            nc: NCTYPE,
         ) -> T {
-            polarization_quark_l_thermal_part_zero_temp_landau_i(q, om, mq, mu)
+            polarization_quark_l_thermal_part_zero_temp_landau_i(q, om, mq, mu, nc)
         }
     }
 }
diff --git a/qcd-sme/src/qcd/thermal.rs b/qcd-sme/src/qcd/thermal.rs
index 601431a..39fce42 100644
--- a/qcd-sme/src/qcd/thermal.rs
+++ b/qcd-sme/src/qcd/thermal.rs
@@ -110,8 +110,8 @@ pub mod gluon {
         let quark_contribution: C = config
             .quarks_internal()
             .map(|qi| {
-                gluon_thermal_parts::polarization_quark_l_thermal_part_landau(
-                    om, p, qi.mq, beta, mu,
+                gluon_thermal_parts::polarization_quark_l_thermal_part_landau_w_nc(
+                    om, p, qi.mq, beta, mu, config.nc,
                 ) * (qi.nf as R)
             })
             .sum();
@@ -136,8 +136,8 @@ pub mod gluon {
         let quark_contribution: C = config
             .quarks_internal()
             .map(|qi| {
-                gluon_thermal_parts::polarization_quark_t_thermal_part_landau(
-                    om, p, qi.mq, beta, mu,
+                gluon_thermal_parts::polarization_quark_t_thermal_part_landau_w_nc(
+                    om, p, qi.mq, beta, mu, config.nc,
                 ) * (qi.nf as R)
             })
             .sum();
@@ -206,8 +206,8 @@ pub mod gluon {
         let quark_contribution: C = config
             .quarks_internal()
             .map(|qi| {
-                gluon_thermal_parts::polarization_quark_l_thermal_part_zero_temp_landau(
-                    om, p, qi.mq, mu,
+                gluon_thermal_parts::polarization_quark_l_thermal_part_zero_temp_landau_w_nc(
+                    om, p, qi.mq, mu, config.nc,
                 ) * (qi.nf as R)
             })
             .sum();
@@ -228,8 +228,8 @@ pub mod gluon {
         let quark_contribution: C = config
             .quarks_internal()
             .map(|qi| {
-                gluon_thermal_parts::polarization_quark_t_thermal_part_zero_temp_landau(
-                    om, p, qi.mq, mu,
+                gluon_thermal_parts::polarization_quark_t_thermal_part_zero_temp_landau_w_nc(
+                    om, p, qi.mq, mu, config.nc,
                 ) * (qi.nf as R)
             })
             .sum();
@@ -468,8 +468,8 @@ pub mod zero_matsubara {
             let quark_contribution: R = config
                 .quarks_internal()
                 .map(|qi| {
-                    gluon_thermal_parts::polarization_quark_l_thermal_part_landau(
-                        p, qi.mq, beta, mu,
+                    gluon_thermal_parts::polarization_quark_l_thermal_part_landau_w_nc(
+                        p, qi.mq, beta, mu, config.nc,
                     ) * (qi.nf as R)
                 })
                 .sum();
@@ -493,8 +493,8 @@ pub mod zero_matsubara {
             let quark_contribution: R = config
                 .quarks_internal()
                 .map(|qi| {
-                    gluon_thermal_parts::polarization_quark_t_thermal_part_landau(
-                        p, qi.mq, beta, mu,
+                    gluon_thermal_parts::polarization_quark_t_thermal_part_landau_w_nc(
+                        p, qi.mq, beta, mu, config.nc,
                     ) * (qi.nf as R)
                 })
                 .sum();
@@ -556,8 +556,8 @@ pub mod zero_matsubara {
             let quark_contribution: R = config
                 .quarks_internal()
                 .map(|qi| {
-                    gluon_thermal_parts::polarization_quark_l_thermal_part_zero_temp_landau(
-                        p, qi.mq, mu,
+                    gluon_thermal_parts::polarization_quark_l_thermal_part_zero_temp_landau_w_nc(
+                        p, qi.mq, mu, config.nc,
                     ) * (qi.nf as R)
                 })
                 .sum();
@@ -576,8 +576,8 @@ pub mod zero_matsubara {
             let quark_contribution: R = config
                 .quarks_internal()
                 .map(|qi| {
-                    gluon_thermal_parts::polarization_quark_t_thermal_part_zero_temp_landau(
-                        p, qi.mq, mu,
+                    gluon_thermal_parts::polarization_quark_t_thermal_part_zero_temp_landau_w_nc(
+                        p, qi.mq, mu, config.nc,
                     ) * (qi.nf as R)
                 })
                 .sum();
@@ -735,8 +735,8 @@ pub mod zero_momentum {
             let quark_contribution: C = config
                 .quarks_internal()
                 .map(|qi| {
-                    gluon_thermal_parts::polarization_quark_l_thermal_part_landau(
-                        om, qi.mq, beta, mu,
+                    gluon_thermal_parts::polarization_quark_l_thermal_part_landau_w_nc(
+                        om, qi.mq, beta, mu, config.nc,
                     ) * (qi.nf as R)
                 })
                 .sum();
@@ -760,8 +760,8 @@ pub mod zero_momentum {
             let quark_contribution: C = config
                 .quarks_internal()
                 .map(|qi| {
-                    gluon_thermal_parts::polarization_quark_t_thermal_part_landau(
-                        om, qi.mq, beta, mu,
+                    gluon_thermal_parts::polarization_quark_t_thermal_part_landau_w_nc(
+                        om, qi.mq, beta, mu, config.nc,
                     ) * (qi.nf as R)
                 })
                 .sum();
@@ -824,8 +824,8 @@ pub mod zero_momentum {
             let quark_contribution: C = config
                 .quarks_internal()
                 .map(|qi| {
-                    gluon_thermal_parts::polarization_quark_l_thermal_part_zero_temp_landau(
-                        om, qi.mq, mu,
+                    gluon_thermal_parts::polarization_quark_l_thermal_part_zero_temp_landau_w_nc(
+                        om, qi.mq, mu, config.nc,
                     ) * (qi.nf as R)
                 })
                 .sum();
@@ -845,8 +845,8 @@ pub mod zero_momentum {
             let quark_contribution: C = config
                 .quarks_internal()
                 .map(|qi| {
-                    gluon_thermal_parts::polarization_quark_t_thermal_part_zero_temp_landau(
-                        om, qi.mq, mu,
+                    gluon_thermal_parts::polarization_quark_t_thermal_part_zero_temp_landau_w_nc(
+                        om, qi.mq, mu, config.nc,
                     ) * (qi.nf as R)
                 })
                 .sum();
-- 
2.43.0


From 063e3604248d621e9ce95681818407597cc97a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:39 +0000
Subject: [PATCH 05/10] fix: keep the complex distributions finite when the
 exponential overflows

---
 qcd-sme/src/common/thermal.rs | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/qcd-sme/src/common/thermal.rs b/qcd-sme/src/common/thermal.rs
index 1e7e25a..76054ad 100644
--- a/qcd-sme/src/common/thermal.rs
+++ b/qcd-sme/src/common/thermal.rs
@@ -163,6 +163,9 @@ pub(crate) mod inlines {
     };
     use crate::{Num, R};
 
+    // In the distributions below the exponential of an argument with positive real
+    // part is never computed: when it overflows, its complex inverse is NaN.
+
     #[inline(always)]
     pub fn fermi_momentum(m: R, mu: R) -> R {
         mu.mul_add(mu, -(m * m)).sqrt()
@@ -174,7 +177,12 @@ pub(crate) mod inlines {
         beta: R,
         mu: T2,
     ) -> T1 {
-        (statistic_distribution_exponential(en, beta, mu) + 1.).inv()
+        if (en - mu).re() * beta > 0. {
+            let x = statistic_distribution_exponential(-en, beta, -mu);
+            x / (x + 1.)
+        } else {
+            (statistic_distribution_exponential(en, beta, mu) + 1.).inv()
+        }
     }
 
     #[inline(always)]
@@ -195,8 +203,7 @@ pub(crate) mod inlines {
         beta: R,
         mu: T2,
     ) -> T1 {
-        (statistic_distribution_exponential(en, beta, mu) + 1.).inv()
-            + (statistic_distribution_exponential(en, beta, -mu) + 1.).inv()
+        fermi_distribution(en, beta, mu) + fermi_distribution(en, beta, -mu)
     }
 
     #[inline(always)]
@@ -212,7 +219,12 @@ pub(crate) mod inlines {
 
     #[inline(always)]
     pub fn fermi_distribution_zero_chempot<T: Num>(en: T, beta: R) -> T {
-        (statistic_distribution_exponential_zero_chempot(en, beta) + 1.).inv()
+        if en.re() * beta > 0. {
+            let x = statistic_distribution_exponential_zero_chempot(-en, beta);
+            x / (x + 1.)
+        } else {
+            (statistic_distribution_exponential_zero_chempot(en, beta) + 1.).inv()
+        }
     }
 
     #[inline(always)]
@@ -221,11 +233,21 @@ pub(crate) mod inlines {
         beta: R,
         mu: T2,
     ) -> T1 {
-        (statistic_distribution_exponential(en, beta, mu) - 1.).inv()
+        if (en - mu).re() * beta > 0. {
+            let x = statistic_distribution_exponential(-en, beta, -mu);
+            x / (-x + 1.)
+        } else {
+            (statistic_distribution_exponential(en, beta, mu) - 1.).inv()
+        }
     }
 
     #[inline(always)]
     pub fn bose_distribution_zero_chempot<T: Num>(en: T, beta: R) -> T {
-        (statistic_distribution_exponential_zero_chempot(en, beta) - 1.).inv()
+        if en.re() * beta > 0. {
+            let x = statistic_distribution_exponential_zero_chempot(-en, beta);
+            x / (-x + 1.)
+        } else {
+            (statistic_distribution_exponential_zero_chempot(en, beta) - 1.).inv()
+        }
     }
 }
-- 
2.43.0


From f19e6205c14e77b07e3aa6dfc87ae724bac09789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:43 +0000
Subject: [PATCH 06/10] fix: make the Fermi momentum vanish when the chemical
 potential equals the mass

---
 qcd-sme/src/common/thermal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qcd-sme/src/common/thermal.rs b/qcd-sme/src/common/thermal.rs
index 76054ad..f431d49 100644
--- a/qcd-sme/src/common/thermal.rs
+++ b/qcd-sme/src/common/thermal.rs
@@ -168,7 +168,7 @@ pub(crate) mod inlines {
 
     #[inline(always)]
     pub fn fermi_momentum(m: R, mu: R) -> R {
-        mu.mul_add(mu, -(m * m)).sqrt()
+        ((mu - m) * (mu + m)).sqrt()
     }
 
     #[inline(always)]
-- 
2.43.0


From 192a9eaa52f24a4187e6a2dc5e96c599534f9b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:02 +0000
Subject: [PATCH 07/10] fix: take the right branch of the zero-Matsubara
 logarithm for complex masses

---
 .../src/low_level/oneloop/thermal/zero_matsubara.rs    | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/qcd-sme/src/low_level/oneloop/thermal/zero_matsubara.rs b/qcd-sme/src/low_level/oneloop/thermal/zero_matsubara.rs
index e6945ac..292b669 100644
--- a/qcd-sme/src/low_level/oneloop/thermal/zero_matsubara.rs
+++ b/qcd-sme/src/low_level/oneloop/thermal/zero_matsubara.rs
@@ -334,13 +334,19 @@ pub(crate) mod inlines {
     // ln(A+i eta)+ln(A-i eta) = ln (A**2 + eta**2) -> ln(A**2) (as eta -> 0)
     // Note that the omega -> 0 limit of tlog in this module's parent module is not
     // well-defined precisely because of the branch cut (which cancels only when two
-    // logs are summed), so this limit only makes sense when plugged into the integrals
+    // logs are summed), so this limit only makes sense when plugged into the integrals.
+    // If A is not real, the limit is ln(A) + ln(A) = 2 ln(A), and the logarithm of the
+    // square would be on the wrong branch for Re(A) < 0.
     #[inline(always)]
     pub fn tlog<T: Num>(q: R, p: R, delta: T) -> C {
         let r_0 = r_0(p, delta);
         let q2p = q * 2. * p;
         let rat = (r_0 + q2p) / (r_0 - q2p);
-        Into::<C>::into(rat * rat).ln() / 2.
+        if rat.im() == 0. {
+            Into::<C>::into(rat * rat).ln() / 2.
+        } else {
+            Into::<C>::into(rat.ln())
+        }
     }
 
     #[inline(always)]
-- 
2.43.0


From 1ec015cb89e1d763c85054f0d976e82087b8e781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:52 +0000
Subject: [PATCH 08/10] fix: integrate the regularized ghost self-energy in the
 zero-Matsubara functions

---
 qcd-sme/src/low_level/oneloop/thermal/ghost.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/qcd-sme/src/low_level/oneloop/thermal/ghost.rs b/qcd-sme/src/low_level/oneloop/thermal/ghost.rs
index e8cd449..337c187 100644
--- a/qcd-sme/src/low_level/oneloop/thermal/ghost.rs
+++ b/qcd-sme/src/low_level/oneloop/thermal/ghost.rs
@@ -94,7 +94,8 @@ pub mod zero_matsubara {
 
     mod native {
         use super::inlines;
-        use crate::consts::get_default_integration_method;
+        use super::super::inlines::self_energy_thermal_part_landau_i as self_energy_thermal_part_landau_general_i;
+        use crate::consts::{get_default_integration_method, matsubara_reg};
         use crate::{C, R};
         use peroxide::numerical::integral::{integrate, Integral};
 
@@ -110,8 +111,16 @@ pub mod zero_matsubara {
         ) -> R {
             integrate(
                 |t| {
-                    inlines::self_energy_thermal_part_landau_i((1. - t) / t, p, m, beta).re
-                        / (t * t)
+                    // The zero-Matsubara integrand has poles on the integration
+                    // domain: regularize it by a small Matsubara frequency
+                    self_energy_thermal_part_landau_general_i(
+                        (1. - t) / t,
+                        matsubara_reg(),
+                        p,
+                        m,
+                        beta,
+                    )
+                    .re / (t * t)
                 },
                 (0., 1.),
                 integral,
-- 
2.43.0


From 73a28aa00af1e54b72e61d11ffa4137f41dc232d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:16 +0000
Subject: [PATCH 09/10] fix: start the chemical potential search where the
 secant method converges

---
 qcd-sme/src/qcd/thermal.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qcd-sme/src/qcd/thermal.rs b/qcd-sme/src/qcd/thermal.rs
index 39fce42..b497655 100644
--- a/qcd-sme/src/qcd/thermal.rs
+++ b/qcd-sme/src/qcd/thermal.rs
@@ -316,9 +316,13 @@ pub mod quark {
         if n == 0. {
             return 0.;
         }
+        // The charge density is a convex function of mu for mu > 0, and it increases
+        // with the temperature: the secant method converges monotonically from
+        // guesses not smaller than the zero-temperature chemical potential.
+        let mu0 = chemical_potential_zero_temp(m, n);
         find_root(
             &|mu| n - charge_density_with_method(m, beta, mu, integral),
-            (0.5 * n, n),
+            (1.1 * mu0, mu0),
             integral.get_tol(),
             1000,
         )
-- 
2.43.0


From fb72449952d478b08980c7c80af2bb1355cbc97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 10/10] fix: fit phase boundaries whose chemical potentials are
 not of order one

parametrize_phase_boundary silently returned its initial guess (all ones) when the
chemical potentials were large (the initial damping exceeded the maximum one, e.g.
for any boundary given in MeV, or for high degrees above a few GeV) or so small that
the determinant of the normal equations underflowed. Rescale the chemical potentials
before the fit and the coefficients after it.
---
 tc_long_prop/src/lib.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/tc_long_prop/src/lib.rs b/tc_long_prop/src/lib.rs
index 5d69fe8..40b70f1 100644
--- a/tc_long_prop/src/lib.rs
+++ b/tc_long_prop/src/lib.rs
@@ -92,9 +92,19 @@ pub fn parametrize_phase_boundary(pb: &[(R, R)], n: usize, plotpath: Option<&str
     let domain: Vec<R> = pb_red.iter().map(|(mu, _)| *mu).collect();
     let values: Vec<R> = pb_red.iter().map(|(_, tc)| *tc).collect();
 
+    // The optimizer only works if the chemical potentials are of order one. Rescale
+    // them by a power of two, so that no precision is lost
+    let mumax = domain.iter().fold(0., |max: R, mu| max.max(mu.abs()));
+    let scale = if mumax > 0. {
+        mumax.log2().ceil().exp2()
+    } else {
+        1.
+    };
+    let scaled_domain: Vec<R> = domain.iter().map(|mu| mu / scale).collect();
+
     // Fit the phase diagram to a polynomial of order n
-    let params = Optimizer::new(
-        peroxide::hstack!(domain.clone(), values.clone()),
+    let mut params = Optimizer::new(
+        peroxide::hstack!(scaled_domain, values.clone()),
         |mus, p| {
             Some(
                 mus.iter()
@@ -110,6 +120,9 @@ pub fn parametrize_phase_boundary(pb: &[(R, R)], n: usize, plotpath: Option<&str
     .set_lambda_init(1e-3)
     .set_lambda_max(1e+3)
     .optimize();
+    for (k, p) in params.iter_mut().enumerate() {
+        *p /= scale.powi(k as i32);
+    }
 
     if let Some(plotpath) = plotpath {
         let mut plot = Plot2D::new();
-- 
2.43.0

