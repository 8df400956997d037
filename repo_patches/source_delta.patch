From 86cf741aced2836623cb824ba767c6431d448d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:37 +0000
Subject: [PATCH 01/21] fix: second derivative of Kepler's equation in the
 universal anomaly

---
 include/kep3/core_astro/kepler_equations.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kep3/core_astro/kepler_equations.hpp b/include/kep3/core_astro/kepler_equations.hpp
index e9e9258..a22c743 100644
--- a/include/kep3/core_astro/kepler_equations.hpp
+++ b/include/kep3/core_astro/kepler_equations.hpp
@@ -110,7 +110,8 @@ inline double dd_kepDS(const double &DS, const double &r0, const double &vr0, co
 {
     double S = stumpff_s(alpha * DS * DS);
     double C = stumpff_c(alpha * DS * DS);
-    double retval = r0 * vr0 / std::sqrt(mu) * (1 - alpha * DS * DS * C) + (1 - alpha * r0) * (1 - DS * DS * S);
+    double retval = r0 * vr0 / std::sqrt(mu) * (1 - alpha * DS * DS * C)
+                    + (1 - alpha * r0) * DS * (1 - alpha * DS * DS * S);
 
     return (retval);
 }
-- 
2.43.0


From 76c8b8b9503aa53c8957e5ce1d6cf3ed226cfe86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:57 +0000
Subject: [PATCH 02/21] fix: sims_flanagan::set() validates the new values
 instead of the old ones

---
 src/leg/sims_flanagan.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/leg/sims_flanagan.cpp b/src/leg/sims_flanagan.cpp
index 604e459..1685242 100644
--- a/src/leg/sims_flanagan.cpp
+++ b/src/leg/sims_flanagan.cpp
@@ -123,7 +123,11 @@ void sims_flanagan::set(const std::array<std::array<double, 3>, 2> &rvs, double
                         const std::array<std::array<double, 3>, 2> &rvf, double mf, double tof, double max_thrust,
                         double isp, double mu, double cut)
 {
-    kep3::leg::_sanity_checks(m_throttles, m_tof, m_max_thrust, m_isp, m_mu, m_cut, m_nseg, m_nseg_fwd, m_nseg_bck);
+    // We check the new values before they replace the old ones.
+    kep3::leg::_check_cut(cut);
+    const auto nseg = static_cast<unsigned>(throttles.size()) / 3u;
+    const auto nseg_fwd = static_cast<unsigned>(static_cast<double>(nseg) * cut);
+    kep3::leg::_sanity_checks(throttles, tof, max_thrust, isp, mu, cut, nseg, nseg_fwd, nseg - nseg_fwd);
     m_rvs = rvs;
     m_ms = ms;
     m_throttles = throttles;
-- 
2.43.0


From c7335ff27d86beb7900c883d3a5499f014ae5c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:17 +0000
Subject: [PATCH 03/21] fix: propagate_lagrangian_u no longer depends on the
 choice of units

The initial guess (3) and the bracket (+-2 pi) of the universal anomaly were
pure numbers, although the anomaly is the square root of a length: in SI units
the solver converged to the edge of the bracket and the result was wrong.
---
 src/core_astro/propagate_lagrangian.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/core_astro/propagate_lagrangian.cpp b/src/core_astro/propagate_lagrangian.cpp
index 902be8e..63c6b5e 100644
--- a/src/core_astro/propagate_lagrangian.cpp
+++ b/src/core_astro/propagate_lagrangian.cpp
@@ -7,6 +7,7 @@
 // Public License v. 2.0. If a copy of the MPL was not distributed
 // with this file, You can obtain one at http://mozilla.org/MPL/2.0/.
 
+#include <algorithm>
 #include <array>
 #include <cmath>
 #include <optional>
@@ -201,11 +202,14 @@ propagate_lagrangian_u(const std::array<std::array<double, 3>, 2> &pos_vel0, con
     // initial radial velocity (see we use the inverted vf = +-v0 according to dt)
     double const VR0 = (rf[0] * vf[0] + rf[1] * vf[1] + rf[2] * vf[2]) / R0;
 
-    // solve kepler's equation in the universal anomaly DS
+    // solve kepler's equation in the universal anomaly DS. Its dimension is that of the square root of a length, hence
+    // the initial guess and the bracket must be too.
+    double const scale = alpha > 0. ? 1. / std::sqrt(alpha) : std::min(std::sqrt(R0), 1. / std::sqrt(std::abs(alpha)));
+    double const width = alpha > 0. ? 2 * pi * scale : 50. * scale;
     double IG = 0;
     alpha > 0. ? IG = std::sqrt(mu) * dt_copy * std::abs(alpha)
-               : IG = 3.; // TODO(darioizzo): initial guess for the universal
-                          // anomaly. For hyperbolas is 3 .... can be better?
+               : IG = 3. * scale; // TODO(darioizzo): initial guess for the universal
+                                  // anomaly. For hyperbolas is 3 .... can be better?
 
     // Solve Kepler Equation in DS (univrsal anomaly difference)
     const int digits = std::numeric_limits<double>::digits;
@@ -216,7 +220,7 @@ propagate_lagrangian_u(const std::array<std::array<double, 3>, 2> &pos_vel0, con
         [dt_copy, R0, VR0, alpha, mu](double DS) {
             return std::make_tuple(kepDS(DS, dt_copy, R0, VR0, alpha, mu), d_kepDS(DS, R0, VR0, alpha, mu));
         },
-        IG, IG - 2 * pi, IG + 2 * pi, digits,
+        IG, IG - width, IG + width, digits,
         max_iter); // limiting the IG error within
                    // only pi will not work.
     if (max_iter == 100u) {
-- 
2.43.0


From b517ed808638c93f533ad242a4ed9295abf2baf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:45 +0000
Subject: [PATCH 04/21] fix: planets give the mean anomaly of ellipses of any
 size (the semi-major axis was compared with 1)

---
 src/planet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/planet.cpp b/src/planet.cpp
index dd45724..05b3d57 100644
--- a/src/planet.cpp
+++ b/src/planet.cpp
@@ -47,7 +47,7 @@ std::array<double, 6> elements_from_posvel(const std::array<std::array<double, 3
         case kep3::elements_type::KEP_F:
             break;
         case kep3::elements_type::KEP_M:
-            if (retval[0] < 1) {
+            if (retval[0] < 0) {
                 throw std::logic_error("Mean anomaly is only available for ellipses.");
             }
             retval[5] = kep3::f2m(retval[5], retval[1]);
-- 
2.43.0


From db254df6d87a213e3e211abf0d839aaab43bf3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:07 +0000
Subject: [PATCH 05/21] fix: an epoch built from a duration counts from
 MJD2000, as documented (it counted from 1970)

---
 include/kep3/epoch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kep3/epoch.hpp b/include/kep3/epoch.hpp
index 2bde48d..3a6ad94 100644
--- a/include/kep3/epoch.hpp
+++ b/include/kep3/epoch.hpp
@@ -124,7 +124,7 @@ public:
      */
     template <typename Rep, typename Period>
     explicit epoch(std::chrono::duration<Rep, Period> duration)
-        : m_tp{std::chrono::duration_cast<microseconds>(duration)}
+        : m_tp{y2k + std::chrono::duration_cast<microseconds>(duration)}
     {
     }
 
-- 
2.43.0


From d22f680918cc1a4f04d4dba32fbe28e90a557d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:29 +0000
Subject: [PATCH 06/21] fix: calendar fields too large for the chrono types are
 refused instead of wrapping around

---
 src/epoch.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/epoch.cpp b/src/epoch.cpp
index cb857e8..229d4b8 100644
--- a/src/epoch.cpp
+++ b/src/epoch.cpp
@@ -128,20 +128,21 @@ time_point epoch::make_tp(int y, unsigned mon, unsigned d, const std::int32_t h,
                           const std::int32_t s, const std::int32_t ms, const std::int32_t us)
 {
     // Construct and validate year, month and day.
+    // NOTE: the chrono types hold narrower integers than our arguments, values which do not fit must be refused too.
     const std::chrono::year chr_y(y);
-    if (!chr_y.ok()) {
+    if (!chr_y.ok() || static_cast<int>(chr_y) != y) {
         throw std::invalid_argument(
             fmt::format("An invalid year value of {} was specified in the construction of a time point", y));
     }
 
     const std::chrono::month chr_mon(mon);
-    if (!chr_mon.ok()) {
+    if (!chr_mon.ok() || static_cast<unsigned>(chr_mon) != mon) {
         throw std::invalid_argument(
             fmt::format("An invalid month value of {} was specified in the construction of a time point", mon));
     }
 
     const std::chrono::day chr_d(d);
-    if (!chr_d.ok()) {
+    if (!chr_d.ok() || static_cast<unsigned>(chr_d) != d) {
         throw std::invalid_argument(
             fmt::format("An invalid day value of {} was specified in the construction of a time point", d));
     }
-- 
2.43.0


From cee4614aebb2a46b9d978b895cf5baa91978fdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:57 +0000
Subject: [PATCH 07/21] fix: the size of a cache of variational integrators is
 read under that cache's own mutex

---
 src/ta/cr3bp.cpp | 2 +-
 src/ta/stark.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ta/cr3bp.cpp b/src/ta/cr3bp.cpp
index ae4b742..5cc362c 100644
--- a/src/ta/cr3bp.cpp
+++ b/src/ta/cr3bp.cpp
@@ -116,7 +116,7 @@ size_t get_ta_cr3bp_cache_dim()
 size_t get_ta_cr3bp_var_cache_dim()
 {
     // Lock down for access to cache.
-    std::lock_guard const lock(ta_cr3bp_mutex);
+    std::lock_guard const lock(ta_cr3bp_var_mutex);
     return ta_cr3bp_var_cache.size();
 }
 
diff --git a/src/ta/stark.cpp b/src/ta/stark.cpp
index 9885a34..2b82bf5 100644
--- a/src/ta/stark.cpp
+++ b/src/ta/stark.cpp
@@ -127,7 +127,7 @@ size_t get_ta_stark_cache_dim()
 size_t get_ta_stark_var_cache_dim()
 {
     // Lock down for access to cache.
-    std::lock_guard const lock(ta_stark_mutex);
+    std::lock_guard const lock(ta_stark_var_mutex);
     return ta_stark_var_cache.size();
 }
 
-- 
2.43.0


From ea098503131f748bb4488ff18e8701da4f20f144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:57 +0000
Subject: [PATCH 08/21] fix: sims_flanagan_hf::get_state_history builds a time
 grid covering all the segments (it was too short for a single one)

---
 src/leg/sims_flanagan_hf.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/leg/sims_flanagan_hf.cpp b/src/leg/sims_flanagan_hf.cpp
index 2cde273..aad002a 100644
--- a/src/leg/sims_flanagan_hf.cpp
+++ b/src/leg/sims_flanagan_hf.cpp
@@ -764,6 +764,10 @@ std::vector<double> sims_flanagan_hf::compute_tc_grad() const
 
 std::vector<std::vector<double>> sims_flanagan_hf::get_state_history(unsigned grid_points_per_segment) const
 {
+    if (grid_points_per_segment < 2u) {
+        throw std::logic_error("The state history of a high-fidelity sims-flanagan leg requires at least two grid "
+                               "points per segment (its initial and final states).");
+    }
     // Get time grid
     const double prop_seg_duration = (m_tof / m_nseg);
     std::vector<double> leg_time_grid;
@@ -771,7 +775,7 @@ std::vector<std::vector<double>> sims_flanagan_hf::get_state_history(unsigned gr
     double timestep = 0.0;
     leg_time_grid.push_back(timestep);
 
-    for (decltype(m_nseg) i = 0; i < grid_points_per_segment * m_nseg - 2; ++i) {
+    for (decltype(m_nseg) i = 0; i < (grid_points_per_segment - 1) * m_nseg; ++i) {
         timestep += (prop_seg_duration / (grid_points_per_segment - 1));
         leg_time_grid.push_back(timestep);
     }
-- 
2.43.0


From f7f08a091d223614d4e638dc686ceccc0932bdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:57 +0000
Subject: [PATCH 09/21] fix: sims_flanagan_hf: the mismatch gradient is w.r.t.
 the throttles, not the thrusts

---
 src/leg/sims_flanagan_hf.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/leg/sims_flanagan_hf.cpp b/src/leg/sims_flanagan_hf.cpp
index aad002a..6e58f81 100644
--- a/src/leg/sims_flanagan_hf.cpp
+++ b/src/leg/sims_flanagan_hf.cpp
@@ -700,8 +700,9 @@ sims_flanagan_hf::get_relevant_gradients(const std::vector<std::array<double, 49
             throw std::runtime_error("During calculation of the throttle derivatives, the index doesn't correspond to "
                                      "any leg and therefore cannot find the corresponding gradients."); // LCOV_EXCL_LINE
         }
+        // The segment sensitivities are w.r.t. the thrusts: the chain rule brings in the maximum thrust.
         xt::view(xgrad_final_throttle, xt::all(), xt::range(3 * i, 3 * (i + 1)))
-            = xt::linalg::dot(corresponding_M, current_U);
+            = xt::linalg::dot(corresponding_M, current_U) * m_max_thrust;
     }
 
     // ToF derivatives
-- 
2.43.0


From 3dc873210e7e5b6274b3cf6b05fa611b84069887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:34 +0000
Subject: [PATCH 10/21] fix: sims_flanagan_hf::set() checks the new values
 before they replace the old ones

---
 src/leg/sims_flanagan_hf.cpp | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/leg/sims_flanagan_hf.cpp b/src/leg/sims_flanagan_hf.cpp
index 6e58f81..c3c87bb 100644
--- a/src/leg/sims_flanagan_hf.cpp
+++ b/src/leg/sims_flanagan_hf.cpp
@@ -249,6 +249,11 @@ void sims_flanagan_hf::set(const std::array<std::array<double, 3>, 2> &rvs, doub
                            const std::array<std::array<double, 3>, 2> &rvf, double mf, double tof, double max_thrust,
                            double isp, double mu, double cut, double tol)
 {
+    // We check the new values before they replace the old ones.
+    kep3::leg::_check_cut(cut);
+    const auto nseg = static_cast<unsigned>(throttles.size()) / 3u;
+    const auto nseg_fwd = static_cast<unsigned>(static_cast<double>(nseg) * cut);
+    kep3::leg::_sanity_checks(throttles, tof, max_thrust, isp, mu, cut, tol, nseg, nseg_fwd, nseg - nseg_fwd);
     // Set initial state
     set_rvs(rvs);
     set_ms(ms);
@@ -262,10 +267,9 @@ void sims_flanagan_hf::set(const std::array<std::array<double, 3>, 2> &rvs, doub
     m_mu = mu;
     m_cut = cut;
     m_tol = tol;
-    m_nseg = static_cast<unsigned>(m_throttles.size()) / 3u;
-    m_nseg_fwd = static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut);
-    m_nseg_bck = m_nseg - m_nseg_fwd;
-    kep3::leg::_sanity_checks(throttles, tof, max_thrust, isp, mu, cut, tol, m_nseg, m_nseg_fwd, m_nseg_bck);
+    m_nseg = nseg;
+    m_nseg_fwd = nseg_fwd;
+    m_nseg_bck = nseg - nseg_fwd;
 
     // Convert throttles to current_thrusts.
     auto throttle_to_thrust = [this](double throttle) { return throttle * get_max_thrust(); };
@@ -277,6 +281,11 @@ void sims_flanagan_hf::set(const std::array<double, 7> &rvms, const std::vector<
                            const std::array<double, 7> &rvmf, double tof, double max_thrust, double isp, double mu,
                            double cut, double tol)
 {
+    // We check the new values before they replace the old ones.
+    kep3::leg::_check_cut(cut);
+    const auto nseg = static_cast<unsigned>(throttles.size()) / 3u;
+    const auto nseg_fwd = static_cast<unsigned>(static_cast<double>(nseg) * cut);
+    kep3::leg::_sanity_checks(throttles, tof, max_thrust, isp, mu, cut, tol, nseg, nseg_fwd, nseg - nseg_fwd);
     set_rvms(rvms);
     m_throttles = throttles;
     set_rvmf(rvmf);
@@ -286,10 +295,9 @@ void sims_flanagan_hf::set(const std::array<double, 7> &rvms, const std::vector<
     m_mu = mu;
     m_cut = cut;
     m_tol = tol;
-    m_nseg = static_cast<unsigned>(m_throttles.size()) / 3u;
-    m_nseg_fwd = static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut);
-    m_nseg_bck = m_nseg - m_nseg_fwd;
-    kep3::leg::_sanity_checks(throttles, tof, max_thrust, isp, mu, cut, tol, m_nseg, m_nseg_fwd, m_nseg_bck);
+    m_nseg = nseg;
+    m_nseg_fwd = nseg_fwd;
+    m_nseg_bck = nseg - nseg_fwd;
 
     // Convert throttles to current_thrusts.
     auto throttle_to_thrust = [this](double throttle) { return throttle * get_max_thrust(); };
@@ -300,14 +308,18 @@ void sims_flanagan_hf::set(const std::array<double, 7> &rvms, const std::vector<
 void sims_flanagan_hf::set(const std::array<double, 7> &rvms, const std::vector<double> &throttles,
                            const std::array<double, 7> &rvmf, double time_of_flight)
 {
+    // We check the new values before they replace the old ones.
+    const auto nseg = static_cast<unsigned>(throttles.size()) / 3u;
+    const auto nseg_fwd = static_cast<unsigned>(static_cast<double>(nseg) * m_cut);
+    _sanity_checks(throttles, time_of_flight, m_max_thrust, m_isp, m_mu, m_cut, m_tol, nseg, nseg_fwd,
+                   nseg - nseg_fwd);
     set_rvms(rvms);
     m_throttles = throttles;
     set_rvmf(rvmf);
     m_tof = time_of_flight;
-    m_nseg = static_cast<unsigned>(m_throttles.size()) / 3u;
-    m_nseg_fwd = static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut);
-    m_nseg_bck = m_nseg - m_nseg_fwd;
-    _sanity_checks(throttles, m_tof, m_max_thrust, m_isp, m_mu, m_cut, m_tol, m_nseg, m_nseg_fwd, m_nseg_bck);
+    m_nseg = nseg;
+    m_nseg_fwd = nseg_fwd;
+    m_nseg_bck = nseg - nseg_fwd;
 
     // Convert throttles to current_thrusts.
     auto throttle_to_thrust = [this](double throttle) { return throttle * get_max_thrust(); };
-- 
2.43.0


From e7a91a4adedfa57c1a05aad5ebb1ddfd85b6c98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:45 +0000
Subject: [PATCH 11/21] fix: sims_flanagan_hf: the setters keep the thrusts and
 the integrators in step with the parameters

---
 include/kep3/leg/sims_flanagan_hf.hpp |  3 +++
 src/leg/sims_flanagan_hf.cpp          | 23 +++++++++++++++++++++--
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/include/kep3/leg/sims_flanagan_hf.hpp b/include/kep3/leg/sims_flanagan_hf.hpp
index fce03a7..ea7f0bd 100644
--- a/include/kep3/leg/sims_flanagan_hf.hpp
+++ b/include/kep3/leg/sims_flanagan_hf.hpp
@@ -154,6 +154,9 @@ private:
         ar & m_tas;
     }
 
+    // Copies mu and the effective exhaust velocity into the integrators
+    void update_tas_pars();
+
     // Initial rvm state
     std::array<double, 7> m_rvms{1., 0., 0., 0., 1., 0., 1.};
     // Initial variational state
diff --git a/src/leg/sims_flanagan_hf.cpp b/src/leg/sims_flanagan_hf.cpp
index c3c87bb..7777982 100644
--- a/src/leg/sims_flanagan_hf.cpp
+++ b/src/leg/sims_flanagan_hf.cpp
@@ -203,16 +203,22 @@ void sims_flanagan_hf::set_max_thrust(double max_thrust)
 {
     kep3::leg::_check_max_thrust(max_thrust);
     m_max_thrust = max_thrust;
+
+    // The thrusts follow.
+    auto throttle_to_thrust = [this](double throttle) { return throttle * get_max_thrust(); };
+    std::transform(m_throttles.begin(), m_throttles.end(), m_thrusts.begin(), throttle_to_thrust);
 }
 void sims_flanagan_hf::set_isp(double isp)
 {
     kep3::leg::_check_isp(isp);
     m_isp = isp;
+    update_tas_pars();
 }
 void sims_flanagan_hf::set_mu(double mu)
 {
     kep3::leg::_check_mu(mu);
     m_mu = mu;
+    update_tas_pars();
 }
 void sims_flanagan_hf::set_cut(double cut)
 {
@@ -224,7 +230,18 @@ void sims_flanagan_hf::set_cut(double cut)
 void sims_flanagan_hf::set_tol(double tol)
 {
     kep3::leg::_check_tol(tol);
+    // The integrators are made for a given tolerance.
+    m_tas = kep3::ta::get_ta_stark(tol);
+    m_tas_var = kep3::ta::get_ta_stark_var(tol);
     m_tol = tol;
+    update_tas_pars();
+}
+void sims_flanagan_hf::update_tas_pars()
+{
+    *m_tas.get_pars_data() = m_mu;
+    *(m_tas.get_pars_data() + 1) = m_isp * kep3::G0;
+    *m_tas_var.get_pars_data() = m_mu;
+    *(m_tas_var.get_pars_data() + 1) = m_isp * kep3::G0;
 }
 void sims_flanagan_hf::set_rvms(const std::array<double, 7> &rvms)
 {
@@ -254,6 +271,7 @@ void sims_flanagan_hf::set(const std::array<std::array<double, 3>, 2> &rvs, doub
     const auto nseg = static_cast<unsigned>(throttles.size()) / 3u;
     const auto nseg_fwd = static_cast<unsigned>(static_cast<double>(nseg) * cut);
     kep3::leg::_sanity_checks(throttles, tof, max_thrust, isp, mu, cut, tol, nseg, nseg_fwd, nseg - nseg_fwd);
+    set_tol(tol);
     // Set initial state
     set_rvs(rvs);
     set_ms(ms);
@@ -266,7 +284,7 @@ void sims_flanagan_hf::set(const std::array<std::array<double, 3>, 2> &rvs, doub
     m_isp = isp;
     m_mu = mu;
     m_cut = cut;
-    m_tol = tol;
+    update_tas_pars();
     m_nseg = nseg;
     m_nseg_fwd = nseg_fwd;
     m_nseg_bck = nseg - nseg_fwd;
@@ -286,6 +304,7 @@ void sims_flanagan_hf::set(const std::array<double, 7> &rvms, const std::vector<
     const auto nseg = static_cast<unsigned>(throttles.size()) / 3u;
     const auto nseg_fwd = static_cast<unsigned>(static_cast<double>(nseg) * cut);
     kep3::leg::_sanity_checks(throttles, tof, max_thrust, isp, mu, cut, tol, nseg, nseg_fwd, nseg - nseg_fwd);
+    set_tol(tol);
     set_rvms(rvms);
     m_throttles = throttles;
     set_rvmf(rvmf);
@@ -294,7 +313,7 @@ void sims_flanagan_hf::set(const std::array<double, 7> &rvms, const std::vector<
     m_isp = isp;
     m_mu = mu;
     m_cut = cut;
-    m_tol = tol;
+    update_tas_pars();
     m_nseg = nseg;
     m_nseg_fwd = nseg_fwd;
     m_nseg_bck = nseg - nseg_fwd;
-- 
2.43.0


From efd22f1f3fef19cd46814e204baba0eba3571756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:50 +0000
Subject: [PATCH 12/21] fix: sims_flanagan_hf: serialize the variational
 integrator too

A loaded leg kept the variational integrator of whatever it held before, whose
parameters and tolerance need not be those of the saved leg.
---
 include/kep3/leg/sims_flanagan_hf.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/kep3/leg/sims_flanagan_hf.hpp b/include/kep3/leg/sims_flanagan_hf.hpp
index ea7f0bd..4605432 100644
--- a/include/kep3/leg/sims_flanagan_hf.hpp
+++ b/include/kep3/leg/sims_flanagan_hf.hpp
@@ -152,6 +152,7 @@ private:
         ar & m_nseg_fwd;
         ar & m_nseg_bck;
         ar & m_tas;
+        ar & m_tas_var;
     }
 
     // Copies mu and the effective exhaust velocity into the integrators
-- 
2.43.0


From 3657eab7875110fc24393170e8106ffc2aebb328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:49 +0000
Subject: [PATCH 13/21] fix: add_solar_system draws Neptune at the epoch given

The name ep was undefined, so asking for body 8 raised a NameError; Neptune also took the size meant for Uranus.
---
 pykep/plot/_planet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykep/plot/_planet.py b/pykep/plot/_planet.py
index 32a0446..870c4f8 100644
--- a/pykep/plot/_planet.py
+++ b/pykep/plot/_planet.py
@@ -179,6 +179,6 @@ def add_solar_system(
             label="",
             plot_range=[-40000, -40000 + 164.8 * 365.25],
         )
-        _pk.plot.add_planet(ax, neptune, when=ep, c="orchid", s=s[7], label = "Neptune")
+        _pk.plot.add_planet(ax, neptune, when=when, c="orchid", s=s[8], label = "Neptune")
 
     return ax
-- 
2.43.0


From 815bd54816be1e1256723b8fbd030e3d792d7a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:49 +0000
Subject: [PATCH 14/21] fix: get_extra_info of the Cassini gym problems

It referred to an undefined name and raised a NameError.
---
 pykep/trajopt/gym/_cassini_mga.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykep/trajopt/gym/_cassini_mga.py b/pykep/trajopt/gym/_cassini_mga.py
index b45bf75..183a3bb 100644
--- a/pykep/trajopt/gym/_cassini_mga.py
+++ b/pykep/trajopt/gym/_cassini_mga.py
@@ -27,7 +27,7 @@ class _cassini1_udp(_mga):
     def get_extra_info(self):
         retval = "\tTrajectory Optimisation Gym problem (P1): Cassini MGA, single objective, direct encoding\n"
         retval += "\tPlanetary sequence" + \
-            str([pl.get_name() for pl in _seq_cassini1])
+            str([pl.get_name() for pl in _seq_cassini])
         return retval
 
     def __repr__(self):
@@ -52,7 +52,7 @@ class _cassini1a_udp(_mga):
     def get_extra_info(self):
         retval = "\tTrajectory Optimisation Gym problem (P2): Cassini MGA, single objective, alpha encoding\n"
         retval += "\tPlanetary sequence" + \
-            str([pl.get_name() for pl in _seq_cassini1])
+            str([pl.get_name() for pl in _seq_cassini])
         return retval
 
     def __repr__(self):
@@ -77,7 +77,7 @@ class _cassini1n_udp(_mga):
     def get_extra_info(self):
         retval = "\tTrajectory Optimisation Gym problem (P3): Cassini MGA, single objective, eta encoding\n"
         retval += "\tPlanetary sequence" + \
-            str([pl.get_name() for pl in _seq_cassini1])
+            str([pl.get_name() for pl in _seq_cassini])
         return retval
 
     def __repr__(self):
-- 
2.43.0


From a41ec292d74f4179082f0477b65a4d28a91aef3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:49 +0000
Subject: [PATCH 15/21] fix: end points of the direct problems are plotted in
 the units asked for

---
 pykep/trajopt/_direct_pl2pl.py       | 4 ++--
 pykep/trajopt/_direct_point2point.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pykep/trajopt/_direct_pl2pl.py b/pykep/trajopt/_direct_pl2pl.py
index d35acd0..5723baf 100644
--- a/pykep/trajopt/_direct_pl2pl.py
+++ b/pykep/trajopt/_direct_pl2pl.py
@@ -324,8 +324,8 @@ class direct_pl2pl:
             ax = _pk.plot.make_3Daxis(figsize=(7, 7))
         rs, _ = sf.rvs
         rf, _ = sf.rvf
-        ax.scatter(rs[0] / _pk.AU, rs[1] / units, rs[2] / units, c="k", s=20)
-        ax.scatter(rf[0] / _pk.AU, rf[1] / units, rf[2] / units, c="k", s=20)
+        ax.scatter(rs[0] / units, rs[1] / units, rs[2] / units, c="k", s=20)
+        ax.scatter(rf[0] / units, rf[1] / units, rf[2] / units, c="k", s=20)
 
         # Plotting planets
         ax = _pk.plot.add_planet(ax, self.pls, when=x[0])
diff --git a/pykep/trajopt/_direct_point2point.py b/pykep/trajopt/_direct_point2point.py
index 4a7207a..8fc0776 100644
--- a/pykep/trajopt/_direct_point2point.py
+++ b/pykep/trajopt/_direct_point2point.py
@@ -237,8 +237,8 @@ class direct_point2point:
 
         rs, _ = sf.rvs
         rf, _ = sf.rvf
-        ax.scatter(rs[0] / _pk.AU, rs[1] / units, rs[2] / units, c="k", s=20)
-        ax.scatter(rf[0] / _pk.AU, rf[1] / units, rf[2] / units, c="k", s=20)
+        ax.scatter(rs[0] / units, rs[1] / units, rs[2] / units, c="k", s=20)
+        ax.scatter(rf[0] / units, rf[1] / units, rf[2] / units, c="k", s=20)
 
         # Plotting the trajctory leg
         ax = _pk.plot.add_sf_leg(
-- 
2.43.0


From 76fbbf4e368f73aa1e4307754b3cf4b17c4263cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:49 +0000
Subject: [PATCH 16/21] fix: direct_pl2pl plots the planets in the units asked
 for

---
 pykep/trajopt/_direct_pl2pl.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pykep/trajopt/_direct_pl2pl.py b/pykep/trajopt/_direct_pl2pl.py
index 5723baf..5a4157f 100644
--- a/pykep/trajopt/_direct_pl2pl.py
+++ b/pykep/trajopt/_direct_pl2pl.py
@@ -328,10 +328,10 @@ class direct_pl2pl:
         ax.scatter(rf[0] / units, rf[1] / units, rf[2] / units, c="k", s=20)
 
         # Plotting planets
-        ax = _pk.plot.add_planet(ax, self.pls, when=x[0])
-        ax = _pk.plot.add_planet_orbit(ax, self.pls, c="gray", alpha=0.5)
-        ax = _pk.plot.add_planet(ax, self.plf, when=x[0] + x[-1])
-        ax = _pk.plot.add_planet_orbit(ax, self.plf, c="gray", alpha=0.5)
+        ax = _pk.plot.add_planet(ax, self.pls, when=x[0], units=units)
+        ax = _pk.plot.add_planet_orbit(ax, self.pls, units=units, c="gray", alpha=0.5)
+        ax = _pk.plot.add_planet(ax, self.plf, when=x[0] + x[-1], units=units)
+        ax = _pk.plot.add_planet_orbit(ax, self.plf, units=units, c="gray", alpha=0.5)
 
         # Plotting the trajctory leg
         ax = _pk.plot.add_sf_leg(
-- 
2.43.0


From f837115eafd8817b7cb29e32b7ecf5717b8933be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:49 +0000
Subject: [PATCH 17/21] fix: plotting a Sims-Flanagan leg cut at one of its
 ends

With no segment on one side the lists of mid points and throttles are empty and indexing their columns raised an IndexError.
---
 pykep/plot/_sf_leg.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pykep/plot/_sf_leg.py b/pykep/plot/_sf_leg.py
index b0b6192..726ccf4 100644
--- a/pykep/plot/_sf_leg.py
+++ b/pykep/plot/_sf_leg.py
@@ -91,8 +91,8 @@ def add_sf_leg(
         rv = _pk.propagate_lagrangian(rv, tof=dt / 2, mu=sf.mu, stm=False)
         pos_fwd.append(rv[0])
     pos_fwd = _np.array(pos_fwd)
-    pos_m_fwd = _np.array(pos_m_fwd)
-    throttles_fwd = _np.array(throttles_fwd)
+    pos_m_fwd = _np.array(pos_m_fwd).reshape((-1, 3))
+    throttles_fwd = _np.array(throttles_fwd).reshape((-1, 3))
 
     # We plot optionally gridpoints, the low-thrust or the mid points
     if show_gridpoints:
@@ -157,8 +157,8 @@ def add_sf_leg(
         rv = _pk.propagate_lagrangian(rv, tof=-dt / 2, mu=sf.mu, stm=False)
         pos_bck.append(rv[0])
     pos_bck = _np.array(pos_bck)
-    pos_bck_m = _np.array(pos_bck_m)
-    throttles_bck = _np.array(throttles_bck)
+    pos_bck_m = _np.array(pos_bck_m).reshape((-1, 3))
+    throttles_bck = _np.array(throttles_bck).reshape((-1, 3))
 
     # We plot optionally gridpoints, the low-thrust or the mid points
     if show_gridpoints:
-- 
2.43.0


From eaf084d6e7d7ef5d6d8193b09fde7fc24bb1bd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:44 +0000
Subject: [PATCH 18/21] fix: add_sf_hf_leg draws each throttle of the backward
 pass on its own segment

The states of the backward segments are taken from the last one on, their throttles were taken in leg order.
---
 pykep/plot/_sf_leg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pykep/plot/_sf_leg.py b/pykep/plot/_sf_leg.py
index 726ccf4..54533d2 100644
--- a/pykep/plot/_sf_leg.py
+++ b/pykep/plot/_sf_leg.py
@@ -240,7 +240,6 @@ def add_sf_hf_leg(
     )
 
     throttles_fwd = throttles[:, 0 : nseg_fwd * 3]
-    throttles_bck = throttles[:, nseg_fwd * 3 : nseg * 3]
 
     # We start the forward pass of the Sims-Flanagan model------------------------------------------------------------------------
     state_history_fwd = _np.zeros((nseg_fwd * N, 7))
@@ -313,7 +312,9 @@ def add_sf_hf_leg(
             current_states = state_history_bck[
                 i * N : (i + 1) * N, 0:3
             ]
-            current_throttles = throttles_bck[:, i * 3 : (i + 1) * 3]
+            current_throttles = throttles[
+                :, (nseg - i - 1) * 3 : (nseg - i) * 3
+            ]
             current_quiver_tips = current_states / units + current_throttles * length
             ax.quiver(
                 current_states[:, 0] / units,
-- 
2.43.0


From 4b6cd48a6973aa58601849f8f49f2d0cae51ccbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:44 +0000
Subject: [PATCH 19/21] fix: DEG2RAD of the Python module is the conversion
 from degrees to radians

---
 pykep/core.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykep/core.cpp b/pykep/core.cpp
index 780bbf8..57e72aa 100644
--- a/pykep/core.cpp
+++ b/pykep/core.cpp
@@ -59,7 +59,7 @@ PYBIND11_MODULE(core, m) // NOLINT
     m.attr("EARTH_J2") = py::float_(kep3::EARTH_J2);
     m.attr("EARTH_RADIUS") = py::float_(kep3::EARTH_RADIUS);
     m.attr("RAD2DEG") = py::float_(kep3::RAD2DEG);
-    m.attr("DEG2RAD") = py::float_(kep3::RAD2DEG);
+    m.attr("DEG2RAD") = py::float_(kep3::DEG2RAD);
     m.attr("DAY2SEC") = py::float_(kep3::DAY2SEC);
     m.attr("SEC2DAY") = py::float_(kep3::SEC2DAY);
     m.attr("DAY2YEAR") = py::float_(kep3::DAY2YEAR);
-- 
2.43.0


From 22ec1e566e3a228bd0e93ffd0422a63003ffa199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:36 +0000
Subject: [PATCH 20/21] fix: add_lambert draws the arc of clockwise solutions
 from r0 to r1

The transfer angle assumed a counterclockwise motion in the xy plane, so the arc of a clockwise solution did not end at r1.
---
 pykep/plot/_lambert.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykep/plot/_lambert.py b/pykep/plot/_lambert.py
index 14ec8f0..1de6255 100644
--- a/pykep/plot/_lambert.py
+++ b/pykep/plot/_lambert.py
@@ -57,9 +57,9 @@ def add_lambert(ax, lp, N: int = 60, sol: int = 0, units=_pk.AU, **kwargs):
     # Compute the cross product to determine the direction
     cross_product = _np.cross(r0, r1)
     
-    # Assuming motion is in the xy-plane (i.e., third component z gives the direction)
-    if cross_product[2] < 0:  # If the z-component is negative, the motion is clockwise
-        theta = 2 * _np.pi - theta  # Adjust the angle to account for counterclockwise motion
+    # The motion is around the angular momentum of the arc: if it is opposite to r0 x r1 the transfer goes the long way
+    if _np.dot(cross_product, _np.cross(r0, v0)) < 0:
+        theta = 2 * _np.pi - theta
     
     # We define the integration grid
     if sol == 0:
-- 
2.43.0


From 33e5a1f81bece3b7a8651629428f543d9c7f16f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:36 +0000
Subject: [PATCH 21/21] fix: planet.extract(object) returns any Python UDPLA,
 as documented

---
 pykep/_patch_planet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykep/_patch_planet.py b/pykep/_patch_planet.py
index cf977c4..455a72c 100644
--- a/pykep/_patch_planet.py
+++ b/pykep/_patch_planet.py
@@ -60,7 +60,7 @@ def _planet_extract(self, t):
     # Else we extract the UDPLA from the python class, check its type 
     # and see if we want to return None or not as to have a consistent behaviour
     udpla = self._py_extract()
-    if (type(udpla) == t):
+    if (type(udpla) == t) or (t is object and udpla is not None):
         return udpla
     else:
         return None
-- 
2.43.0

