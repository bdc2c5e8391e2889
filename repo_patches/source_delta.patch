From 86a0f18deba03b087e1aa69acc34465f0d5d0335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:44 +0000
Subject: [PATCH 01/58] fix: computeWDP must overwrite its output, not append
 to it

IncompTpfa keeps its vector of well perforation potentials between calls
to solve(), so every solve after the first used the values computed for
the first one.
---
 opm/core/utility/miscUtilities.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opm/core/utility/miscUtilities.cpp b/opm/core/utility/miscUtilities.cpp
index 468dad6..da009f2 100644
--- a/opm/core/utility/miscUtilities.cpp
+++ b/opm/core/utility/miscUtilities.cpp
@@ -489,6 +489,7 @@ namespace Opm
         const size_t np = per_grid_cell ?
             saturations.size()/grid.number_of_cells
             : saturations.size()/wells.well_connpos[nw];
+        wdp.clear();
         // Simple for now:
         for (int i = 0; i < nw; i++) {
             double depth_ref = wells.depth_ref[i];
-- 
2.43.0


From 20ff8de10e9f59b93dd26009bdc8104b9647f6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:00 +0000
Subject: [PATCH 02/58] fix: well potentials on two-dimensional grids

computeWDP and IncompTpfa indexed centroids and gravity as if the grid
were always three-dimensional, reading past the end of both arrays in 2D.
Use the last coordinate, as CompressibleTpfa does.
---
 opm/core/pressure/IncompTpfa.cpp   | 2 +-
 opm/core/utility/miscUtilities.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/pressure/IncompTpfa.cpp b/opm/core/pressure/IncompTpfa.cpp
index d9e3aac..4ee889a 100644
--- a/opm/core/pressure/IncompTpfa.cpp
+++ b/opm/core/pressure/IncompTpfa.cpp
@@ -336,7 +336,7 @@ namespace Opm
         // wdp_
         if (wells_) {
             Opm::computeWDP(*wells_, grid_, state.saturation(), props_.density(),
-                            gravity_ ? gravity_[2] : 0.0, true, wdp_);
+                            gravity_ ? gravity_[grid_.dimensions - 1] : 0.0, true, wdp_);
         }
         // totmob_, omega_, gpress_omegaweighted_
         if (gravity_) {
diff --git a/opm/core/utility/miscUtilities.cpp b/opm/core/utility/miscUtilities.cpp
index da009f2..1f5a339 100644
--- a/opm/core/utility/miscUtilities.cpp
+++ b/opm/core/utility/miscUtilities.cpp
@@ -497,7 +497,7 @@ namespace Opm
                 int cell = wells.well_cells[j];
 
                 // Is this correct wrt. depth_ref?
-                double cell_depth = grid.cell_centroids[3 * cell + 2];
+                double cell_depth = grid.cell_centroids[grid.dimensions * cell + grid.dimensions - 1];
 
                 double saturation_sum = 0.0;
                 for (size_t p = 0; p < np; p++) {
-- 
2.43.0


From dbfe71e8afbbbdb8accd758d2218a992ecafdf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:47 +0000
Subject: [PATCH 03/58] fix: a shut well has no perforation flow in the
 compressible solver

---
 opm/core/pressure/tpfa/cfs_tpfa_residual.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opm/core/pressure/tpfa/cfs_tpfa_residual.c b/opm/core/pressure/tpfa/cfs_tpfa_residual.c
index 001f9a3..7723db1 100644
--- a/opm/core/pressure/tpfa/cfs_tpfa_residual.c
+++ b/opm/core/pressure/tpfa/cfs_tpfa_residual.c
@@ -1118,7 +1118,8 @@ compute_wflux(int                        np    ,
                 t += pmob[ p ];
             }
 
-            wflux[ i ] = W->WI[i] * t * dp;
+            /* No flow through the perforations of a shut well. */
+            wflux[ i ] = (W->ctrls[w]->current >= 0) ? W->WI[i] * t * dp : 0.0;
         }
     }
 }
-- 
2.43.0


From 37d838c2b02d25653d7ba4c4adccb30c734e08a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:56 +0000
Subject: [PATCH 04/58] fix: upwind each phase by its own potential difference

---
 opm/core/pressure/CompressibleTpfa.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/pressure/CompressibleTpfa.cpp b/opm/core/pressure/CompressibleTpfa.cpp
index 3dcb204..4363990 100644
--- a/opm/core/pressure/CompressibleTpfa.cpp
+++ b/opm/core/pressure/CompressibleTpfa.cpp
@@ -429,7 +429,7 @@ namespace Opm
             for (int phase = 0; phase < np; ++phase) {
                 int upwindc = -1;
                 if (c[0] >=0 && c[1] >= 0) {
-                    upwindc = (pot[0] < pot[1]) ? c[1] : c[0];
+                    upwindc = (pot[0][phase] < pot[1][phase]) ? c[1] : c[0];
                 } else {
                     upwindc = (c[0] >= 0) ? c[0] : c[1];
                 }
-- 
2.43.0


From f3ba8791c1f4b81f54aabca1ff40049faf2e24da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:49 +0000
Subject: [PATCH 05/58] fix: rescaleDomain must drop the reversed tables cached
 by inverse()

---
 opm/core/utility/NonuniformTableLinear.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opm/core/utility/NonuniformTableLinear.hpp b/opm/core/utility/NonuniformTableLinear.hpp
index aac2db2..142fcf1 100644
--- a/opm/core/utility/NonuniformTableLinear.hpp
+++ b/opm/core/utility/NonuniformTableLinear.hpp
@@ -151,6 +151,9 @@ namespace Opm
         for (int i = 0; i < int(x_values_.size()); ++i) {
             x_values_[i] = (x_values_[i] - a)*(d - c)/(b - a) + c;
         }
+        // Data cached by inverse() refer to the old domain.
+        x_values_reversed_.clear();
+        y_values_reversed_.clear();
     }
 
     template<typename T>
-- 
2.43.0


From e355302d62eb3001f319610743fa2a6a62ed69d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:49 +0000
Subject: [PATCH 06/58] fix: chopFlatEndpoints must not step iterators of
 erased points

---
 opm/core/utility/MonotCubicInterpolator.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/opm/core/utility/MonotCubicInterpolator.cpp b/opm/core/utility/MonotCubicInterpolator.cpp
index f2e0200..c5c64df 100644
--- a/opm/core/utility/MonotCubicInterpolator.cpp
+++ b/opm/core/utility/MonotCubicInterpolator.cpp
@@ -528,9 +528,14 @@ chopFlatEndpoints(const double epsilon) {
     // Erase data points that are similar to its right value from the left end.
     while ((xf_next_iterator != data.end()) && 
            (fabs(xf_iterator->second - xf_next_iterator->second) < epsilon )) {
-        xf_next_iterator++;
         data.erase(xf_iterator);
-	xf_iterator++;
+        xf_iterator = xf_next_iterator;
+        xf_next_iterator++;
+    }
+
+    if (data.size() < 2) {   // All points were similar.
+        computeInternalFunctionData();
+        return;
     }
 
     xf_iterator = data.end(); 
@@ -540,9 +545,9 @@ chopFlatEndpoints(const double epsilon) {
     // Erase data points that are similar to its left value from the right end.
     while ((xf_next_iterator != data.begin()) &&
            (fabs(xf_iterator->second - xf_next_iterator->second) < epsilon )) {
-        xf_next_iterator--;
         data.erase(xf_iterator);
-	xf_iterator--;
+        xf_iterator = xf_next_iterator;
+        xf_next_iterator--;
     }
     
     // Finished chopping, so recompute function data:
-- 
2.43.0


From 2a6f21b13579e6c7e94a1b778ec6ccff40f11e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:49 +0000
Subject: [PATCH 07/58] fix: scaleData must update the monotonicity properties

---
 opm/core/utility/MonotCubicInterpolator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opm/core/utility/MonotCubicInterpolator.cpp b/opm/core/utility/MonotCubicInterpolator.cpp
index c5c64df..d06771b 100644
--- a/opm/core/utility/MonotCubicInterpolator.cpp
+++ b/opm/core/utility/MonotCubicInterpolator.cpp
@@ -732,6 +732,8 @@ scaleData(double factor) {
       it->second  *= factor ;
     } 
   } 
+  // Scaling may change the monotonicity properties (factor <= 0).
+  computeInternalFunctionData();
 }
 
 
-- 
2.43.0


From 8386758605df60142fc136501148b4d1180e414e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 08/58] fix: zero pressure derivative where undersaturated live
 gas is extrapolated as constant

---
 opm/core/props/pvt/SinglePvtLiveGas.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/opm/core/props/pvt/SinglePvtLiveGas.cpp b/opm/core/props/pvt/SinglePvtLiveGas.cpp
index e58a51a..a7117b0 100644
--- a/opm/core/props/pvt/SinglePvtLiveGas.cpp
+++ b/opm/core/props/pvt/SinglePvtLiveGas.cpp
@@ -239,6 +239,11 @@ namespace Opm
                                                 press);
             } else {  // Undersaturated case
                 int is = section;
+                // Constant in pressure outside the table, see below.
+                if (press < saturated_gas_table_[0].front() ||
+                    press > saturated_gas_table_[0].back()) {
+                    return 0.0;
+                }
                 if (undersat_gas_tables_[is][0].size() < 2) {
                     double val = (saturated_gas_table_[item][is+1]
                                   - saturated_gas_table_[item][is]) /
-- 
2.43.0


From 0ec8124568c5810b456d606f487dcc83c0fb1645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 09/58] fix: black-oil phase mobilities for the cells asked for

---
 opm/core/utility/miscUtilitiesBlackoil.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/utility/miscUtilitiesBlackoil.cpp b/opm/core/utility/miscUtilitiesBlackoil.cpp
index 4584e45..25452b1 100644
--- a/opm/core/utility/miscUtilitiesBlackoil.cpp
+++ b/opm/core/utility/miscUtilitiesBlackoil.cpp
@@ -196,7 +196,7 @@ namespace Opm
                                 const std::vector<double>&              s,
                                 std::vector<double>&                    pmobc)
     {
-        const int nc = props.numCells();
+        const int nc = cells.size();
         const int np = props.numPhases();
 
         ASSERT (int(s.size()) == nc * np);
-- 
2.43.0


From 7e01f7e84d2b749a0c6c649bd664fe9b111d828f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:10 +0000
Subject: [PATCH 10/58] fix: WellReport uses the injection composition of each
 well

---
 opm/core/utility/miscUtilities.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/utility/miscUtilities.cpp b/opm/core/utility/miscUtilities.cpp
index 1f5a339..358c628 100644
--- a/opm/core/utility/miscUtilities.cpp
+++ b/opm/core/utility/miscUtilities.cpp
@@ -618,7 +618,7 @@ namespace Opm
                 well_rate_total += perf_rate;
                 if (perf_rate > 0.0) {
                     // Injection.
-                    well_rate_water += perf_rate*wells.comp_frac[0];
+                    well_rate_water += perf_rate*wells.comp_frac[np*w];
                 } else {
                     // Production.
                     const int cell = wells.well_cells[perf];
@@ -676,7 +676,7 @@ namespace Opm
                 well_rate_total += perf_rate;
                 if (perf_rate > 0.0) {
                     // Injection.
-                    well_rate_water += perf_rate*wells.comp_frac[0];
+                    well_rate_water += perf_rate*wells.comp_frac[np*w];
                 } else {
                     // Production.
                     const int cell = wells.well_cells[perf];
-- 
2.43.0


From 6a17a9a6257651dd60aeb5ea9582f20a8f547722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:10 +0000
Subject: [PATCH 11/58] fix: WellReport saturation stride for other than two
 phases

---
 opm/core/utility/miscUtilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/utility/miscUtilities.cpp b/opm/core/utility/miscUtilities.cpp
index 358c628..0248e19 100644
--- a/opm/core/utility/miscUtilities.cpp
+++ b/opm/core/utility/miscUtilities.cpp
@@ -623,7 +623,7 @@ namespace Opm
                     // Production.
                     const int cell = wells.well_cells[perf];
                     double mob[max_np];
-                    props.relperm(1, &saturation[2*cell], &cell, mob, 0);
+                    props.relperm(1, &saturation[np*cell], &cell, mob, 0);
                     double tmob = 0;
                     for(int i = 0; i < np; ++i) {
                         mob[i] /= visc[i];
-- 
2.43.0


From 00176cde81773b186cdfae11d72634ea1d67222b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:10 +0000
Subject: [PATCH 12/58] fix: computeFlowRatePerWell starts from an empty result

---
 opm/core/utility/miscUtilities.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opm/core/utility/miscUtilities.cpp b/opm/core/utility/miscUtilities.cpp
index 0248e19..7458dde 100644
--- a/opm/core/utility/miscUtilities.cpp
+++ b/opm/core/utility/miscUtilities.cpp
@@ -531,6 +531,7 @@ namespace Opm
             std::vector<double>& flow_rates_per_well)
     {
         int index_in_flow_rates = 0;
+        flow_rates_per_well.clear();
         for (int w = 0; w < wells.number_of_wells; w++) {
             int number_of_cells = wells.well_connpos[w + 1] - wells.well_connpos[w];
             double flow_sum = 0.0;
-- 
2.43.0


From 5e6dbe38aa0b295e689f367c84a1b0a15bde5558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:10 +0000
Subject: [PATCH 13/58] fix: wellsToSrc zeroes the result and adds wells
 sharing a cell

---
 opm/core/utility/miscUtilities.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/utility/miscUtilities.cpp b/opm/core/utility/miscUtilities.cpp
index 7458dde..1ad973a 100644
--- a/opm/core/utility/miscUtilities.cpp
+++ b/opm/core/utility/miscUtilities.cpp
@@ -454,7 +454,7 @@ namespace Opm
         if (np != 2) {
             THROW("wellsToSrc() requires a 2 phase case.");
         }
-        src.resize(num_cells);
+        src.assign(num_cells, 0.0);
         for (int w = 0; w < wells.number_of_wells; ++w) {
             const int cur = wells.ctrls[w]->current;
             if (wells.ctrls[w]->num != 1) {
@@ -476,7 +476,7 @@ namespace Opm
                 flow *= wells.comp_frac[np*w + 0]; // Obtaining water rate for inflow source.
             }
             const int cell = wells.well_cells[wells.well_connpos[w]];
-            src[cell] = flow;
+            src[cell] += flow;
         }
     }
 
-- 
2.43.0


From 219683874d50ccff42bb77945989bc34bac1b66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 14/58] fix: check the requested step in
 SimulatorTimer::setCurrentStepNum

---
 opm/core/simulator/SimulatorTimer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/simulator/SimulatorTimer.cpp b/opm/core/simulator/SimulatorTimer.cpp
index 4aa52ec..c009741 100644
--- a/opm/core/simulator/SimulatorTimer.cpp
+++ b/opm/core/simulator/SimulatorTimer.cpp
@@ -72,7 +72,7 @@ namespace Opm
     /// Set current step number.
     void SimulatorTimer::setCurrentStepNum(int step)
     {
-        if (current_step_ < 0 || current_step_ > int(timesteps_.size())) {
+        if (step < 0 || step > int(timesteps_.size())) {
             // Note that we do allow current_step_ == timesteps_.size(),
             // that is the done() state.
             THROW("Trying to set invalid step number: " << step);
-- 
2.43.0


From 284f4e02c0ca169feab99cb4760716b737843ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 15/58] fix: upwind direction of spu_explicit at zero total
 flux

---
 opm/core/transport/minimal/spu_explicit.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/opm/core/transport/minimal/spu_explicit.c b/opm/core/transport/minimal/spu_explicit.c
index 91b12bc..34f3deb 100644
--- a/opm/core/transport/minimal/spu_explicit.c
+++ b/opm/core/transport/minimal/spu_explicit.c
@@ -68,7 +68,7 @@ spu_explicit(struct UnstructuredGrid *g, double *s0, double *s, double *mob,
 
             else {
                 /* Oil mobility */
-                if (dflux[f]>0) {
+                if (dflux[f]>0 || (dflux[f]==0 && gflux[f]<0)) {
                     m2 = mob[2*c1+1];
                 }
                 else {
@@ -84,8 +84,7 @@ spu_explicit(struct UnstructuredGrid *g, double *s0, double *s, double *mob,
             }
 
             /* Water flux */            
-            assert(m1+m2>0.0);
-            flux = m1/(m1+m2)*(dflux[f] + m2*gflux[f]);
+            flux = m1+m2>0.0 ? m1/(m1+m2)*(dflux[f] + m2*gflux[f]) : 0.0;
             s[c1] -= flux*dt;
             s[c2] += flux*dt;
         }
-- 
2.43.0


From 426326da646df42bc424fd7b1b3c3bc5af99d6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 16/58] fix: upwind direction of spu_implicit at zero total
 flux

---
 opm/core/transport/minimal/spu_implicit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/transport/minimal/spu_implicit.c b/opm/core/transport/minimal/spu_implicit.c
index d544714..00d92c4 100644
--- a/opm/core/transport/minimal/spu_implicit.c
+++ b/opm/core/transport/minimal/spu_implicit.c
@@ -245,7 +245,7 @@ phase_upwind_mobility(double darcyflux, double gravityflux,  int i, int c,
     else {
         
         /* Positive oil phase flux */
-        if (darcyflux>0) {
+        if (darcyflux>0 || (darcyflux==0 && gravityflux<0)) {
             m [1]  =  mob[2*i+1];
             dm[1]  = dmob[2*i+1];
             cix[1] = i;
-- 
2.43.0


From 950c4fed8bcce1ffed0c5152afb481428a9e0f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 17/58] fix: do not add upstream tracer to source cells

---
 opm/core/tof/TofReorder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/tof/TofReorder.cpp b/opm/core/tof/TofReorder.cpp
index 618b541..13db3be 100644
--- a/opm/core/tof/TofReorder.cpp
+++ b/opm/core/tof/TofReorder.cpp
@@ -172,7 +172,7 @@ namespace Opm
                 // face.
                 if (other != -1) {
                     upwind_term += flux*tof_[other];
-                    for (int tr = 0; tr < num_tracers_; ++tr) {
+                    for (int tr = 0; source_[cell] <= 0.0 && tr < num_tracers_; ++tr) {
                         tracer_[num_tracers_*cell + tr] += flux*tracer_[num_tracers_*other + tr];
                     }
                 }
-- 
2.43.0


From 7601dc90fc631518554eb2c63f4ac39dc40bf8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 18/58] fix: skip faces without flux in multidimensional upwind
 time-of-flight

---
 opm/core/tof/TofReorder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/tof/TofReorder.cpp b/opm/core/tof/TofReorder.cpp
index 13db3be..6d96d0d 100644
--- a/opm/core/tof/TofReorder.cpp
+++ b/opm/core/tof/TofReorder.cpp
@@ -219,7 +219,7 @@ namespace Opm
             // Add flux to upwind_term or downwind_term_[face|cell_factor].
             if (flux < 0.0) {
                 upwind_term += flux*face_tof_[f];
-            } else {
+            } else if (flux > 0.0) {
                 double fterm, cterm_factor;
                 multidimUpwindTerms(f, cell, fterm, cterm_factor);
                 downwind_term_face += fterm*flux;
-- 
2.43.0


From adcaa79ed13a2536f46874ee53e6526dae502e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:27 +0000
Subject: [PATCH 19/58] fix: no division by zero in DG limiter for flat
 solutions

---
 opm/core/tof/TofDiscGalReorder.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/opm/core/tof/TofDiscGalReorder.cpp b/opm/core/tof/TofDiscGalReorder.cpp
index ef50b66..8c3a87a 100644
--- a/opm/core/tof/TofDiscGalReorder.cpp
+++ b/opm/core/tof/TofDiscGalReorder.cpp
@@ -459,7 +459,11 @@ namespace Opm
             min_upstream_tof = 0.0;
         }
         const double tof_c = basis_func_->functionAverage(tof_coeff_ + num_basis*cell);
-        double limiter = (tof_c - min_upstream_tof)/(tof_c - min_here_tof);
+        // A flat solution needs no limiting (and would give 0/0 below).
+        double limiter = 1.0;
+        if (tof_c != min_here_tof) {
+            limiter = (tof_c - min_upstream_tof)/(tof_c - min_here_tof);
+        }
         if (tof_c < min_upstream_tof) {
             // Handle by setting a flat solution.
             std::cout << "Trouble in cell " << cell << std::endl;
-- 
2.43.0


From 78979d4634babf42a30ede109d5f0dc55699bb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:27 +0000
Subject: [PATCH 20/58] fix: record capacity of compr_bc after growth

---
 opm/core/pressure/tpfa/compr_bc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/pressure/tpfa/compr_bc.c b/opm/core/pressure/tpfa/compr_bc.c
index 32c5bc1..32dda5f 100644
--- a/opm/core/pressure/tpfa/compr_bc.c
+++ b/opm/core/pressure/tpfa/compr_bc.c
@@ -60,7 +60,7 @@ expand_source_tables(int alloc, struct compr_bc *bc)
 
         alloc = 0;
     } else {
-        bc->type       = t;  bc->face = f;
+        bc->type       = t;  bc->face = f;  bc->cpty = alloc;
         bc->press      = p;  bc->flux = v;
         bc->saturation = s;
     }
-- 
2.43.0


From 68c4f785a2014338862c6ba999cf84898d1335c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:16 +0000
Subject: [PATCH 21/58] fix: do not dereference missing management data in
 destroy_wells

---
 opm/core/wells/wells.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opm/core/wells/wells.c b/opm/core/wells/wells.c
index c1327f7..87a0027 100644
--- a/opm/core/wells/wells.c
+++ b/opm/core/wells/wells.c
@@ -410,11 +410,12 @@ destroy_wells(struct Wells *W)
     if (W != NULL) {
         m = W->data;
 
-        for (w = 0; w < m->well_cpty; w++) {
+        /* No management data if create_wells() ran out of memory */
+        for (w = 0; (m != NULL) && (w < m->well_cpty); w++) {
             well_controls_destroy(W->ctrls[w]);
         }
 
-        for (w = 0; w < m->well_cpty; w++) {
+        for (w = 0; (m != NULL) && (w < m->well_cpty); w++) {
             free(W->name[w]);
         }
 
-- 
2.43.0


From 1d07f088ddb83d6922a1825a694d61a8f742ac69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:08 +0000
Subject: [PATCH 22/58] fix: clone_wells copies current control of wells whose
 controls were cleared

---
 opm/core/wells/wells.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opm/core/wells/wells.c b/opm/core/wells/wells.c
index 87a0027..246db0d 100644
--- a/opm/core/wells/wells.c
+++ b/opm/core/wells/wells.c
@@ -654,7 +654,8 @@ clone_wells(const struct Wells *W)
                 }
 
                 if (ok) {
-                    set_current_control(w, ctrls->current, ret);
+                    /* Direct copy, the original may have no controls now */
+                    ret->ctrls[ w ]->current = ctrls->current;
                 }
 
                 pos = W->well_connpos[w + 1];
-- 
2.43.0


From 57c68c48f6711b6c790aefaaaf319705b22b382c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:50 +0000
Subject: [PATCH 23/58] fix: do not close a matrix or vector file that could
 not be opened

---
 opm/core/linalg/sparse_sys.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/opm/core/linalg/sparse_sys.c b/opm/core/linalg/sparse_sys.c
index 3546965..62c7dce 100644
--- a/opm/core/linalg/sparse_sys.c
+++ b/opm/core/linalg/sparse_sys.c
@@ -211,9 +211,8 @@ csrmatrix_write(const struct CSRMatrix *A, const char *fn)
 
     if (fp != NULL) {
         csrmatrix_write_stream(A, fp);
+        fclose(fp);
     }
-
-    fclose(fp);
 }
 
 
@@ -245,9 +244,8 @@ vector_write(size_t n, const double *v, const char *fn)
 
     if (fp != NULL) {
         vector_write_stream(n, v, fp);
+        fclose(fp);
     }
-
-    fclose(fp);
 }
 
 
-- 
2.43.0


From a08b28ad88cc2ce2cbd86c4ab37573f3d3515032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:43 +0000
Subject: [PATCH 24/58] fix: mark a node visited when it is pushed in dfs

---
 opm/core/pressure/msmfem/dfs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/pressure/msmfem/dfs.c b/opm/core/pressure/msmfem/dfs.c
index 248b16a..1330c3a 100644
--- a/opm/core/pressure/msmfem/dfs.c
+++ b/opm/core/pressure/msmfem/dfs.c
@@ -59,7 +59,7 @@ void dfs (int size, int *ia, int *ja, int *ncolors, int *color, int* work)
                 
                 if (color[child] == UNVISITED) {
                     *stack++ = child;
-                    color[c] = VISITED;
+                    color[child] = VISITED;
                 }
    
             } else {
-- 
2.43.0


From 368ca493a081e8e071f147087682199f2b1dffda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:57 +0000
Subject: [PATCH 25/58] fix: reset first start pointer of cell-to-cell
 connections

---
 opm/core/pressure/msmfem/partition.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opm/core/pressure/msmfem/partition.c b/opm/core/pressure/msmfem/partition.c
index db55831..b1d6809 100644
--- a/opm/core/pressure/msmfem/partition.c
+++ b/opm/core/pressure/msmfem/partition.c
@@ -362,6 +362,8 @@ partition_create_c2c(int nc, int nneigh, const int *neigh,
                 }
             }
 
+            (*pc2c)[0] = 0;
+
             ret = nc;
         } else {
             free(*pc2c);
-- 
2.43.0


From c634a9544b79e41bda2656d37f12dc0554492a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:58 +0000
Subject: [PATCH 26/58] fix: orient faces of corner-point grids with decreasing
 ZCORN

---
 opm/core/grid/cpgpreprocess/preprocess.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/opm/core/grid/cpgpreprocess/preprocess.c b/opm/core/grid/cpgpreprocess/preprocess.c
index 3b465c2..67d3124 100644
--- a/opm/core/grid/cpgpreprocess/preprocess.c
+++ b/opm/core/grid/cpgpreprocess/preprocess.c
@@ -928,12 +928,13 @@ void process_grdecl(const struct grdecl   *in,
             out->node_coordinates[i] *= sign;
     }
 
-    /* If an odd number of coordinate reflections were applied, the
-     * processing routines--especially facetopology()--will produce
-     * node orderings that lead to normals pointing from 2 to 1.
-     * Reverse nodes to reestablish expected normal direction (and
-     * positive cell volumes). */
-    if (left_handed ^ (sign == -1)) {
+    /* If the input coordinate system is left handed, the processing
+     * routines--especially facetopology()--will produce node
+     * orderings that lead to normals pointing from 2 to 1.  Reverse
+     * nodes to reestablish expected normal direction (and positive
+     * cell volumes).  Note that "left_handed" already accounts for
+     * ZCORN values that decrease in the k-direction. */
+    if (left_handed) {
         reverse_face_nodes(out);
     }
 }
-- 
2.43.0


From 261b724643a358eb2a6a143342d734017ebad4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:58 +0000
Subject: [PATCH 27/58] fix: interpolate slanted pillars at true depth when
 ZCORN is reversed

---
 opm/core/grid/cpgpreprocess/preprocess.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/opm/core/grid/cpgpreprocess/preprocess.c b/opm/core/grid/cpgpreprocess/preprocess.c
index 67d3124..df9f326 100644
--- a/opm/core/grid/cpgpreprocess/preprocess.c
+++ b/opm/core/grid/cpgpreprocess/preprocess.c
@@ -771,7 +771,7 @@ void process_grdecl(const struct grdecl   *in,
     int    *actnum, *iptr;
     int    *global_cell_index;
 
-    double *zcorn;
+    double *zcorn, *coord;
 
     const size_t BIGNUM = 64;
     const int    nx = in->dims[0];
@@ -838,6 +838,18 @@ void process_grdecl(const struct grdecl   *in,
 
     g.coord   = in->coord;
 
+    /* Pillars must be described in terms of the same (possibly
+     * reversed) z-axis as the corner-point depths. */
+    coord = NULL;
+    if (sign == -1) {
+        const size_t ncoord = 6 * ((size_t) (nx + 1)) * ((size_t) (ny + 1));
+
+        coord = malloc (ncoord * sizeof *coord);
+        for (i = 0; i < ncoord; i++) {
+            coord[i] = (i % 3 == 2) ? -in->coord[i] : in->coord[i];
+        }
+        g.coord = coord;
+    }
 
     /* allocate space for cornerpoint numbers plus INT_MIN (INT_MAX)
      * padding */
@@ -845,6 +857,7 @@ void process_grdecl(const struct grdecl   *in,
 
     finduniquepoints(&g, plist, tolerance, out);
 
+    free (coord);
     free (zcorn);
     free (actnum);
 
-- 
2.43.0


From df53a94eea053ef86fc549dae1476d8e0bbbb3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:43 +0000
Subject: [PATCH 28/58] fix: correct oil relperm derivatives of the Stone II
 model

---
 opm/core/props/satfunc/SatFuncStone2.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/opm/core/props/satfunc/SatFuncStone2.cpp b/opm/core/props/satfunc/SatFuncStone2.cpp
index 93cbe00..bc9f5f9 100644
--- a/opm/core/props/satfunc/SatFuncStone2.cpp
+++ b/opm/core/props/satfunc/SatFuncStone2.cpp
@@ -140,14 +140,15 @@ namespace Opm
             kr[Aqua] = krw;
             kr[Vapour] = krg;
             kr[Liquid] = krocw*((krow/krocw + krw)*(krog/krocw + krg) - krw - krg);
+            dkrds[Aqua + Aqua*np] = dkrww;
+            dkrds[Vapour + Vapour*np] = dkrgg;
             if (kr[Liquid] < 0.0) {
                 kr[Liquid] = 0.0;
+            } else {
+                dkrds[Liquid + Aqua*np] = krocw*((dkrow/krocw + dkrww)*(krog/krocw + krg) - dkrww);
+                dkrds[Liquid + Vapour*np] = krocw*((krow/krocw + krw)*(dkrog/krocw + dkrgg) - dkrgg)
+                        + dkrow*(krog/krocw + krg);
             }
-            dkrds[Aqua + Aqua*np] = dkrww;
-            dkrds[Vapour + Vapour*np] = dkrgg;
-            dkrds[Liquid + Aqua*np] = krocw*((dkrow/krocw + dkrww)*(krog/krocw + krg) - dkrww);
-            dkrds[Liquid + Vapour*np] = krocw*((krow/krocw + krw)*(dkrog/krocw + dkrgg) - dkrgg)
-                    + krocw*((dkrow/krocw + krw)*(krog/krocw + krg) - dkrgg);
             return;
         }
         // We have a two-phase situation. We know that oil is active.
@@ -334,14 +335,15 @@ namespace Opm
             kr[Aqua] = krw;
             kr[Vapour] = krg;
             kr[Liquid] = krocw*((krow/krocw + krw)*(krog/krocw + krg) - krw - krg);
+            dkrds[Aqua + Aqua*np] = dkrww;
+            dkrds[Vapour + Vapour*np] = dkrgg;
             if (kr[Liquid] < 0.0) {
                 kr[Liquid] = 0.0;
+            } else {
+                dkrds[Liquid + Aqua*np] = krocw*((dkrow/krocw + dkrww)*(krog/krocw + krg) - dkrww);
+                dkrds[Liquid + Vapour*np] = krocw*((krow/krocw + krw)*(dkrog/krocw + dkrgg) - dkrgg)
+                        + dkrow*(krog/krocw + krg);
             }
-            dkrds[Aqua + Aqua*np] = dkrww;
-            dkrds[Vapour + Vapour*np] = dkrgg;
-            dkrds[Liquid + Aqua*np] = krocw*((dkrow/krocw + dkrww)*(krog/krocw + krg) - dkrww);
-            dkrds[Liquid + Vapour*np] = krocw*((krow/krocw + krw)*(dkrog/krocw + dkrgg) - dkrgg)
-                    + krocw*((dkrow/krocw + krw)*(krog/krocw + krg) - dkrgg);
             return;
         }
         // We have a two-phase situation. We know that oil is active.
-- 
2.43.0


From f61a04cb38b8931a1f558662b3eac624f8bc1bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:43 +0000
Subject: [PATCH 29/58] fix: test for KRW before using it in water relperm
 scaling

---
 opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp b/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp
index 5f1983c..23e8c93 100644
--- a/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp
+++ b/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp
@@ -477,7 +477,7 @@ namespace Opm
            } else if (sr > swmax-1.0e-6) {
                if (do_3pt_) { //Ignore krw and do two-point?
                    kr[wpos] *= eps_.krwr_[cell]/funcForCell(cell).krwr_;
-               } else if (!eps_.kro_.empty()){ //Ignore krwr and do two-point
+               } else if (!eps_.krw_.empty()){ //Ignore krwr and do two-point
                    kr[wpos] *= eps_.krw_[cell]/funcForCell(cell).krwmax_;
                }
            } else if (s[wpos] <= sr) {
-- 
2.43.0


From 292192693d93e3c4734a421249cd10e189ea9702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:43 +0000
Subject: [PATCH 30/58] fix: apply three-point scaling when only the other
 phase's critical saturation is scaled

---
 opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp b/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp
index 23e8c93..74e010e 100644
--- a/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp
+++ b/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp
@@ -383,7 +383,7 @@ namespace Opm
        
        if (do_3pt_) { // Three-point scaling
            // Transforms for water saturation 
-           if (eps_.swcr_.empty() && eps_.swu_.empty()) {
+           if (eps_.swcr_.empty() && eps_.sowcr_.empty() && eps_.swu_.empty()) {
                ss[wpos] = s[wpos]; 
            } else {
                double s_r = 1.0-funcForCell(cell).sowcr_;
@@ -399,7 +399,7 @@ namespace Opm
                }
            }
            // Transforms for oil saturation 
-           if (eps_.sowcr_.empty() && eps_.swl_.empty()) {
+           if (eps_.sowcr_.empty() && eps_.swcr_.empty() && eps_.swl_.empty()) {
                ss[opos] = s[opos]; 
            } else {
                double s_r = 1.0-funcForCell(cell).swcr_;
-- 
2.43.0


From cbf052e9ce43f960a063437cb5a947303727aee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:01 +0000
Subject: [PATCH 31/58] fix: set the parent of nodes added to a well collection
 by name

---
 opm/core/wells/WellCollection.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opm/core/wells/WellCollection.cpp b/opm/core/wells/WellCollection.cpp
index 19cf301..25790c7 100644
--- a/opm/core/wells/WellCollection.cpp
+++ b/opm/core/wells/WellCollection.cpp
@@ -107,6 +107,7 @@ namespace Opm
         }
         ASSERT(!parent->isLeafNode());
         static_cast<WellsGroup*>(parent)->addChild(child_node);
+        child_node->setParent(parent);
         if (child_node->isLeafNode()) {
             leaf_nodes_.push_back(static_cast<WellNode*>(child_node.get()));
         }
-- 
2.43.0


From f2e3e0e98c2875469117b898d658c5e1a16a995b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:01 +0000
Subject: [PATCH 32/58] fix: leave individually controlled wells of nested
 groups alone when applying group control

---
 opm/core/wells/WellsGroup.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/wells/WellsGroup.cpp b/opm/core/wells/WellsGroup.cpp
index 5e9c4ed..050ec4f 100644
--- a/opm/core/wells/WellsGroup.cpp
+++ b/opm/core/wells/WellsGroup.cpp
@@ -269,7 +269,7 @@ namespace Opm
             }
             for (size_t i = 0; i < children_.size(); ++i) {
                 const double child_target = target * children_[i]->injectionGuideRate(!forced) / my_guide_rate;
-                children_[i]->applyInjGroupControl(control_mode, child_target, true);
+                children_[i]->applyInjGroupControl(control_mode, child_target, forced);
             }
             injSpec().control_mode_ = InjectionSpecification::FLD;
         }
@@ -294,7 +294,7 @@ namespace Opm
             }
             for (size_t i = 0; i < children_.size(); ++i) {
                 const double child_target = target * children_[i]->productionGuideRate(!forced) / my_guide_rate;
-                children_[i]->applyProdGroupControl(control_mode, child_target, true);
+                children_[i]->applyProdGroupControl(control_mode, child_target, forced);
             }
             prodSpec().control_mode_ = ProductionSpecification::FLD;
         }
-- 
2.43.0


From d1aa5e677b885f434cedd592ba1b04766ea3542e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:01 +0000
Subject: [PATCH 33/58] fix: apply explicit reinjection controls of nested
 groups

---
 opm/core/wells/WellsGroup.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/opm/core/wells/WellsGroup.cpp b/opm/core/wells/WellsGroup.cpp
index 050ec4f..c6a77b8 100644
--- a/opm/core/wells/WellsGroup.cpp
+++ b/opm/core/wells/WellsGroup.cpp
@@ -615,6 +615,12 @@ namespace Opm
             }
             
         }
+        else if (injSpec().control_mode_ == InjectionSpecification::FLD
+                 || injSpec().control_mode_ == InjectionSpecification::NONE) {
+            for (size_t i = 0; i < children_.size(); ++i) {
+                children_[i]->applyExplicitReinjectionControls(well_reservoirrates_phase, well_surfacerates_phase);
+            }
+        }
     }
 
     // ==============    WellNode members   ============
-- 
2.43.0


From 61bbc73e98eaa4a4e69f7015fbaec4e25946aeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:01 +0000
Subject: [PATCH 34/58] fix: shut the largest producer when a group production
 limit is violated

---
 opm/core/wells/WellsGroup.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/opm/core/wells/WellsGroup.cpp b/opm/core/wells/WellsGroup.cpp
index c6a77b8..09b5f7c 100644
--- a/opm/core/wells/WellsGroup.cpp
+++ b/opm/core/wells/WellsGroup.cpp
@@ -775,10 +775,15 @@ namespace Opm
     {
         const int np = phaseUsage().num_phases;
         const int index = self_index_*np;
+        if (wells_->type[self_index_] != PRODUCER) {
+            // Injectors do not contribute to the production of the group.
+            return std::pair<WellNode*, double>(this, -1.0);
+        }
+        // Production rates are negative.
         return std::pair<WellNode*, double>(this,
-                                            rateByMode(&well_reservoirrates_phase[index],
-                                                       &well_surfacerates_phase[index],
-                                                       mode));
+                                            std::fabs(rateByMode(&well_reservoirrates_phase[index],
+                                                                 &well_surfacerates_phase[index],
+                                                                 mode)));
     }
     
     void WellNode::applyInjGroupControl(const InjectionSpecification::ControlMode control_mode,
-- 
2.43.0


From cd02df3df5503b3f2a0793fa9a29ff45a96e73ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:01 +0000
Subject: [PATCH 35/58] fix: keep a well shut when it is shut again

---
 opm/core/wells/WellsGroup.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/opm/core/wells/WellsGroup.cpp b/opm/core/wells/WellsGroup.cpp
index 09b5f7c..e1fbcfc 100644
--- a/opm/core/wells/WellsGroup.cpp
+++ b/opm/core/wells/WellsGroup.cpp
@@ -744,6 +744,10 @@ namespace Opm
     
     void WellNode::shutWell() 
     {
+        if (wells_->ctrls[self_index_]->current < 0) {
+            // Already shut.
+            return;
+        }
         if (shut_well_) {
         	// We set the tilde of the current control
             // set_current_control(self_index_, -1, wells_);
-- 
2.43.0


From b95ed8d6ceff8a9f78ce5f40a358646654b86880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:01 +0000
Subject: [PATCH 36/58] fix: integrate hydrostatic blackoil pressure over the
 whole depth range

---
 opm/core/simulator/initState_impl.hpp | 73 ++++++++++++++-------------
 1 file changed, 39 insertions(+), 34 deletions(-)

diff --git a/opm/core/simulator/initState_impl.hpp b/opm/core/simulator/initState_impl.hpp
index d8e53bd..8a83fca 100644
--- a/opm/core/simulator/initState_impl.hpp
+++ b/opm/core/simulator/initState_impl.hpp
@@ -165,6 +165,28 @@ namespace Opm
             }
         };
 
+        /// Solve dp/dz = rho*gravity from (z0, p0) to z1 with the density of the given phase,
+        /// storing the computed pressures in press_by_z.
+        /// \return pressure at z1.
+        inline double integratePressure(Density& rho,
+                                        const int phase,
+                                        const double gravity,
+                                        const double hmin,
+                                        const double z0,
+                                        const double p0,
+                                        const double z1,
+                                        std::map<double, double>& press_by_z)
+        {
+            double pval = p0;
+            const int num_steps = int(std::ceil(std::fabs(z1 - z0)/hmin));
+            for (int i = 1; i <= num_steps; ++i) {
+                const double h = (z1 - z0)/double(num_steps);
+                pval += h*rho(pval, phase)*gravity;
+                press_by_z[i == num_steps ? z1 : z0 + i*h] = pval;
+            }
+            return pval;
+        }
+
         // Initialize hydrostatic pressures depending only on gravity,
         // phase densities that may vary with pressure and a water-oil
         // contact depth. The pressure ODE is given as
@@ -193,8 +215,17 @@ namespace Opm
                 zlim[1] = std::max(zlim[1], z);
             }
 
+            // The datum may be outside the z range of the cells.
+            const double z_min = std::min(zlim[0], datum_z);
+            const double z_max = std::max(zlim[1], datum_z);
+
             // We'll use a minimum stepsize of 1/100 of the z range.
-            const double hmin = (zlim[1] - zlim[0])/100.0;
+            const double hmin = (z_max - z_min)/100.0;
+            if (hmin == 0.0) {
+                // All cells are at the datum depth.
+                std::fill(state.pressure().begin(), state.pressure().end(), datum_p);
+                return;
+            }
 
             // Store p(z) results in an associative array.
             std::map<double, double> press_by_z;
@@ -203,46 +234,20 @@ namespace Opm
             // Set up density evaluator.
             Density rho(props);
 
-            // Solve the ODE from datum_z to woc.
+            // Solve the ODE from datum_z to woc, but not beyond the z range.
             int phase = (datum_z > woc) ? 0 : 1;
-            int num_steps = int(std::ceil(std::fabs(woc - datum_z)/hmin));
-            double pval = datum_p;
-            double zval = datum_z;
-            double h = (woc - datum_z)/double(num_steps);
-            for (int i = 0; i < num_steps; ++i) {
-                zval += h;
-                const double dp = rho(pval, phase)*gravity;
-                pval += h*dp;
-                press_by_z[zval] = pval;
-            }
-            double woc_p = pval;
+            const double z_contact = std::max(z_min, std::min(z_max, woc));
+            const double contact_p = integratePressure(rho, phase, gravity, hmin, datum_z, datum_p, z_contact, press_by_z);
 
             // Solve the ODE from datum_z to the end of the interval.
-            double z_end = (datum_z > woc) ? zlim[1] : zlim[0];
-            num_steps = int(std::ceil(std::fabs(z_end - datum_z)/hmin));
-            pval = datum_p;
-            zval = datum_z;
-            h = (z_end - datum_z)/double(num_steps);
-            for (int i = 0; i < num_steps; ++i) {
-                zval += h;
-                const double dp = rho(pval, phase)*gravity;
-                pval += h*dp;
-                press_by_z[zval] = pval;
-            }
+            double z_end = (datum_z > woc) ? z_max : z_min;
+            integratePressure(rho, phase, gravity, hmin, datum_z, datum_p, z_end, press_by_z);
 
             // Solve the ODE from woc to the other end of the interval.
             // Switching phase and z_end.
             phase = (phase + 1) % 2;
-            z_end = (datum_z > woc) ? zlim[0] : zlim[1];
-            pval = woc_p;
-            zval = woc;
-            h = (z_end - datum_z)/double(num_steps);
-            for (int i = 0; i < num_steps; ++i) {
-                zval += h;
-                const double dp = rho(pval, phase)*gravity;
-                pval += h*dp;
-                press_by_z[zval] = pval;
-            }
+            z_end = (datum_z > woc) ? z_min : z_max;
+            integratePressure(rho, phase, gravity, hmin, z_contact, contact_p, z_end, press_by_z);
 
             // Create monotone spline for interpolating solution.
             std::vector<double> zv, pv;
-- 
2.43.0


From 29e12bec93ac3bab11113544e55bcff2413fe426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:01 +0000
Subject: [PATCH 37/58] fix: use oil density for the initial pressure of a
 state without water

---
 opm/core/simulator/initState_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/simulator/initState_impl.hpp b/opm/core/simulator/initState_impl.hpp
index 8a83fca..9c5e73b 100644
--- a/opm/core/simulator/initState_impl.hpp
+++ b/opm/core/simulator/initState_impl.hpp
@@ -458,7 +458,7 @@ namespace Opm
             // Initialise pressure to hydrostatic state.
             const double ref_p = param.getDefault("ref_pressure", 100)*unit::barsa;
             const double ref_z = grid.cell_centroids[0 + grid.dimensions - 1];
-            const double woc = -1e100;
+            const double woc = 1e100;
             initHydrostaticPressure(grid, props, woc, gravity, ref_z, ref_p, state);
         }
 
-- 
2.43.0


From db1a33bfeb297e5596a21e2fe33c15b3cf2b657f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:04 +0000
Subject: [PATCH 38/58] fix: step over whole inner products when adding well
 contributions to cell fluxes

---
 opm/core/pressure/mimetic/hybsys.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/pressure/mimetic/hybsys.c b/opm/core/pressure/mimetic/hybsys.c
index 694c561..13da354 100644
--- a/opm/core/pressure/mimetic/hybsys.c
+++ b/opm/core/pressure/mimetic/hybsys.c
@@ -686,7 +686,7 @@ hybsys_compute_press_flux_well(int nc, const int *pgconn, int nf,
             }
         }
 
-        gp2 += ngconn + ngconn;
+        gp2 += ngconn * ngconn;
     }
 
     /* Assign well BHP from linsolve output */
-- 
2.43.0


From 5ed30e81c768514eb1f7fe348272a4670de10ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:04 +0000
Subject: [PATCH 39/58] fix: only eliminate prescribed pressures from the well
 equations of the hybrid system

---
 opm/core/pressure/ifsh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/pressure/ifsh.c b/opm/core/pressure/ifsh.c
index a174bda..c51ee99 100644
--- a/opm/core/pressure/ifsh.c
+++ b/opm/core/pressure/ifsh.c
@@ -133,7 +133,7 @@ ifsh_impose_well_control(int              c,
         f = gconn[i];
         j = ifsh->pimpl->bdry_condition[ f ];
 
-        if (j != -1) {
+        if ((j != -1) && (bc->type[j] == BC_PRESSURE)) {
             for (w1 = 0; w1 < nwconn; w1++) {
                 /* Eliminate prescribed (boundary) pressure value */
                 r  [ngconn + w1]   -= r2w[i + w1*ngconn] * bc->value[j];
-- 
2.43.0


From ddd3a9bf2b4cbed5adac3369ec144063e38187af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:04 +0000
Subject: [PATCH 40/58] fix: index the well-to-well block of the hybrid system
 by its own size

---
 opm/core/pressure/ifsh.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/pressure/ifsh.c b/opm/core/pressure/ifsh.c
index c51ee99..9d767c8 100644
--- a/opm/core/pressure/ifsh.c
+++ b/opm/core/pressure/ifsh.c
@@ -169,8 +169,8 @@ ifsh_impose_well_control(int              c,
             /* Well->well */
             for (w2 = (w1 + 1) % nwconn; w2 != w1; w2 = (w2 + 1) % nwconn) {
                 r  [ngconn + w2]    -= w2w[w2 + w1*nwconn] * bhp;
-                w2w[w2 + w1*ngconn]  = 0.0;
-                w2w[w1 + w2*ngconn]  = 0.0;
+                w2w[w2 + w1*nwconn]  = 0.0;
+                w2w[w1 + w2*nwconn]  = 0.0;
             }
 
             /* Assemble final well equation of the form S*p_bh = S*p_bh^0 */
-- 
2.43.0


From 7d4723d0bf6808d40f772de9b29582bc171b8923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:04 +0000
Subject: [PATCH 41/58] fix: do not alter the compressible hybrid system when
 it is regular

---
 opm/core/pressure/cfsh.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/opm/core/pressure/cfsh.c b/opm/core/pressure/cfsh.c
index 8ca7e9f..375a769 100644
--- a/opm/core/pressure/cfsh.c
+++ b/opm/core/pressure/cfsh.c
@@ -191,6 +191,7 @@ cfsh_assemble(struct FlowBoundaryConditions *bc,
               struct fsh_data *h)
 /* ---------------------------------------------------------------------- */
 {
+    int c, is_incomp;
     int npp;                /* Number of prescribed pressure values */
 
     /* Suppress warnings about unused parameters. */
@@ -204,7 +205,12 @@ cfsh_assemble(struct FlowBoundaryConditions *bc,
 
     npp = cfsh_assemble_grid(bc, Binv, gpress, src, h);
 
-    if (npp == 0) {
+    is_incomp = 1;
+    for (c = 0; is_incomp && (c < h->pimpl->nc); c++) {
+        is_incomp = ! (fabs(P[c]) > 0.0);
+    }
+
+    if ((npp == 0) && is_incomp) {
         h->A->sa[0] *= 2;        /* Remove zero eigenvalue */
     }
 }
-- 
2.43.0


From 24746ac03fd0fe7aa39516cc36b61441af8b7cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:04 +0000
Subject: [PATCH 42/58] fix: count connections between wells once in the hybrid
 system

---
 opm/core/pressure/mimetic/hybsys_global.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/opm/core/pressure/mimetic/hybsys_global.c b/opm/core/pressure/mimetic/hybsys_global.c
index 33a352e..77df7a2 100644
--- a/opm/core/pressure/mimetic/hybsys_global.c
+++ b/opm/core/pressure/mimetic/hybsys_global.c
@@ -171,8 +171,10 @@ count_conn_per_row_well(struct UnstructuredGrid *G, well_t *W,
 
             for (m = 0; m < wia[w]->m; m++) {
                 if ((dof = wia[w]->s[m]) >= 0) {
-                    A->ia[ dof + 1 ] += 1; /* face to well */
-                    nwdof            += 1; /* well to face */
+                    if (dof < nf) {
+                        A->ia[ dof + 1 ] += 1; /* face to well */
+                    }
+                    nwdof += 1;                /* well to dof */
                 }
             }
 
-- 
2.43.0


From 938b02dd8527b90c4383356767fb35020f15ff9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:33 +0000
Subject: [PATCH 43/58] fix: forget the previous deck when a parser reads a new
 one

---
 opm/core/io/eclipse/EclipseGridParser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opm/core/io/eclipse/EclipseGridParser.cpp b/opm/core/io/eclipse/EclipseGridParser.cpp
index 8a1905e..7520bdc 100644
--- a/opm/core/io/eclipse/EclipseGridParser.cpp
+++ b/opm/core/io/eclipse/EclipseGridParser.cpp
@@ -316,6 +316,9 @@ bool EclipseGridParser::readKeyword(std::istream& is, std::string& keyword)
 void EclipseGridParser::read(istream& is, bool convert_to_SI)
 //---------------------------------------------------------------------------
 {
+    ignored_fields_.clear();
+    current_reading_mode_ = Regular;
+    start_date_ = boost::gregorian::date(boost::date_time::not_a_date_time);
     integer_field_map_.clear();
     floating_field_map_.clear();
     special_field_by_epoch_.clear();
-- 
2.43.0


From 501bd154738d084bcb2fc8aa3b1f4d8cf39a6839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:33 +0000
Subject: [PATCH 44/58] fix: convert RS to SI

---
 opm/core/io/eclipse/EclipseGridParser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opm/core/io/eclipse/EclipseGridParser.cpp b/opm/core/io/eclipse/EclipseGridParser.cpp
index 7520bdc..35c57ed 100644
--- a/opm/core/io/eclipse/EclipseGridParser.cpp
+++ b/opm/core/io/eclipse/EclipseGridParser.cpp
@@ -561,11 +561,13 @@ void EclipseGridParser::convertToSI()
                    key == "LAMEMOD"  || key == "SHEARMOD" || key == "POISSONMOD" ||
                    key == "PWAVEMOD" || key == "MULTPV"   || key == "PWAVEMOD" ||
                    key == "SGAS"     || key == "SWAT"     || key == "SOIL"     ||
-                   key == "RS"       || key == "SWCR"     || key == "SWL"      || 
+                   key == "SWCR"     || key == "SWL"      || 
                    key == "SWU"      || key == "SOWCR"    || key == "KRW"      || 
                    key == "KRWR"     || key == "KRORW"    || key == "KRO") {
             unit = 1.0;
             do_convert = false; // Dimensionless keywords...
+        } else if (key == "RS") {
+            unit = units_.gasvol_s/units_.liqvol_s;
         } else if (key == "PRESSURE") {
             unit = units_.pressure;
         } else if (key == "MAPAXES") {
-- 
2.43.0


From c2a9e9ba0fe83fabe0a35f7c20962ad1a3006dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:33 +0000
Subject: [PATCH 45/58] fix: convert the reservoir rate of GCONINJE to SI

---
 opm/core/io/eclipse/SpecialEclipseFields.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index 9041b28..c2b59b1 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -1085,6 +1085,7 @@ struct GCONINJE : public SpecialBase
             } else {
                 gconinje[i].surface_flow_max_rate_ *= units.liqvol_s/units.time;
             }
+            gconinje[i].resv_flow_max_rate_ *= units.liqvol_r/units.time;
         }
     }
 };
-- 
2.43.0


From b56babf651161e668e35158f2181380a063777c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:33 +0000
Subject: [PATCH 46/58] fix: use the default fractions of GCONINJE

---
 opm/core/io/eclipse/SpecialEclipseFields.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index c2b59b1..87ca9af 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -1047,6 +1047,8 @@ struct GCONINJE : public SpecialBase
             gconinje_line.injector_type_ = readString(is);
             gconinje_line.control_mode_ = readString(is);
             std::vector<double> double_data(10, -1.0E20);
+            double_data[2] = gconinje_line.reinjection_fraction_target_;
+            double_data[3] = gconinje_line.voidage_replacement_fraction_;
             const int num_to_read = 4;
             int num_read = readDefaultedVectorData(is, double_data, num_to_read);
             gconinje_line.surface_flow_max_rate_ = double_data[0];
-- 
2.43.0


From 3258c83d66d81fe50b9e957c714e144744704c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:33 +0000
Subject: [PATCH 47/58] fix: keep WGRUPCON records that give no phase

---
 opm/core/io/eclipse/SpecialEclipseFields.hpp | 26 ++++++++------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index 87ca9af..ba80fc1 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -1410,24 +1410,18 @@ struct WGRUPCON : public SpecialBase
             int num_read = readDefaultedVectorData(is, double_data, num_to_read);
             wgrupcon_line.guide_rate_ = double_data[0];
             
-            std::string phase = readString(is); 
-            if (phase[0] == '/') {
-                is >> ignoreLine;
-                break;
-            }
-            while (phase.find("--") == 0) {
-                // This line is a comment
-                is >> ignoreLine;
-                phase = readString(is);
-            }
-            
-            wgrupcon_line.phase_ = phase;
-            
-            wgrupcon.push_back(wgrupcon_line);
-            // HACK! Ignore any further items
+            // The record may end before the phase.
             if (num_read == num_to_read) {
-                ignoreSlashLine(is);
+                std::string phase = readString(is);
+                if (phase[0] == '/') {
+                    is >> ignoreLine;
+                } else {
+                    wgrupcon_line.phase_ = phase;
+                    // HACK! Ignore any further items
+                    ignoreSlashLine(is);
+                }
             }
+            wgrupcon.push_back(wgrupcon_line);
 
         }
     }
-- 
2.43.0


From 0b7e4845d15005a7dd1312f0fbd2f095aa5f6fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:33 +0000
Subject: [PATCH 48/58] fix: count defaulted items of GCONPROD once

---
 opm/core/io/eclipse/SpecialEclipseFields.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index ba80fc1..9f87dfe 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -1289,10 +1289,7 @@ struct GCONPROD : public SpecialBase
                         int num_defaulted;
                         std::string num_defaulted_str = ignored_value.substr(0, ignored_value.size()-1);
                         std::istringstream(num_defaulted_str) >> num_defaulted;
-                        read_ignored += num_defaulted;
-                        if (read_ignored >= to_read) {
-                            break;
-                        }
+                        read_ignored += num_defaulted - 1; // The loop counts one item.
                     } else if(ignored_value[0] == '/') {
                         is.putback('/');
                         break;
-- 
2.43.0


From ff1e44cb1e22b79317fa8e11a5272b461265362d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:33 +0000
Subject: [PATCH 49/58] fix: read defaulted COMPDAT items across the saturation
 table number

---
 opm/core/io/eclipse/SpecialEclipseFields.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index 9f87dfe..d9999fe 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -941,14 +941,14 @@ struct COMPDAT : public SpecialBase
             compdat_line.well_ = wellname;
             readDefaultedVectorData(is, compdat_line.grid_ind_, 4);
             compdat_line.open_shut_flag_ = readString(is);
-            std::vector<int> int_data(1,-1);
-            readDefaultedVectorData(is, int_data, 1);
-            compdat_line.sat_table_number_ = int_data[0];
-            std::vector<double> double_data(2, 0.0);
-            int num_to_read = 2;
+            // A default like 2* may cover several of these items.
+            std::vector<double> double_data(3, 0.0);
+            double_data[0] = -1;
+            int num_to_read = 3;
             int num_read = readDefaultedVectorData(is, double_data, num_to_read);
-            compdat_line.connect_trans_fac_ = double_data[0];
-            compdat_line.diameter_ = double_data[1];
+            compdat_line.sat_table_number_ = int(double_data[0]);
+            compdat_line.connect_trans_fac_ = double_data[1];
+            compdat_line.diameter_ = double_data[2];
 
             // HACK! Ignore items 10-14.
             if (num_read == num_to_read) {
-- 
2.43.0


From d16ba51ed5c6e6967152f71ac919bced760ec6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:33 +0000
Subject: [PATCH 50/58] fix: accept comment lines everywhere between the
 records of a keyword

---
 .../io/eclipse/EclipseGridParserHelpers.hpp   |   3 +-
 opm/core/io/eclipse/SpecialEclipseFields.hpp  | 112 +++++++++---------
 2 files changed, 61 insertions(+), 54 deletions(-)

diff --git a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
index a476cd1..9988156 100644
--- a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
+++ b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
@@ -243,8 +243,9 @@ namespace
 
     inline boost::gregorian::date readDate(std::istream& is)
     {
+        is >> ignoreWhitespace;
         while (is.peek() == int('-')) {
-            is >> ignoreLine;   // This line is a comment
+            is >> ignoreLine >> ignoreWhitespace;   // This line is a comment
         }
         int day, year;
         std::string month_name;
diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index d9999fe..e4aeb20 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -149,14 +149,14 @@ struct FAULTS : public SpecialBase
         while(is) {
             std::string fltname;
             is >> fltname;
-            if (fltname[0] == '/') {
-                is >> ignoreLine;
-                break;
-            }
             while (fltname.find("--") == 0) {
                 // This line is a comment
                 is >> ignoreLine >> fltname;
             }
+            if (fltname[0] == '/') {
+                is >> ignoreLine;
+                break;
+            }
             FaultSegment fault_segment;
             fault_segment.ijk_coord.resize(6);
             fault_segment.fault_name = fltname;
@@ -219,14 +219,14 @@ struct MULTFLT : public SpecialBase
         while(is) {
             std::string fltname;
             is >> fltname;
-            if (fltname[0] == '/') {
-                is >> ignoreLine;
-                break;
-            }
             while (fltname == "--") {
                 // This line is a comment
                 is >> ignoreLine >> fltname;
             }
+            if (fltname[0] == '/') {
+                is >> ignoreLine;
+                break;
+            }
             MultfltLine multflt_line;
             multflt_line.fault_name = fltname;
             std::vector<double> data(2,1.0);
@@ -295,6 +295,14 @@ struct GRUPTREE : public SpecialBase {
 
     virtual void read(std::istream & is) {
         while (!is.eof()) {
+            is >> ignoreWhitespace;
+            while (is.peek() == int('-')) {
+                is >> ignoreLine >> ignoreWhitespace;   // This line is a comment
+            }
+            if(is.peek() == int('/')) {
+                is >> ignoreSlashLine;
+                return;
+            }
             std::string child = readString(is);
             is >> ignoreWhitespace;
             std::string parent = readString(is);
@@ -303,11 +311,6 @@ struct GRUPTREE : public SpecialBase {
             tree[child] = parent;
             
             is >> ignoreSlashLine;
-            is >> ignoreWhitespace;
-            if(is.peek() == int('/')) {
-                is >> ignoreSlashLine;
-                return;
-            }
         }
     }
 
@@ -332,6 +335,9 @@ struct DATES : public SpecialBase
         while(is) {
             dates.push_back(readDate(is));
             is >> ignoreWhitespace;
+            while (is.peek() == int('-')) {
+                is >> ignoreLine >> ignoreWhitespace;   // This line is a comment
+            }
             if (is.peek() == int('/')) {
                 is >> ignoreLine;
                 break;
@@ -806,15 +812,15 @@ struct WELSPECS : public SpecialBase
     {
         while(is) {
             std::string wellname = readString(is); 
-            if (wellname[0] == '/') {
-                is >> ignoreLine;
-                break;
-            }
             while (wellname.find("--") == 0) {
                 // This line is a comment
                 is >> ignoreLine;
                 wellname = readString(is);
             }
+            if (wellname[0] == '/') {
+                is >> ignoreLine;
+                break;
+            }
             WelspecsLine welspecs_line;
             welspecs_line.name_ = wellname;
             welspecs_line.group_ = readString(is);
@@ -928,15 +934,15 @@ struct COMPDAT : public SpecialBase
     {
         while(is) {
             std::string wellname = readString(is); 
-            if (wellname[0] == '/') {
-                is >> ignoreLine;
-                break;
-            }
             while (wellname.find("--") == 0) {
                 // This line is a comment
                 is >> ignoreLine;
                 wellname = readString(is);
             }
+            if (wellname[0] == '/') {
+                is >> ignoreLine;
+                break;
+            }
             CompdatLine compdat_line;
             compdat_line.well_ = wellname;
             readDefaultedVectorData(is, compdat_line.grid_ind_, 4);
@@ -1033,15 +1039,15 @@ struct GCONINJE : public SpecialBase
     {
         while(is) {
             std::string groupname = readString(is); 
-            if (groupname[0] == '/') {
-                is >> ignoreLine;
-                break;
-            }
             while (groupname.find("--") == 0) {
                 // This line is a comment
                 is >> ignoreLine;
                 groupname = readString(is);
             }
+            if (groupname[0] == '/') {
+                is >> ignoreLine;
+                break;
+            }
             GconinjeLine gconinje_line;
             gconinje_line.group_ = groupname;
             gconinje_line.injector_type_ = readString(is);
@@ -1139,15 +1145,15 @@ struct WCONINJE : public SpecialBase
     {
         while(is) {
             std::string wellname = readString(is); 
-            if (wellname[0] == '/') {
-                is >> ignoreLine;
-                break;
-            }
             while (wellname.find("--") == 0) {
                 // This line is a comment
                 is >> ignoreLine;
                 wellname = readString(is);
             }
+            if (wellname[0] == '/') {
+                is >> ignoreLine;
+                break;
+            }
             WconinjeLine wconinje_line;
             wconinje_line.well_ = wellname;
             wconinje_line.injector_type_ = readString(is);
@@ -1248,15 +1254,15 @@ struct GCONPROD : public SpecialBase
     {
         while(is) {
             std::string groupname = readString(is); 
-            if (groupname[0] == '/') {
-                is >> ignoreLine;
-                break;
-            }
             while (groupname.find("--") == 0) {
                 // This line is a comment
                 is >> ignoreLine;
                 groupname = readString(is);
             }
+            if (groupname[0] == '/') {
+                is >> ignoreLine;
+                break;
+            }
             GconprodLine gconprod_line;
             gconprod_line.group_ = groupname;
             gconprod_line.control_mode_ = readString(is);
@@ -1385,15 +1391,15 @@ struct WGRUPCON : public SpecialBase
     {
         while(is) {
             std::string wname = readString(is); 
-            if (wname[0] == '/') {
-                is >> ignoreLine;
-                break;
-            }
             while (wname.find("--") == 0) {
                 // This line is a comment
                 is >> ignoreLine;
                 wname = readString(is);
             }
+            if (wname[0] == '/') {
+                is >> ignoreLine;
+                break;
+            }
             WgrupconLine wgrupcon_line;
             wgrupcon_line.well_ = wname;
             std::string available = readString(is);
@@ -1490,15 +1496,15 @@ struct WCONPROD : public SpecialBase
     {
         while(is) {
             std::string wellname = readString(is); 
-            if (wellname[0] == '/') {
-                is >> ignoreLine;
-                break;
-            }
             while (wellname.find("--") == 0) {
                 // This line is a comment
                 is >> ignoreLine;
                 wellname = readString(is);
             }
+            if (wellname[0] == '/') {
+                is >> ignoreLine;
+                break;
+            }
             WconprodLine wconprod_line;
             wconprod_line.well_ = wellname;
             wconprod_line.open_shut_flag_ = readString(is);
@@ -1599,15 +1605,15 @@ struct WELTARG : public SpecialBase
     {
         while(is) {
             std::string wellname = readString(is); 
-            if (wellname[0] == '/') {
-                is >> ignoreLine;
-                break;
-            }
             while (wellname.find("--") == 0) {
                 // This line is a comment
                 is >> ignoreLine;
                 wellname = readString(is);
             }
+            if (wellname[0] == '/') {
+                is >> ignoreLine;
+                break;
+            }
             WeltargLine weltarg_line;
             weltarg_line.well_ = wellname;
             weltarg_line.control_change_ = readString(is);
@@ -1680,15 +1686,15 @@ struct WELOPEN : public SpecialBase
     {
         while(is) {
             std::string wellname = readString(is); 
-            if (wellname[0] == '/') {
-                is >> ignoreLine;
-                break;
-            }
             while (wellname.find("--") == 0) {
                 // This line is a comment
                 is >> ignoreLine;
                 wellname = readString(is);
             }
+            if (wellname[0] == '/') {
+                is >> ignoreLine;
+                break;
+            }
             WelopenLine welopen_line;
             welopen_line.well_ = wellname;
             welopen_line.openshutflag_ = readString(is);
@@ -2147,15 +2153,15 @@ struct WPOLYMER : public SpecialBase
     {
         while(is) {
             std::string wellname = readString(is);
-            if (wellname[0] == '/') {
-                is >> ignoreLine;
-                break;
-            }
             while (wellname.find("--") == 0) {
                 // This line is a comment
                 is >> ignoreLine;
                 wellname = readString(is);
             }
+            if (wellname[0] == '/') {
+                is >> ignoreLine;
+                break;
+            }
             WpolymerLine wpolymer_line;
             wpolymer_line.well_ = wellname;
             is >> wpolymer_line.polymer_concentration_;    
-- 
2.43.0


From 2c6804dae8c749aebbf5d2b147df5e47771ca0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:33 +0000
Subject: [PATCH 51/58] fix: read SPECGRID without the items that have defaults

---
 opm/core/io/eclipse/SpecialEclipseFields.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index e4aeb20..e4ea2bd 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -91,6 +91,9 @@ struct SPECGRID : public SpecialBase
         int nd = std::min(nread, ndim);
         copy(data.begin(), data.begin()+nd, &dimensions[0]);
         numres = data[ndim];
+        if (nread < ndim + 1) {
+            return;     // The terminating slash has been read.
+        }
         std::string candidate;
         is >> candidate;
         if (candidate == "/") {
-- 
2.43.0


From f9cb0189011a31059c891e6e331e65ef70ffc232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:33 +0000
Subject: [PATCH 52/58] fix: read WPOLYMER without the salt concentration

---
 opm/core/io/eclipse/SpecialEclipseFields.hpp | 24 ++++++++++++--------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index e4ea2bd..7023c58 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -2167,19 +2167,23 @@ struct WPOLYMER : public SpecialBase
             }
             WpolymerLine wpolymer_line;
             wpolymer_line.well_ = wellname;
-            is >> wpolymer_line.polymer_concentration_;    
-            is >> wpolymer_line.salt_concentration_;
-            std::string group = readString(is);
-            if (group[0] == '/') {
-                is >> ignoreLine;
-            } else {
-                wpolymer_line.polymer_group_ = group;
-                group = readString(is);
+            std::vector<double> data(2, 0.0);
+            const int num_read = readDefaultedVectorData(is, data, 2);
+            wpolymer_line.polymer_concentration_ = data[0];
+            wpolymer_line.salt_concentration_ = data[1];
+            if (num_read >= 2) {
+                std::string group = readString(is);
                 if (group[0] == '/') {
                     is >> ignoreLine;
                 } else {
-                    wpolymer_line.salt_group_ = group;
-                    is >> ignoreLine;
+                    wpolymer_line.polymer_group_ = group;
+                    group = readString(is);
+                    if (group[0] == '/') {
+                        is >> ignoreLine;
+                    } else {
+                        wpolymer_line.salt_group_ = group;
+                        is >> ignoreLine;
+                    }
                 }
             }
             wpolymer_.push_back(wpolymer_line);
-- 
2.43.0


From 7c234b6360032bc531f9081d0f94d71813a319a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:33 +0000
Subject: [PATCH 53/58] fix: do not take a capillary pressure of -1 for a
 defaulted value

---
 .../io/eclipse/EclipseGridParserHelpers.hpp    | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
index 9988156..0b77ffa 100644
--- a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
+++ b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
@@ -184,8 +184,9 @@ namespace
 
 
     // Keywords SGOF and SWOF. Reads data until '/' or an error is encountered.
-    // Default values represented by 1* is replaced by -1. Use linear interpolation
-    // outside this function to replace -1.
+    // Default values represented by 1* is replaced by a flag. Use linear interpolation
+    // outside this function to replace it. (Not -1, a possible capillary pressure.)
+    const double defaultedValueFlag = -1e100;
     template<typename T>
     inline void readRelPermTable(std::istream& is, std::vector<T>& data)
     {
@@ -209,7 +210,7 @@ namespace
 		if (is.peek() == int('*')) {
 		    is.ignore(); // ignore the '*'
 		    ASSERT(int(candidate) == 1);
-		    data.push_back(-1); // Set new flag for interpolation.
+		    data.push_back(defaultedValueFlag); // Set new flag for interpolation.
 		} else {
 		    data.push_back(candidate);
 		}
@@ -378,18 +379,19 @@ namespace
 	}
     }
 
-    // Replace default values -1 by linear interpolation
+    // Replace default values (flag) by linear interpolation
     inline void insertDefaultValues(std::vector<std::vector<double> >& table,
                                     int ncol,
                                     double defaultOut = 0.0,
-                                    bool defaultInterpolation = true)
+                                    bool defaultInterpolation = true,
+                                    double flag = -1.0)
     {
 	const int sz = table[0].size();
 	for (int k=1; k<ncol; ++k) {
 	    std::vector<int> indx;
 	    std::vector<double> x;
 	    for (int i=0; i<sz; ++i) {
-		if (table[k][i] == -1) {
+		if (table[k][i] == flag) {
 		    indx.push_back(i);
 		    x.push_back(table[0][i]);    
 		}
@@ -397,7 +399,7 @@ namespace
 	    if (!indx.empty()) {
 		std::vector<double> xv, yv;
 		for (int i=0; i<sz; ++i) {
-		    if (table[k][i] != -1) {
+		    if (table[k][i] != flag) {
 			xv.push_back(table[0][i]);		    
 			yv.push_back(table[k][i]);		    
 		    }
@@ -441,7 +443,7 @@ namespace
 		    table[k][i] = record[++n];
 		}
 	    }
-	    insertDefaultValues(table, ncol);
+	    insertDefaultValues(table, ncol, 0.0, true, defaultedValueFlag);
 	    relperm_table.push_back(table);
 
 	    int action = next_action(is); // 0:continue  1:return  2:throw
-- 
2.43.0


From 39e15138c376c8c81e4b53fd14f7613d05988594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:33 +0000
Subject: [PATCH 54/58] fix: do not read past a column with a single given
 value

---
 opm/core/io/eclipse/EclipseGridParserHelpers.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
index 0b77ffa..8c9765b 100644
--- a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
+++ b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
@@ -410,6 +410,11 @@ namespace
                     for (int i=0; i<int(indx.size()); ++i) {
                         table[k][indx[i]] = defaultOut;
                     }
+                } else if (xv.size() == 1) {
+                    // A single value holds for the whole column.
+                    for (int i=0; i<int(indx.size()); ++i) {
+                        table[k][indx[i]] = yv[0];
+                    }
                 } else if (defaultInterpolation) {
                     // Interpolate
                     for (int i=0; i<int(indx.size()); ++i) {
-- 
2.43.0


From d86e134a771ae31cfc550257a17aa86ad5737920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:33 +0000
Subject: [PATCH 55/58] fix: accept defaults that reach beyond the items read
 from a record

---
 opm/core/io/eclipse/SpecialEclipseFields.hpp | 38 +++++++++++---------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index 7023c58..7cc628b 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -233,7 +233,7 @@ struct MULTFLT : public SpecialBase
             MultfltLine multflt_line;
             multflt_line.fault_name = fltname;
             std::vector<double> data(2,1.0);
-            if (readDefaultedVectorData(is, data, 2) == 2) {
+            if (readDefaultedVectorData(is, data, 2) >= 2) {
                 ignoreSlashLine(is);
             }
             multflt_line.transmis_multiplier = data[0];
@@ -368,7 +368,7 @@ struct DENSITY : public SpecialBase
     {
         while (!is.eof()) {
             std::vector<double> density(3,-1e100);
-            if (readDefaultedVectorData(is, density, 3) == 3) {
+            if (readDefaultedVectorData(is, density, 3) >= 3) {
                 ignoreSlashLine(is);
             }
             densities_.push_back(density);
@@ -960,7 +960,7 @@ struct COMPDAT : public SpecialBase
             compdat_line.diameter_ = double_data[2];
 
             // HACK! Ignore items 10-14.
-            if (num_read == num_to_read) {
+            if (num_read >= num_to_read) {
                 ignoreSlashLine(is);
             }
             compdat.push_back(compdat_line);
@@ -1065,7 +1065,7 @@ struct GCONINJE : public SpecialBase
             gconinje_line.reinjection_fraction_target_ = double_data[2];
             gconinje_line.voidage_replacement_fraction_ = double_data[3];
             // HACK! Ignore any further items
-            if (num_read == num_to_read) {
+            if (num_read >= num_to_read) {
                 ignoreSlashLine(is);
             }
             gconinje.push_back(gconinje_line);
@@ -1175,7 +1175,7 @@ struct WCONINJE : public SpecialBase
             wconinje_line.VFP_table_number_ = (int)double_data[4];
             wconinje_line.concentration_ = double_data[5];
             // HACK! Ignore any further items
-            if (num_read == num_to_read) {
+            if (num_read >= num_to_read) {
                 ignoreSlashLine(is);
             }
             wconinje.push_back(wconinje_line);
@@ -1282,13 +1282,19 @@ struct GCONPROD : public SpecialBase
             gconprod_line.liquid_max_rate_ = double_data[3];
 
             std::string procedure;
-            if (num_read == num_to_read) {
-                procedure = readString(is);
-                if (procedure[0] == '/') {
-                    is.putback('/');
+            if (num_read >= num_to_read) {
+                // The default may cover the procedure and items after it.
+                int read_ignored = 0;
+                if (num_read > num_to_read) {
                     procedure = "NONE";
+                    read_ignored = num_read - num_to_read - 1;
+                } else {
+                    procedure = readString(is);
+                    if (procedure[0] == '/') {
+                        is.putback('/');
+                        procedure = "NONE";
+                    }
                 }
-                int read_ignored = 0;
                 int to_read = 6;
                 for (; read_ignored < to_read; ++read_ignored) {
                     std::string ignored_value = readString(is);
@@ -1323,7 +1329,7 @@ struct GCONPROD : public SpecialBase
             
             gconprod.push_back(gconprod_line);
             // HACK! Ignore any further items
-            if (num_read == num_to_read) {
+            if (num_read >= num_to_read) {
                 ignoreSlashLine(is);
             }
             
@@ -1417,7 +1423,7 @@ struct WGRUPCON : public SpecialBase
             wgrupcon_line.guide_rate_ = double_data[0];
             
             // The record may end before the phase.
-            if (num_read == num_to_read) {
+            if (num_read >= num_to_read) {
                 std::string phase = readString(is);
                 if (phase[0] == '/') {
                     is >> ignoreLine;
@@ -1530,7 +1536,7 @@ struct WCONPROD : public SpecialBase
             wconprod_line.artif_lift_quantity_ = double_data[8];
             wconprod.push_back(wconprod_line);
 
-            if(num_to_read == num_read) {
+            if(num_read >= num_to_read) {
                 ignoreSlashLine(is);
             }
 
@@ -1775,7 +1781,7 @@ struct EQUIL : public SpecialBase
         int num_to_read = 9;
         std::vector<double> data(num_to_read,0);
         int num_read = readDefaultedVectorData(is, data, num_to_read);
-        if (num_read == num_to_read) {
+        if (num_read >= num_to_read) {
             ignoreSlashLine(is);
         }
 
@@ -2007,7 +2013,7 @@ struct PLYROCK : public SpecialBase
         plyrock_[3] = 1;  // Default value
         int num_to_read = 5;
         int num_read = readDefaultedVectorData(is, plyrock_, num_to_read);
-        if (num_read == num_to_read) {
+        if (num_read >= num_to_read) {
             ignoreSlashLine(is);
         }
     }
@@ -2110,7 +2116,7 @@ struct TLMIXPAR : public SpecialBase
         if (tlmixpar_[1] < 0) { 
             tlmixpar_[1] = tlmixpar_[0];
         }
-        if (num_read == num_to_read) {
+        if (num_read >= num_to_read) {
             ignoreSlashLine(is);
         }
     }
-- 
2.43.0


From 2f25a85739150d212a514b74cdb82c654fb84c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:41 +0000
Subject: [PATCH 56/58] fix: accept blank and comment lines in ENPTVD and
 ENKRVD

---
 opm/core/io/eclipse/EclipseGridParserHelpers.hpp | 16 ++++++++++++++++
 opm/core/io/eclipse/SpecialEclipseFields.hpp     |  6 ++++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
index 8c9765b..e58533b 100644
--- a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
+++ b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
@@ -78,6 +78,22 @@ namespace
 	return is;
     }
 
+    // Ignores whitespace and lines that begin with "--".
+    inline std::istream& ignoreComments(std::istream& is)
+    {
+	is >> ignoreWhitespace;
+	while (is.peek() == int('-')) {
+	    is.get();
+	    const bool comment = is.peek() == int('-');
+	    is.putback('-');
+	    if (!comment) {
+		break;   // A negative number
+	    }
+	    is >> ignoreLine >> ignoreWhitespace;
+	}
+	return is;
+    }
+
     inline std::string readString(std::istream& is)
     {
 	std::string string_candidate;
diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index 7cc628b..a2df447 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -2327,6 +2327,7 @@ struct ENPTVD : public SpecialBase {
         table_.resize(5);
         std::vector<std::vector<double> > sub_table(5);
         while (!is.eof()) {
+            is >> ignoreComments;
             if(is.peek() == int('/')) {
                 if (sub_table[0].empty() && !(table_[0].empty())) {
                     is >> ignoreLine; 
@@ -2351,7 +2352,7 @@ struct ENPTVD : public SpecialBase {
             sub_table[2].push_back(data[2]); //swcr
             sub_table[3].push_back(data[3]); //swu
             sub_table[4].push_back(data[7]); //sowcr
-            is >> ignoreWhitespace;
+            is >> ignoreComments;
             if(is.peek() == int('/')) {
                 is >> ignoreLine;
                 if (sub_table[0].size() >= 2) {
@@ -2414,6 +2415,7 @@ struct ENKRVD : public SpecialBase {
         table_.resize(5);
         std::vector<std::vector<double> > sub_table(5);
         while (!is.eof()) {
+            is >> ignoreComments;
             if(is.peek() == int('/')) {
                 if (sub_table[0].empty() && !(table_[0].empty())) {
                     is >> ignoreLine; 
@@ -2438,7 +2440,7 @@ struct ENKRVD : public SpecialBase {
             sub_table[2].push_back(data[3]); //kro
             sub_table[3].push_back(data[4]); //krw(sowcr)
             sub_table[4].push_back(data[7]); //kro(swcr)
-            is >> ignoreWhitespace;
+            is >> ignoreComments;
             if(is.peek() == int('/')) {
                 is >> ignoreLine;
                 if (sub_table[0].size() >= 2) {
-- 
2.43.0


From 4d14b0476d40788f91189bf4ad39a902bae09aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:52 +0000
Subject: [PATCH 57/58] fix: find grid limits of decks with DIMENS

---
 opm/core/io/eclipse/EclipseGridInspector.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/io/eclipse/EclipseGridInspector.cpp b/opm/core/io/eclipse/EclipseGridInspector.cpp
index fed61a8..a3304b8 100644
--- a/opm/core/io/eclipse/EclipseGridInspector.cpp
+++ b/opm/core/io/eclipse/EclipseGridInspector.cpp
@@ -259,8 +259,8 @@ void EclipseGridInspector::checkLogicalCoords(int i, int j, int k) const
 
 std::tr1::array<double, 6> EclipseGridInspector::getGridLimits() const
 {
-    if (! (parser_.hasField("COORD") && parser_.hasField("ZCORN") && parser_.hasField("SPECGRID")) ) {
-        throw std::runtime_error("EclipseGridInspector: Grid does not have SPECGRID, COORD, and ZCORN, can't find dimensions.");
+    if (! (parser_.hasField("COORD") && parser_.hasField("ZCORN")) ) {
+        throw std::runtime_error("EclipseGridInspector: Grid does not have COORD and ZCORN, can't find limits.");
     }
 
     std::vector<double> coord = parser_.getFloatingPointValue("COORD");
-- 
2.43.0


From d9edd78617d6444f43166d24a4f7ca7b32f6cff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:52 +0000
Subject: [PATCH 58/58] fix: give the dips of cells that touch the top and
 bottom of the grid

---
 opm/core/io/eclipse/EclipseGridInspector.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/opm/core/io/eclipse/EclipseGridInspector.cpp b/opm/core/io/eclipse/EclipseGridInspector.cpp
index a3304b8..b8f4b6f 100644
--- a/opm/core/io/eclipse/EclipseGridInspector.cpp
+++ b/opm/core/io/eclipse/EclipseGridInspector.cpp
@@ -123,6 +123,9 @@ std::pair<double,double> EclipseGridInspector::cellDips(int i, int j, int k) con
     // Now ignore those edges that touch the global top or bottom surface
     // of the entire grdecl model. This is to avoid bias, as these edges probably
     // don't follow an overall dip for the model if it exists.
+    // If all edges touch those surfaces, there are no others to use.
+    const double xrise_all = xrise[0] + xrise[1] + xrise[2] + xrise[3];
+    const double yrise_all = yrise[0] + yrise[1] + yrise[2] + yrise[3];
     int x_edges = 4;
     int y_edges = 4;
     std::tr1::array<double, 6> gridlimits = getGridLimits();
@@ -161,8 +164,8 @@ std::pair<double,double> EclipseGridInspector::cellDips(int i, int j, int k) con
 	yrise[3] = 0; y_edges--;
     }
 
-    return std::make_pair( (xrise[0] + xrise[1] + xrise[2] + xrise[3])/x_edges,
-                          (yrise[0] + yrise[1] + yrise[2] + yrise[3])/y_edges);
+    return std::make_pair( x_edges > 0 ? (xrise[0] + xrise[1] + xrise[2] + xrise[3])/x_edges : xrise_all/4,
+                          y_edges > 0 ? (yrise[0] + yrise[1] + yrise[2] + yrise[3])/y_edges : yrise_all/4);
 }
 /**
   Wrapper for cellDips(i, j, k).
-- 
2.43.0

