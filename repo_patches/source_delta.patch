From d63c4a8eb00ceaf01b3377844270e4a2e565e919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:47 +0000
Subject: [PATCH 01/26] fix: surface component fraction compounded over several
 weighted fluxes

---
 core/src/bricks/SurfaceComponent.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/bricks/SurfaceComponent.cpp b/core/src/bricks/SurfaceComponent.cpp
index 1c35f28..1e90b53 100644
--- a/core/src/bricks/SurfaceComponent.cpp
+++ b/core/src/bricks/SurfaceComponent.cpp
@@ -12,12 +12,12 @@ SurfaceComponent::SurfaceComponent()
 void SurfaceComponent::SetAreaFraction(double value) {
     assert(_parent);
     _areaFraction = value;
+    const double fractionUnit = value * _parent->GetAreaFraction();
     for (const auto& process : _processes) {
         for (int i = 0; i < process->GetOutputFluxCount(); ++i) {
             Flux* output = process->GetOutputFlux(i);
             if (output->NeedsWeighting()) {
-                value *= _parent->GetAreaFraction();
-                output->SetFractionLandCover(value);
+                output->SetFractionLandCover(fractionUnit);
             }
         }
     }
-- 
2.43.0


From 46e1a175bee10ab53eac9b375d07416490d61e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:22 +0000
Subject: [PATCH 02/26] fix: a flux between splitters ignored the area fraction
 it stands for

---
 core/src/fluxes/FluxSimple.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/src/fluxes/FluxSimple.cpp b/core/src/fluxes/FluxSimple.cpp
index 26d7a53..5d59c4f 100644
--- a/core/src/fluxes/FluxSimple.cpp
+++ b/core/src/fluxes/FluxSimple.cpp
@@ -12,6 +12,5 @@ double FluxSimple::GetAmount() {
 }
 
 void FluxSimple::UpdateFlux(double amount) {
-    assert(_fractionTotal == 1.0);
-    _amount = amount;
+    Flux::UpdateFlux(amount);
 }
-- 
2.43.0


From 2a458d7cc4611fd199ef230ae2bd3ff866e6aba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:44 +0000
Subject: [PATCH 03/26] fix: a multi-flux splitter forwarded only its first
 input

---
 core/src/fluxes/SplitterMultiFluxes.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/src/fluxes/SplitterMultiFluxes.cpp b/core/src/fluxes/SplitterMultiFluxes.cpp
index 1195762..c0291bc 100644
--- a/core/src/fluxes/SplitterMultiFluxes.cpp
+++ b/core/src/fluxes/SplitterMultiFluxes.cpp
@@ -34,7 +34,11 @@ double* SplitterMultiFluxes::GetValuePointer(const string& name) {
 
 void SplitterMultiFluxes::Compute() {
     assert(!_inputs.empty());
+    double amount = 0;
+    for (auto input : _inputs) {
+        amount += input->GetAmount();
+    }
     for (const auto& output : _outputs) {
-        output->UpdateFlux(_inputs[0]->GetAmount());
+        output->UpdateFlux(amount);
     }
 }
-- 
2.43.0


From c216866a556ed1cf45428afdc0ef6e75ae4e4427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:52 +0000
Subject: [PATCH 04/26] fix: inflow of directly computed bricks counted twice
 in their constraints, static changes ignored

---
 core/src/base/Processor.cpp            | 2 +-
 core/src/containers/IceContainer.cpp   | 4 ++--
 core/src/containers/IceContainer.h     | 2 +-
 core/src/containers/WaterContainer.cpp | 9 ++++-----
 core/src/containers/WaterContainer.h   | 4 +++-
 5 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/core/src/base/Processor.cpp b/core/src/base/Processor.cpp
index bb83db0..507cf01 100644
--- a/core/src/base/Processor.cpp
+++ b/core/src/base/Processor.cpp
@@ -308,7 +308,7 @@ void Processor::ApplyDirectChanges(Brick* brick, int& ptIndex, double timeStepIn
         }
 
         // Apply constraints for the current brick (e.g. maximum capacity or avoid negative values)
-        process->GetWaterContainer()->ApplyConstraints(timeStepInDays);
+        process->GetWaterContainer()->ApplyConstraints(timeStepInDays, true);
 
         // Apply changes
         for (int j = 0; j < rates.size(); ++j) {
diff --git a/core/src/containers/IceContainer.cpp b/core/src/containers/IceContainer.cpp
index 8b6de7d..04b9fae 100644
--- a/core/src/containers/IceContainer.cpp
+++ b/core/src/containers/IceContainer.cpp
@@ -7,7 +7,7 @@ IceContainer::IceContainer(Brick* brick)
       _noMeltWhenSnowCover(false),
       _relatedSnowpack(nullptr) {}
 
-void IceContainer::ApplyConstraints(double timeStep) {
+void IceContainer::ApplyConstraints(double timeStep, bool inputsCredited) {
     if (_noMeltWhenSnowCover) {
         if (_relatedSnowpack == nullptr) {
             throw ModelConfigError("No snowpack provided for the glacier melt limitation.");
@@ -16,7 +16,7 @@ void IceContainer::ApplyConstraints(double timeStep) {
             SetOutgoingRatesToZero();
         }
     }
-    WaterContainer::ApplyConstraints(timeStep);
+    WaterContainer::ApplyConstraints(timeStep, inputsCredited);
 }
 
 bool IceContainer::ContentAccessible() const {
diff --git a/core/src/containers/IceContainer.h b/core/src/containers/IceContainer.h
index 543a8aa..8133557 100644
--- a/core/src/containers/IceContainer.h
+++ b/core/src/containers/IceContainer.h
@@ -14,7 +14,7 @@ class IceContainer : public WaterContainer {
     /**
      * @copydoc WaterContainer::ApplyConstraints()
      */
-    void ApplyConstraints(double timeStep) override;
+    void ApplyConstraints(double timeStep, bool inputsCredited = false) override;
 
     /**
      * Set the option to not melt when snow cover is present.
diff --git a/core/src/containers/WaterContainer.cpp b/core/src/containers/WaterContainer.cpp
index 5599f4d..678a72c 100644
--- a/core/src/containers/WaterContainer.cpp
+++ b/core/src/containers/WaterContainer.cpp
@@ -1,7 +1,6 @@
 #include "WaterContainer.h"
 
 #include "Brick.h"
-#include "FluxToBrickInstantaneous.h"
 
 WaterContainer::WaterContainer(Brick* brick)
     : _content(0),
@@ -52,7 +51,7 @@ void WaterContainer::AddAmountToStaticContentChange(double change) {
     _contentChangeStatic += change;
 }
 
-void WaterContainer::ApplyConstraints(double timeStep) {
+void WaterContainer::ApplyConstraints(double timeStep, bool inputsCredited) {
     if (_infiniteStorage) return;
 
     // Change rates are quantities per unit time: the content update integrates them over the
@@ -95,8 +94,8 @@ void WaterContainer::ApplyConstraints(double timeStep) {
     double inputs = 0;
     double inputsStatic = 0;
     for (auto& input : _inputs) {
-        if (input->IsInstantaneous()) {
-            inputsStatic += dynamic_cast<FluxToBrickInstantaneous*>(input)->GetRealAmount();
+        if (inputsCredited || input->IsInstantaneous()) {
+            // Already part of the content changes.
             continue;
         }
         if (input->IsForcing() || input->IsStatic()) {
@@ -119,7 +118,7 @@ void WaterContainer::ApplyConstraints(double timeStep) {
     }
 
     double change = inputs - outputs;
-    double content = GetContentWithDynamicChanges();
+    double content = GetContentWithChanges();
 
     // Avoid negative content (unless the container is allowed to go negative, e.g. a bottomless
     // routing store whose level can be negative).
diff --git a/core/src/containers/WaterContainer.h b/core/src/containers/WaterContainer.h
index 36bec2d..d79abbe 100644
--- a/core/src/containers/WaterContainer.h
+++ b/core/src/containers/WaterContainer.h
@@ -52,8 +52,10 @@ class WaterContainer {
      * Apply the constraints to the water container.
      *
      * @param timeStep time step [s]
+     * @param inputsCredited true if the incoming fluxes are already credited to the content changes (bricks computed
+     * directly), so that they must not be accounted for a second time.
      */
-    virtual void ApplyConstraints(double timeStep);
+    virtual void ApplyConstraints(double timeStep, bool inputsCredited = false);
 
     /**
      * Set the outgoing rates to zero.
-- 
2.43.0


From 46570193955745fe62124f13b4686bc7ca4dd6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:57 +0000
Subject: [PATCH 05/26] fix: GR4J groundwater exchange injected once per rate
 evaluation instead of once per step

---
 core/src/processes/ProcessRoutingGR4J.cpp | 13 +++++++++----
 core/src/processes/ProcessRoutingGR4J.h   |  3 +++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/core/src/processes/ProcessRoutingGR4J.cpp b/core/src/processes/ProcessRoutingGR4J.cpp
index d6ad324..050322f 100644
--- a/core/src/processes/ProcessRoutingGR4J.cpp
+++ b/core/src/processes/ProcessRoutingGR4J.cpp
@@ -14,6 +14,7 @@ ProcessRoutingGR4J::ProcessRoutingGR4J(WaterContainer* container)
       _r(0.0),
       _qr(0.0),
       _qd(0.0),
+      _exchangeInjected(0.0),
       _processStorage(0.0) {}
 
 void ProcessRoutingGR4J::RegisterProcessSettings(SettingsModel* modelSettings) {
@@ -41,6 +42,7 @@ void ProcessRoutingGR4J::Reset() {
     _r = 0.0;
     _qr = 0.0;
     _qd = 0.0;
+    _exchangeInjected = 0.0;
     _processStorage = 0.0;
 }
 
@@ -114,13 +116,15 @@ const vecDouble& ProcessRoutingGR4J::GetRates() {
     // water never entered through the inflow PR. Inject the net exchange into the container so
     // the discharge it produces (positive X2) is backed by real water and is not capped by the
     // container's non-negativity constraint. The clamped contributions match the committed state
-    // computed in Finalize. Evaluated once per step (the brick is computed directly).
+    // computed in Finalize. The rates can be evaluated several times per step (solver stages), so
+    // only the difference with what was already injected during this step is added.
     if (_timeMachine != nullptr) {
         double exchangeToStore = r_pred - (_r + uh1_out);  // F applied to the routing store (clamped)
         double exchangeToDirect = _qd - uh2_out;           // F applied to the direct branch (clamped)
-        double netExchange = exchangeToStore + exchangeToDirect;
-        if (netExchange != 0.0) {
-            _container->AddAmountToStaticContentChange(netExchange * (*_timeMachine->GetTimeStepPointer()));
+        double netExchange = (exchangeToStore + exchangeToDirect) * (*_timeMachine->GetTimeStepPointer());
+        if (netExchange != _exchangeInjected) {
+            _container->AddAmountToStaticContentChange(netExchange - _exchangeInjected);
+            _exchangeInjected = netExchange;
         }
     }
 
@@ -169,6 +173,7 @@ void ProcessRoutingGR4J::Finalize() {
     _qr = _r * (1.0 - std::pow(1.0 + rr4, -0.25));
     _r -= _qr;
     _qd = std::max(0.0, _stuh2[0] + F);
+    _exchangeInjected = 0.0;
 
     _processStorage = _r + std::accumulate(_stuh1.begin(), _stuh1.end(), 0.0) +
                       std::accumulate(_stuh2.begin(), _stuh2.end(), 0.0);
diff --git a/core/src/processes/ProcessRoutingGR4J.h b/core/src/processes/ProcessRoutingGR4J.h
index 0e7f1f6..e0b2bdd 100644
--- a/core/src/processes/ProcessRoutingGR4J.h
+++ b/core/src/processes/ProcessRoutingGR4J.h
@@ -74,6 +74,9 @@ class ProcessRoutingGR4J : public ProcessOutflow {
     double _qr;
     double _qd;
 
+    // Net exchange already injected into the container during the current time step [mm]
+    double _exchangeInjected;
+
     // Cached total process-internal water storage for water balance logging
     double _processStorage;
 
-- 
2.43.0


From 5717115879a444dc80aa7329c0710cf0433baf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:26 +0000
Subject: [PATCH 06/26] fix: HBV routing measured its inflow from a discharge
 weighted by the area of the hydro unit

---
 core/src/fluxes/Flux.h                   | 9 +++++++++
 core/src/processes/ProcessRoutingHBV.cpp | 5 +++++
 2 files changed, 14 insertions(+)

diff --git a/core/src/fluxes/Flux.h b/core/src/fluxes/Flux.h
index e6af389..3ba3c2f 100644
--- a/core/src/fluxes/Flux.h
+++ b/core/src/fluxes/Flux.h
@@ -152,6 +152,15 @@ class Flux {
         _fractionTotal = _fractionUnitArea * _fractionLandCover;
     }
 
+    /**
+     * Get the total fraction by which the flux amount is weighted.
+     *
+     * @return the total fraction.
+     */
+    [[nodiscard]] double GetFractionTotal() const {
+        return _fractionTotal;
+    }
+
     /**
      * Get the flux type.
      *
diff --git a/core/src/processes/ProcessRoutingHBV.cpp b/core/src/processes/ProcessRoutingHBV.cpp
index be457f4..0900aa5 100644
--- a/core/src/processes/ProcessRoutingHBV.cpp
+++ b/core/src/processes/ProcessRoutingHBV.cpp
@@ -85,7 +85,12 @@ void ProcessRoutingHBV::Finalize() {
     // Water actually delivered to the outlet and actually received this timestep. The
     // applied rate can deviate from the scheduled delivery (solver stage averaging,
     // rate constraints), so both are measured on the committed amounts.
+    // The flux amount is weighted by the area fraction of the hydro unit, contrary to the content.
     double delivered = *_outputs[0]->GetAmountPointer();
+    double fraction = _outputs[0]->GetFractionTotal();
+    if (fraction > 0.0 && fraction < 1.0) {
+        delivered /= fraction;
+    }
     double content = _container->GetContentWithoutChanges();
     double inflow = content - _previousContent + delivered;
     _previousContent = content;
-- 
2.43.0


From 4cd2f54390c7c47a4d6eef6f15a126c82fd0ee1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:35 +0000
Subject: [PATCH 07/26] fix: HBV routing lost the water scheduled beyond a
 shortened base time

---
 core/src/processes/ProcessRoutingHBV.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/src/processes/ProcessRoutingHBV.cpp b/core/src/processes/ProcessRoutingHBV.cpp
index 0900aa5..545cf53 100644
--- a/core/src/processes/ProcessRoutingHBV.cpp
+++ b/core/src/processes/ProcessRoutingHBV.cpp
@@ -128,8 +128,14 @@ void ProcessRoutingHBV::_recomputeUH() {
                         _cumulativeWeight(static_cast<double>(j - 1), maxbas);
     }
 
-    // Resize the delivery schedule, preserving existing state
+    // Resize the delivery schedule, preserving existing state. When the base is shortened, the water
+    // scheduled beyond it is due with the last ordinate.
+    double beyond = 0.0;
+    for (int j = n; j < static_cast<int>(_stuh.size()); ++j) {
+        beyond += _stuh[j];
+    }
     _stuh.resize(n, 0.0);
+    _stuh.back() += beyond;
 }
 
 double ProcessRoutingHBV::_cumulativeWeight(double t, double maxbas) {
-- 
2.43.0


From 7ff2395dc80252f3d495f5122ed3a240e03fbd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:56 +0000
Subject: [PATCH 08/26] fix: storage constraints took the incoming rates
 without their area fraction

---
 core/src/containers/WaterContainer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/containers/WaterContainer.cpp b/core/src/containers/WaterContainer.cpp
index 678a72c..53337c4 100644
--- a/core/src/containers/WaterContainer.cpp
+++ b/core/src/containers/WaterContainer.cpp
@@ -114,7 +114,8 @@ void WaterContainer::ApplyConstraints(double timeStep, bool inputsCredited) {
         }
         assert(GreaterThanOrEqual(*changeRate, 0, EPSILON_D));
         incomingRates.push_back(changeRate);
-        inputs += *changeRate;
+        // The rate is expressed on the originating area: weighted as the flux does with the amount.
+        inputs += *changeRate * std::min(1.0, input->GetFractionTotal());
     }
 
     double change = inputs - outputs;
-- 
2.43.0


From e2bdd6a8f16340d4d199b165afb7c61c6f3a1e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:06 +0000
Subject: [PATCH 09/26] fix: overflow of a full storage overwritten when the
 constraints are applied again

---
 core/src/containers/WaterContainer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/containers/WaterContainer.cpp b/core/src/containers/WaterContainer.cpp
index 53337c4..1a7d736 100644
--- a/core/src/containers/WaterContainer.cpp
+++ b/core/src/containers/WaterContainer.cpp
@@ -149,7 +149,8 @@ void WaterContainer::ApplyConstraints(double timeStep, bool inputsCredited) {
             // If it has an overflow, use it
             if (HasOverflow()) {
                 if (_overflow->GetOutputFlux(0)->GetChangeRatePointer() != nullptr) {
-                    *(_overflow->GetOutputFlux(0)->GetChangeRatePointer()) = diff;
+                    // The current overflow is part of the outgoing rates already considered.
+                    *(_overflow->GetOutputFlux(0)->GetChangeRatePointer()) += diff;
                     return;
                 }
                 throw ShouldNotHappen(
-- 
2.43.0


From f2036eb75b873d33e1346a2e63134d1f13f8f5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:36 +0000
Subject: [PATCH 10/26] fix: outflows of an empty storage cut to zero although
 inflow was available

---
 core/src/containers/WaterContainer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/containers/WaterContainer.cpp b/core/src/containers/WaterContainer.cpp
index 1a7d736..8928c11 100644
--- a/core/src/containers/WaterContainer.cpp
+++ b/core/src/containers/WaterContainer.cpp
@@ -134,7 +134,8 @@ void WaterContainer::ApplyConstraints(double timeStep, bool inputsCredited) {
             if (NearlyZero(*rate, EPSILON_D)) {
                 continue;
             }
-            if (NearlyEqual(diff, change, PRECISION)) {
+            if (NearlyEqual(diff, -outputs, PRECISION)) {
+                // Nothing available.
                 *rate = 0;
                 continue;
             }
-- 
2.43.0


From ee1ae7b28be3980a54e7e77282ffd441c034d302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:51 +0000
Subject: [PATCH 11/26] fix: storage constraints of the solver bricks ignored
 the inflow from directly computed bricks

---
 core/src/base/ModelBuilder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/base/ModelBuilder.cpp b/core/src/base/ModelBuilder.cpp
index 7084646..da4aac4 100644
--- a/core/src/base/ModelBuilder.cpp
+++ b/core/src/base/ModelBuilder.cpp
@@ -535,7 +535,8 @@ void ModelBuilder::BuildHydroUnitBricksFluxes(SettingsModel& modelSettings, Hydr
                     if (toSubBasin) {
                         flux->SetFractionUnitArea(unit->GetArea() / _subBasin->GetArea());
                         flux->SetAsStatic();
-                    } else if (output.isStatic) {
+                    } else if (output.isStatic || !brick->NeedsSolver()) {
+                        // The amount delivered by a brick computed directly is known before the solver runs.
                         flux->SetAsStatic();
                     }
 
-- 
2.43.0


From 5ee7d0f32fd19cdf3ccbd1d12675f239bdc1411a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:25 +0000
Subject: [PATCH 12/26] fix: constraints of the sub-basin storages used the
 inflow of the previous time step

---
 core/src/base/ModelBuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/base/ModelBuilder.cpp b/core/src/base/ModelBuilder.cpp
index da4aac4..0546916 100644
--- a/core/src/base/ModelBuilder.cpp
+++ b/core/src/base/ModelBuilder.cpp
@@ -534,8 +534,8 @@ void ModelBuilder::BuildHydroUnitBricksFluxes(SettingsModel& modelSettings, Hydr
 
                     if (toSubBasin) {
                         flux->SetFractionUnitArea(unit->GetArea() / _subBasin->GetArea());
-                        flux->SetAsStatic();
-                    } else if (output.isStatic || !brick->NeedsSolver()) {
+                    }
+                    if (output.isStatic || !brick->NeedsSolver()) {
                         // The amount delivered by a brick computed directly is known before the solver runs.
                         flux->SetAsStatic();
                     }
-- 
2.43.0


From 96264c812bd484607d0666d318d4bd1ce13719fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:03 +0000
Subject: [PATCH 13/26] fix: an impossible land cover change modified the
 fractions and contents before being refused

---
 core/src/spatial/HydroUnit.cpp | 44 ++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/core/src/spatial/HydroUnit.cpp b/core/src/spatial/HydroUnit.cpp
index 4ac2c6d..38e2c7a 100644
--- a/core/src/spatial/HydroUnit.cpp
+++ b/core/src/spatial/HydroUnit.cpp
@@ -341,25 +341,36 @@ bool HydroUnit::ChangeLandCoverAreaFraction(std::string_view name, double fracti
     }
     LandCover* changed = it->second;
 
+    LandCover* generic = GetGenericLandCover();
+
+    // Refuse an impossible change before anything is modified: without the generic cover, the
+    // fractions must sum to 1; with it, the other covers must leave it a non-negative fraction.
+    double others = 0;
+    for (auto brick : _landCoverBricks) {
+        if (brick == generic) continue;
+        others += (brick == changed) ? fraction : brick->GetAreaFraction();
+    }
+    if (generic == nullptr && !NearlyEqual(others, 1.0, PRECISION)) {
+        LogError("No generic soil (open) land cover found. Cannot fix the land cover fractions.");
+        return false;
+    }
+    if (generic != nullptr && GreaterThan(others, 1.0, PRECISION)) {
+        LogError(
+            "The generic soil (open) land cover is not large enough to compensate the area change: "
+            "the sum of the other land cover fractions would be {}.",
+            others);
+        return false;
+    }
+
     // Conserve the stored water by transferring the content sitting on the land that
     // changes hands between the changed cover and the generic (soil) cover that
     // absorbs the area difference. Only relevant when there is a distinct generic
     // cover to exchange with.
-    LandCover* generic = GetGenericLandCover();
     if (generic != nullptr && generic != changed && _landCoverBricks.size() > 1) {
         double oldFraction = changed->GetAreaFraction();
         double delta = fraction - oldFraction;
         double genericOldFraction = generic->GetAreaFraction();
-        double genericNewFraction = genericOldFraction - delta;
-
-        // The generic cover must be able to absorb the change (it cannot go negative).
-        if (LessThan(genericNewFraction, 0, EPSILON_D)) {
-            LogError(
-                "The generic soil (open) land cover (%.20g) is not large enough to compensate "
-                "the area change (%.20g) with error margin (%.20g).",
-                genericOldFraction, delta, EPSILON_D);
-            return false;
-        }
+        double genericNewFraction = std::max(genericOldFraction - delta, 0.0);
 
         TransferLandCoverContent(changed, oldFraction, fraction, generic, genericOldFraction, genericNewFraction);
     }
@@ -468,15 +479,18 @@ bool HydroUnit::FixLandCoverFractionsTotal() {
     if (!NearlyEqual(total, 1.0, EPSILON_D)) {
         double diff = total - 1.0;
         if (ground == nullptr) {
+            if (NearlyZero(diff, EPSILON_F)) {
+                return true;  // Rounding only.
+            }
             LogError("No generic soil (open) land cover found. Cannot fix the land cover fractions.");
             return false;
         }
-        if (LessThan(ground->GetAreaFraction(), diff, EPSILON_D)) {
+        if (LessThan(ground->GetAreaFraction(), diff, EPSILON_F)) {
             LogError(
-                "The generic soil (open) land cover (%.20g) is not large enough to compensate "
-                "the area fractions (%.20g) with error margin (%.20g)."
+                "The generic soil (open) land cover ({}) is not large enough to compensate "
+                "the area fractions ({}) with error margin ({})."
                 "(i.e. the sum of the other land cover fractions is too large).",
-                ground->GetAreaFraction(), diff, EPSILON_D);
+                ground->GetAreaFraction(), diff, EPSILON_F);
             return false;
         }
         if (ground->GetAreaFraction() - diff > 0) {
-- 
2.43.0


From d046f68095da65029d4c12460c062137f5e329fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:12 +0000
Subject: [PATCH 14/26] fix: the clock drifted and lost steps for hourly and
 sub-hourly time steps

---
 core/src/base/TimeMachine.cpp | 17 ++++++++++++++---
 core/src/base/TimeMachine.h   |  1 +
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/core/src/base/TimeMachine.cpp b/core/src/base/TimeMachine.cpp
index 4e3e0d1..fc8b53f 100644
--- a/core/src/base/TimeMachine.cpp
+++ b/core/src/base/TimeMachine.cpp
@@ -1,5 +1,10 @@
 #include "TimeMachine.h"
 
+namespace {
+// Tolerance on the dates, as a fraction of a time step.
+constexpr double STEP_TOLERANCE = 0.000001;
+}  // namespace
+
 TimeMachine::TimeMachine()
     : _date(0),
       _start(0),
@@ -7,6 +12,7 @@ TimeMachine::TimeMachine()
       _timeStep(0),
       _timeStepUnit(TimeUnit::Day),
       _timeStepInDays(0),
+      _stepCount(0),
       _parametersUpdater(nullptr),
       _actionsManager(nullptr) {}
 
@@ -16,6 +22,7 @@ void TimeMachine::Initialize(double start, double end, int timeStep, TimeUnit ti
     _end = end;
     _timeStep = timeStep;
     _timeStepUnit = timeStepUnit;
+    _stepCount = 0;
     UpdateTimeStepInDays();
 }
 
@@ -24,6 +31,7 @@ void TimeMachine::Initialize(const TimerSettings& settings) {
     _end = ParseDate(settings.end, guess);
     _date = _start;
     _timeStep = settings.timeStep;
+    _stepCount = 0;
 
     if (settings.timeStepUnit == "day") {
         _timeStepUnit = TimeUnit::Day;
@@ -40,15 +48,18 @@ void TimeMachine::Initialize(const TimerSettings& settings) {
 
 void TimeMachine::Reset() {
     _date = _start;
+    _stepCount = 0;
 }
 
 bool TimeMachine::IsOver() const {
-    return _date > _end;
+    return GreaterThan(_date, _end, STEP_TOLERANCE * _timeStepInDays);
 }
 
 void TimeMachine::IncrementTime() {
     assert(_timeStepInDays > 0);
-    _date += _timeStepInDays;
+    // Computed from the start date to not accumulate rounding errors.
+    _stepCount++;
+    _date = IncrementDateBy(_start, _timeStep * _stepCount, _timeStepUnit);
 
     if (_parametersUpdater) {
         _parametersUpdater->DateUpdate(_date);
@@ -60,7 +71,7 @@ void TimeMachine::IncrementTime() {
 
 int TimeMachine::GetTimeStepCount() const {
     assert(_timeStepInDays > 0);
-    return static_cast<int>(1 + (_end - _start) / _timeStepInDays);
+    return 1 + static_cast<int>(std::floor((_end - _start) / _timeStepInDays + STEP_TOLERANCE));
 }
 
 void TimeMachine::UpdateTimeStepInDays() {
diff --git a/core/src/base/TimeMachine.h b/core/src/base/TimeMachine.h
index 3673196..86e8afe 100644
--- a/core/src/base/TimeMachine.h
+++ b/core/src/base/TimeMachine.h
@@ -137,6 +137,7 @@ class TimeMachine {
     int _timeStep;
     TimeUnit _timeStepUnit;
     double _timeStepInDays;
+    int _stepCount;  // number of time steps since the start
     ParametersUpdater* _parametersUpdater;  // non-owning reference
     ActionsManager* _actionsManager;        // non-owning reference
 
-- 
2.43.0


From 1c0d533e623cb4d0aaef33618fef52185c94ec62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:12 +0000
Subject: [PATCH 15/26] fix: dates that do not exist were silently moved to the
 next month

---
 core/src/base/UtilsDateTime.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/src/base/UtilsDateTime.cpp b/core/src/base/UtilsDateTime.cpp
index 00faf2f..7478a5a 100644
--- a/core/src/base/UtilsDateTime.cpp
+++ b/core/src/base/UtilsDateTime.cpp
@@ -126,6 +126,9 @@ static bool ParseExact(const std::string& s, const char* fmt, std::chrono::sys_t
         auto parsed_sec = static_cast<int>(tm.tm_sec);
 
         auto ymd = std::chrono::year{parsed_year} / std::chrono::month{parsed_month} / std::chrono::day{parsed_day};
+        if (!ymd.ok()) {
+            return false;  // e.g. April 31st
+        }
         auto days = std::chrono::sys_days{ymd};
         auto tp = std::chrono::time_point_cast<std::chrono::seconds>(days) + std::chrono::hours{parsed_hour} +
                   std::chrono::minutes{parsed_min} + std::chrono::seconds{parsed_sec};
@@ -152,6 +155,9 @@ static bool ParseDateOnly(const std::string& s, const char* fmt, std::chrono::sy
         auto parsed_day = static_cast<unsigned>(tm.tm_mday);       // tm_mday is 1-based
 
         auto ymd = std::chrono::year{parsed_year} / std::chrono::month{parsed_month} / std::chrono::day{parsed_day};
+        if (!ymd.ok()) {
+            return false;  // e.g. April 31st
+        }
         out = std::chrono::sys_days{ymd};
         return true;
     } catch (...) {
-- 
2.43.0


From 1a9490248d809f2d0e96dbcf78becfaf7f5ebf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:30 +0000
Subject: [PATCH 16/26] fix: forcing series were positioned at a wrong value
 for multi-step and sub-daily series

---
 core/src/base/TimeSeriesData.cpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/core/src/base/TimeSeriesData.cpp b/core/src/base/TimeSeriesData.cpp
index 42b7ee5..1b663b7 100644
--- a/core/src/base/TimeSeriesData.cpp
+++ b/core/src/base/TimeSeriesData.cpp
@@ -39,7 +39,7 @@ TimeSeriesDataRegular::TimeSeriesDataRegular(double start, double end, int timeS
 
 bool TimeSeriesDataRegular::SetValues(vecDouble values) {
     double calcEnd = IncrementDateBy(_start, _timeStep * static_cast<int>(values.size() - 1), _timeStepUnit);
-    if (calcEnd != _end) {
+    if (!NearlyEqual(calcEnd, _end, PRECISION)) {
         LogError("The size of the time series data does not match the time properties.");
         LogError("End of the data ({}) != end of the dates ({}).", calcEnd, _end);
         return false;
@@ -50,12 +50,16 @@ bool TimeSeriesDataRegular::SetValues(vecDouble values) {
 }
 
 double TimeSeriesDataRegular::GetValueFor(double date) {
-    SetCursorToDate(date);
-    return _values[_cursor];
+    if (!SetCursorToDate(date)) {
+        throw RuntimeError(std::format("The date {} is outside of the time series range.", date));
+    }
+    return GetCurrentValue();
 }
 
 double TimeSeriesDataRegular::GetCurrentValue() const {
-    assert(_values.size() > _cursor);
+    if (_cursor >= _values.size()) {
+        throw RuntimeError("The time series was read past its end.");
+    }
     return _values[_cursor];
 }
 
@@ -67,11 +71,11 @@ double TimeSeriesDataRegular::GetSum() {
 }
 
 bool TimeSeriesDataRegular::SetCursorToDate(double date) {
-    if (date < _start) {
+    if (LessThan(date, _start, PRECISION)) {
         LogError("The desired date is before the data starting date.");
         return false;
     }
-    if (date > _end) {
+    if (GreaterThan(date, _end, PRECISION)) {
         LogError("The desired date is after the data ending date.");
         return false;
     }
@@ -80,19 +84,22 @@ bool TimeSeriesDataRegular::SetCursorToDate(double date) {
 
     switch (_timeStepUnit) {
         case TimeUnit::Day:
-            _cursor = static_cast<int>(dt);
             break;
         case TimeUnit::Hour:
-            _cursor = static_cast<int>(dt) * 24;
+            dt *= 24;
             break;
         case TimeUnit::Minute:
-            _cursor = static_cast<int>(dt) * 1440;
+            dt *= 1440;
             break;
         default:
             throw NotImplemented(std::format("TimeSeriesDataRegular::SetCursorToDate - Time unit {} not supported",
                                              static_cast<int>(_timeStepUnit)));
     }
 
+    // Tolerance on the dates, as a fraction of a time step.
+    constexpr double tolerance = 0.000001;
+    _cursor = std::max(static_cast<int>(std::floor(dt / _timeStep + tolerance)), 0);
+
     return true;
 }
 
-- 
2.43.0


From a7f296b0d7c4ad4d698c8876833be24930e79c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:02 +0000
Subject: [PATCH 17/26] fix: a brick that lost its area kept delivering the
 amounts of its last active step

---
 core/src/base/Processor.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/src/base/Processor.cpp b/core/src/base/Processor.cpp
index 507cf01..c23f52e 100644
--- a/core/src/base/Processor.cpp
+++ b/core/src/base/Processor.cpp
@@ -256,6 +256,13 @@ bool Processor::ProcessTimeStep(double timeStepInDays) {
                 continue;
             }
             if (brick->IsNull()) {
+                // Nothing leaves a brick without area: forget the amounts of its last active step.
+                for (int i = 0; i < brick->GetProcessCount(); ++i) {
+                    auto process = brick->GetProcess(i);
+                    for (int j = 0; j < process->GetOutputFluxCount(); ++j) {
+                        process->GetOutputFlux(j)->Reset();
+                    }
+                }
                 continue;
             }
 
-- 
2.43.0


From f47d86527f3508cfdf0ae4f2e8af45818cdae87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:25 +0000
Subject: [PATCH 18/26] fix: water leaving a snowpack or canopy was not
 weighted by the fraction of its land cover

---
 core/src/base/ModelBuilder.cpp | 3 ++-
 core/src/bricks/Glacier.cpp    | 1 +
 core/src/bricks/LandCover.cpp  | 8 ++++++--
 core/src/bricks/LandCover.h    | 1 +
 4 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/core/src/base/ModelBuilder.cpp b/core/src/base/ModelBuilder.cpp
index 0546916..dcf1e61 100644
--- a/core/src/base/ModelBuilder.cpp
+++ b/core/src/base/ModelBuilder.cpp
@@ -494,7 +494,8 @@ void ModelBuilder::BuildHydroUnitBricksFluxes(SettingsModel& modelSettings, Hydr
                                     flux->SetAsStatic();
                                 }
                                 flux->SetType(output.fluxType);
-                                flux->NeedsWeighting(true);
+                                // Not weighted by the land cover fraction here: the lateral process sets the
+                                // weight from the areas of both land covers.
                                 targetBrick->AttachFluxIn(flux);
                                 lateralProcess->AttachFluxOutWithWeight(std::move(fluxPtr),
                                                                         lateralConnection->GetFraction());
diff --git a/core/src/bricks/Glacier.cpp b/core/src/bricks/Glacier.cpp
index 1f91945..37db1fb 100644
--- a/core/src/bricks/Glacier.cpp
+++ b/core/src/bricks/Glacier.cpp
@@ -144,6 +144,7 @@ double* Glacier::GetValuePointer(std::string_view name) {
 }
 
 void Glacier::SurfaceComponentAdded(SurfaceComponent* brick) {
+    LandCover::SurfaceComponentAdded(brick);
     if (brick->GetCategory() == BrickCategory::Snowpack) {
         auto snowpack = dynamic_cast<Snowpack*>(brick);
         _ice->SetRelatedSnowpack(snowpack);
diff --git a/core/src/bricks/LandCover.cpp b/core/src/bricks/LandCover.cpp
index ef7c02f..8c9cce0 100644
--- a/core/src/bricks/LandCover.cpp
+++ b/core/src/bricks/LandCover.cpp
@@ -26,6 +26,10 @@ void LandCover::SaveAsInitialState() {
 
 void LandCover::SetAreaFraction(double value) {
     _areaFraction = value;
+    // The fluxes leaving the components lying on this cover (e.g. the snowpack) represent the same land.
+    for (auto component : _surfaceComponents) {
+        component->SetAreaFraction(component->GetAreaFraction());
+    }
     for (const auto& process : _processes) {
         for (int i = 0; i < process->GetOutputFluxCount(); ++i) {
             Flux* output = process->GetOutputFlux(i);
@@ -36,6 +40,6 @@ void LandCover::SetAreaFraction(double value) {
     }
 }
 
-void LandCover::SurfaceComponentAdded(SurfaceComponent*) {
-    // Nothing to do.
+void LandCover::SurfaceComponentAdded(SurfaceComponent* brick) {
+    _surfaceComponents.push_back(brick);
 }
diff --git a/core/src/bricks/LandCover.h b/core/src/bricks/LandCover.h
index fb97ae6..adbbfbc 100644
--- a/core/src/bricks/LandCover.h
+++ b/core/src/bricks/LandCover.h
@@ -102,6 +102,7 @@ class LandCover : public Brick {
   protected:
     double _areaFraction;
     double _initialAreaFraction;
+    vector<SurfaceComponent*> _surfaceComponents;  // non-owning references
 };
 
 #endif  // HYDROBRICKS_BASE_LAND_COVER_H
-- 
2.43.0


From efc8481f27156e2ba84459b77b4c93aee1044e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:50 +0000
Subject: [PATCH 19/26] fix: a recurrent action with several dates fired on
 every combination of their months and days

---
 core/src/actions/Action.cpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/core/src/actions/Action.cpp b/core/src/actions/Action.cpp
index 5478ce4..eab5058 100644
--- a/core/src/actions/Action.cpp
+++ b/core/src/actions/Action.cpp
@@ -40,15 +40,9 @@ bool Action::Apply(double) {
 }
 
 bool Action::ApplyIfRecursive(const Time date) {
-    for (int month : _recursiveMonths) {
-        if (month != date.month) {
-            continue;
-        }
-        for (int day : _recursiveDays) {
-            if (day != date.day) {
-                continue;
-            }
-
+    // The months and days go by pairs.
+    for (size_t i = 0; i < _recursiveMonths.size(); ++i) {
+        if (_recursiveMonths[i] == date.month && _recursiveDays[i] == date.day) {
             return Apply();
         }
     }
-- 
2.43.0


From 2ac3c894595eabc93f0f14ef7a2a2cff03e5df34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:50 +0000
Subject: [PATCH 20/26] fix: recurrent actions fired at every sub-daily step of
 their day and were skipped by long steps

---
 core/src/actions/ActionsManager.cpp | 27 +++++++++++++++++++++------
 core/src/actions/ActionsManager.h   |  9 +++++++++
 core/src/base/TimeMachine.cpp       |  3 ++-
 3 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/core/src/actions/ActionsManager.cpp b/core/src/actions/ActionsManager.cpp
index e39a969..18670d3 100644
--- a/core/src/actions/ActionsManager.cpp
+++ b/core/src/actions/ActionsManager.cpp
@@ -5,6 +5,11 @@
 #include "SubBasin.h"
 #include "Utils.h"
 
+namespace {
+// Tolerance on the dates [d] (rounding errors on the sub-daily dates).
+constexpr double ACTION_DATE_TOLERANCE = 0.000001;
+}  // namespace
+
 ActionsManager::ActionsManager()
     : _model(nullptr),
       _cursorManager(0) {}
@@ -78,12 +83,21 @@ int ActionsManager::GetSporadicActionItemCount() const {
 }
 
 void ActionsManager::DateUpdate(double date) {
-    // Recursive actions
+    DateUpdate(date - 1, date);
+}
+
+void ActionsManager::DateUpdate(double previousDate, double date) {
+    // Recursive actions: once for each day that the step reaches (none for most of the sub-daily steps, several for
+    // the steps longer than a day).
     if (!_recursiveActionIndices.empty()) {
-        Time dateStruct = GetTimeStructFromMJD(date);
-        for (int actionIndex : _recursiveActionIndices) {
-            if (!_actions[actionIndex]->ApplyIfRecursive(dateStruct)) {
-                throw RuntimeError("Application of a recursive action failed.");
+        int lastDay = static_cast<int>(std::floor(date + ACTION_DATE_TOLERANCE));
+        int firstDay = static_cast<int>(std::floor(previousDate + ACTION_DATE_TOLERANCE)) + 1;
+        for (int day = firstDay; day <= lastDay; ++day) {
+            Time dateStruct = GetTimeStructFromMJD(day);
+            for (int actionIndex : _recursiveActionIndices) {
+                if (!_actions[actionIndex]->ApplyIfRecursive(dateStruct)) {
+                    throw RuntimeError("Application of a recursive action failed.");
+                }
             }
         }
     }
@@ -94,7 +108,8 @@ void ActionsManager::DateUpdate(double date) {
 
     // Sporadic actions
     assert(_sporadicActionDates.size() == _sporadicActionIndices.size());
-    while (_sporadicActionDates.size() > _cursorManager && _sporadicActionDates[_cursorManager] <= date) {
+    while (_sporadicActionDates.size() > _cursorManager &&
+           _sporadicActionDates[_cursorManager] <= date + ACTION_DATE_TOLERANCE) {
         if (!_actions[_sporadicActionIndices[_cursorManager]]->Apply(date)) {
             throw RuntimeError("Application of a sporadic action failed.");
         }
diff --git a/core/src/actions/ActionsManager.h b/core/src/actions/ActionsManager.h
index 57a723b..c61a3bb 100644
--- a/core/src/actions/ActionsManager.h
+++ b/core/src/actions/ActionsManager.h
@@ -64,6 +64,15 @@ class ActionsManager {
      */
     void DateUpdate(double date);
 
+    /**
+     * Update the date during the simulation. Triggers the actions that are scheduled between the previous date
+     * (excluded) and the current one (included).
+     *
+     * @param previousDate date of the simulation before the step.
+     * @param date corresponding date of the simulation.
+     */
+    void DateUpdate(double previousDate, double date);
+
     /**
      * Get the sub basin associated with the model.
      *
diff --git a/core/src/base/TimeMachine.cpp b/core/src/base/TimeMachine.cpp
index fc8b53f..8f2b166 100644
--- a/core/src/base/TimeMachine.cpp
+++ b/core/src/base/TimeMachine.cpp
@@ -58,6 +58,7 @@ bool TimeMachine::IsOver() const {
 void TimeMachine::IncrementTime() {
     assert(_timeStepInDays > 0);
     // Computed from the start date to not accumulate rounding errors.
+    double previousDate = _date;
     _stepCount++;
     _date = IncrementDateBy(_start, _timeStep * _stepCount, _timeStepUnit);
 
@@ -65,7 +66,7 @@ void TimeMachine::IncrementTime() {
         _parametersUpdater->DateUpdate(_date);
     }
     if (_actionsManager) {
-        _actionsManager->DateUpdate(_date);
+        _actionsManager->DateUpdate(previousDate, _date);
     }
 }
 
-- 
2.43.0


From 12bc99473246d2d7796c11d8e0d13644ff7a8bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:48 +0000
Subject: [PATCH 21/26] fix: resetting a snowpack left its processes (cold
 content, snow density, fluxes) in their last state

---
 core/src/bricks/Snowpack.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/bricks/Snowpack.cpp b/core/src/bricks/Snowpack.cpp
index bd305ab..16e6722 100644
--- a/core/src/bricks/Snowpack.cpp
+++ b/core/src/bricks/Snowpack.cpp
@@ -7,12 +7,12 @@ Snowpack::Snowpack()
 }
 
 void Snowpack::Reset() {
-    _water->Reset();
+    Brick::Reset();
     _snow->Reset();
 }
 
 void Snowpack::SaveAsInitialState() {
-    _water->SaveAsInitialState();
+    Brick::SaveAsInitialState();
     _snow->SaveAsInitialState();
 }
 
-- 
2.43.0


From 3362a15f5e43936d3281fc901582a15a8f84f0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:29 +0000
Subject: [PATCH 22/26] fix: a reset left the outlet discharge of the last step

---
 core/src/spatial/SubBasin.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/spatial/SubBasin.cpp b/core/src/spatial/SubBasin.cpp
index b88468b..0ae80cb 100644
--- a/core/src/spatial/SubBasin.cpp
+++ b/core/src/spatial/SubBasin.cpp
@@ -110,6 +110,7 @@ void SubBasin::Reset() {
     for (auto flux : _outletFluxes) {
         flux->Reset();
     }
+    _outletTotal = 0;
 }
 
 void SubBasin::SaveAsInitialState() {
-- 
2.43.0


From 641fde92bf74f8ec03e505ac93c72d43aade1460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:06 +0000
Subject: [PATCH 23/26] fix: forcing values overridden in an interrupted step
 survived a reset

---
 core/src/base/ModelHydro.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/base/ModelHydro.cpp b/core/src/base/ModelHydro.cpp
index 369a304..614ca90 100644
--- a/core/src/base/ModelHydro.cpp
+++ b/core/src/base/ModelHydro.cpp
@@ -353,6 +353,9 @@ ModelResult ModelHydro::InitializeTimeSeries() {
         }
     }
 
+    // Drop the values overridden during a step that was not completed (e.g. an interrupted run).
+    _subBasin->ResetForcingUpdates();
+
     return {};
 }
 
-- 
2.43.0


From 9b03bc57f57c3f923b702a15f8a7d45266f68799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:34 +0000
Subject: [PATCH 24/26] fix: area scaling left an infinite ice content on a
 glacier without area

---
 core/src/actions/ActionGlacierEvolutionAreaScaling.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp b/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
index 119a76f..d5f542b 100644
--- a/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
+++ b/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
@@ -115,6 +115,10 @@ bool ActionGlacierEvolutionAreaScaling::Apply(double) {
         }
 
         // Update the glacier water equivalent to match the new area.
+        if (NearlyZero(newArea, PRECISION)) {
+            brick->UpdateContent(0, ContentType::Ice);
+            continue;
+        }
         double iceWE = iceVolume / newArea;  // Convert glacier water equivalent to mm w.e.
         brick->UpdateContent(iceWE, ContentType::Ice);
     }
-- 
2.43.0


From 98a3b9245dfaeb8a128faad4d6e2bfadb141ebef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:43 +0000
Subject: [PATCH 25/26] fix: setting a parameter by brick type threw when a
 sub-basin brick had that type

---
 core/src/base/SettingsModel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/base/SettingsModel.cpp b/core/src/base/SettingsModel.cpp
index 9b73ecd..d015b3c 100644
--- a/core/src/base/SettingsModel.cpp
+++ b/core/src/base/SettingsModel.cpp
@@ -1012,7 +1012,7 @@ bool SettingsModel::SetParameterValueInSelectedStructure(const string& component
         // Set the parameter for all matching bricks - subbasins
         for (auto& brick : _selectedStructure->subBasinBricks) {
             if (typeMatches(brick.type)) {
-                SelectHydroUnitBrick(brick.name);
+                SelectSubBasinBrick(brick.name);
                 if (BrickHasParameter(name)) {
                     SetBrickParameterValue(name, value);
                 } else {
-- 
2.43.0


From 262d6c16f1266ba75ecfa1994dc84eb12a350cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:35 +0000
Subject: [PATCH 26/26] fix: a glacier stayed infinite after infinite_storage
 was set back to zero

---
 core/src/bricks/Glacier.cpp          | 4 +---
 core/src/containers/WaterContainer.h | 6 ++++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/src/bricks/Glacier.cpp b/core/src/bricks/Glacier.cpp
index 37db1fb..3126729 100644
--- a/core/src/bricks/Glacier.cpp
+++ b/core/src/bricks/Glacier.cpp
@@ -22,9 +22,7 @@ void Glacier::SetParameters(const BrickSettings& brickSettings) {
     Brick::SetParameters(brickSettings);
     if (HasParameter(brickSettings, "infinite_storage")) {
         const float* valPtr = GetParameterValuePointer(brickSettings, "infinite_storage");
-        if (valPtr && !NearlyZero(*valPtr, EPSILON_F)) {
-            _ice->SetAsInfiniteStorage();
-        }
+        _ice->SetAsInfiniteStorage(valPtr && !NearlyZero(*valPtr, EPSILON_F));
     }
 
     if (HasParameter(brickSettings, "no_melt_when_snow_cover")) {
diff --git a/core/src/containers/WaterContainer.h b/core/src/containers/WaterContainer.h
index d79abbe..a85235a 100644
--- a/core/src/containers/WaterContainer.h
+++ b/core/src/containers/WaterContainer.h
@@ -117,9 +117,11 @@ class WaterContainer {
 
     /**
      * Set the water container as an infinite storage.
+     *
+     * @param infinite true for an infinite storage, false for a finite one (default: true).
      */
-    void SetAsInfiniteStorage() {
-        _infiniteStorage = true;
+    void SetAsInfiniteStorage(bool infinite = true) {
+        _infiniteStorage = infinite;
     }
 
     /**
-- 
2.43.0

