From d86bb20fe63c81619749532c54e9069fe6af79bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:40 +0000
Subject: [PATCH 001/103] fix: do not repeat outputs after a rejected time step

---
 include/fub/RunSimulation.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/fub/RunSimulation.hpp b/include/fub/RunSimulation.hpp
index 7e7a3cc..5c7dafe 100644
--- a/include/fub/RunSimulation.hpp
+++ b/include/fub/RunSimulation.hpp
@@ -183,7 +183,10 @@ void RunSimulation(Solver& solver, RunOptions options,
     } while (
         time_point + eps < options.final_time &&
         (options.max_cycles < 0 || solver.GetCycles() < options.max_cycles) &&
-        !output.ShallOutputNow(*solver.GetGriddingAlgorithm()));
+        // A rejected time step must be repeated first. The output for the
+        // restored state, if any was due, has already been written.
+        (failure_dt ||
+         !output.ShallOutputNow(*solver.GetGriddingAlgorithm())));
     auto output_timer = solver.GetCounterRegistry()->get_timer("Output");
     output(*solver.GetGriddingAlgorithm());
   }
-- 
2.43.0


From b9ff08902e98e1c7b7c4635da23c42f91dacc64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:29 +0000
Subject: [PATCH 002/103] fix: output schedules detect time points in front of
 an interval multiple

---
 include/fub/output/OutputAtFrequencyOrInterval.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/fub/output/OutputAtFrequencyOrInterval.hpp b/include/fub/output/OutputAtFrequencyOrInterval.hpp
index 7c42cb6..54abe73 100644
--- a/include/fub/output/OutputAtFrequencyOrInterval.hpp
+++ b/include/fub/output/OutputAtFrequencyOrInterval.hpp
@@ -59,6 +59,11 @@ public:
       if (intervals_[i].count() > 0.0) {
         Duration dt(intervals_[i].count() -
                     std::fmod(time_point.count(), intervals_[i].count()));
+        // ShallOutputNow already fires for time points slightly in front of a
+        // multiple of the interval.
+        if (dt < 2 * smallest_time_step_size_) {
+          dt += intervals_[i];
+        }
         dt += smallest_time_step_size_;
         next_output_time = std::min<Duration>(next_output_time, time_point + dt);
       }
@@ -77,9 +82,11 @@ public:
     if (time_point == Duration{} ||
         std::any_of(intervals_.begin(), intervals_.end(),
                     [this, time_point](Duration freq) {
-                      return std::abs(
-                                 std::fmod(time_point.count(), freq.count())) <
-                             2 * smallest_time_step_size_.count();
+                      const double remainder = std::abs(
+                          std::fmod(time_point.count(), freq.count()));
+                      const double eps = 2 * smallest_time_step_size_.count();
+                      return remainder < eps ||
+                             std::abs(freq.count()) - remainder < eps;
                     })) {
       return true;
     }
-- 
2.43.0


From 4631d2d2b7536b9b6004ab17f427ac6f50378eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:57 +0000
Subject: [PATCH 003/103] fix: fill ghost cells of finer levels after all
 levels are advanced

---
 include/fub/solver/NoSubcycleSolver.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/fub/solver/NoSubcycleSolver.hpp b/include/fub/solver/NoSubcycleSolver.hpp
index e552838..26f6bc7 100644
--- a/include/fub/solver/NoSubcycleSolver.hpp
+++ b/include/fub/solver/NoSubcycleSolver.hpp
@@ -96,10 +96,13 @@ NoSubcycleSolver<LevelIntegrator>::AdvanceLevel(int level,
     Base::CompleteFromCons(level, time_step_size);
   }
   Base::CopyScratchToData(level);
+  // Finer levels take their coarse-fine boundary values from this level. They
+  // have to be filled after all levels are advanced.
   if (level == 0) {
-    Base::GetContext().FillGhostLayerSingleLevel(level);
-  } else {
-    Base::GetContext().FillGhostLayerTwoLevels(level, level - 1);
+    Base::GetContext().FillGhostLayerSingleLevel(0);
+    for (int fine = 1; Base::LevelExists(fine); ++fine) {
+      Base::GetContext().FillGhostLayerTwoLevels(fine, fine - 1);
+    }
   }
   return Base::PostAdvanceLevel(level, time_step_size, {0, 1});
 }
-- 
2.43.0


From 1d94e82b92b3883810f9702b290edef435771b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:58 +0000
Subject: [PATCH 004/103] fix: type-erased split methods forward to the wrapped
 method for any number of operators

---
 include/fub/split_method/SplittingMethod.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/fub/split_method/SplittingMethod.hpp b/include/fub/split_method/SplittingMethod.hpp
index 060d019..437552f 100644
--- a/include/fub/split_method/SplittingMethod.hpp
+++ b/include/fub/split_method/SplittingMethod.hpp
@@ -84,10 +84,7 @@ struct AnySplitMethod : public SplittingMethod {
                 !std::is_same_v<AnySplitMethod, SplitMethod> &&
                 std::is_base_of_v<SplittingMethod, SplitMethod>>>
   AnySplitMethod& operator=(const SplitMethod& split) {
-    split_method_ = [split](Duration dt, AdvanceFunction f1, AdvanceFunction f2) {
-      return split.Advance(dt, std::move(f1), std::move(f2));
-    };
-    return *this;
+    return *this = AnySplitMethod(split);
   }
 
   template <typename SplitMethod,
@@ -97,9 +94,14 @@ struct AnySplitMethod : public SplittingMethod {
   AnySplitMethod(const SplitMethod& split) : split_method_ {
     [split](Duration dt, AdvanceFunction f1, AdvanceFunction f2) {
       return split.Advance(dt, std::move(f1), std::move(f2));
+    }}, split_method3_{[split](Duration dt, AdvanceFunction f1,
+                               AdvanceFunction f2, AdvanceFunction f3) {
+      return split.Advance(dt, std::move(f1), std::move(f2), std::move(f3));
     }}
   {}
 
+  using SplittingMethod::Advance;
+
   Result<void, TimeStepTooLarge>
   Advance(Duration time_step_size, AdvanceFunction advance1,
           AdvanceFunction advance2) const override {
@@ -107,9 +109,19 @@ struct AnySplitMethod : public SplittingMethod {
                          std::move(advance2));
   }
 
+  Result<void, TimeStepTooLarge>
+  Advance(Duration time_step_size, AdvanceFunction advance1,
+          AdvanceFunction advance2, AdvanceFunction advance3) const override {
+    return split_method3_(time_step_size, std::move(advance1),
+                          std::move(advance2), std::move(advance3));
+  }
+
   std::function<Result<void, TimeStepTooLarge>(Duration, AdvanceFunction,
                                                AdvanceFunction)>
       split_method_;
+  std::function<Result<void, TimeStepTooLarge>(
+      Duration, AdvanceFunction, AdvanceFunction, AdvanceFunction)>
+      split_method3_;
 };
 
 template <int Rank>
-- 
2.43.0


From d32db8329dd8321d4891ce0ab48b437902e9c3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:03 +0000
Subject: [PATCH 005/103] fix: a level step rejected by the source term fails
 the coupled level step

---
 .../fub/solver/SplitSystemSourceLevelIntegrator.hpp  | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/fub/solver/SplitSystemSourceLevelIntegrator.hpp b/include/fub/solver/SplitSystemSourceLevelIntegrator.hpp
index 48470f3..446bb25 100644
--- a/include/fub/solver/SplitSystemSourceLevelIntegrator.hpp
+++ b/include/fub/solver/SplitSystemSourceLevelIntegrator.hpp
@@ -192,7 +192,17 @@ SplitSystemSourceLevelIntegrator<SystemSolver, SourceTerm, SplittingMethod>::
                      std::pair<int, int> subcycle) {
   if constexpr (is_detected<meta::PostAdvanceLevel, SourceTerm&, int, Duration,
                             std::pair<int, int>>()) {
-    source_term_.PostAdvanceLevel(this_level, dt, subcycle);
+    using SourceResult =
+        meta::PostAdvanceLevel<SourceTerm&, int, Duration, std::pair<int, int>>;
+    if constexpr (std::is_void_v<SourceResult>) {
+      source_term_.PostAdvanceLevel(this_level, dt, subcycle);
+    } else {
+      Result<void, TimeStepTooLarge> result =
+          source_term_.PostAdvanceLevel(this_level, dt, subcycle);
+      if (!result) {
+        return result;
+      }
+    }
   }
   return SystemSolver::PostAdvanceLevel(this_level, dt, subcycle);
 }
-- 
2.43.0


From 110df2ed7385b1e7360b6f092f3b70f6573f9508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:12 +0000
Subject: [PATCH 006/103] fix: the vectorised conservative update does not
 touch memory behind a row

---
 src/HyperbolicPatchIntegrator.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/HyperbolicPatchIntegrator.cpp b/src/HyperbolicPatchIntegrator.cpp
index 1b8cf64..cd7e754 100644
--- a/src/HyperbolicPatchIntegrator.cpp
+++ b/src/HyperbolicPatchIntegrator.cpp
@@ -52,12 +52,10 @@ void UpdateConservatively_SIMD(span<double> nexts, span<const double> prevs,
     AdvanceBy(size, out, in, fluxL, fluxR);
     n = end - out;
   }
-  const auto mask = Vc::Vector<double>([](int i) { return i; }) < int(n);
-  const Vc::Vector<double> prev = mask_load(in, mask);
-  const Vc::Vector<double> fL = mask_load(fluxL, mask);
-  const Vc::Vector<double> fR = mask_load(fluxR, mask);
-  const Vc::Vector<double> next = prev + dt_over_dx * (fL - fR);
-  next.store(out, mask, Vc::Unaligned);
+  // Masked vector stores are allowed to touch memory behind the end of the row.
+  for (; out != end; AdvanceBy(1, out, in, fluxL, fluxR)) {
+    *out = *in + dt_dx * (*fluxL - *fluxR);
+  }
 }
 
 template <int Rank>
-- 
2.43.0


From 2a136be31d26f7a8c406c5b8de37f26b71a3d816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:53 +0000
Subject: [PATCH 007/103] fix: the sequential stable time step includes the
 last interface of a patch

---
 include/fub/flux_method/FluxMethod.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fub/flux_method/FluxMethod.hpp b/include/fub/flux_method/FluxMethod.hpp
index 52e2848..e8a6af8 100644
--- a/include/fub/flux_method/FluxMethod.hpp
+++ b/include/fub/flux_method/FluxMethod.hpp
@@ -298,7 +298,7 @@ FluxMethod<BaseMethod>::ComputeStableDt(execution::SequentialTag,
                                         const View<const Complete>& states,
                                         double dx, Direction dir) {
   double min_dt = std::numeric_limits<double>::infinity();
-  ForEachIndex(Shrink(Box<0>(states), dir, {0, GetStencilSize()}),
+  ForEachIndex(Shrink(Box<0>(states), dir, {0, GetStencilSize() - 1}),
                [&](const auto... is) {
                  using Index = std::array<std::ptrdiff_t, sizeof...(is)>;
                  const Index face{is...};
-- 
2.43.0


From 61567bd4383e71f1bb1ec4eb56ef04ffea9d1ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:53 +0000
Subject: [PATCH 008/103] fix: the vectorised stable time step masks all lanes
 of a row's tail

---
 include/fub/flux_method/FluxMethod.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fub/flux_method/FluxMethod.hpp b/include/fub/flux_method/FluxMethod.hpp
index e8a6af8..51ab877 100644
--- a/include/fub/flux_method/FluxMethod.hpp
+++ b/include/fub/flux_method/FluxMethod.hpp
@@ -371,7 +371,7 @@ FluxMethod<BaseMethod>::ComputeStableDt(execution::SimdTag,
       LoadN(stencil_array_[i], states[i], n);
     }
     Array1d mask_;
-    for (int i = 0; i < mask_.rows(); ++i) {
+    for (int i = 0; i < mask_.size(); ++i) {
       mask_[i] = static_cast<double>(i);
     }
     auto mask = (mask_ < n).eval();
-- 
2.43.0


From c13b462b0ad6090e3b893cd1489385e485bd4c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:35 +0000
Subject: [PATCH 009/103] fix: compute the signals of the exact Riemann solver
 for arrays of perfect gas states

---
 .../perfect_gas/ExactRiemannSolver.hpp        | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/equations/perfect_gas/ExactRiemannSolver.hpp b/src/equations/perfect_gas/ExactRiemannSolver.hpp
index 0d2ba7b..cdc563c 100644
--- a/src/equations/perfect_gas/ExactRiemannSolver.hpp
+++ b/src/equations/perfect_gas/ExactRiemannSolver.hpp
@@ -96,12 +96,6 @@ std::array<double, 2> ExactRiemannSolver<PerfectGas<Dim>>::ComputeMiddleState(
   return {pM, uM};
 }
 
-template <int Dim>
-std::array<Array1d, 2> ExactRiemannSolver<PerfectGas<Dim>>::ComputeSignals(
-    const CompleteArray&, const CompleteArray&, Direction) {
-  throw std::runtime_error("Array-wise ComputeSignals is not implemented.");
-}
-
 template <int Dim>
 std::array<double, 2> ExactRiemannSolver<PerfectGas<Dim>>::ComputeSignals(
     const Complete& left, const Complete& right, Direction dir) {
@@ -169,6 +163,23 @@ void Set(CompleteArray<PerfectGas<Dim>>& arr,
   arr.speed_of_sound[i] = state.speed_of_sound;
 }
 
+template <int Dim>
+std::array<Array1d, 2> ExactRiemannSolver<PerfectGas<Dim>>::ComputeSignals(
+    const CompleteArray& left_arr, const CompleteArray& right_arr,
+    Direction dir) {
+  std::array<Array1d, 2> signals{Array1d::Zero(), Array1d::Zero()};
+  for (int i = 0; i < left_arr.density.size(); ++i) {
+    // lanes without any mass are not in use
+    if (0.0 < left_arr.density[i] && 0.0 < right_arr.density[i]) {
+      const std::array<double, 2> signals_i =
+          ComputeSignals(Get(left_arr, i), Get(right_arr, i), dir);
+      signals[0][i] = signals_i[0];
+      signals[1][i] = signals_i[1];
+    }
+  }
+  return signals;
+}
+
 template <int Dim>
 void ExactRiemannSolver<PerfectGas<Dim>>::SolveRiemannProblem(
     CompleteArray& solution_arr, const CompleteArray& left_arr,
-- 
2.43.0


From 728ab81bb8aeb404096284ce47bf8495c0328c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:35 +0000
Subject: [PATCH 010/103] fix: skip unused lanes in the exact Riemann solver of
 the shallow water equations

---
 src/equations/ShallowWater.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/equations/ShallowWater.cpp b/src/equations/ShallowWater.cpp
index c643179..ba4dab6 100644
--- a/src/equations/ShallowWater.cpp
+++ b/src/equations/ShallowWater.cpp
@@ -138,7 +138,11 @@ std::array<Array1d, 2> ExactRiemannSolver<ShallowWater>::ComputeSignals(
     left_i.momentum = left.momentum.col(i);
     right_i.height = right.height(i);
     right_i.momentum = right.momentum.col(i);
-    std::array<double, 2> signals_i = ComputeSignals(left_i, right_i, dir);
+    std::array<double, 2> signals_i{};
+    // lanes without any water are not in use
+    if (0.0 < left_i.height && 0.0 < right_i.height) {
+      signals_i = ComputeSignals(left_i, right_i, dir);
+    }
     signals[0][i] = signals_i[0];
     signals[1][i] = signals_i[1];
   }
@@ -238,7 +242,11 @@ void ExactRiemannSolver<ShallowWater>::SolveRiemannProblem(
     left_i.momentum = left.momentum.col(i);
     right_i.height = right.height(i);
     right_i.momentum = right.momentum.col(i);
-    SolveRiemannProblem(solution_i, left_i, right_i, dir);
+    solution_i = Complete{};
+    // lanes without any water are not in use
+    if (0.0 < left_i.height && 0.0 < right_i.height) {
+      SolveRiemannProblem(solution_i, left_i, right_i, dir);
+    }
     state.height(i) = solution_i.height;
     state.momentum.col(i) = solution_i.momentum;
   }
-- 
2.43.0


From 07c84f288ed158cef16a1f90ce11ad8c6593b1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:36 +0000
Subject: [PATCH 011/103] fix: component access of vectorised momentum and
 velocity in the perfect gas equations

---
 include/fub/equations/PerfectGas.hpp    | 14 +++++++++++---
 include/fub/equations/PerfectGasMix.hpp |  4 ++--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/fub/equations/PerfectGas.hpp b/include/fub/equations/PerfectGas.hpp
index e77fa32..abee755 100644
--- a/include/fub/equations/PerfectGas.hpp
+++ b/include/fub/equations/PerfectGas.hpp
@@ -255,7 +255,7 @@ private:
     if constexpr (std::is_same_v<double, Density>) {
       return q.momentum[d];
     } else {
-      return q.row(d);
+      return q.momentum.row(d);
     }
   }
 
@@ -263,7 +263,15 @@ private:
   friend Momentum tag_invoke(
       tag_t<euler::Velocity>, const PerfectGas&,
       const PerfectGasConservative<Density, Momentum, Energy>& q) noexcept {
-    return q.momentum / q.density;
+    if constexpr (std::is_same_v<double, Density>) {
+      return q.momentum / q.density;
+    } else {
+      Array<double, N> v;
+      for (int i = 0; i < N; ++i) {
+        v.row(i) = q.momentum.row(i) / q.density;
+      }
+      return v;
+    }
   }
 
   template <typename Density, typename Momentum, typename Energy>
@@ -274,7 +282,7 @@ private:
     if constexpr (std::is_same_v<double, Density>) {
       return q.momentum[d] / q.density;
     } else {
-      return q.row(d) / q.density;
+      return Array1d(q.momentum.row(d) / q.density);
     }
   }
 
diff --git a/include/fub/equations/PerfectGasMix.hpp b/include/fub/equations/PerfectGasMix.hpp
index f0e7af1..54d4115 100644
--- a/include/fub/equations/PerfectGasMix.hpp
+++ b/include/fub/equations/PerfectGasMix.hpp
@@ -451,7 +451,7 @@ private:
     if constexpr (std::is_same_v<double, Density>) {
       return q.momentum[d];
     } else {
-      return q.row(d);
+      return q.momentum.row(d);
     }
   }
 
@@ -496,7 +496,7 @@ private:
     if constexpr (std::is_same_v<double, Density>) {
       return q.momentum[d] / q.density;
     } else {
-      return q.row(d) / q.density;
+      return Array1d(q.momentum.row(d) / q.density);
     }
   }
 
-- 
2.43.0


From a35af8fdd155caac6225bc16d016edf01e57ca00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:36 +0000
Subject: [PATCH 012/103] fix: the flux of the shallow water equations advects
 momentum with the velocity

---
 src/equations/ShallowWater.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/equations/ShallowWater.cpp b/src/equations/ShallowWater.cpp
index ba4dab6..c240538 100644
--- a/src/equations/ShallowWater.cpp
+++ b/src/equations/ShallowWater.cpp
@@ -26,7 +26,8 @@ namespace fub {
 void ShallowWater::Flux(Conservative& flux, const Complete& state,
                         Direction dir) const noexcept {
   const int d = int(dir);
-  const double velocity = state.momentum[d];
+  const double velocity =
+      state.height > 0.0 ? state.momentum[d] / state.height : 0.0;
   flux.height = state.momentum[d];
   flux.momentum[0] = velocity * state.momentum[0];
   flux.momentum[1] = velocity * state.momentum[1];
@@ -36,7 +37,8 @@ void ShallowWater::Flux(Conservative& flux, const Complete& state,
 void ShallowWater::Flux(ConservativeArray& flux, const CompleteArray& state,
                         Direction dir) const noexcept {
   const int d = int(dir);
-  const Array1d velocity = state.momentum.row(d);
+  const Array1d height = (state.height > 0.0).select(state.height, 1.0);
+  const Array1d velocity = state.momentum.row(d) / height;
   flux.height = state.momentum.row(d);
   flux.momentum.row(0) = velocity * state.momentum.row(0);
   flux.momentum.row(1) = velocity * state.momentum.row(1);
-- 
2.43.0


From 855c5f17c462a2688d04500f1486cdabcbfe98c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:52 +0000
Subject: [PATCH 013/103] fix: the Mach number scaling of the perfect gas
 mixture enters all energy conversions

---
 include/fub/equations/PerfectGasMix.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/fub/equations/PerfectGasMix.hpp b/include/fub/equations/PerfectGasMix.hpp
index 54d4115..289f136 100644
--- a/include/fub/equations/PerfectGasMix.hpp
+++ b/include/fub/equations/PerfectGasMix.hpp
@@ -403,7 +403,7 @@ private:
     q.density = kin.density;
     q.momentum = q.density * u;
     const double e = euler::InternalEnergy(eq, kin);
-    q.energy = q.density * (e + 0.5 * u.matrix().squaredNorm());
+    q.energy = q.density * (e + 0.5 * eq.Msq * u.matrix().squaredNorm());
     const double RT = kin.temperature;// * eq.Rspec;
     q.pressure = RT * q.density;
     q.speed_of_sound = std::sqrt(eq.gamma * RT);
@@ -474,7 +474,7 @@ private:
 
   template <typename Density, typename Momentum, typename Energy,
             typename Species, typename PassiveScalars>
-  friend void tag_invoke(tag_t<euler::SetVelocity>, const PerfectGasMix&,
+  friend void tag_invoke(tag_t<euler::SetVelocity>, const PerfectGasMix& eq,
                          PerfectGasMixConservative<Density, Momentum, Energy,
                                                    Species, PassiveScalars>& q,
                          nodeduce_t<const Momentum&> v) noexcept {
@@ -482,7 +482,7 @@ private:
       const double rhoE_kin_old = euler::KineticEnergy(q.density, q.momentum);
       q.momentum = q.density * v;
       const double rhoE_kin_new = euler::KineticEnergy(q.density, q.momentum);
-      q.energy += rhoE_kin_new - rhoE_kin_old;
+      q.energy += eq.Msq * (rhoE_kin_new - rhoE_kin_old);
     }
   }
 
@@ -565,7 +565,7 @@ private:
 
   friend double tag_invoke(tag_t<euler::Pressure>, const PerfectGasMix& eq,
                            const Conservative& q) noexcept {
-    const double ekin = euler::KineticEnergy(q.density, q.momentum);
+    const double ekin = eq.Msq * euler::KineticEnergy(q.density, q.momentum);
     return (q.energy - ekin) * eq.gamma_minus_one;
   }
 
@@ -595,7 +595,7 @@ private:
     const Array<double, N, 1> u_old = euler::Velocity(eq, q0);
     const double c = euler::SpeedOfSound(eq, q0);
     const double c2 = c * c;
-    const double Ma2 = u_old.matrix().squaredNorm() / c2;
+    const double Ma2 = eq.Msq * u_old.matrix().squaredNorm() / c2;
 
     const double alpha = 1.0 + 0.5 * Ma2 * eq.gamma_minus_one;
     const double rho_0 = rho_old * std::pow(alpha, eq.gamma_minus_one_inv);
@@ -613,7 +613,7 @@ private:
     // const double u2_new =
     //     2.0 * eq.gamma_over_gamma_minus_one * eq.Rspec * (T_0 - T_new);
     const double u2_new =
-        2.0 * eq.gamma_over_gamma_minus_one * (T_0 - T_new);
+        2.0 * eq.gamma_over_gamma_minus_one * (T_0 - T_new) * eq.Msqinv;
     // // const Array<double, N, 1> u0 = euler::Velocity(eq, q0);
     Array<double, N, 1> u_new = Array<double, N, 1>::Zero();
     u_new[0] = ((u2_new > 0.0) - (u2_new < 0.0)) * std::sqrt(std::abs(u2_new));
@@ -627,8 +627,9 @@ private:
     // const double rho_new =
     //     std::pow(p_new / q0.pressure, 1 / eq.gamma) * q0.density;
     const Array<double, N, 1> rhou_new = rho_new * u_new;
-    const double rhoE_new = p_new * eq.gamma_minus_one_inv +
-                            euler::KineticEnergy(rho_new, rhou_new);
+    const double rhoE_new =
+        p_new * eq.gamma_minus_one_inv +
+        eq.Msq * euler::KineticEnergy(rho_new, rhou_new);
 
     q.density = rho_new;
     q.momentum = rhou_new;
-- 
2.43.0


From dff586493a7f69fcff953f4b086ac1ce767e5aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:25 +0000
Subject: [PATCH 014/103] fix: well-conditioned rotation between nearly
 opposite directions in three dimensions

---
 include/fub/ext/Eigen.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/fub/ext/Eigen.hpp b/include/fub/ext/Eigen.hpp
index 5b07495..6318c7e 100644
--- a/include/fub/ext/Eigen.hpp
+++ b/include/fub/ext/Eigen.hpp
@@ -125,6 +125,16 @@ MakeRotation(const Eigen::Matrix<double, 3, 1>& a,
   Eigen::Matrix<double, 3, 3> skew;
   skew << 0, -v[2], +v[1], +v[2], 0, -v[0], -v[1], +v[0], 0;
   Eigen::Matrix<double, 3, 3> I = Eigen::Matrix<double, 3, 3>::Identity();
+  if (c < -0.99) {
+    // The formula below is ill-conditioned for (almost) opposite vectors. We
+    // rotate by two reflections, a -> axis -> b, instead.
+    Eigen::Index i = 0;
+    (a.cwiseAbs() + b.cwiseAbs()).minCoeff(&i);
+    const Eigen::Matrix<double, 3, 1> p = a - I.col(i);
+    const Eigen::Matrix<double, 3, 1> q = b - I.col(i);
+    return (I - 2.0 / q.squaredNorm() * q * q.transpose()) *
+           (I - 2.0 / p.squaredNorm() * p * p.transpose());
+  }
   Eigen::Matrix<double, 3, 3> rotation = I + skew + skew * skew / (1 + c);
   return rotation;
 }
-- 
2.43.0


From 9b52666bd938f3f50c6d89e54b44b91237ced48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:00 +0000
Subject: [PATCH 015/103] fix: thermodynamic data of a reactor refers to its
 final temperature after an integration

---
 src/equations/ideal_gas_mix/FlameMasterReactor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
index ce97221..491780c 100644
--- a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
+++ b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
@@ -411,6 +411,7 @@ void FlameMasterReactor::Advance(double dt) {
 
   // Retrieve mass fractions from the result vector
   UpdateMassFractionsFromMoles(state_);
+  UpdateThermoState(*mechanism_, state_);
 }
 
 void FlameMasterReactor::Advance(
@@ -431,6 +432,7 @@ void FlameMasterReactor::Advance(
 
   // Retrieve mass fractions from the result vector
   UpdateMassFractionsFromMoles(state_);
+  UpdateThermoState(*mechanism_, state_);
 }
 
 struct AdvanceAndFindMaxdTData {
@@ -464,6 +466,7 @@ double FlameMasterReactor::AdvanceAndFindMaxdT(double dt) {
 
   // Retrieve mass fractions from the result vector
   UpdateMassFractionsFromMoles(state_);
+  UpdateThermoState(*mechanism_, state_);
   return data.argmaxdT;
 }
 
-- 
2.43.0


From aa0f05bd801cd9e384cabac7d8d6de0f6bea77d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:00 +0000
Subject: [PATCH 016/103] fix: reaction rates and ignition use the
 concentrations of the current density

---
 src/equations/ideal_gas_mix/FlameMasterReactor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
index 491780c..5b7ea77 100644
--- a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
+++ b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
@@ -459,6 +459,8 @@ double FlameMasterReactor::AdvanceAndFindMaxdT(double dt) {
   };
   AdvanceAndFindMaxdTData data{0., GetTemperature(), -9000, -1};
 
+  UpdateMolesFromMassFractions(state_);
+
   // Do the actual computation
   ode_solver_->Integrate(AdvanceSystem{this, &state_},
                          make_span(state_.molesStorage), 0.0, dt,
@@ -924,6 +926,7 @@ span<const double> FlameMasterReactor::GetReactionRates() const {
 }
 
 span<const double> FlameMasterReactor::GetProductionRates() {
+  UpdateMolesFromMassFractions(state_);
   mechanism_->ComputeProductionRates(state_.production_rates,          // cdot
                                      state_.reaction_rates,            // w
                                      state_.rate_coefficients,         // k
-- 
2.43.0


From 87dbc31dc84ffe01054c285f60af26d6876c5dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:00 +0000
Subject: [PATCH 017/103] fix: the vectorised reactor ignores negative mass
 fractions like the scalar one

---
 src/equations/ideal_gas_mix/FlameMasterReactor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
index 5b7ea77..2deeb02 100644
--- a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
+++ b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
@@ -882,7 +882,7 @@ void FlameMasterReactor::SetMassFractionsArray(
     const ArrayXd& newMassFractions) {
   Array1d sum = Array1d::Zero();
   for (int i = 0; i < array_state_.massFractions.rows(); ++i) {
-    array_state_.massFractions.row(i) = newMassFractions.row(i).abs();
+    array_state_.massFractions.row(i) = newMassFractions.row(i).max(0.0);
     sum += array_state_.massFractions.row(i);
   }
   sum = (sum > 0.0).select(sum, 1.0);
-- 
2.43.0


From 329bf20bc41602380a345eeae1d18945ee1618a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:45 +0000
Subject: [PATCH 018/103] fix: the time of the steepest temperature rise
 compares successive temperatures

---
 src/equations/ideal_gas_mix/FlameMasterReactor.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
index 2deeb02..c1458d2 100644
--- a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
+++ b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
@@ -451,13 +451,15 @@ double FlameMasterReactor::AdvanceAndFindMaxdT(double dt) {
       const double dT =
           (data->oldTemperature - newTemperature) / (data->oldTime - t);
       data->oldTime = t;
+      data->oldTemperature = newTemperature;
       if (data->maxdT < dT) {
         data->maxdT = dT;
         data->argmaxdT = t;
       }
     }
   };
-  AdvanceAndFindMaxdTData data{0., GetTemperature(), -9000, -1};
+  AdvanceAndFindMaxdTData data{
+      0., GetTemperature(), std::numeric_limits<double>::lowest(), -1};
 
   UpdateMolesFromMassFractions(state_);
 
-- 
2.43.0


From 3ffb175339e3681cb4d337c663ff974eb78e71b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:16 +0000
Subject: [PATCH 019/103] fix: the retry of a failed ODE integration covers the
 requested interval from the initial values

---
 src/ode_solver/RadauSolver.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/ode_solver/RadauSolver.cpp b/src/ode_solver/RadauSolver.cpp
index fb88204..d666fdc 100644
--- a/src/ode_solver/RadauSolver.cpp
+++ b/src/ode_solver/RadauSolver.cpp
@@ -22,6 +22,7 @@
 
 #include "fub/ode_solver/OdeSolverFactory.hpp"
 
+#include <algorithm>
 #include <string>
 
 namespace fub {
@@ -182,6 +183,8 @@ void RadauSolver::integrate(system_type system, span<double> y0, double t0,
   iwork_space_.resize(GetIWorkSpaceSize(y0.size()));
 
   const double t = t0 + dt; // final fime
+  const double t_half = t0 + 0.5 * dt;
+  const std::vector<double> y_initial(y0.begin(), y0.end());
 
   iwork_space_[0] = 1; // Use Hessenberg matrix form
   // iwork[1] = 10000; // Increase maximum number of steps
@@ -218,10 +221,12 @@ void RadauSolver::integrate(system_type system, span<double> y0, double t0,
   case -2:
     throw radau_error::LargerNMaxIsNeeded{};
   case -3:
+    // Try again from the initial values in two steps
+    std::copy(y_initial.begin(), y_initial.end(), y0.begin());
     idid = call_radau(radau_rhs, // RHS function
-                      reinterpret_cast<int*>(std::addressof(system)), // IPAR
+                      reinterpret_cast<int*>(&user_data), // IPAR
                       t0,                     // Initial time
-                      t / 2,                  // Final integration time
+                      t_half,                 // Final integration time
                       y0,                     // Initial y array and output
                       initial_time_step_size, // Initial step size
                       relative_tolerance,     // Tolerances
@@ -232,9 +237,9 @@ void RadauSolver::integrate(system_type system, span<double> y0, double t0,
                       jacobian ? radau_jacobian : jac_t{nullptr});
     if (idid > 0) {
       idid = call_radau(radau_rhs, // RHS function
-                        reinterpret_cast<int*>(std::addressof(system)), // IPAR
-                        t0,                     // Initial time
-                        t / 2,                  // Final integration time
+                        reinterpret_cast<int*>(&user_data), // IPAR
+                        t_half,                 // Initial time
+                        t,                      // Final integration time
                         y0,                     // Initial y array and output
                         initial_time_step_size, // Initial step size
                         relative_tolerance,     // Tolerances
-- 
2.43.0


From 37d7f16dd760fcb76c82c67be652986fb52c6781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:36 +0000
Subject: [PATCH 020/103] fix: a copy of the ODE solver keeps its tolerances

---
 include/fub/ode_solver/RadauSolver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fub/ode_solver/RadauSolver.hpp b/include/fub/ode_solver/RadauSolver.hpp
index b9e0a73..fffd5f9 100644
--- a/include/fub/ode_solver/RadauSolver.hpp
+++ b/include/fub/ode_solver/RadauSolver.hpp
@@ -71,7 +71,7 @@ public:
 
 private:
   std::unique_ptr<OdeSolver> clone() const override {
-    return std::make_unique<RadauSolver>();
+    return std::make_unique<RadauSolver>(*this);
   }
 
   void integrate(system_type system, span<double> y_0, double t, double dt,
-- 
2.43.0


From 5b2b056a260d14375934e60a4391aa6edcda1694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:46 +0000
Subject: [PATCH 021/103] fix: the ODE solver recovers from or reports
 right-hand sides that are not a number

---
 src/ode_solver/dc_decsol.f | 26 ++++++++++++++++++++++----
 src/ode_solver/radau.f     | 19 ++++++++++++++++---
 2 files changed, 38 insertions(+), 7 deletions(-)

diff --git a/src/ode_solver/dc_decsol.f b/src/ode_solver/dc_decsol.f
index 12a6432..ec969e4 100644
--- a/src/ode_solver/dc_decsol.f
+++ b/src/ode_solver/dc_decsol.f
@@ -1513,7 +1513,11 @@ C
       DO  I=1,N
          ERR=ERR+(CONT(I)/SCAL(I))**2
       END DO
-      ERR=MAX(SQRT(ERR/N),1.D-10)
+      IF (ISNAN(ERR)) THEN
+         ERR=1.D10
+      ELSE
+         ERR=MAX(SQRT(ERR/N),1.D-10)
+      END IF
 C
       IF (ERR.LT.1.D0) RETURN
       IF (FIRST.OR.REJECT) THEN
@@ -1601,7 +1605,12 @@ C -----------------------------------
           DO I=1,N
              ERR=ERR+(CONT(I)/SCAL(I))**2
           END DO
-          ERR=MAX(SQRT(ERR/N),1.D-10)
+C ------ Do not accept a step whose error estimate is not a number
+          IF (ISNAN(ERR)) THEN
+             ERR=1.D10
+          ELSE
+             ERR=MAX(SQRT(ERR/N),1.D-10)
+          END IF
        END IF
        RETURN
 C -----------------------------------------------------------
@@ -1899,7 +1908,11 @@ C
       DO  I=1,N
          ERR=ERR+(CONT(I)/SCAL(I))**2
       END DO
-      ERR=MAX(SQRT(ERR/N),1.D-10)
+      IF (ISNAN(ERR)) THEN
+         ERR=1.D10
+      ELSE
+         ERR=MAX(SQRT(ERR/N),1.D-10)
+      END IF
 C
       IF (ERR.LT.1.D0) RETURN
       IF (FIRST.OR.REJECT) THEN
@@ -1987,7 +2000,12 @@ C -----------------------------------
           DO I=1,N
              ERR=ERR+(CONT(I)/SCAL(I))**2
           END DO
-          ERR=MAX(SQRT(ERR/N),1.D-10)
+C ------ Do not accept a step whose error estimate is not a number
+          IF (ISNAN(ERR)) THEN
+             ERR=1.D10
+          ELSE
+             ERR=MAX(SQRT(ERR/N),1.D-10)
+          END IF
        END IF
        RETURN
 C
diff --git a/src/ode_solver/radau.f b/src/ode_solver/radau.f
index ae48dcc..196a8c4 100644
--- a/src/ode_solver/radau.f
+++ b/src/ode_solver/radau.f
@@ -896,7 +896,11 @@ C --- JACOBIAN IS FULL
                CALL FCN(N,X,Y,CONT,RPAR,IPAR)
                DO J=M1+1,N
 C --- pberndt XXX: Check if the rhs returned a NaN
-                 IF (ISNAN(CONT(J))) GOTO 78
+                 IF (ISNAN(CONT(J))) THEN
+                    Y(I)=YSAFE
+                    IER=0
+                    GOTO 78
+                 END IF
                  FJAC(J-M1,I)=(CONT(J)-Y0(J))/DELT
                END DO
                Y(I)=YSAFE
@@ -1037,7 +1041,7 @@ C --- pberndt XXX: Check if the rhs returned a NaN
       CALL FCN(N,X+C32*H,CONT,ZZ(1+N),RPAR,IPAR)
       DO I=1,N
 C --- pberndt XXX: Check if the rhs returned a NaN
-          IF (ISNAN(ZZ(I))) GOTO 78
+          IF (ISNAN(ZZ(I+N))) GOTO 78
          CONT(I)=Y(I)+ZZ(I+N2)
       END DO
       CALL FCN(N,XPH,CONT,ZZ(1+N2),RPAR,IPAR)
@@ -1045,7 +1049,7 @@ C --- pberndt XXX: Check if the rhs returned a NaN
 C ---     SOLVE THE LINEAR SYSTEMS
       DO I=1,N
 C --- pberndt XXX: Check if the rhs returned a NaN
-         IF (ISNAN(ZZ(I))) GOTO 78
+         IF (ISNAN(ZZ(I+N2))) GOTO 78
          A1=ZZ(I)
          A2=ZZ(I+N)
          A3=ZZ(I+N2)
@@ -1183,6 +1187,10 @@ C --- pberndt XXX: Check if the rhs returned a NaN
          END DO
          CALL FCN(N,X+C(K+1)*H,CONT,ZZ(IADD+1),RPAR,IPAR)
       END DO
+C --- Check if the last stage returned a NaN
+      DO I=1,N
+         IF (ISNAN(ZZ((NS-1)*N+I))) GOTO 78
+      END DO
       NFCN=NFCN+NS
 C ---     SOLVE THE LINEAR SYSTEMS
       DO I=1,N
@@ -1355,6 +1363,10 @@ C --- pberndt XXX: Check if the rhs returned a NaN
          END DO
          CALL FCN(N,X+C(K+1)*H,CONT,ZZ(IADD+1),RPAR,IPAR)
       END DO
+C --- Check if the last stage returned a NaN
+      DO I=1,N
+         IF (ISNAN(ZZ((NS-1)*N+I))) GOTO 78
+      END DO
       NFCN=NFCN+NS
 C ---     SOLVE THE LINEAR SYSTEMS
       DO I=1,N
@@ -1694,6 +1706,7 @@ C --- UNEXPECTED STEP-REJECTION
           NSING=NSING+1
           IF (NSING.GE.5) GOTO 176
       END IF
+      IF (0.1D0*ABS(H).LE.ABS(X)*UROUND) GOTO 177
       H=H*0.5D0 
       HHFAC=0.5D0
       REJECT=.TRUE.
-- 
2.43.0


From 4d70f21697fc8b108f51af93e44109388c03866c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:42 +0000
Subject: [PATCH 022/103] fix: Einfeldt's signal speeds subtract the whole
 kinetic energy and ignore masked lanes

---
 .../EinfeldtSignalVelocities.hpp              | 29 ++++++++++++++---
 .../perfect_gas/EinfeldtSignalVelocities.hpp  | 31 ++++++++++++++++---
 2 files changed, 50 insertions(+), 10 deletions(-)

diff --git a/src/equations/euler_equations/EinfeldtSignalVelocities.hpp b/src/equations/euler_equations/EinfeldtSignalVelocities.hpp
index fbcfaf3..5211e19 100644
--- a/src/equations/euler_equations/EinfeldtSignalVelocities.hpp
+++ b/src/equations/euler_equations/EinfeldtSignalVelocities.hpp
@@ -44,6 +44,12 @@ operator()(const Equation& equation, const Complete& left,
     return (xL * sqRhoL + xR * sqRhoR) * oosqRhoSum;
   };
   const double roeU = roeAvg(uL, uR);
+  double roeU2 = 0.0;
+  for (int d = 0; d < Equation::Rank(); ++d) {
+    const double roeUd =
+        roeAvg(left.momentum[d] / rhoL, right.momentum[d] / rhoR);
+    roeU2 += roeUd * roeUd;
+  }
   const double rhoEL = left.energy;
   const double rhoER = right.energy;
   const double pL = left.pressure;
@@ -51,7 +57,7 @@ operator()(const Equation& equation, const Complete& left,
   const double hL = (rhoEL + pL) / rhoL;
   const double hR = (rhoER + pR) / rhoR;
   const double roeH = roeAvg(hL, hR);
-  const double roeA2 = (equation.gamma - 1.0) * (roeH - 0.5 * roeU * roeU);
+  const double roeA2 = (equation.gamma - 1.0) * (roeH - 0.5 * roeU2);
   const double roeA = std::sqrt(roeA2);
   const double sL1 = uL - aL;
   const double sL2 = roeU - roeA;
@@ -79,6 +85,12 @@ operator()(const Equation& equation, const CompleteArray& left,
     return (xL * sqRhoL + xR * sqRhoR) * oosqRhoSum;
   };
   const Array1d roeU = roeAvg(uL, uR);
+  Array1d roeU2 = Array1d::Zero();
+  for (int d = 0; d < Equation::Rank(); ++d) {
+    const Array1d roeUd =
+        roeAvg(left.momentum.row(d) / rhoL, right.momentum.row(d) / rhoR);
+    roeU2 += roeUd * roeUd;
+  }
   const Array1d rhoEL = left.energy;
   const Array1d rhoER = right.energy;
   const Array1d pL = left.pressure;
@@ -87,7 +99,7 @@ operator()(const Equation& equation, const CompleteArray& left,
   const Array1d hR = (rhoER + pR) / rhoR;
   const Array1d roeH = roeAvg(hL, hR);
   const Array1d roeA2 = (equation.gamma_array_ - Array1d::Constant(1.0)) *
-                        (roeH - Array1d::Constant(0.5) * roeU * roeU);
+                        (roeH - Array1d::Constant(0.5) * roeU2);
   const Array1d roeA = roeA2.sqrt();
   const Array1d sL1 = uL - aL;
   const Array1d sL2 = roeU - roeA;
@@ -125,15 +137,22 @@ operator()(const Equation& equation, const CompleteArray& left,
     return (xL * sqRhoL_over_sqRho + xR * sqRhoR_over_sqRho);
   };
   const Array1d roeU = roeAvg(uL, uR);
+  Array1d roeU2 = Array1d::Zero();
+  for (int d = 0; d < Equation::Rank(); ++d) {
+    const Array1d rhoUdL = mask.select(left.momentum.row(d), zero);
+    const Array1d rhoUdR = mask.select(right.momentum.row(d), zero);
+    const Array1d roeUd = roeAvg(rhoUdL / rhoLs, rhoUdR / rhoRs);
+    roeU2 += roeUd * roeUd;
+  }
   const Array1d rhoEL = mask.select(left.energy, zero);
   const Array1d rhoER = mask.select(right.energy, zero);
   const Array1d pL = mask.select(left.pressure, zero);
   const Array1d pR = mask.select(right.pressure, zero);
-  const Array1d hL = (rhoEL + pL) / rhoL;
-  const Array1d hR = (rhoER + pR) / rhoR;
+  const Array1d hL = (rhoEL + pL) / rhoLs;
+  const Array1d hR = (rhoER + pR) / rhoRs;
   const Array1d roeH = roeAvg(hL, hR);
   const Array1d roeA2 = (equation.gamma_array_ - Array1d::Constant(1.0)) *
-                        (roeH - Array1d::Constant(0.5) * roeU * roeU);
+                        (roeH - Array1d::Constant(0.5) * roeU2);
   const Array1d roeA = roeA2.sqrt();
   const Array1d sL1 = uL - aL;
   const Array1d sL2 = roeU - roeA;
diff --git a/src/equations/perfect_gas/EinfeldtSignalVelocities.hpp b/src/equations/perfect_gas/EinfeldtSignalVelocities.hpp
index c542fd0..a4a3f41 100644
--- a/src/equations/perfect_gas/EinfeldtSignalVelocities.hpp
+++ b/src/equations/perfect_gas/EinfeldtSignalVelocities.hpp
@@ -45,6 +45,12 @@ std::array<double, 2> EinfeldtSignalVelocities<PerfectGas<Dim>>::operator()(
     return (xL * sqRhoL + xR * sqRhoR) * oosqRhoSum;
   };
   const double roeU = roeAvg(uL, uR);
+  double roeU2 = 0.0;
+  for (int d = 0; d < Dim; ++d) {
+    const double roeUd =
+        roeAvg(left.momentum[d] / rhoL, right.momentum[d] / rhoR);
+    roeU2 += roeUd * roeUd;
+  }
   const double rhoEL = left.energy;
   const double rhoER = right.energy;
   const double pL = left.pressure;
@@ -52,7 +58,7 @@ std::array<double, 2> EinfeldtSignalVelocities<PerfectGas<Dim>>::operator()(
   const double hL = (rhoEL + pL) / rhoL;
   const double hR = (rhoER + pR) / rhoR;
   const double roeH = roeAvg(hL, hR);
-  const double roeA2 =(equation.gamma - 1.0) * (roeH  - 0.5 * roeU * roeU);
+  const double roeA2 = (equation.gamma - 1.0) * (roeH - 0.5 * roeU2);
   const double roeA = std::sqrt(roeA2);
   const double sL1 = uL - aL;
   const double sL2 = roeU - roeA;
@@ -80,6 +86,12 @@ std::array<Array1d, 2> EinfeldtSignalVelocities<PerfectGas<Dim>>::operator()(
     return (xL * sqRhoL + xR * sqRhoR) * oosqRhoSum;
   };
   const Array1d roeU = roeAvg(uL, uR);
+  Array1d roeU2 = Array1d::Zero();
+  for (int d = 0; d < Dim; ++d) {
+    const Array1d roeUd =
+        roeAvg(left.momentum.row(d) / rhoL, right.momentum.row(d) / rhoR);
+    roeU2 += roeUd * roeUd;
+  }
   const Array1d rhoEL = left.energy;
   const Array1d rhoER = right.energy;
   const Array1d pL = left.pressure;
@@ -87,7 +99,8 @@ std::array<Array1d, 2> EinfeldtSignalVelocities<PerfectGas<Dim>>::operator()(
   const Array1d hL = (rhoEL + pL) / rhoL;
   const Array1d hR = (rhoER + pR) / rhoR;
   const Array1d roeH = roeAvg(hL, hR);
-  const Array1d roeA2 = (equation.gamma_array_ - Array1d::Constant(1.0)) * (roeH  - Array1d::Constant(0.5) * roeU * roeU);
+  const Array1d roeA2 = (equation.gamma_array_ - Array1d::Constant(1.0)) *
+                        (roeH - Array1d::Constant(0.5) * roeU2);
   const Array1d roeA = roeA2.sqrt();
   const Array1d sL1 = uL - aL;
   const Array1d sL2 = roeU - roeA;
@@ -125,14 +138,22 @@ std::array<Array1d, 2> EinfeldtSignalVelocities<PerfectGas<Dim>>::operator()(
     return (xL * sqRhoL_over_sqRho + xR * sqRhoR_over_sqRho);
   };
   const Array1d roeU = roeAvg(uL, uR);
+  Array1d roeU2 = Array1d::Zero();
+  for (int d = 0; d < Dim; ++d) {
+    const Array1d rhoUdL = mask.select(left.momentum.row(d), zero);
+    const Array1d rhoUdR = mask.select(right.momentum.row(d), zero);
+    const Array1d roeUd = roeAvg(rhoUdL / rhoLs, rhoUdR / rhoRs);
+    roeU2 += roeUd * roeUd;
+  }
   const Array1d rhoEL = mask.select(left.energy, zero);
   const Array1d rhoER = mask.select(right.energy, zero);
   const Array1d pL = mask.select(left.pressure, zero);
   const Array1d pR = mask.select(right.pressure, zero);
-  const Array1d hL = (rhoEL + pL) / rhoL;
-  const Array1d hR = (rhoER + pR) / rhoR;
+  const Array1d hL = (rhoEL + pL) / rhoLs;
+  const Array1d hR = (rhoER + pR) / rhoRs;
   const Array1d roeH = roeAvg(hL, hR);
-  const Array1d roeA2 = (equation.gamma_array_ - Array1d::Constant(1.0)) * (roeH  - Array1d::Constant(0.5) * roeU * roeU);
+  const Array1d roeA2 = (equation.gamma_array_ - Array1d::Constant(1.0)) *
+                        (roeH - Array1d::Constant(0.5) * roeU2);
   const Array1d roeA = roeA2.sqrt();
   const Array1d sL1 = uL - aL;
   const Array1d sL2 = roeU - roeA;
-- 
2.43.0


From 8c586c9ef85d5f7f41ab379ea5955b49050138b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:54 +0000
Subject: [PATCH 023/103] fix: Einfeldt's signal speeds of the perfect gas
 mixture scale with the reference Mach number

---
 .../EinfeldtSignalVelocities.hpp              | 31 ++++++++++++-------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/equations/euler_equations/EinfeldtSignalVelocities.hpp b/src/equations/euler_equations/EinfeldtSignalVelocities.hpp
index 5211e19..f322f70 100644
--- a/src/equations/euler_equations/EinfeldtSignalVelocities.hpp
+++ b/src/equations/euler_equations/EinfeldtSignalVelocities.hpp
@@ -19,6 +19,7 @@
 // SOFTWARE.
 
 #include "fub/EinfeldtSignalVelocities.hpp"
+#include "fub/equations/EulerEquation.hpp"
 namespace fub {
 
 template <typename Equation>
@@ -33,8 +34,10 @@ operator()(const Equation& equation, const Complete& left,
   double rhoUR;
   rhoUL = left.momentum[int(dir)];
   rhoUR = right.momentum[int(dir)];
-  const double aL = left.speed_of_sound;
-  const double aR = right.speed_of_sound;
+  const double Msq = euler::MaSq(equation);
+  const double M = std::sqrt(Msq);
+  const double aL = left.speed_of_sound / M;
+  const double aR = right.speed_of_sound / M;
   const double sqRhoL = std::sqrt(rhoL);
   const double sqRhoR = std::sqrt(rhoR);
   const double oosqRhoSum = 1.0 / (sqRhoL + sqRhoR);
@@ -57,8 +60,8 @@ operator()(const Equation& equation, const Complete& left,
   const double hL = (rhoEL + pL) / rhoL;
   const double hR = (rhoER + pR) / rhoR;
   const double roeH = roeAvg(hL, hR);
-  const double roeA2 = (equation.gamma - 1.0) * (roeH - 0.5 * roeU2);
-  const double roeA = std::sqrt(roeA2);
+  const double roeA2 = (equation.gamma - 1.0) * (roeH - 0.5 * Msq * roeU2);
+  const double roeA = std::sqrt(roeA2) / M;
   const double sL1 = uL - aL;
   const double sL2 = roeU - roeA;
   const double sR1 = roeU + roeA;
@@ -74,8 +77,10 @@ operator()(const Equation& equation, const CompleteArray& left,
   const Array1d rhoR = right.density;
   const Array1d rhoUL = left.momentum.row(int(dir));
   const Array1d rhoUR = right.momentum.row(int(dir));
-  const Array1d aL = left.speed_of_sound;
-  const Array1d aR = right.speed_of_sound;
+  const Array1d Msq = Array1d::Constant(euler::MaSq(equation));
+  const Array1d M = Msq.sqrt();
+  const Array1d aL = left.speed_of_sound / M;
+  const Array1d aR = right.speed_of_sound / M;
   const Array1d sqRhoL = rhoL.sqrt();
   const Array1d sqRhoR = rhoR.sqrt();
   const Array1d uL = rhoUL / rhoL;
@@ -99,8 +104,8 @@ operator()(const Equation& equation, const CompleteArray& left,
   const Array1d hR = (rhoER + pR) / rhoR;
   const Array1d roeH = roeAvg(hL, hR);
   const Array1d roeA2 = (equation.gamma_array_ - Array1d::Constant(1.0)) *
-                        (roeH - Array1d::Constant(0.5) * roeU2);
-  const Array1d roeA = roeA2.sqrt();
+                        (roeH - Array1d::Constant(0.5) * Msq * roeU2);
+  const Array1d roeA = roeA2.sqrt() / M;
   const Array1d sL1 = uL - aL;
   const Array1d sL2 = roeU - roeA;
   const Array1d sR1 = roeU + roeA;
@@ -119,8 +124,10 @@ operator()(const Equation& equation, const CompleteArray& left,
   const Array1d one = Array1d::Constant(1.0);
   const Array1d rhoUL = mask.select(left.momentum.row(int(dir)), zero);
   const Array1d rhoUR = mask.select(right.momentum.row(int(dir)), zero);
-  const Array1d aL = mask.select(left.speed_of_sound, zero);
-  const Array1d aR = mask.select(right.speed_of_sound, zero);
+  const Array1d Msq = Array1d::Constant(euler::MaSq(equation));
+  const Array1d M = Msq.sqrt();
+  const Array1d aL = mask.select(left.speed_of_sound, zero) / M;
+  const Array1d aR = mask.select(right.speed_of_sound, zero) / M;
   const Array1d rhoLs = mask.select(rhoL, one);
   const Array1d rhoRs = mask.select(rhoR, one);
   const Array1d sqRhoL = rhoLs.sqrt();
@@ -152,8 +159,8 @@ operator()(const Equation& equation, const CompleteArray& left,
   const Array1d hR = (rhoER + pR) / rhoRs;
   const Array1d roeH = roeAvg(hL, hR);
   const Array1d roeA2 = (equation.gamma_array_ - Array1d::Constant(1.0)) *
-                        (roeH - Array1d::Constant(0.5) * roeU2);
-  const Array1d roeA = roeA2.sqrt();
+                        (roeH - Array1d::Constant(0.5) * Msq * roeU2);
+  const Array1d roeA = roeA2.sqrt() / M;
   const Array1d sL1 = uL - aL;
   const Array1d sL2 = roeU - roeA;
   const Array1d sR1 = roeU + roeA;
-- 
2.43.0


From 48426c63d3d7b54fbed6ba396492e27420ca392f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:54 +0000
Subject: [PATCH 024/103] fix: Einfeldt's signal speeds of the ideal gas
 mixture use the whole averaged speed of sound in every form

---
 src/equations/ideal_gas_mix/EinfeldtSignalVelocities.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/equations/ideal_gas_mix/EinfeldtSignalVelocities.hpp b/src/equations/ideal_gas_mix/EinfeldtSignalVelocities.hpp
index e634aeb..b4afbc9 100644
--- a/src/equations/ideal_gas_mix/EinfeldtSignalVelocities.hpp
+++ b/src/equations/ideal_gas_mix/EinfeldtSignalVelocities.hpp
@@ -44,8 +44,8 @@ operator()(const IdealGasMix<Dim>&, const Complete& left, const Complete& right,
       0.5 * (sqRhoL * sqRhoR) / ((sqRhoL + sqRhoR) * (sqRhoL + sqRhoR)) *
           (uR - uL) * (uR - uL));
   const double sL1 = uL - aL;
-  const double sL2 = roeU - 0.5 * roeA;
-  const double sR1 = roeU + 0.5 * roeA;
+  const double sL2 = roeU - roeA;
+  const double sR1 = roeU + roeA;
   const double sR2 = uR + aR;
   return {std::min(sL1, sL2), std::max(sR1, sR2)};
 }
@@ -107,8 +107,8 @@ operator()(const IdealGasMix<Dim>&, const CompleteArray& left,
        0.5 * sqRhoL_over_sqRho * sqRhoR_over_sqRho * (uR - uL) * (uR - uL))
           .sqrt();
   const Array1d sL1 = uL - aL;
-  const Array1d sL2 = roeU - 0.5 * roeA;
-  const Array1d sR1 = roeU + 0.5 * roeA;
+  const Array1d sL2 = roeU - roeA;
+  const Array1d sR1 = roeU + roeA;
   const Array1d sR2 = uR + aR;
   return {sL1.min(sL2), sR1.max(sR2)};
 }
-- 
2.43.0


From a7f42fb924b9060a564bcf903985ff5c4c5d4646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:31 +0000
Subject: [PATCH 025/103] fix: the scalar HLLEM flux takes upwinded quantities
 from the right with the right sign

---
 src/equations/perfect_gas/HllemMethod.hpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/equations/perfect_gas/HllemMethod.hpp b/src/equations/perfect_gas/HllemMethod.hpp
index 59d8ae6..ff374cc 100644
--- a/src/equations/perfect_gas/HllemMethod.hpp
+++ b/src/equations/perfect_gas/HllemMethod.hpp
@@ -490,7 +490,7 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
         if constexpr (Larrouturou) {
           const double f_rho = flux.density;
           const int upwind = (f_rho > 0.0);
-          const double f_hllem = f_rho * (upwind * YL - (1 - upwind) * YR);
+          const double f_hllem = f_rho * (upwind * YL + (1 - upwind) * YR);
           flux.species[i] = f_hllem;
         } else {
           const double roeY = (sqRhoL * YL + sqRhoR * YR) / sqRhoSum;
@@ -514,7 +514,7 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
         if constexpr (Larrouturou) {
           const double f_rho = flux.density;
           const int upwind = (f_rho > 0.0);
-          const double f_hllem = f_rho * (upwind * YL - (1 - upwind) * YR);
+          const double f_hllem = f_rho * (upwind * YL + (1 - upwind) * YR);
           flux.passive_scalars[i] = f_hllem;
         } else {
           const double roeY = (sqRhoL * YL + sqRhoR * YR) / sqRhoSum;
@@ -545,9 +545,9 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
       const double f_rho = flux.density;
       const int upwind = (f_rho > 0.0);
       const double f_hllem_rhov =
-          f_rho * (upwind * vL_[iy] - (1 - upwind) * vR_[iy]);
+          f_rho * (upwind * vL_[iy] + (1 - upwind) * vR_[iy]);
       const double f_hllem_rhoE =
-          f_rho * (upwind * eKinRL - (1 - upwind) * eKinRR);
+          f_rho * (upwind * eKinRL + (1 - upwind) * eKinRR);
       flux.momentum[iy] = f_hllem_rhov;
       flux.energy = flux_hlle_.energy - b_delta_alpha_2 * squaredNormRoeU_half +
                     f_hllem_rhoE;
@@ -572,7 +572,7 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
         if constexpr (Larrouturou) {
           const double f_rho = flux.density;
           const int upwind = (f_rho > 0.0);
-          const double f_hllem = f_rho * (upwind * YL - (1 - upwind) * YR);
+          const double f_hllem = f_rho * (upwind * YL + (1 - upwind) * YR);
           flux.species[i] = f_hllem;
         } else {
           const double roeY = (sqRhoL * YL + sqRhoR * YR) / sqRhoSum;
@@ -596,7 +596,7 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
         if constexpr (Larrouturou) {
           const double f_rho = flux.density;
           const int upwind = (f_rho > 0.0);
-          const double f_hllem = f_rho * (upwind * YL - (1 - upwind) * YR);
+          const double f_hllem = f_rho * (upwind * YL + (1 - upwind) * YR);
           flux.passive_scalars[i] = f_hllem;
         } else {
           const double roeY = (sqRhoL * YL + sqRhoR * YR) / sqRhoSum;
@@ -629,11 +629,11 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
       const double f_rho = flux.density;
       const int upwind = (f_rho > 0.0);
       const double f_hllem_rhov =
-          f_rho * (upwind * vL_[iy] - (1 - upwind) * vR_[iy]);
+          f_rho * (upwind * vL_[iy] + (1 - upwind) * vR_[iy]);
       const double f_hllem_rhow =
-          f_rho * (upwind * vL_[iz] - (1 - upwind) * vR_[iz]);
+          f_rho * (upwind * vL_[iz] + (1 - upwind) * vR_[iz]);
       const double f_hllem_rhoE =
-          f_rho * (upwind * eKinRL - (1 - upwind) * eKinRR);
+          f_rho * (upwind * eKinRL + (1 - upwind) * eKinRR);
       flux.momentum[iy] = f_hllem_rhov;
       flux.momentum[iz] = f_hllem_rhow;
       flux.energy = flux_hlle_.energy - b_delta_alpha_2 * squaredNormRoeU_half +
@@ -665,7 +665,7 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
         if constexpr (Larrouturou) {
           const double f_rho = flux.density;
           const int upwind = (f_rho > 0.0);
-          const double f_hllem = f_rho * (upwind * YL - (1 - upwind) * YR);
+          const double f_hllem = f_rho * (upwind * YL + (1 - upwind) * YR);
           flux.species[i] = f_hllem;
         } else {
           const double roeY = (sqRhoL * YL + sqRhoR * YR) / sqRhoSum;
@@ -689,7 +689,7 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
         if constexpr (Larrouturou) {
           const double f_rho = flux.density;
           const int upwind = (f_rho > 0.0);
-          const double f_hllem = f_rho * (upwind * YL - (1 - upwind) * YR);
+          const double f_hllem = f_rho * (upwind * YL + (1 - upwind) * YR);
           flux.passive_scalars[i] = f_hllem;
         } else {
           const double roeY = (sqRhoL * YL + sqRhoR * YR) / sqRhoSum;
-- 
2.43.0


From 23a0e2c57bdd7dacff8a176f9e4fa72d66a82832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:31 +0000
Subject: [PATCH 026/103] fix: the three dimensional HLLEM flux carries mass
 and normal momentum

---
 src/equations/perfect_gas/HllemMethod.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/equations/perfect_gas/HllemMethod.hpp b/src/equations/perfect_gas/HllemMethod.hpp
index ff374cc..0019a69 100644
--- a/src/equations/perfect_gas/HllemMethod.hpp
+++ b/src/equations/perfect_gas/HllemMethod.hpp
@@ -625,6 +625,8 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
                            l25 * deltaRhoE;
     const double b_delta = b * delta;
     const double b_delta_alpha_2 = b_delta * alpha_2;
+    flux.density = flux_hlle_.density - b_delta_alpha_2;
+    flux.momentum[ix] = flux_hlle_.momentum[ix] - b_delta_alpha_2 * roeU[ix];
     if constexpr (Larrouturou) {
       const double f_rho = flux.density;
       const int upwind = (f_rho > 0.0);
@@ -989,7 +991,7 @@ Array1d Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
     const Array1d b_delta_alpha_2 = b_delta * alpha_2;
     flux.density = flux_hlle_array_.density - b_delta_alpha_2;
     flux.momentum.row(ix) =
-        flux_hlle_array_.momentum.row(ix) - b_delta_alpha_2 * roeU.row(iy);
+        flux_hlle_array_.momentum.row(ix) - b_delta_alpha_2 * roeU.row(ix);
 
     if constexpr (Larrouturou) {
       const MaskArray upwind = (flux.density > 0.0);
-- 
2.43.0


From fb0ee991bbb7b3648a440e8af2b5d5da48fa53b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:31 +0000
Subject: [PATCH 027/103] fix: HLLEM scales every momentum with the reference
 Mach number

---
 src/equations/perfect_gas/HllemMethod.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/equations/perfect_gas/HllemMethod.hpp b/src/equations/perfect_gas/HllemMethod.hpp
index 0019a69..8970f02 100644
--- a/src/equations/perfect_gas/HllemMethod.hpp
+++ b/src/equations/perfect_gas/HllemMethod.hpp
@@ -184,7 +184,7 @@ void Hllem<EulerEquation, Larrouturou>::SolveRiemannProblem(
     const int iy = (ix + 1) % 2;
     const double l21 = gm1 / roeA2 * (roeH - Msq * roeU.matrix().squaredNorm());
     const double l22 = gm1 / roeA2 * Msq * roeU[0];
-    const double l23 = gm1 / roeA2 * roeU[1];
+    const double l23 = gm1 / roeA2 * Msq * roeU[1];
     const double l24 = gm1 / roeA2 * (-1.0);
     const double alpha_2 = l21 * deltaRho + l22 * deltaRhoU[0] +
                            l23 * deltaRhoU[1] + l24 * deltaRhoE;
@@ -267,8 +267,8 @@ void Hllem<EulerEquation, Larrouturou>::SolveRiemannProblem(
     const int iz = (iy + 1) % 3;
     const double l21 = gm1 / roeA2 * (roeH - Msq * roeU.matrix().squaredNorm());
     const double l22 = gm1 / roeA2 * Msq * roeU[0];
-    const double l23 = gm1 / roeA2 * roeU[1];
-    const double l24 = gm1 / roeA2 * roeU[2];
+    const double l23 = gm1 / roeA2 * Msq * roeU[1];
+    const double l24 = gm1 / roeA2 * Msq * roeU[2];
     const double l25 = gm1 / roeA2 * (-1.0);
     const double l31 = -roeU[iy];
     // const double l32 = 0;
@@ -533,7 +533,7 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
     const int iy = (ix + 1) % 2;
     const double l21 = gm1 / roeA2 * (roeH - Msq * roeU.matrix().squaredNorm());
     const double l22 = gm1 / roeA2 * Msq * roeU[0];
-    const double l23 = gm1 / roeA2 * roeU[1];
+    const double l23 = gm1 / roeA2 * Msq * roeU[1];
     const double l24 = gm1 / roeA2 * (-1.0);
     const double alpha_2 = l21 * deltaRho + l22 * deltaRhoU[0] +
                            l23 * deltaRhoU[1] + l24 * deltaRhoE;
@@ -617,8 +617,8 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
     const int iz = (iy + 1) % 3;
     const double l21 = gm1 / roeA2 * (roeH - Msq * roeU.matrix().squaredNorm());
     const double l22 = gm1 / roeA2 * Msq * roeU[0];
-    const double l23 = gm1 / roeA2 * roeU[1];
-    const double l24 = gm1 / roeA2 * roeU[2];
+    const double l23 = gm1 / roeA2 * Msq * roeU[1];
+    const double l24 = gm1 / roeA2 * Msq * roeU[2];
     const double l25 = gm1 / roeA2 * (-1.0);
     const double alpha_2 = l21 * deltaRho + l22 * deltaRhoU[0] +
                            l23 * deltaRhoU[1] + l24 * deltaRhoU[2] +
@@ -896,7 +896,7 @@ Array1d Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
     const int iy = (ix == 0);
     const Array1d l21 = gm1_over_roeA2 * (roeH - squaredNormRoeU);
     const Array1d l22 = gm1_over_roeA2 * Msq * roeU.row(0);
-    const Array1d l23 = gm1_over_roeA2 * roeU.row(1);
+    const Array1d l23 = gm1_over_roeA2 * Msq * roeU.row(1);
     const Array1d l24 = -gm1_over_roeA2;
     const Array1d alpha_2 = l21 * deltaRho + l22 * deltaRhoU.row(0) +
                             l23 * deltaRhoU.row(1) + l24 * deltaRhoE;
@@ -980,8 +980,8 @@ Array1d Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
     const int iz = (iy + 1) % 3;
     const Array1d l21 = gm1_over_roeA2 * (roeH - squaredNormRoeU);
     const Array1d l22 = gm1_over_roeA2 * Msq * roeU.row(0);
-    const Array1d l23 = gm1_over_roeA2 * roeU.row(1);
-    const Array1d l24 = gm1_over_roeA2 * roeU.row(2);
+    const Array1d l23 = gm1_over_roeA2 * Msq * roeU.row(1);
+    const Array1d l24 = gm1_over_roeA2 * Msq * roeU.row(2);
     const Array1d l25 = -gm1_over_roeA2;
 
     const Array1d alpha_2 = l21 * deltaRho + l22 * deltaRhoU.row(0) +
-- 
2.43.0


From 20b0bcdfcb852f5e61474247c3681019a38d3e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:31 +0000
Subject: [PATCH 028/103] fix: HLLEM's Riemann solution keeps the transverse
 momentum of a supersonic state

---
 src/equations/perfect_gas/HllemMethod.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/equations/perfect_gas/HllemMethod.hpp b/src/equations/perfect_gas/HllemMethod.hpp
index 8970f02..6ae184a 100644
--- a/src/equations/perfect_gas/HllemMethod.hpp
+++ b/src/equations/perfect_gas/HllemMethod.hpp
@@ -359,9 +359,9 @@ void Hllem<EulerEquation, Larrouturou>::SolveRiemannProblem(
   }
 
   if (0.0 < sL) {
-    solution = left_;
+    solution = left;
   } else if (sR < 0.0) {
-    solution = right_;
+    solution = right;
   } else {
     AsCons(solution) = w_hllem_;
     CompleteFromCons(equation_, solution, solution);
-- 
2.43.0


From 104d5e857a7a76b307282e5a0353b9aef7e2f150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:31 +0000
Subject: [PATCH 029/103] fix: the one dimensional HLLEM flux does not abort on
 unused lanes

---
 src/equations/perfect_gas/HllemMethod.hpp | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/src/equations/perfect_gas/HllemMethod.hpp b/src/equations/perfect_gas/HllemMethod.hpp
index 6ae184a..2ad24b8 100644
--- a/src/equations/perfect_gas/HllemMethod.hpp
+++ b/src/equations/perfect_gas/HllemMethod.hpp
@@ -882,15 +882,6 @@ Array1d Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
         }
       }
     }
-    FUB_ASSERT(!flux.density.isNaN().any());
-    FUB_ASSERT(!flux.momentum.isNaN().any());
-    FUB_ASSERT(!flux.energy.isNaN().any());
-    if constexpr (euler::state_with_species<Conservative>()) {
-      FUB_ASSERT(!flux.species.isNaN().any());
-    }
-    if constexpr (euler::state_with_species<Conservative>()) {
-      FUB_ASSERT(!flux.passive_scalars.isNaN().any());
-    }
   } else if constexpr (Dim == 2) {
     const int ix = int(dir);
     const int iy = (ix == 0);
-- 
2.43.0


From 1d75f216a3e30637aa56406973fab1561309fd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:50 +0000
Subject: [PATCH 030/103] fix: HLLEM's shear waves carry kinetic energy scaled
 with the reference Mach number

---
 src/equations/perfect_gas/HllemMethod.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/equations/perfect_gas/HllemMethod.hpp b/src/equations/perfect_gas/HllemMethod.hpp
index 2ad24b8..453998c 100644
--- a/src/equations/perfect_gas/HllemMethod.hpp
+++ b/src/equations/perfect_gas/HllemMethod.hpp
@@ -211,7 +211,7 @@ void Hllem<EulerEquation, Larrouturou>::SolveRiemannProblem(
                               u_bar_delta_alpha_3 * 1.0;
       w_hllem_.energy = w_hlle_.energy -
                         u_bar_delta_alpha_2 * squaredNormRoeU_half -
-                        u_bar_delta_alpha_3 * roeU[iy];
+                        u_bar_delta_alpha_3 * Msq * roeU[iy];
     }
     if constexpr (fub::euler::state_with_species<
                                                  Conservative>()) {
@@ -307,7 +307,8 @@ void Hllem<EulerEquation, Larrouturou>::SolveRiemannProblem(
           u_bar_delta * (alpha_2 * roeU[iz] + alpha_4 * 1.0);
       w_hllem_.energy = w_hlle_.energy -
                         u_bar_delta * (alpha_2 * squaredNormRoeU_half +
-                                       alpha_3 * roeU[iy] + alpha_4 * roeU[iz]);
+                                       alpha_3 * Msq * roeU[iy] +
+                                       alpha_4 * Msq * roeU[iz]);
     }
     if constexpr (fub::euler::state_with_species<
                                                  Conservative>()) {
@@ -559,7 +560,7 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
       flux.momentum[iy] = flux_hlle_.momentum[iy] - b_delta_alpha_2 * roeU[iy] -
                           b_delta_alpha_3 * 1.0;
       flux.energy = flux_hlle_.energy - b_delta_alpha_2 * squaredNormRoeU_half -
-                    b_delta_alpha_3 * roeU[iy];
+                    b_delta_alpha_3 * Msq * roeU[iy];
     }
     if constexpr (fub::euler::state_with_species<
                                                  Conservative>()) {
@@ -654,7 +655,8 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
       flux.momentum[iz] = flux_hlle_.momentum[iz] - b_delta_alpha_2 * roeU[iz] -
                           b_delta_alpha_4;
       flux.energy = flux_hlle_.energy - b_delta_alpha_2 * squaredNormRoeU_half -
-                    b_delta_alpha_3 * roeU[iy] - b_delta_alpha_4 * roeU[iz];
+                    b_delta_alpha_3 * Msq * roeU[iy] -
+                    b_delta_alpha_4 * Msq * roeU[iz];
     }
     if constexpr (fub::euler::state_with_species<
                                                  Conservative>()) {
@@ -912,7 +914,7 @@ Array1d Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
                               b_delta_alpha_2 * roeU.row(iy) - b_delta_alpha_3;
       flux.energy = flux_hlle_array_.energy -
                     b_delta_alpha_2 * squaredNormRoeU_half -
-                    b_delta_alpha_3 * roeU.row(iy);
+                    b_delta_alpha_3 * Msq * roeU.row(iy);
     }
     if constexpr (euler::state_with_species<Conservative>()) {
       const int n_species = flux.species.rows();
@@ -1008,7 +1010,7 @@ Array1d Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
                               b_delta_alpha_2 * roeU.row(iz) - b_delta_alpha_4;
       flux.energy =
           flux_hlle_array_.energy - b_delta_alpha_2 * squaredNormRoeU_half -
-          b_delta_alpha_3 * roeU.row(iy) - b_delta_alpha_4 * roeU.row(iz);
+          b_delta_alpha_3 * Msq * roeU.row(iy) - b_delta_alpha_4 * Msq * roeU.row(iz);
     }
 
     if constexpr (euler::state_with_species<Conservative>()) {
-- 
2.43.0


From 5b475f1b3b816300f0514edfbc9be37653e3b27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:03 +0000
Subject: [PATCH 031/103] fix: Newton's iteration does not get stuck at zero

---
 include/fub/NewtonIteration.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fub/NewtonIteration.hpp b/include/fub/NewtonIteration.hpp
index f45814b..0168f96 100644
--- a/include/fub/NewtonIteration.hpp
+++ b/include/fub/NewtonIteration.hpp
@@ -36,7 +36,7 @@ double NewtonIteration(Function&& f, Derivative&& Df, double x0,
     double dfx = Df(x);
     double offset = fx / dfx;
     double next = x - offset;
-    x = ((next - next) != (next - next) || next < 0.0) ? 0.5 * x : next;
+    x = ((next - next) != (next - next) || next <= 0.0) ? 0.5 * x : next;
     fx = f(x);
     err = std::abs(fx);
     counter += 1;
-- 
2.43.0


From 95cb047a8b9e1d0fccb470b8718a44d416665a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:03 +0000
Subject: [PATCH 032/103] fix: Newton's iteration reports every failure to
 converge

---
 include/fub/NewtonIteration.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fub/NewtonIteration.hpp b/include/fub/NewtonIteration.hpp
index 0168f96..d5fda4d 100644
--- a/include/fub/NewtonIteration.hpp
+++ b/include/fub/NewtonIteration.hpp
@@ -41,7 +41,7 @@ double NewtonIteration(Function&& f, Derivative&& Df, double x0,
     err = std::abs(fx);
     counter += 1;
   }
-  if (counter == max_iterations && fx > tolerance) {
+  if (counter == max_iterations && err > tolerance) {
     std::ostringstream out;
     out << "Newton Iteration did not converge. (x0 = " << x0 << ", x = " << x
         << ", fx = " << fx << ", counter = " << counter << ", err = " << err
-- 
2.43.0


From cc7109a447c7db3f6fce70f4d8ee4eba371bd243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:39 +0000
Subject: [PATCH 033/103] fix: second order method of the perfect gas is built
 in three dimensions

---
 src/equations/perfect_gas/MusclHancockMethod_3d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/equations/perfect_gas/MusclHancockMethod_3d.cpp b/src/equations/perfect_gas/MusclHancockMethod_3d.cpp
index 00a9981..b4a2023 100644
--- a/src/equations/perfect_gas/MusclHancockMethod_3d.cpp
+++ b/src/equations/perfect_gas/MusclHancockMethod_3d.cpp
@@ -22,7 +22,7 @@
 
 namespace fub {
 
-template struct MusclHancock<PerfectGas<2>>;
+template struct MusclHancock<PerfectGas<3>>;
 template class FluxMethod<MusclHancock<PerfectGas<3>>>;
 
 } // namespace fub
-- 
2.43.0


From e4ad0c948764561278453eabefd298f68f1757c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:07 +0000
Subject: [PATCH 034/103] fix: primitive reconstruction scales the pressure
 gradient with the reference Mach number

---
 include/fub/flux_method/Reconstruct.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/fub/flux_method/Reconstruct.hpp b/include/fub/flux_method/Reconstruct.hpp
index 1860847..ed001ce 100644
--- a/include/fub/flux_method/Reconstruct.hpp
+++ b/include/fub/flux_method/Reconstruct.hpp
@@ -242,7 +242,8 @@ void PrimitiveReconstruction<EulerEquation>::Reconstruct(
   w_rec_.velocity[ix] =
       w_.velocity[ix] +
       dx_half * (dw_dx.velocity[ix] -
-                 lambda * (u * dw_dx.velocity[ix] + dw_dx.pressure / rho));
+                 lambda * (u * dw_dx.velocity[ix] +
+                           dw_dx.pressure / (euler::MaSq(equation_) * rho)));
   constexpr int Rank = EulerEquation::Rank();
   for (int i = 1; i < Rank; ++i) {
     const int iy = (ix + i) % Rank;
@@ -376,7 +377,8 @@ void PrimitiveReconstruction<EulerEquation>::Reconstruct(
   w_rec_array_.velocity.row(ix) =
       w_array_.velocity.row(ix) +
       dx_half * (dw_dx.velocity.row(ix) -
-                 lambda * (u * dw_dx.velocity.row(ix) + dw_dx.pressure / rho));
+                 lambda * (u * dw_dx.velocity.row(ix) +
+                           dw_dx.pressure / (euler::MaSq(equation_) * rho)));
   constexpr int Rank = EulerEquation::Rank();
   for (int i = 1; i < Rank; ++i) {
     const int iy = (ix + i) % Rank;
-- 
2.43.0


From 3073a38629f99a2eac49eaddd3837aa877b7a8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:07 +0000
Subject: [PATCH 035/103] fix: characteristic reconstruction uses the reference
 Mach number, not its square

---
 include/fub/flux_method/Reconstruct.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/fub/flux_method/Reconstruct.hpp b/include/fub/flux_method/Reconstruct.hpp
index ed001ce..d451d20 100644
--- a/include/fub/flux_method/Reconstruct.hpp
+++ b/include/fub/flux_method/Reconstruct.hpp
@@ -410,7 +410,7 @@ void CharacteristicsReconstruction<EulerEquation>::Reconstruct(
     Complete& reconstruction, const Complete& q0, const Characteristics& dKdx,
     Duration dt, double dx, Direction dir, Side side) noexcept {
   PrimFromComplete(equation_, w_rec_, q0);
-  const double Minv = 1.0 / euler::MaSq(equation_);
+  const double Minv = 1.0 / std::sqrt(euler::MaSq(equation_));
   const int ix = static_cast<int>(dir);
   const double u = w_rec_.velocity[ix];
   const double c = q0.speed_of_sound;
@@ -464,6 +464,7 @@ void CharacteristicsReconstruction<EulerEquation>::Reconstruct(
     const CharacteristicsArray& dKdx, Duration dt, double dx, Direction dir,
     Side side) noexcept {
   PrimFromComplete(equation_, w_rec_array_, q0);
+  const double Minv = 1.0 / std::sqrt(euler::MaSq(equation_));
   const int ix = static_cast<int>(dir);
   const Array1d u = w_rec_array_.velocity.row(ix);
   const Array1d c = q0.speed_of_sound;
@@ -471,9 +472,9 @@ void CharacteristicsReconstruction<EulerEquation>::Reconstruct(
   const Array1d lambda = Array1d::Constant(sign * dt.count() / dx);
   const Array1d dx_half = Array1d::Constant(sign * 0.5 * dx);
   dKdt_array_.minus =
-      dx_half * dKdx.minus * (Array1d::Constant(1.0) - lambda * (u - c));
+      dx_half * dKdx.minus * (Array1d::Constant(1.0) - lambda * (u - c * Minv));
   dKdt_array_.plus =
-      dx_half * dKdx.plus * (Array1d::Constant(1.0) - lambda * (u + c));
+      dx_half * dKdx.plus * (Array1d::Constant(1.0) - lambda * (u + c * Minv));
   for (int i = 0; i < dKdt_array_.zero.rows(); ++i) {
     dKdt_array_.zero.row(i) =
         dx_half * dKdx.zero.row(i) * (Array1d::Constant(1.0) - lambda * u);
@@ -497,7 +498,7 @@ void CharacteristicsReconstruction<EulerEquation>::Reconstruct(
   dwdt_array_.pressure = 0.5 * (dKdt_array_.minus + dKdt_array_.plus);
   dwdt_array_.density = dwdt_array_.pressure / c2 + dKdt_array_.zero.row(0);
   dwdt_array_.velocity.row(ix) =
-      0.5 * (dKdt_array_.plus - dKdt_array_.minus) / rhoc;
+      0.5 * (dKdt_array_.plus - dKdt_array_.minus) * Minv / rhoc;
   constexpr int Rank = EulerEquation::Rank();
   for (int i = 1; i < Rank; ++i) {
     const int iy = (ix + i) % Rank;
-- 
2.43.0


From 3002649de01e00a99a7443236cd90539c7aea9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:26 +0000
Subject: [PATCH 036/103] fix: characteristic methods of several space
 dimensions can be linked together

---
 .../MusclHancockCharacteristicMethod.hpp           | 14 +++++++-------
 .../MusclHancockCharacteristicMethod.hpp           | 14 +++++++-------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp b/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp
index bbcf324..73ac114 100644
--- a/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp
+++ b/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp
@@ -26,14 +26,14 @@ namespace fub::ideal_gas {
 using Limiter = std::function<double(double, double)>;
 using ArrayLimiter = std::function<Array1d(Array1d, Array1d)>;
 
-std::array<int, 3> MakeIndices(Direction dir) {
+inline std::array<int, 3> MakeIndices(Direction dir) {
   const int ix = static_cast<int>(dir);
   const int iy = (ix + 1) % 3;
   const int iz = (iy + 1) % 3;
   return {ix, iy, iz};
 }
 
-BasicCharacteristics ComputeAmplitudes(const BasicPrimitives& left,
+inline BasicCharacteristics ComputeAmplitudes(const BasicPrimitives& left,
                                        const BasicPrimitives& right,
                                        double rhoc, double ooc2, int ix, int iy,
                                        int iz) {
@@ -49,7 +49,7 @@ BasicCharacteristics ComputeAmplitudes(const BasicPrimitives& left,
   return amplitudes;
 }
 
-BasicCharacteristicsArray ComputeAmplitudes(const BasicPrimitivesArray& left,
+inline BasicCharacteristicsArray ComputeAmplitudes(const BasicPrimitivesArray& left,
                                             const BasicPrimitivesArray& right,
                                             Array1d rhoc, Array1d ooc2, int ix,
                                             int iy, int iz) {
@@ -128,7 +128,7 @@ ComputeSlopes(CharacteristicsArray& limited,
 
 // (rhou)_t + (rho u^2 + p)_x = 0
 
-void Recombine(Primitives& diffs, const Characteristics& q, double rhoc,
+inline void Recombine(Primitives& diffs, const Characteristics& q, double rhoc,
                double ooc2, Direction dir) {
   diffs.pressure = 0.5 * (q.minus + q.plus);
   diffs.density = ooc2 * diffs.pressure + q.zero;
@@ -142,7 +142,7 @@ void Recombine(Primitives& diffs, const Characteristics& q, double rhoc,
   }
 }
 
-void Recombine(PrimitivesArray& diffs, const CharacteristicsArray& q,
+inline void Recombine(PrimitivesArray& diffs, const CharacteristicsArray& q,
                Array1d rhoc, Array1d ooc2, Direction dir) {
   diffs.pressure = 0.5 * (q.minus + q.plus);
   diffs.density = ooc2 * diffs.pressure + q.zero;
@@ -156,7 +156,7 @@ void Recombine(PrimitivesArray& diffs, const CharacteristicsArray& q,
   }
 }
 
-void DoTimeStep(Characteristics& ampls, const Characteristics& slope,
+inline void DoTimeStep(Characteristics& ampls, const Characteristics& slope,
                 int is_right_side, double lambda, double u, double c) {
   // clang-format off
   int sign = 1 - 2 * is_right_side;
@@ -171,7 +171,7 @@ void DoTimeStep(Characteristics& ampls, const Characteristics& slope,
   // clang-format on
 }
 
-void DoTimeStep(CharacteristicsArray& ampls, const CharacteristicsArray& slope,
+inline void DoTimeStep(CharacteristicsArray& ampls, const CharacteristicsArray& slope,
                 int is_right_side, Array1d lambda, Array1d u, Array1d c) {
   // clang-format off
   int sign = 1 - 2 * is_right_side;
diff --git a/src/equations/perfect_gas/MusclHancockCharacteristicMethod.hpp b/src/equations/perfect_gas/MusclHancockCharacteristicMethod.hpp
index 69e5ca5..080a8e5 100644
--- a/src/equations/perfect_gas/MusclHancockCharacteristicMethod.hpp
+++ b/src/equations/perfect_gas/MusclHancockCharacteristicMethod.hpp
@@ -26,14 +26,14 @@ namespace fub::perfect_gas {
 using Limiter = std::function<double(double, double)>;
 using ArrayLimiter = std::function<Array1d(Array1d, Array1d)>;
 
-std::array<int, 3> MakeIndices(Direction dir) {
+inline std::array<int, 3> MakeIndices(Direction dir) {
   const int ix = static_cast<int>(dir);
   const int iy = (ix + 1) % 3;
   const int iz = (iy + 1) % 3;
   return {ix, iy, iz};
 }
 
-Characteristics ComputeAmplitudes(const Primitives& left,
+inline Characteristics ComputeAmplitudes(const Primitives& left,
                                   const Primitives& right, double rhoc,
                                   double ooc2, int ix, int iy, int iz) {
   const double dp = right.pressure - left.pressure;
@@ -48,7 +48,7 @@ Characteristics ComputeAmplitudes(const Primitives& left,
   return amplitudes;
 }
 
-CharacteristicsArray ComputeAmplitudes(const PrimitivesArray& left,
+inline CharacteristicsArray ComputeAmplitudes(const PrimitivesArray& left,
                                        const PrimitivesArray& right,
                                        Array1d rhoc, Array1d ooc2, int ix,
                                        int iy, int iz) {
@@ -64,7 +64,7 @@ CharacteristicsArray ComputeAmplitudes(const PrimitivesArray& left,
   return amplitudes;
 }
 
-void Recombine(Primitives& diffs, const Characteristics& q, double rhoc,
+inline void Recombine(Primitives& diffs, const Characteristics& q, double rhoc,
                double ooc2, Direction dir) {
   diffs.pressure = 0.5 * (q.minus + q.plus);
   diffs.density = ooc2 * diffs.pressure + q.zero;
@@ -74,7 +74,7 @@ void Recombine(Primitives& diffs, const Characteristics& q, double rhoc,
   diffs.velocity[iz] = q.w;
 }
 
-void Recombine(PrimitivesArray& diffs, const CharacteristicsArray& q,
+inline void Recombine(PrimitivesArray& diffs, const CharacteristicsArray& q,
                Array1d rhoc, Array1d ooc2, Direction dir) {
   diffs.pressure = 0.5 * (q.minus + q.plus);
   diffs.density = ooc2 * diffs.pressure + q.zero;
@@ -155,7 +155,7 @@ ComputeSlopes(CharacteristicsArray& limited,
   return limited;
 }
 
-void DoTimeStep(Characteristics& ampls, const Characteristics& slope,
+inline void DoTimeStep(Characteristics& ampls, const Characteristics& slope,
                 int is_right_side, double lambda, double u, double c) {
   // clang-format off
   int sign = 1 - 2 * is_right_side;
@@ -167,7 +167,7 @@ void DoTimeStep(Characteristics& ampls, const Characteristics& slope,
   // clang-format on
 }
 
-void DoTimeStep(CharacteristicsArray& ampls, const CharacteristicsArray& slope,
+inline void DoTimeStep(CharacteristicsArray& ampls, const CharacteristicsArray& slope,
                 int is_right_side, Array1d lambda, Array1d u, Array1d c) {
   // clang-format off
   int sign = 1 - 2 * is_right_side;
-- 
2.43.0


From 26db14e3d7a8003fc0f153363e88c26b361f8c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:34 +0000
Subject: [PATCH 037/103] fix: second order methods in primitive variables give
 no flux through closed faces

---
 src/equations/ideal_gas_mix/MusclHancockPrimMethod.hpp | 1 +
 src/equations/perfect_gas/MusclHancockPrimMethod.hpp   | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/src/equations/ideal_gas_mix/MusclHancockPrimMethod.hpp b/src/equations/ideal_gas_mix/MusclHancockPrimMethod.hpp
index 2dcaf63..4851915 100644
--- a/src/equations/ideal_gas_mix/MusclHancockPrimMethod.hpp
+++ b/src/equations/ideal_gas_mix/MusclHancockPrimMethod.hpp
@@ -461,6 +461,7 @@ void MusclHancockPrimitive<Rank>::ComputeNumericFlux(
     Direction dir) {
   MaskArray mask = face_fractions > 0.0;
   if (!mask.any()) {
+    ForEachComponent([](auto&& flux) { flux = Array1d::Zero(); }, flux);
     return;
   }
 
diff --git a/src/equations/perfect_gas/MusclHancockPrimMethod.hpp b/src/equations/perfect_gas/MusclHancockPrimMethod.hpp
index 216d111..9449092 100644
--- a/src/equations/perfect_gas/MusclHancockPrimMethod.hpp
+++ b/src/equations/perfect_gas/MusclHancockPrimMethod.hpp
@@ -189,6 +189,9 @@ void MusclHancockPrim<Dim>::ComputeNumericFlux(
     Direction dir) {
   MaskArray mask = face_fractions > 0.0;
   if (!mask.any()) {
+    flux.density = Array1d::Zero();
+    flux.momentum = Array<double, Dim>::Zero();
+    flux.energy = Array1d::Zero();
     return;
   }
   auto limiter = [](Array1d qL, Array1d qM, Array1d qR) -> Array1d {
-- 
2.43.0


From ddf80341999752f3274a39dd5c81f19cc7c45da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:38 +0000
Subject: [PATCH 038/103] fix: vectorised primitive method of the ideal gas
 reconstructs the temperature on the right side of a face

---
 src/equations/ideal_gas_mix/MusclHancockPrimMethod.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/equations/ideal_gas_mix/MusclHancockPrimMethod.hpp b/src/equations/ideal_gas_mix/MusclHancockPrimMethod.hpp
index 4851915..7eb3e48 100644
--- a/src/equations/ideal_gas_mix/MusclHancockPrimMethod.hpp
+++ b/src/equations/ideal_gas_mix/MusclHancockPrimMethod.hpp
@@ -441,7 +441,7 @@ void MusclHancockPrimitive<Rank>::ComputeNumericFlux(
                dt_over_dx * dpdt_array_.velocity.row(i));
   }
   pL_array_.temperature =
-      pM_array_.temperature -
+      pM_array_.temperature +
       0.5 * (-dpdx_array_.temperature + dt_over_dx * dpdt_array_.temperature);
   for (int i = 0; i < nspecies; ++i) {
     pL_array_.mass_fractions.row(i) =
@@ -515,7 +515,7 @@ void MusclHancockPrimitive<Rank>::ComputeNumericFlux(
                dt_over_dx * dpdt_array_.velocity.row(i));
   }
   pL_array_.temperature =
-      pM_array_.temperature -
+      pM_array_.temperature +
       0.5 * (-dpdx_array_.temperature + dt_over_dx * dpdt_array_.temperature);
   for (int i = 0; i < nspecies; ++i) {
     pL_array_.mass_fractions.row(i) =
-- 
2.43.0


From 81a5c382f5ed0220860e7af5e63c4147a9d179d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:01 +0000
Subject: [PATCH 039/103] fix: vectorised characteristic method of the ideal
 gas loops over species, not over their lanes

---
 .../ideal_gas_mix/MusclHancockCharacteristicMethod.hpp          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp b/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp
index 73ac114..ec17c2b 100644
--- a/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp
+++ b/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp
@@ -269,7 +269,7 @@ void Reconstruct(CompleteArray<IdealGasMix<Rank>>& rec, PrimitivesArray& diffs,
     diffs.velocity.row(d) += (q.momentum.row(d) / q.density);
   }
   diffs.pressure += q.pressure;
-  for (int s = 0; s < q.species.size(); ++s) {
+  for (int s = 0; s < q.species.rows(); ++s) {
     diffs.species.row(s) += (q.species.row(s) / q.density);
   }
   CompleteFromPrim(eq, rec, diffs);
-- 
2.43.0


From f0d7ba8950b2cb5921d87a579743469ac2dbb832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:01 +0000
Subject: [PATCH 040/103] fix: characteristic method of the ideal gas
 reconstructs at the half time step

---
 .../MusclHancockCharacteristicMethod.hpp             | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp b/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp
index ec17c2b..d8a6bbc 100644
--- a/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp
+++ b/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp
@@ -279,14 +279,14 @@ template <int Rank>
 void MusclHancockCharacteristic<Rank>::ComputeNumericFlux(
     Conservative& flux, span<const Complete, 4> stencil, Duration dt, double dx,
     Direction dir) {
-  const double dt_over_dx_half = 0.5 * dt.count() / dx;
+  const double dt_over_dx = dt.count() / dx;
   int left_side = 0;
   int right_side = 1;
   Reconstruct(reconstruction_[0], diffs_, amplitudes_, slopes_, left_side,
-              equation_, stencil.template first<3>(), dt_over_dx_half, limiter_,
+              equation_, stencil.template first<3>(), dt_over_dx, limiter_,
               dir);
   Reconstruct(reconstruction_[1], diffs_, amplitudes_, slopes_, right_side,
-              equation_, stencil.template last<3>(), dt_over_dx_half, limiter_,
+              equation_, stencil.template last<3>(), dt_over_dx, limiter_,
               dir);
   hlle_.ComputeNumericFlux(flux, reconstruction_, dt, dx, dir);
 }
@@ -295,15 +295,15 @@ template <int Rank>
 void MusclHancockCharacteristic<Rank>::ComputeNumericFlux(
     ConservativeArray& flux, span<const CompleteArray, 4> stencil, Duration dt,
     double dx, Direction dir) {
-  const Array1d dt_over_dx_half = Array1d::Constant(0.5 * dt.count() / dx);
+  const Array1d dt_over_dx = Array1d::Constant(dt.count() / dx);
   int left_side = 0;
   int right_side = 1;
   Reconstruct(reconstruction_array_[0], diffs_array_, amplitudes_array_,
               slopes_array_, left_side, equation_, stencil.template first<3>(),
-              dt_over_dx_half, array_limiter_, dir);
+              dt_over_dx, array_limiter_, dir);
   Reconstruct(reconstruction_array_[1], diffs_array_, amplitudes_array_,
               slopes_array_, right_side, equation_, stencil.template last<3>(),
-              dt_over_dx_half, array_limiter_, dir);
+              dt_over_dx, array_limiter_, dir);
   hlle_.ComputeNumericFlux(flux, reconstruction_array_, dt, dx, dir);
 }
 
-- 
2.43.0


From 37f3b19015e9f5bb724ade3158708e436523057b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:58 +0000
Subject: [PATCH 041/103] fix: characteristic method of the ideal gas ignores
 covered cells

---
 .../MusclHancockCharacteristicMethod.hpp      | 81 +++++++++++++++++--
 1 file changed, 76 insertions(+), 5 deletions(-)

diff --git a/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp b/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp
index d8a6bbc..d85b52c 100644
--- a/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp
+++ b/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp
@@ -275,6 +275,67 @@ void Reconstruct(CompleteArray<IdealGasMix<Rank>>& rec, PrimitivesArray& diffs,
   CompleteFromPrim(eq, rec, diffs);
 }
 
+template <int Rank>
+void CompleteFromPrim(IdealGasMix<Rank>& eq,
+                      CompleteArray<IdealGasMix<Rank>>& q,
+                      const PrimitivesArray& w, const MaskArray& mask) {
+  FlameMasterReactor& reactor = eq.GetReactor();
+  reactor.SetMassFractionsArray(w.species, mask);
+  const Array1d rho = mask.select(w.density, 1.0);
+  reactor.SetDensityArray(rho);
+  const Array1d M = reactor.GetMeanMolarMassArray();
+  const double R = reactor.GetUniversalGasConstant();
+  const Array1d Rspec = R / M;
+  const Array1d T = w.pressure / (Rspec * rho);
+  reactor.SetTemperatureArray(mask.select(T, 300.0));
+  Array<double, Rank> velocity;
+  for (int d = 0; d < Rank; ++d) {
+    velocity.row(d) = mask.select(w.velocity.row(d), 0.0);
+  }
+  eq.CompleteFromReactor(q, velocity, mask);
+}
+
+template <int Rank>
+void Reconstruct(CompleteArray<IdealGasMix<Rank>>& rec, PrimitivesArray& diffs,
+                 CharacteristicsArray& amplitudes, CharacteristicsArray& slopes,
+                 int is_right_side, IdealGasMix<Rank>& eq,
+                 span<const CompleteArray<IdealGasMix<Rank>>, 3> states,
+                 Array1d lambda, ArrayLimiter& limiter,
+                 const Array1d& face_fractions,
+                 span<const Array1d, 3> volume_fractions, Direction dir) {
+  const auto& q = states[1];
+  const MaskArray valid_face = face_fractions > 0.0;
+  const Array1d rho = valid_face.select(q.density, 1.0);
+  const Array1d u = valid_face.select(q.momentum.row(int(dir)) / rho, 0.0);
+  const Array1d c = valid_face.select(q.speed_of_sound, 1.0);
+  const Array1d rhoc = rho * c;
+  const Array1d ooc2 = 1.0 / (c * c);
+  ComputeSlopes(slopes, states, rhoc, ooc2, limiter, dir);
+  // There is no slope next to a covered cell
+  const MaskArray valid_slope = volume_fractions[0] > 0.0 &&
+                                volume_fractions[1] > 0.0 &&
+                                volume_fractions[2] > 0.0;
+  slopes.minus = valid_slope.select(slopes.minus, 0.0);
+  slopes.zero = valid_slope.select(slopes.zero, 0.0);
+  slopes.plus = valid_slope.select(slopes.plus, 0.0);
+  slopes.v = valid_slope.select(slopes.v, 0.0);
+  slopes.w = valid_slope.select(slopes.w, 0.0);
+  for (int s = 0; s < slopes.species.rows(); ++s) {
+    slopes.species.row(s) = valid_slope.select(slopes.species.row(s), 0.0);
+  }
+  DoTimeStep(amplitudes, slopes, is_right_side, lambda, u, c);
+  Recombine(diffs, amplitudes, rhoc, ooc2, dir);
+  diffs.density += rho;
+  for (int d = 0; d < Rank; ++d) {
+    diffs.velocity.row(d) += (q.momentum.row(d) / rho);
+  }
+  diffs.pressure += q.pressure;
+  for (int s = 0; s < q.species.rows(); ++s) {
+    diffs.species.row(s) += (q.species.row(s) / rho);
+  }
+  CompleteFromPrim(eq, rec, diffs, valid_face);
+}
+
 template <int Rank>
 void MusclHancockCharacteristic<Rank>::ComputeNumericFlux(
     Conservative& flux, span<const Complete, 4> stencil, Duration dt, double dx,
@@ -311,12 +372,22 @@ template <int Rank>
 void MusclHancockCharacteristic<Rank>::ComputeNumericFlux(
     ConservativeArray& flux, Array1d face_fractions,
     span<const CompleteArray, 4> stencil,
-    span<const Array1d, 4> /* volume_fractions */, Duration dt, double dx,
+    span<const Array1d, 4> volume_fractions, Duration dt, double dx,
     Direction dir) {
-  ComputeNumericFlux(flux, stencil, dt, dx, dir);
-  MaskArray mask = (face_fractions > 0.0);
-  ForEachComponent([&mask](auto&& flux) { flux = mask.select(flux, 0.0); },
-                   flux);
+  const Array1d dt_over_dx = Array1d::Constant(dt.count() / dx);
+  int left_side = 0;
+  int right_side = 1;
+  Reconstruct(reconstruction_array_[0], diffs_array_, amplitudes_array_,
+              slopes_array_, left_side, equation_, stencil.template first<3>(),
+              dt_over_dx, array_limiter_, face_fractions,
+              volume_fractions.template first<3>(), dir);
+  Reconstruct(reconstruction_array_[1], diffs_array_, amplitudes_array_,
+              slopes_array_, right_side, equation_, stencil.template last<3>(),
+              dt_over_dx, array_limiter_, face_fractions,
+              volume_fractions.template last<3>(), dir);
+  hlle_.ComputeNumericFlux(flux, face_fractions, reconstruction_array_,
+                           volume_fractions.template subspan<1, 2>(), dt, dx,
+                           dir);
 }
 
 template <int Rank>
-- 
2.43.0


From 90e30bb7a7f8d45082d07dbc4b35b3a3288c545b Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 042/103] fix: complete only the valid lanes of the last chunk
 of a row

CompleteFromConsFn completed the stale or zero lanes beyond the end of a row as
well. The reactor of IdealGasMix can not invert the energy of such a state and
throws, so patches whose width is not a multiple of the chunk size failed.
---
 include/fub/CompleteFromCons.hpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/fub/CompleteFromCons.hpp b/include/fub/CompleteFromCons.hpp
index b82d49b..c293c00 100644
--- a/include/fub/CompleteFromCons.hpp
+++ b/include/fub/CompleteFromCons.hpp
@@ -100,8 +100,14 @@ void CompleteFromCons(Equation&& equation,
     equation.CompleteFromCons(complete, cons, mask);
   } else {
     static_assert(sizeof(Complete<Eq>) == sizeof(Conservative<Eq>));
-    ForEachVariable(
-        [&](auto& dest, const auto& src) { dest = mask.select(src, dest); },
+    ForEachComponent(
+        [&](auto&& dest, auto&& src) {
+          for (int i = 0; i < mask.size(); ++i) {
+            if (mask(i)) {
+              dest(i) = src(i);
+            }
+          }
+        },
         AsCons(complete), cons);
   }
 }
@@ -165,9 +171,14 @@ template <typename Equation> struct CompleteFromConsFn {
         Advance(out, kDefaultChunkSize);
         n = static_cast<int>(get<0>(end) - get<0>(in));
       }
-      LoadN(cons, in, n);
-      ::fub::CompleteFromCons(equation, complete, cons);
-      StoreN(out, complete, n);
+      if (n > 0) {
+        // The lanes beyond the end of the row do not hold any valid state.
+        MaskArray mask = MaskArray::Constant(false);
+        mask.head(n) = true;
+        LoadN(cons, in, n);
+        ::fub::CompleteFromCons(equation, complete, cons, mask);
+        StoreN(out, complete, n);
+      }
     }
   };
 
-- 
2.43.0


From ed17c09d31bd88e3c2edce7b4dd5f9e25ef45368 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 043/103] fix: span::last(count) of a dynamic span starts in
 front of the span

---
 include/fub/core/span.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fub/core/span.hpp b/include/fub/core/span.hpp
index f434d47..03a43a2 100644
--- a/include/fub/core/span.hpp
+++ b/include/fub/core/span.hpp
@@ -847,7 +847,7 @@ public:
   /// \throws Nothing.
   constexpr span<element_type> last(index_type count) const {
     FUB_ASSERT(0 <= count && count <= size());
-    return {pointer_ + (extent - count), count};
+    return {pointer_ + (size() - count), count};
   }
 
   /// Returns a subspan viewing `Count` many elements from offset `Offset`.
-- 
2.43.0


From 5aa85d3c5f6ca58b9cbcd0acea572a73fa3fdbb4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 044/103] fix: layout_stride mappings with different strides
 compare equal

---
 include/fub/core/mdspan.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fub/core/mdspan.hpp b/include/fub/core/mdspan.hpp
index 910ca3d..767fbf1 100644
--- a/include/fub/core/mdspan.hpp
+++ b/include/fub/core/mdspan.hpp
@@ -536,7 +536,7 @@ struct layout_stride {
     template <class OtherExtents>
     constexpr bool
     operator==(const mapping<OtherExtents>& other) const noexcept {
-      return extents() == other.extents();
+      return extents() == other.extents() && strides() == other.strides();
     }
     template <class OtherExtents>
     constexpr bool
-- 
2.43.0


From 7f8e7d51ba57fb5b3e6a0e864571562e1be7ad22 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 045/103] fix: subspan permutes the extents of slices with an
 empty range

---
 include/fub/core/mdspan.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fub/core/mdspan.hpp b/include/fub/core/mdspan.hpp
index 767fbf1..b3dec1f 100644
--- a/include/fub/core/mdspan.hpp
+++ b/include/fub/core/mdspan.hpp
@@ -949,10 +949,12 @@ MakeSliceExtents2_(const Extents& e, SliceSpecifiers... slices) {
       dyn_length[i] = length[i];
     }
   }
+  constexpr std::array<bool, Extents::rank()> is_range{
+      IsSliceRange_<SliceSpecifiers>()...};
   std::array<std::ptrdiff_t, SliceRank_<SliceSpecifiers...>> extents{};
   std::size_t slice = 0;
   for (std::size_t i = 0; i < Extents::rank(); ++i) {
-    if (dyn_length[i] > 0) {
+    if (is_range[i]) {
       extents[slice] = dyn_length[i];
       slice = slice + 1;
     }
-- 
2.43.0


From c928c73e6bb29e5dbe4d6703ffb4cb6bf9e51c07 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 046/103] fix: ForEachIndex aborts for strided views which are
 one cell wide

---
 include/fub/ForEach.hpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/include/fub/ForEach.hpp b/include/fub/ForEach.hpp
index 66bbdc6..40fde33 100644
--- a/include/fub/ForEach.hpp
+++ b/include/fub/ForEach.hpp
@@ -118,15 +118,12 @@ Function ForEachIndex(const layout_stride::mapping<Extents>& mapping,
       function(i);
     }
   } else if constexpr (Extents::rank() == 2) {
-    FUB_ASSERT(mapping.stride(0) < mapping.stride(1));
     for (int i = 0; i < mapping.extents().extent(1); ++i) {
       for (int j = 0; j < mapping.extents().extent(0); ++j) {
         function(j, i);
       }
     }
   } else if constexpr (Extents::rank() == 3) {
-    FUB_ASSERT(mapping.stride(0) < mapping.stride(1));
-    FUB_ASSERT(mapping.stride(1) < mapping.stride(2));
     for (int i = 0; i < mapping.extents().extent(2); ++i) {
       for (int j = 0; j < mapping.extents().extent(1); ++j) {
         for (int k = 0; k < mapping.extents().extent(0); ++k) {
-- 
2.43.0


From 5d99f3711d4153cef7f95b69dfbf8c739aa48d63 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 047/103] fix: ForEachRow visits a row of empty views or does
 not end

---
 include/fub/StateRow.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/fub/StateRow.hpp b/include/fub/StateRow.hpp
index 8442aa5..78336b6 100644
--- a/include/fub/StateRow.hpp
+++ b/include/fub/StateRow.hpp
@@ -176,12 +176,9 @@ void ForEachRow(const Tuple& views, Function f) {
     std::tuple rows = Transform(firsts, ToRow{row_extent});
     std::apply(f, rows);
   } else if constexpr (std::tuple_element_t<0, Tuple>::rank() == 2) {
-    std::tuple lasts = Transform(views, [](const auto& v) { return End(v); });
+    const std::ptrdiff_t ny = Extent<Direction::Y>(std::get<0>(views));
     std::tuple strides = Transform(views, ToStride<Direction::Y>());
-    const auto& first = std::get<0>(firsts);
-    const auto& last = std::get<0>(lasts);
-    std::ptrdiff_t n = GetOrForward<0>(last) - GetOrForward<0>(first);
-    while (n >= std::get<0>(strides)) {
+    for (std::ptrdiff_t j = 0; j < ny; ++j) {
       std::tuple rows = Transform(firsts, ToRow{row_extent});
       std::apply(f, rows);
       std::tuple firsts_and_strides = Zip(firsts, strides);
@@ -191,7 +188,6 @@ void ForEachRow(const Tuple& views, Function f) {
       firsts = std::apply(
           [](auto&&... fs) { return std::tuple{std::get<0>(fs)...}; },
           firsts_and_strides);
-      n = GetOrForward<0>(last) - GetOrForward<0>(first);
     }
   } else {
     const std::ptrdiff_t ny = Extent<Direction::Y>(std::get<0>(views));
-- 
2.43.0


From 28266842b6f93167c12f733980c02adbb480aeaa Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:24:46 +0000
Subject: [PATCH 048/103] fix: assigning a base state to a complete state
 returns nothing

---
 include/fub/State.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/fub/State.hpp b/include/fub/State.hpp
index 12fee35..74b529f 100644
--- a/include/fub/State.hpp
+++ b/include/fub/State.hpp
@@ -350,6 +350,7 @@ template <typename Eq> struct Complete : CompleteBase<Eq> {
   Complete(const CompleteBase<Eq>& x) : CompleteBase<Eq>{x} {}
   Complete& operator=(const CompleteBase<Eq>& x) {
     static_cast<CompleteBase<Eq>&>(*this) = x;
+    return *this;
   }
   Complete(const Equation& eq) : CompleteBase<Eq>{} {
     auto depths = ::fub::Depths(eq, Type<Complete<Equation>>{});
-- 
2.43.0


From 1cadce6de89e78aa403dc04a9cb2a09f4bc5b015 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:24:46 +0000
Subject: [PATCH 049/103] fix: assigning a base view to a view returns nothing

---
 include/fub/State.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/fub/State.hpp b/include/fub/State.hpp
index 74b529f..c0ed9ba 100644
--- a/include/fub/State.hpp
+++ b/include/fub/State.hpp
@@ -427,6 +427,7 @@ struct BasicView : ViewBase<S, L, R> {
   BasicView(const ViewBase<S, L, R>& base) : ViewBase<S, L, R>{base} {}
   BasicView& operator=(const ViewBase<S, L, R>& base) {
     static_cast<ViewBase<S, L, R>&>(*this) = base;
+    return *this;
   }
 };
 
-- 
2.43.0


From 4a34159901c092512c5694eca9a2b392e81e77ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:24 +0000
Subject: [PATCH 050/103] fix: array based gradient detector compares cells of
 different chunks

---
 include/fub/tagging_method/GradientDetector.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/fub/tagging_method/GradientDetector.hpp b/include/fub/tagging_method/GradientDetector.hpp
index 344045d..20dc97e 100644
--- a/include/fub/tagging_method/GradientDetector.hpp
+++ b/include/fub/tagging_method/GradientDetector.hpp
@@ -255,14 +255,10 @@ void ArrayGradientDetector_<Equation, Projections...>::TagCellsForRefinement(
     ViewPointer<const Complete<Equation>> pR = Begin(rR);
     ViewPointer<const Complete<Equation>> pEnd = End(rR);
     int n = static_cast<int>(get<0>(pEnd) - get<0>(pR));
-    if (n >= kDefaultChunkSize) {
-      Load(sM_, pL);
-      Load(sR_, pM);
-    }
     const Array<char, 1> ones = Array<char, 1>::Constant(char(1));
     while (n >= kDefaultChunkSize) {
-      sL_ = sM_;
-      sM_ = sR_;
+      Load(sL_, pL);
+      Load(sM_, pM);
       Load(sR_, pR);
       Array<char, 1> tags_array = Array<char, 1>::Map(tags_pointer);
       boost::mp11::tuple_for_each(Base::conditions_, [&](auto&& condition) {
@@ -276,6 +272,8 @@ void ArrayGradientDetector_<Equation, Projections...>::TagCellsForRefinement(
         tags_array = (right < tolerance).select(tags_array, ones);
       });
       Array<char, 1>::Map(tags_pointer) = tags_array;
+      Advance(pL, kDefaultChunkSize);
+      Advance(pM, kDefaultChunkSize);
       Advance(pR, kDefaultChunkSize);
       tags_pointer += kDefaultChunkSize;
       n = static_cast<int>(get<0>(pEnd) - get<0>(pR));
-- 
2.43.0


From 9aea1ab430834efeeebcf29696961070d24d18f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:24 +0000
Subject: [PATCH 051/103] fix: array based gradient detector tags cells where
 the quantity vanishes

---
 include/fub/tagging_method/GradientDetector.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fub/tagging_method/GradientDetector.hpp b/include/fub/tagging_method/GradientDetector.hpp
index 20dc97e..52a4530 100644
--- a/include/fub/tagging_method/GradientDetector.hpp
+++ b/include/fub/tagging_method/GradientDetector.hpp
@@ -268,8 +268,8 @@ void ArrayGradientDetector_<Equation, Projections...>::TagCellsForRefinement(
         const Array1d xR = std::invoke(proj, sR_);
         const Array1d left = (xM - xL).abs() / (xM.abs() + xL.abs());
         const Array1d right = (xM - xR).abs() / (xM.abs() + xR.abs());
-        tags_array = (left < tolerance).select(tags_array, ones);
-        tags_array = (right < tolerance).select(tags_array, ones);
+        tags_array = (left > tolerance).select(ones, tags_array);
+        tags_array = (right > tolerance).select(ones, tags_array);
       });
       Array<char, 1>::Map(tags_pointer) = tags_array;
       Advance(pL, kDefaultChunkSize);
@@ -290,8 +290,8 @@ void ArrayGradientDetector_<Equation, Projections...>::TagCellsForRefinement(
       const Array1d xR = std::invoke(proj, sR_);
       const Array1d left = (xM - xL).abs() / (xM.abs() + xL.abs());
       const Array1d right = (xM - xR).abs() / (xM.abs() + xR.abs());
-      tags_array = (left < tolerance).select(tags_array, ones);
-      tags_array = (right < tolerance).select(tags_array, ones);
+      tags_array = (left > tolerance).select(ones, tags_array);
+      tags_array = (right > tolerance).select(ones, tags_array);
     });
     StoreN(tags_pointer, tags_array, n);
   });
-- 
2.43.0


From ee300c9c84af9473d4bfefb1e89abbe0105ef8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:24 +0000
Subject: [PATCH 052/103] fix: array based gradient detector ignores all
 directions but the first

---
 .../fub/tagging_method/GradientDetector.hpp   | 90 ++++++++++---------
 1 file changed, 46 insertions(+), 44 deletions(-)

diff --git a/include/fub/tagging_method/GradientDetector.hpp b/include/fub/tagging_method/GradientDetector.hpp
index 52a4530..75a5948 100644
--- a/include/fub/tagging_method/GradientDetector.hpp
+++ b/include/fub/tagging_method/GradientDetector.hpp
@@ -240,27 +240,50 @@ template <typename Equation, typename... Projections>
 void ArrayGradientDetector_<Equation, Projections...>::TagCellsForRefinement(
     const PatchDataView<char, Rank, layout_stride>& tags,
     const View<const Complete<Equation>>& states) {
-  Direction dir = Direction::X;
-  BasicView shifted = Subview(states, Grow(tags.Box(), dir, {1, 1}));
-  std::tuple views{tags, Shrink(shifted, dir, {0, 2}),
-                   Shrink(shifted, dir, {1, 1}), Shrink(shifted, dir, {2, 0})};
-  FUB_ASSERT(Box<0>(std::get<2>(views)) == tags.Box());
-  ForEachRow(views, [&](span<char> tags_row,
-                        const Row<const Complete<Equation>>& rL,
-                        const Row<const Complete<Equation>>& rM,
-                        const Row<const Complete<Equation>>& rR) {
-    char* tags_pointer = tags_row.begin();
-    ViewPointer<const Complete<Equation>> pL = Begin(rL);
-    ViewPointer<const Complete<Equation>> pM = Begin(rM);
-    ViewPointer<const Complete<Equation>> pR = Begin(rR);
-    ViewPointer<const Complete<Equation>> pEnd = End(rR);
-    int n = static_cast<int>(get<0>(pEnd) - get<0>(pR));
-    const Array<char, 1> ones = Array<char, 1>::Constant(char(1));
-    while (n >= kDefaultChunkSize) {
-      Load(sL_, pL);
-      Load(sM_, pM);
-      Load(sR_, pR);
-      Array<char, 1> tags_array = Array<char, 1>::Map(tags_pointer);
+  for (int d = 0; d < Rank; ++d) {
+    const Direction dir = static_cast<Direction>(d);
+    BasicView shifted = Subview(states, Grow(tags.Box(), dir, {1, 1}));
+    std::tuple views{tags, Shrink(shifted, dir, {0, 2}),
+                     Shrink(shifted, dir, {1, 1}), Shrink(shifted, dir, {2, 0})};
+    FUB_ASSERT(Box<0>(std::get<2>(views)) == tags.Box());
+    ForEachRow(views, [&](span<char> tags_row,
+                          const Row<const Complete<Equation>>& rL,
+                          const Row<const Complete<Equation>>& rM,
+                          const Row<const Complete<Equation>>& rR) {
+      char* tags_pointer = tags_row.begin();
+      ViewPointer<const Complete<Equation>> pL = Begin(rL);
+      ViewPointer<const Complete<Equation>> pM = Begin(rM);
+      ViewPointer<const Complete<Equation>> pR = Begin(rR);
+      ViewPointer<const Complete<Equation>> pEnd = End(rR);
+      int n = static_cast<int>(get<0>(pEnd) - get<0>(pR));
+      const Array<char, 1> ones = Array<char, 1>::Constant(char(1));
+      while (n >= kDefaultChunkSize) {
+        Load(sL_, pL);
+        Load(sM_, pM);
+        Load(sR_, pR);
+        Array<char, 1> tags_array = Array<char, 1>::Map(tags_pointer);
+        boost::mp11::tuple_for_each(Base::conditions_, [&](auto&& condition) {
+          auto&& [proj, tolerance] = condition;
+          const Array1d xL = std::invoke(proj, sL_);
+          const Array1d xM = std::invoke(proj, sM_);
+          const Array1d xR = std::invoke(proj, sR_);
+          const Array1d left = (xM - xL).abs() / (xM.abs() + xL.abs());
+          const Array1d right = (xM - xR).abs() / (xM.abs() + xR.abs());
+          tags_array = (left > tolerance).select(ones, tags_array);
+          tags_array = (right > tolerance).select(ones, tags_array);
+        });
+        Array<char, 1>::Map(tags_pointer) = tags_array;
+        Advance(pL, kDefaultChunkSize);
+        Advance(pM, kDefaultChunkSize);
+        Advance(pR, kDefaultChunkSize);
+        tags_pointer += kDefaultChunkSize;
+        n = static_cast<int>(get<0>(pEnd) - get<0>(pR));
+      }
+      LoadN(sL_, pL, n);
+      LoadN(sM_, pM, n);
+      LoadN(sR_, pR, n);
+      Array<char, 1> tags_array = Array<char, 1>::Zero();
+      LoadN(tags_array, tags_pointer, n);
       boost::mp11::tuple_for_each(Base::conditions_, [&](auto&& condition) {
         auto&& [proj, tolerance] = condition;
         const Array1d xL = std::invoke(proj, sL_);
@@ -271,30 +294,9 @@ void ArrayGradientDetector_<Equation, Projections...>::TagCellsForRefinement(
         tags_array = (left > tolerance).select(ones, tags_array);
         tags_array = (right > tolerance).select(ones, tags_array);
       });
-      Array<char, 1>::Map(tags_pointer) = tags_array;
-      Advance(pL, kDefaultChunkSize);
-      Advance(pM, kDefaultChunkSize);
-      Advance(pR, kDefaultChunkSize);
-      tags_pointer += kDefaultChunkSize;
-      n = static_cast<int>(get<0>(pEnd) - get<0>(pR));
-    }
-    LoadN(sL_, pL, n);
-    LoadN(sM_, pM, n);
-    LoadN(sR_, pR, n);
-    Array<char, 1> tags_array = Array<char, 1>::Zero();
-    LoadN(tags_array, tags_pointer, n);
-    boost::mp11::tuple_for_each(Base::conditions_, [&](auto&& condition) {
-      auto&& [proj, tolerance] = condition;
-      const Array1d xL = std::invoke(proj, sL_);
-      const Array1d xM = std::invoke(proj, sM_);
-      const Array1d xR = std::invoke(proj, sR_);
-      const Array1d left = (xM - xL).abs() / (xM.abs() + xL.abs());
-      const Array1d right = (xM - xR).abs() / (xM.abs() + xR.abs());
-      tags_array = (left > tolerance).select(ones, tags_array);
-      tags_array = (right > tolerance).select(ones, tags_array);
+      StoreN(tags_pointer, tags_array, n);
     });
-    StoreN(tags_pointer, tags_array, n);
-  });
+  }
 }
 
 } // namespace fub
-- 
2.43.0


From 3ed8a749b62c4bbf0f7b3e71159eaeb21721e136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:24 +0000
Subject: [PATCH 053/103] fix: two dimensional tag buffer is one cell too small
 on the upper sides

---
 src/tagging_method/TagBuffer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tagging_method/TagBuffer.cpp b/src/tagging_method/TagBuffer.cpp
index f3123f1..91df4c9 100644
--- a/src/tagging_method/TagBuffer.cpp
+++ b/src/tagging_method/TagBuffer.cpp
@@ -49,10 +49,10 @@ void TagBuffer::TagCellsForRefinement(
       if (data(i, j) == '\1' || data(i, j) == '\2') {
         const std::ptrdiff_t k0 =
             std::max(i - buffer_width_, std::ptrdiff_t{0});
-        const std::ptrdiff_t k1 = std::min(i + buffer_width_, nx);
+        const std::ptrdiff_t k1 = std::min(i + buffer_width_ + 1, nx);
         const std::ptrdiff_t l0 =
             std::max(j - buffer_width_, std::ptrdiff_t{0});
-        const std::ptrdiff_t l1 = std::min(j + buffer_width_, ny);
+        const std::ptrdiff_t l1 = std::min(j + buffer_width_ + 1, ny);
         for (std::ptrdiff_t l = l0; l < l1; ++l) {
           for (std::ptrdiff_t k = k0; k < k1; ++k) {
             data(k, l) =
-- 
2.43.0


From 77fd166d7876a8b0bb218d04d4280b6fa1ce04bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:24 +0000
Subject: [PATCH 054/103] fix: one dimensional tag buffer writes in front of
 the patch and removes tags

---
 src/tagging_method/TagBuffer.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/tagging_method/TagBuffer.cpp b/src/tagging_method/TagBuffer.cpp
index 91df4c9..7dbf54c 100644
--- a/src/tagging_method/TagBuffer.cpp
+++ b/src/tagging_method/TagBuffer.cpp
@@ -26,14 +26,14 @@ namespace fub {
 
 void TagBuffer::TagCellsForRefinement(
     const PatchDataView<char, 1, layout_stride>& tags) {
-  span<char> data = tags.Span();
-  for (std::ptrdiff_t i = buffer_width_; i < data.size() - buffer_width_; ++i) {
-    if (data[i] == '\1') {
-      for (std::ptrdiff_t j = 0; j < buffer_width_; ++j) {
-        data[i + j] = static_cast<char>('\2' - data[i + j]);
-      }
-      for (std::ptrdiff_t j = buffer_width_; j > 0; --j) {
-        data[i - j - 1] = static_cast<char>('\2' - data[i - j - 1]);
+  mdspan<char, 1, layout_stride> data = tags.MdSpan();
+  const std::ptrdiff_t nx = data.extent(0);
+  for (std::ptrdiff_t i = 0; i < nx; ++i) {
+    if (data(i) == '\1' || data(i) == '\2') {
+      const std::ptrdiff_t k0 = std::max(i - buffer_width_, std::ptrdiff_t{0});
+      const std::ptrdiff_t k1 = std::min(i + buffer_width_ + 1, nx);
+      for (std::ptrdiff_t k = k0; k < k1; ++k) {
+        data(k) = std::max(data(k), static_cast<char>('\3' - data(k)));
       }
     }
   }
-- 
2.43.0


From bee991d2d187bc2d6366f6237c0f3cba8395964d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:24 +0000
Subject: [PATCH 055/103] fix: three dimensional tag buffer tags all cells
 regardless of the tags

---
 src/tagging_method/TagBuffer.cpp | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/tagging_method/TagBuffer.cpp b/src/tagging_method/TagBuffer.cpp
index 7dbf54c..89d3511 100644
--- a/src/tagging_method/TagBuffer.cpp
+++ b/src/tagging_method/TagBuffer.cpp
@@ -66,22 +66,18 @@ void TagBuffer::TagCellsForRefinement(
 
 void TagBuffer::TagCellsForRefinement(
     const PatchDataView<char, 3, layout_stride>& tags) {
-  const std::array<std::ptrdiff_t, 2> shift{buffer_width_, buffer_width_};
-  const Direction X = Direction::X;
-  const Direction Y = Direction::Y;
-  const Direction Z = Direction::Z;
-  IndexBox<3> box =
-      Shrink(Shrink(Shrink(tags.Box(), X, shift), Y, shift), Z, shift);
+  const IndexBox<3> box = tags.Box();
   ForEachIndex(box, [&](std::ptrdiff_t i0, std::ptrdiff_t j0,
                         std::ptrdiff_t k0) {
-    Index<3> lower{i0 - buffer_width_, j0 - buffer_width_, k0 - buffer_width_};
-    Index<3> upper{i0 + buffer_width_, j0 + buffer_width_, k0 + buffer_width_};
-    IndexBox<3> neighborhood{lower, upper};
-    ForEachIndex(neighborhood, [&](std::ptrdiff_t i, std::ptrdiff_t j,
-                                   std::ptrdiff_t k) {
-      tags(i, j, k) =
-          std::max(tags(i, j, k), static_cast<char>('\2' - tags(i, j, k)));
-    });
+    if (tags(i0, j0, k0) == '\1' || tags(i0, j0, k0) == '\2') {
+      const IndexBox<3> neighborhood = Intersect(
+          box, Neighborhood<3>(Index<3>{i0, j0, k0}, buffer_width_));
+      ForEachIndex(neighborhood, [&](std::ptrdiff_t i, std::ptrdiff_t j,
+                                     std::ptrdiff_t k) {
+        tags(i, j, k) =
+            std::max(tags(i, j, k), static_cast<char>('\3' - tags(i, j, k)));
+      });
+    }
   });
 }
 
-- 
2.43.0


From a74d7dce93b252266d4aaf503925ce7ad5fc85ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:42 +0000
Subject: [PATCH 056/103] fix: distance to a cone is wrong next to its rim and
 beyond its apex

---
 src/geometry/Cone.cpp | 48 +++++++++++++++----------------------------
 1 file changed, 16 insertions(+), 32 deletions(-)

diff --git a/src/geometry/Cone.cpp b/src/geometry/Cone.cpp
index 30b2abf..9d29ff8 100644
--- a/src/geometry/Cone.cpp
+++ b/src/geometry/Cone.cpp
@@ -22,6 +22,7 @@
 
 #include <Eigen/Dense>
 
+#include <algorithm>
 #include <cmath>
 
 namespace fub {
@@ -52,38 +53,21 @@ double ConeIF::ComputeDistanceTo(const std::array<double, 3>& x) const
   // Radius at l
   const double radius_at_l = (1.0 - l / height_) * base_radius_;
 
-  if (l < 0.0) {
-    if (r < base_radius_) {
-      return sign * -l;
-    }
-    return sign * std::sqrt(l * l + (x0 - (p - l * normal)).squaredNorm());
-  }
-
-  Eigen::Vector3d apex = x0 + height_ * normal;
-  if (height_ < l) {
-    return sign * (p - apex).norm();
-  }
-
-  const Eigen::Vector3d rim_point = [&]() -> Eigen::Vector3d {
-    if (dp_radial.norm() > std::sqrt(std::numeric_limits<double>::epsilon())) {
-      return x0 + dp_radial.normalized() * base_radius_;
-    }
-    return x0 + base_radius_ * Eigen::Vector3d{0.0, 1.0, 0.0};
-  }();
-
-  Eigen::Vector3d face_tangential = (apex - rim_point).normalized();
-  const double distance_on_face = face_tangential.dot(p - rim_point);
-
-  if (distance_on_face < 0.0) {
-    return sign * std::sqrt(l * l + (p - rim_point).squaredNorm());
-  }
-
-  Eigen::Vector3d p_on_face = rim_point + distance_on_face * face_tangential;
-  if (radius_at_l < r) {
-    return sign * (p_on_face - p).norm();
-  }
-
-  return sign * -std::min((p_on_face - p).norm(), l);
+  // Distance to the line segment from a to b in the (l, r)-plane
+  const auto distance_to_segment = [l, r](const Eigen::Vector2d& a,
+                                          const Eigen::Vector2d& b) {
+    const Eigen::Vector2d q{l, r};
+    const double t = (q - a).dot(b - a) / (b - a).squaredNorm();
+    return (q - a - std::min(std::max(t, 0.0), 1.0) * (b - a)).norm();
+  };
+  const Eigen::Vector2d center{0.0, 0.0};
+  const Eigen::Vector2d rim{0.0, base_radius_};
+  const Eigen::Vector2d apex{height_, 0.0};
+  const double distance = std::min(distance_to_segment(center, rim),
+                                   distance_to_segment(rim, apex));
+
+  const bool is_in_cone = 0.0 <= l && l <= height_ && r <= radius_at_l;
+  return is_in_cone ? sign * -distance : sign * distance;
 }
 
 } // namespace fub
\ No newline at end of file
-- 
2.43.0


From 11f2bc04ac918d8d6d4255a536643381f00adf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:42 +0000
Subject: [PATCH 057/103] fix: reading points loses those of files with other
 lines or without final newline

---
 src/geometry/ExpandTube.cpp | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/geometry/ExpandTube.cpp b/src/geometry/ExpandTube.cpp
index a27ee6d..ecd4641 100644
--- a/src/geometry/ExpandTube.cpp
+++ b/src/geometry/ExpandTube.cpp
@@ -110,27 +110,22 @@ double ExpandTube::operator()(double x, double y, double z) const {
 Eigen::Matrix<double, 3, Eigen::Dynamic>
 ReadPointsFromFile(const std::string& filename) {
   const std::string content = ReadFile_(filename);
-  const std::ptrdiff_t n_points =
-      std::count(content.begin(), content.end(), '\n');
-  Eigen::Matrix<double, 3, Eigen::Dynamic> points(3, n_points);
+  std::vector<Eigen::Vector3d> valid_points{};
   std::istringstream iss(content);
   std::string line{};
-  int col = 0;
-  while (std::getline(iss, line) && col < n_points) {
+  while (std::getline(iss, line)) {
     std::istringstream line_in(line);
     double x;
-    if (line_in >> x) {
-      points(0, col) = x;
-    }
-    if (line_in >> x) {
-      points(1, col) = x;
-    }
-    points(2, col) = 0.0;
-    if (line_in) {
-      ++col;
+    double y;
+    if (line_in >> x >> y) {
+      valid_points.push_back(Eigen::Vector3d{x, y, 0.0});
     }
   }
-  points.resize(3, col);
+  Eigen::Matrix<double, 3, Eigen::Dynamic> points(
+      3, static_cast<Eigen::Index>(valid_points.size()));
+  for (std::size_t i = 0; i < valid_points.size(); ++i) {
+    points.col(static_cast<Eigen::Index>(i)) = valid_points[i];
+  }
   return points;
 }
 
-- 
2.43.0


From e97806b7f874f5a9ed30a5041985b052a7755810 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 23:13:39 +0000
Subject: [PATCH 058/103] fix: average the y and z gradients of an h-grid cell
 from y and z gradients

---
 include/fub/cutcell_method/HGridReconstruction.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fub/cutcell_method/HGridReconstruction.hpp b/include/fub/cutcell_method/HGridReconstruction.hpp
index e34c112..0ddd68c 100644
--- a/include/fub/cutcell_method/HGridReconstruction.hpp
+++ b/include/fub/cutcell_method/HGridReconstruction.hpp
@@ -337,8 +337,8 @@ bool HGridIntegration<Equation, GradientT>::IntegrateCellState(
       const FT du0dz = GetComponent(equation_, gradient_z[i], ncomp);
       v += lambda * u0;
       dvdx += lambda * du0dx;
-      dvdy += lambda * du0dx;
-      dvdz += lambda * du0dx;
+      dvdy += lambda * du0dy;
+      dvdz += lambda * du0dz;
     }
     const double u = v.convert_to<double>();
     const double dudx = dvdx.convert_to<double>();
-- 
2.43.0


From 16c9d1e9fc7818bf2a08e684e97bbe277c606de5 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 23:13:39 +0000
Subject: [PATCH 059/103] fix: limit gradients with respect to all neighbours
 on the inner side of the wall

---
 src/cutcell_method/AnyMdLimiter.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cutcell_method/AnyMdLimiter.cpp b/src/cutcell_method/AnyMdLimiter.cpp
index 29ebd7b..47e7fc5 100644
--- a/src/cutcell_method/AnyMdLimiter.cpp
+++ b/src/cutcell_method/AnyMdLimiter.cpp
@@ -129,11 +129,10 @@ bool IsConnected(const CutCellData<Rank>& geom, const Index<Rank>& i,
     if (diff.squaredNorm() != 1.0) {
       return false;
     }
-    const Coordinates<Rank> xI = GetVolumeCentroid(geom, i);
     const Coordinates<Rank> xJ = diff + GetVolumeCentroid(geom, j);
     const Coordinates<Rank> xB = GetBoundaryCentroid(geom, i);
     const Coordinates<Rank> n = GetBoundaryNormal(geom, i);
-    return n.dot(xJ - xI) >= n.dot(xB);
+    return n.dot(xJ - xB) >= 0.0;
   } else {
     return false;
   }
-- 
2.43.0


From dbe91e352f82afc6858cc8ee9945d47a329d0551 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 23:13:39 +0000
Subject: [PATCH 060/103] fix: order the neighbours of a cut cell with a strict
 weak ordering

---
 include/fub/cutcell_method/MdGradients.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fub/cutcell_method/MdGradients.hpp b/include/fub/cutcell_method/MdGradients.hpp
index 480d1e8..9bcd95d 100644
--- a/include/fub/cutcell_method/MdGradients.hpp
+++ b/include/fub/cutcell_method/MdGradients.hpp
@@ -118,7 +118,8 @@ void MdGradients<GradientMethod>::ComputeGradients(
                        });
         // std::array<int, 4> is{0, 1, 2, 3};
         std::sort(is.begin(), is.end(), [&](int i, int j) {
-          return betas[i] >= betas[j] && alphas[i] >= alphas[j];
+          return betas[i] > betas[j] ||
+                 (betas[i] == betas[j] && alphas[i] > alphas[j]);
         });
         if (betas[is[2]] <= 0.0) {
           // Set neighbors[is[2]] to corner between neighbors[is[0]] and
-- 
2.43.0


From 3032ce5993221ba0bf27d9799f6f12ac09a61758 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 23:18:05 +0000
Subject: [PATCH 061/103] fix: limit gradients without cycling at degenerate
 vertices

The active set method started in a vertex where many constraints may meet,
chose constraints which are parallel up to round off, and then cycled or
returned points which are not optimal. Use Bland's rule and ignore round off.
---
 src/cutcell_method/AnyMdLimiter.cpp | 40 +++++++++++++++++------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/cutcell_method/AnyMdLimiter.cpp b/src/cutcell_method/AnyMdLimiter.cpp
index 47e7fc5..7346bf9 100644
--- a/src/cutcell_method/AnyMdLimiter.cpp
+++ b/src/cutcell_method/AnyMdLimiter.cpp
@@ -24,6 +24,7 @@
 #include "fub/CutCellData.hpp"
 #include "fub/ForEach.hpp"
 
+#include <algorithm>
 #include <limits>
 
 namespace fub
@@ -38,12 +39,6 @@ TakeRows(const Eigen::Matrix<double, Rows, Cols>& A,
   A_k.row(1) = A.row(W_k[1]);
   return A_k;
 }
-
-bool IsNonSingular(const Eigen::Matrix<double, Eigen::Dynamic, 2>& A, const std::array<int, 2>& W_k)
-{
-  Eigen::Matrix<double, 2, 2> A_k = TakeRows(A, W_k);
-  return A_k.determinant() != 0.0;
-}
 } // namespace
 
 Eigen::Vector2d SolveLinearOptimizationProblem(
@@ -55,6 +50,8 @@ Eigen::Vector2d SolveLinearOptimizationProblem(
   std::array<int, 2> W_k{0, 1};
   Eigen::Matrix<double, 2, 2> A_k = TakeRows(A, W_k);
   Eigen::Vector2d x_k = x_0;
+  // Multipliers and slopes which are round off are treated as zero
+  const double eps = 1e-12;
 
   for (int i = 0; i < maxiter; ++i) {
     // Step 1: Calculate the Lagrange multipliers λ_k in R^2 by solving
@@ -65,14 +62,21 @@ Eigen::Vector2d SolveLinearOptimizationProblem(
     Eigen::Vector2d lambda_k = A_k.transpose().colPivHouseholderQr().solve(c);
 
     // Step 2: If λ_k >= 0, STOP. In this case, the point x_k is optimal.
-    if ((lambda_k.array() >= 0.0).all()) {
+    const std::array<bool, 2> is_negative{
+        lambda_k[0] * A_k.row(0).norm() < -eps * c.norm(),
+        lambda_k[1] * A_k.row(1).norm() < -eps * c.norm()};
+    if (!is_negative[0] && !is_negative[1]) {
       return x_k;
     }
 
     // Step 3: Otherwise select q such that (λ_k)q < 0. This constraint will be
-    // removed from W_k.
-    int q = lambda_k[0] < lambda_k[1] ? 0 : 1;
-    int qq = lambda_k[0] < lambda_k[1] ? 1 : 0;
+    // removed from W_k. We choose the smallest constraint index here and in
+    // step 5 (Bland's rule), this prevents cycling if more than two constraints
+    // meet in x_k.
+    int q = is_negative[0] ? 0 : 1;
+    if (is_negative[0] && is_negative[1]) {
+      q = W_k[0] < W_k[1] ? 0 : 1;
+    }
 
     // Step 4: Calculate the descent direction pk from A_k p_k = e_q, e_q = q-th
     // coordinate vector.
@@ -80,13 +84,14 @@ Eigen::Vector2d SolveLinearOptimizationProblem(
 
     // Step 5: Choose the step length α_k to be taken along p_k:
     double alpha_k = std::numeric_limits<double>::max();
-    int min_i = std::numeric_limits<int>::max();
+    int min_i = m;
     for (int i = 0; i < m; ++i) {
       const double ap = A.row(i).transpose().dot(p_k);
-      if (ap < 0.0) {
+      if (ap < -eps * A.row(i).norm() * p_k.norm()) {
         const double Aix = A.row(i).transpose().dot(x_k);
-        const double y_i = (b[i] - Aix) / ap;
-        if (y_i < alpha_k && IsNonSingular(A, {W_k[qq], i})) {
+        const double y_i = std::max(0.0, (b[i] - Aix) / ap);
+        const double tolerance = eps / p_k.norm();
+        if (min_i == m || y_i < alpha_k - tolerance) {
           min_i = i;
           alpha_k = y_i;
         }
@@ -95,7 +100,7 @@ Eigen::Vector2d SolveLinearOptimizationProblem(
 
     // Step 6: Update working set
     x_k += alpha_k * p_k;
-    FUB_ASSERT(min_i != std::numeric_limits<int>::max());
+    FUB_ASSERT(min_i != m);
     FUB_ASSERT(min_i != W_k[q]);
     W_k[q] = min_i;
     A_k = TakeRows(A, W_k);
@@ -210,7 +215,10 @@ void LinearOptimizationLimiter<Rank>::LimitGradientsAtIndex(
       }
       double u_i = u(i);
       const Coordinates<Rank> x_i = GetAbsoluteVolumeCentroid(geom, i, dx);
-      Eigen::Vector2d a = (x_i - x_M).array() * D.array();
+      // Differences which are round off do not constrain the limiter
+      const Eigen::Vector2d d =
+          ((x_i - x_M).array().abs() > 1e-12 * dx.array()).select(x_i - x_M, 0.0);
+      Eigen::Vector2d a = d.array() * D.array();
       if (u_i < u_M) {
         A.row(r) = a;
         b[r] = u_i - u_M;
-- 
2.43.0


From c5bfd6ef84f15f9b0511aab3be87720ecdf33f1d Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 23:18:18 +0000
Subject: [PATCH 062/103] fix: centroids of unshielded faces ignore the covered
 part of the face

---
 src/CutCellData.cpp | 40 +++++++++++++++++++---------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/src/CutCellData.cpp b/src/CutCellData.cpp
index 7f56fde..ef95552 100644
--- a/src/CutCellData.cpp
+++ b/src/CutCellData.cpp
@@ -151,29 +151,27 @@ Eigen::Vector2d GetAbsoluteUnshieldedCentroid(const CutCellData<2>& geom,
   const Eigen::Vector2d regular_centroid = node_offset + face_offset;
   const double betaSL = geom.shielded_left_fractions[dir_x](face[0], face[1]);
   const double betaSR = geom.shielded_right_fractions[dir_x](face[0], face[1]);
-  
-  // find unshielded from left interval
-  const Index<2> iL = LeftTo(face, dir);
-  std::array<double, 2> betaUL_interval{0.0, 1.0};
-  if (betaSL > 0.0) {
-    const double ny = geom.boundary_normals(iL[0], iL[1], dir_y);
-    if (ny < 0.0) {
-      betaUL_interval[0] = betaSL;
-    } else {
-      betaUL_interval[1] = 1.0 - betaSL;
+  const double covered = 1.0 - geom.face_fractions[dir_x](face[0], face[1]);
+
+  // The covered part lies at the wall and the shielded part is next to it
+  auto find_unshielded = [&](const Index<2>& cell, double betaS) {
+    std::array<double, 2> interval{0.0, 1.0};
+    if (covered + betaS > 0.0) {
+      const double ny = geom.boundary_normals(cell[0], cell[1], dir_y);
+      if (ny < 0.0) {
+        interval[0] = covered + betaS;
+      } else {
+        interval[1] = 1.0 - covered - betaS;
+      }
     }
-  }
+    return interval;
+  };
+  // find unshielded from left interval
+  const std::array<double, 2> betaUL_interval =
+      find_unshielded(LeftTo(face, dir), betaSL);
   // find unshielded from right interval
-  const Index<2> iR = RightTo(face, dir);
-  std::array<double, 2> betaUR_interval{0.0, 1.0};
-  if (betaSR > 0.0) {
-    const double ny = geom.boundary_normals(iR[0], iR[1], dir_y);
-    if (ny < 0.0) {
-      betaUR_interval[0] = betaSR;
-    } else {
-      betaUR_interval[1] = 1.0 - betaSR;
-    }
-  }
+  const std::array<double, 2> betaUR_interval =
+      find_unshielded(RightTo(face, dir), betaSR);
 
   std::array<double, 2> betaU_interval = Intersect(betaUL_interval, betaUR_interval);
   const double centroid_y = 0.5 * (betaU_interval[0] + betaU_interval[1]) - 0.5;
-- 
2.43.0


From 010af55d2b265b60225822e484a8a5426f6095fa Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 23:18:18 +0000
Subject: [PATCH 063/103] fix: reflect the gradient of the mirrored state at
 embedded walls

---
 include/fub/cutcell_method/HGridReconstruction2.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fub/cutcell_method/HGridReconstruction2.hpp b/include/fub/cutcell_method/HGridReconstruction2.hpp
index b8c69d7..f9e5eee 100644
--- a/include/fub/cutcell_method/HGridReconstruction2.hpp
+++ b/include/fub/cutcell_method/HGridReconstruction2.hpp
@@ -213,6 +213,7 @@ void HGridReconstruction2<Equation, GradientT, ReconstructionMethod>::
     // ApplyGradient(boundary_gradient_, grads, e_yr);
     // rec_.Reconstruct(boundary_rec_, boundary_state_, boundary_gradient_, dt, h[iy], Direction(iy), flip_side_y);
     ApplyGradient(boundary_gradient_, grads, e_xr);
+    Reflect(boundary_gradient_, boundary_gradient_, xN, equation_);
     // boundary_state_ = boundary_rec_;
 
   } else if (betaL > betaR) {
@@ -239,6 +240,7 @@ void HGridReconstruction2<Equation, GradientT, ReconstructionMethod>::
     // ApplyGradient(boundary_gradient_, grads, e_yr);
     // rec_.Reconstruct(boundary_rec_, boundary_state_, boundary_gradient_, dt, h[iy], Direction(iy), flip_side_y);
     ApplyGradient(boundary_gradient_, grads, e_xr);
+    Reflect(boundary_gradient_, boundary_gradient_, xN, equation_);
 
     // boundary_state_ = boundary_rec_;
   }
-- 
2.43.0


From 2495f6006ba56a078b8d617fc322cfaadfaac21d Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 23:19:44 +0000
Subject: [PATCH 064/103] fix: HLL fluxes of closed faces are nan if the
 reconstruction of covered cells is

---
 include/fub/flux_method/HllMethod.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fub/flux_method/HllMethod.hpp b/include/fub/flux_method/HllMethod.hpp
index e1ab328..b1bc83e 100644
--- a/include/fub/flux_method/HllMethod.hpp
+++ b/include/fub/flux_method/HllMethod.hpp
@@ -320,7 +320,9 @@ auto HllArrayBase<Equation, SignalSpeeds, true>::ComputeNumericFlux(
       [&](auto&& nf, Array1d fL, Array1d fR, Array1d qL, Array1d qR) {
         Array1d qL_s = mask.select(qL, 0.0);
         Array1d qR_s = mask.select(qR, 0.0);
-        nf = (sR * fL - sL * fR + sLsR * (qR_s - qL_s)) / safe_ds;
+        const Array1d flux =
+            (sR * fL - sL * fR + sLsR * (qR_s - qL_s)) / safe_ds;
+        nf = mask.select(flux, 0.0);
       },
       numeric_flux, flux_left_array_, flux_right_array_, AsCons(left),
       AsCons(right));
-- 
2.43.0


From a796d2410117600ec64cf9f8ad495a5420f003ea Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 23:20:08 +0000
Subject: [PATCH 065/103] fix: find the connected neighbours of a cut cell for
 any ratio of cell sizes

---
 src/cutcell_method/AnyMdLimiter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cutcell_method/AnyMdLimiter.cpp b/src/cutcell_method/AnyMdLimiter.cpp
index 7346bf9..defd3b3 100644
--- a/src/cutcell_method/AnyMdLimiter.cpp
+++ b/src/cutcell_method/AnyMdLimiter.cpp
@@ -125,7 +125,7 @@ Eigen::Vector2d SolveLinearOptimizationProblem(
 
 template <int Rank>
 bool IsConnected(const CutCellData<Rank>& geom, const Index<Rank>& i,
-                 const Index<Rank>& j) {
+                 const Index<Rank>& j, const Coordinates<Rank>& dx) {
   if (i != j && geom.volume_fractions(j) > 0.0) {
     Coordinates<Rank> diff;
     for (int d = 0; d < Rank; ++d) {
@@ -137,7 +137,7 @@ bool IsConnected(const CutCellData<Rank>& geom, const Index<Rank>& i,
     const Coordinates<Rank> xJ = diff + GetVolumeCentroid(geom, j);
     const Coordinates<Rank> xB = GetBoundaryCentroid(geom, i);
     const Coordinates<Rank> n = GetBoundaryNormal(geom, i);
-    return n.dot(xJ - xB) >= 0.0;
+    return n.dot(((xJ - xB).array() * dx.array()).matrix()) >= 0.0;
   } else {
     return false;
   }
@@ -182,7 +182,7 @@ void LinearOptimizationLimiter<Rank>::LimitGradientsAtIndex(
     std::array<Index<Rank>, 9> neighbors;
     int count_neighbors = 0;
     ForEachIndex(neighborhood, [&](int i, int j) {
-      if (IsConnected(geom, index, {i, j})) {
+      if (IsConnected(geom, index, {i, j}, dx)) {
         neighbors[count_neighbors] = Index<Rank>{i, j};
         count_neighbors += 1;
       }
-- 
2.43.0


From cd0bdb483d8adc5eb20f106f6e5512b5f62123aa Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 23:20:24 +0000
Subject: [PATCH 066/103] fix: limit gradients of any magnitude

The QR factorization regards constraints of very small gradients as linear
dependent. Scale all constraints to the same length.
---
 src/cutcell_method/AnyMdLimiter.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/cutcell_method/AnyMdLimiter.cpp b/src/cutcell_method/AnyMdLimiter.cpp
index defd3b3..e46a53f 100644
--- a/src/cutcell_method/AnyMdLimiter.cpp
+++ b/src/cutcell_method/AnyMdLimiter.cpp
@@ -43,10 +43,20 @@ TakeRows(const Eigen::Matrix<double, Rows, Cols>& A,
 
 Eigen::Vector2d SolveLinearOptimizationProblem(
     int maxiter, const Eigen::Vector2d& x_0, const Eigen::Vector2d& c,
-    const Eigen::Matrix<double, Eigen::Dynamic, 2>& A,
-    const Eigen::VectorXd& b) {
+    const Eigen::Matrix<double, Eigen::Dynamic, 2>& A_0,
+    const Eigen::VectorXd& b_0) {
+  const int m = A_0.rows();
+  // Scale all constraints to unit length
+  Eigen::Matrix<double, Eigen::Dynamic, 2> A = A_0;
+  Eigen::VectorXd b = b_0;
+  for (int i = 0; i < m; ++i) {
+    const double norm = A.row(i).stableNorm();
+    if (norm > 0.0) {
+      A.row(i) /= norm;
+      b[i] /= norm;
+    }
+  }
   // Create initial working set
-  const int m = A.rows();
   std::array<int, 2> W_k{0, 1};
   Eigen::Matrix<double, 2, 2> A_k = TakeRows(A, W_k);
   Eigen::Vector2d x_k = x_0;
@@ -63,8 +73,7 @@ Eigen::Vector2d SolveLinearOptimizationProblem(
 
     // Step 2: If λ_k >= 0, STOP. In this case, the point x_k is optimal.
     const std::array<bool, 2> is_negative{
-        lambda_k[0] * A_k.row(0).norm() < -eps * c.norm(),
-        lambda_k[1] * A_k.row(1).norm() < -eps * c.norm()};
+        lambda_k[0] < -eps * c.norm(), lambda_k[1] < -eps * c.norm()};
     if (!is_negative[0] && !is_negative[1]) {
       return x_k;
     }
@@ -87,7 +96,7 @@ Eigen::Vector2d SolveLinearOptimizationProblem(
     int min_i = m;
     for (int i = 0; i < m; ++i) {
       const double ap = A.row(i).transpose().dot(p_k);
-      if (ap < -eps * A.row(i).norm() * p_k.norm()) {
+      if (ap < -eps * p_k.norm()) {
         const double Aix = A.row(i).transpose().dot(x_k);
         const double y_i = std::max(0.0, (b[i] - Aix) / ap);
         const double tolerance = eps / p_k.norm();
-- 
2.43.0


From 35ac2b4b0950b6f22ffcec682c58f015695406c4 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 23:22:29 +0000
Subject: [PATCH 067/103] fix: limit gradients of primitive variables with
 respect to these variables

The slopes of velocity and pressure have been limited by differences of
momentum and energy, which belong to other quantities.
---
 include/fub/cutcell_method/MdGradients.hpp | 45 ++++++++++++++++++++--
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/include/fub/cutcell_method/MdGradients.hpp b/include/fub/cutcell_method/MdGradients.hpp
index 9bcd95d..93d850b 100644
--- a/include/fub/cutcell_method/MdGradients.hpp
+++ b/include/fub/cutcell_method/MdGradients.hpp
@@ -11,6 +11,8 @@
 #include "fub/core/span.hpp"
 #include "fub/ext/Eigen.hpp"
 
+#include <vector>
+
 namespace fub {
 template <typename GradientMethod> class MdGradients {
 public:
@@ -177,15 +179,50 @@ void MdGradients<GradientMethod>::ComputeGradients(
       Store(gradient_y, gradient[1], {i, j});
       Store(gradient_z, zero, {i, j});
     });
+    // Limit each gradient with respect to the quantity it is a gradient of
+    IndexBox<Rank> values_box = box;
+    for (std::size_t d = 0; d < static_cast<std::size_t>(Rank); ++d) {
+      values_box.lower[d] -= 1;
+      values_box.upper[d] += 1;
+    }
+    values_box = Intersect(values_box, Box<0>(states));
+    const std::ptrdiff_t nx = values_box.upper[0] - values_box.lower[0];
+    const std::ptrdiff_t ny = values_box.upper[1] - values_box.lower[1];
+    std::vector<std::vector<double>> values;
+    ForEachComponent(
+        [&](double) {
+          values.emplace_back(static_cast<std::size_t>(nx * ny), 0.0);
+        },
+        zero);
+    Gradient value{equation_};
+    ForEachIndex(values_box, [&](std::ptrdiff_t i, std::ptrdiff_t j) {
+      if (geom.volume_fractions(i, j) > 0.0) {
+        Load(u[0], states, {i, j});
+        StateFromComplete(equation_, value, u[0]);
+        const std::ptrdiff_t offset =
+            (i - values_box.lower[0]) + nx * (j - values_box.lower[1]);
+        std::size_t component = 0;
+        ForEachComponent(
+            [&](double x) {
+              values[component][static_cast<std::size_t>(offset)] = x;
+              component += 1;
+            },
+            value);
+      }
+    });
+    std::size_t component = 0;
     ForEachComponent(
         [&](const StridedDataView<double, 2>& u_x,
-            const StridedDataView<double, 2>& u_y,
-            const StridedDataView<const double, 2>& u) {
+            const StridedDataView<double, 2>& u_y) {
           std::array<StridedDataView<double, 2>, 2> grad_u{u_x.Subview(box),
                                                            u_y.Subview(box)};
-          LimitGradients(grad_u, u.Subview(box), geom, dx);
+          const PatchDataView<const double, 2> values_view(
+              mdspan<const double, 2>(values[component].data(), nx, ny),
+              values_box.lower);
+          LimitGradients(grad_u, values_view.Subview(box), geom, dx);
+          component += 1;
         },
-        gradient_x, gradient_y, states);
+        gradient_x, gradient_y);
   }
 }
 
-- 
2.43.0


From bee63a7a5b4d4df5e9c32df9dbf07ef9f4f2b7b2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:39:00 +0000
Subject: [PATCH 068/103] fix: printing statistics of a map of counters does
 not compile

---
 include/fub/counter/CounterRegistry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fub/counter/CounterRegistry.hpp b/include/fub/counter/CounterRegistry.hpp
index cd7761c..b544618 100644
--- a/include/fub/counter/CounterRegistry.hpp
+++ b/include/fub/counter/CounterRegistry.hpp
@@ -80,7 +80,7 @@ int LengthOfFirstColumn(const ResultRange& results) {
       return std::max_element(results.begin(), results.end(),
                               [](auto&& p1, auto&& p2) {
                                 const std::string& name1 = std::get<0>(p1);
-                                const std::string& name2 = std::get<1>(p2);
+                                const std::string& name2 = std::get<0>(p2);
                                 return name1.size() < name2.size();
                               })
           ->first.size();
-- 
2.43.0


From d6c5c5625ec5319a9f321bd1f0527111654445ab Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:39:23 +0000
Subject: [PATCH 069/103] fix: assigning to a running timer drops its
 measurement

---
 src/counter/Timer.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/counter/Timer.cpp b/src/counter/Timer.cpp
index 3735b86..a273e4b 100644
--- a/src/counter/Timer.cpp
+++ b/src/counter/Timer.cpp
@@ -34,6 +34,14 @@ Timer::Timer(Timer&& other) noexcept
                                std::chrono::steady_clock::time_point())) {}
 
 Timer& Timer::operator=(Timer&& other) noexcept {
+  if (this == &other) {
+    return *this;
+  }
+  // End the current measurement as the destructor does
+  if (counter_) {
+    this->stop();
+    this->submit();
+  }
   counter_ = std::exchange(other.counter_, nullptr);
   start_time_ =
       std::exchange(other.start_time_, std::chrono::steady_clock::time_point());
-- 
2.43.0


From dd3383529bbda0fac7599634f2ffabb735c88a1f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:39:23 +0000
Subject: [PATCH 070/103] fix: gathered statistics mix counters if processes
 create them in different order

---
 include/fub/counter/CounterRegistry.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fub/counter/CounterRegistry.hpp b/include/fub/counter/CounterRegistry.hpp
index b544618..c55214c 100644
--- a/include/fub/counter/CounterRegistry.hpp
+++ b/include/fub/counter/CounterRegistry.hpp
@@ -41,7 +41,8 @@ public:
   std::unordered_map<std::string, CounterResult> gather_statistics_map();
 
 private:
-  std::unordered_map<std::string, Counter> database_;
+  // ordered by name, because all processes gather statistics in this order
+  std::map<std::string, Counter> database_;
 };
 
 /*
-- 
2.43.0


From 32a6eaf7805ef097160256de9746856db80734db Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:00:37 +0000
Subject: [PATCH 071/103] fix: log messages of a single character are dropped

---
 src/ext/Log.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ext/Log.cpp b/src/ext/Log.cpp
index 4a35082..e207e2f 100644
--- a/src/ext/Log.cpp
+++ b/src/ext/Log.cpp
@@ -75,7 +75,7 @@ void FormatLogs_(const boost::log::record_view& rec,
 
   const std::string replace_by = std::string("\n") + prefix.str();
   std::string message = rec[expr::smessage].get();
-  if (message.size() > 1) {
+  if (!message.empty() && message != "\n") {
     boost::replace_all(message, "\n", replace_by);
     stream << prefix.str() << message;
   }
-- 
2.43.0


From fff65df59816979d9005b27b2165f892c97f198c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:00:37 +0000
Subject: [PATCH 072/103] fix: old log files of processes other than the first
 one are overwritten

---
 src/ext/Log.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ext/Log.cpp b/src/ext/Log.cpp
index e207e2f..54cf21a 100644
--- a/src/ext/Log.cpp
+++ b/src/ext/Log.cpp
@@ -90,7 +90,12 @@ void InitializeLogging(MPI_Comm comm, const LogOptions& options) {
 
   std::string log_filename =
       fmt::format(options.file_template, fmt::arg("rank", rank));
-  if (rank == 0) {
+  auto first = options.which_mpi_ranks_do_log.begin();
+  auto last = options.which_mpi_ranks_do_log.end();
+  auto found = std::find(first, last, rank);
+  // Every process that logs may be the first one in the directory and may have
+  // an old log file.
+  if (found != last) {
     // create directory if neccessary
     boost::filesystem::path path(log_filename);
     boost::filesystem::path dir = boost::filesystem::absolute(
@@ -132,9 +137,6 @@ void InitializeLogging(MPI_Comm comm, const LogOptions& options) {
     }
   }
 
-  auto first = options.which_mpi_ranks_do_log.begin();
-  auto last = options.which_mpi_ranks_do_log.end();
-  auto found = std::find(first, last, rank);
   if (found != last) {
     using text_sink = boost::log::sinks::synchronous_sink<
         boost::log::sinks::text_ostream_backend>;
-- 
2.43.0


From 318e58f13d5b0f2cf3b9b2a58d128f3ce6a94828 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:00:37 +0000
Subject: [PATCH 073/103] fix: copying an input file which is already in place
 throws

---
 src/ext/CopyInputFile.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ext/CopyInputFile.cpp b/src/ext/CopyInputFile.cpp
index f7d86d2..0a90e35 100644
--- a/src/ext/CopyInputFile.cpp
+++ b/src/ext/CopyInputFile.cpp
@@ -59,9 +59,13 @@ void CopyInputFile(MPI_Comm comm, const InputFileOptions& options, int argc,
     po::store(po::parse_command_line(argc, argv, desc), vm);
     if (vm.count("config")) {
       config_path = vm["config"].as<std::string>();
-      boost::filesystem::copy_file(
-          config_path, filename,
-          boost::filesystem::copy_option::overwrite_if_exists);
+      // There is nothing to copy if the input file is already in place.
+      if (!boost::filesystem::exists(filename) ||
+          !boost::filesystem::equivalent(config_path, filename)) {
+        boost::filesystem::copy_file(
+            config_path, filename,
+            boost::filesystem::copy_option::overwrite_if_exists);
+      }
     }
   }
 }
-- 
2.43.0


From 74856a03bce5e9fe273279df68ad5c274c7ea294 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:08:59 +0000
Subject: [PATCH 074/103] fix: copying empty initial data dereferences a null
 pointer

---
 include/fub/AnyInitialData.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fub/AnyInitialData.hpp b/include/fub/AnyInitialData.hpp
index 40e43cd..9a754f1 100644
--- a/include/fub/AnyInitialData.hpp
+++ b/include/fub/AnyInitialData.hpp
@@ -134,7 +134,8 @@ AnyInitialData<GriddingAlgorithm>::AnyInitialData(T&& initial_data)
 
 template <typename GriddingAlgorithm>
 AnyInitialData<GriddingAlgorithm>::AnyInitialData(const AnyInitialData& other)
-    : initial_data_(other.initial_data_->Clone()) {}
+    : initial_data_(other.initial_data_ ? other.initial_data_->Clone()
+                                        : nullptr) {}
 
 template <typename GriddingAlgorithm>
 AnyInitialData<GriddingAlgorithm>&
-- 
2.43.0


From 4054de5f7b30b90b35284a66e480653d1340453a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:08:59 +0000
Subject: [PATCH 075/103] fix: flux methods can not be cast to their wrapped
 type

---
 include/fub/HyperbolicMethod.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fub/HyperbolicMethod.hpp b/include/fub/HyperbolicMethod.hpp
index 764d040..dc16bed 100644
--- a/include/fub/HyperbolicMethod.hpp
+++ b/include/fub/HyperbolicMethod.hpp
@@ -146,6 +146,8 @@ public:
   int GetStencilWidth() const;
 
 private:
+  template <typename F, typename I> friend F& AnyCast(AnyFluxMethod<I>& f);
+
   std::unique_ptr<detail::FluxMethodBase<IntegratorContext>> flux_method_;
 };
 
-- 
2.43.0


From ea64b10c1522a6de410393b64d80dddd40d39c91 Mon Sep 17 00:00:00 2001
From: x <v@v>
Date: Fri, 20 Nov 2026 01:23:11 +0000
Subject: [PATCH 076/103] fix: new levels leave the derived quantities
 uninitialised

---
 src/AMReX/GriddingAlgorithm.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/AMReX/GriddingAlgorithm.cpp b/src/AMReX/GriddingAlgorithm.cpp
index fe82817..80e7863 100644
--- a/src/AMReX/GriddingAlgorithm.cpp
+++ b/src/AMReX/GriddingAlgorithm.cpp
@@ -216,15 +216,12 @@ void GriddingAlgorithm::MakeNewLevelFromCoarse(
   PatchLevel fine_level(level, Duration(time_point), box_array,
                         distribution_mapping, hierarchy_.GetDataDescription(),
                         hierarchy_.GetMFInfo());
-  const int cons_start = hierarchy_.GetDataDescription().first_cons_component;
-  const int n_cons_components =
-      hierarchy_.GetDataDescription().n_cons_components;
   ::amrex::Vector<::amrex::BCRec> bcr(static_cast<std::size_t>(n_comps));
   BoundaryConditionRef fine_boundary(boundary_condition_, *this, level);
   BoundaryConditionRef coarse_boundary(boundary_condition_, *this, level - 1);
   ::amrex::InterpFromCoarseLevel(
-      fine_level.data, time_point, coarse_level.data, cons_start, cons_start,
-      n_cons_components, hierarchy_.GetGeometry(level - 1),
+      fine_level.data, time_point, coarse_level.data, 0, 0, n_comps,
+      hierarchy_.GetGeometry(level - 1),
       hierarchy_.GetGeometry(level), fine_boundary, 0, coarse_boundary, 0,
       {AMREX_D_DECL(2, 2, 2)}, &::amrex::pc_interp, bcr, 0);
   if (level == hierarchy_.GetNumberOfLevels()) {
-- 
2.43.0


From 82b97768e823f52f8155cd6aa6c9f54453dfc1f2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:23:11 +0000
Subject: [PATCH 077/103] fix: grids can not remove more than one level at once

---
 src/AMReX/GriddingAlgorithm.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/AMReX/GriddingAlgorithm.cpp b/src/AMReX/GriddingAlgorithm.cpp
index 80e7863..529f1e2 100644
--- a/src/AMReX/GriddingAlgorithm.cpp
+++ b/src/AMReX/GriddingAlgorithm.cpp
@@ -246,9 +246,12 @@ void GriddingAlgorithm::RemakeLevel(
   hierarchy_.GetPatchLevel(level_number) = std::move(new_level);
 }
 
-void GriddingAlgorithm::ClearLevel([[maybe_unused]] int level) {
-  FUB_ASSERT(0 < level && level + 1 == hierarchy_.GetNumberOfLevels());
-  hierarchy_.PopBack();
+void GriddingAlgorithm::ClearLevel(int level) {
+  FUB_ASSERT(0 < level);
+  // AMReX clears vanished levels in ascending order
+  while (level < hierarchy_.GetNumberOfLevels()) {
+    hierarchy_.PopBack();
+  }
 }
 
 const AnyBoundaryCondition&
-- 
2.43.0


From cf3309e97c3cb149be1716a2fe0567105b0724e6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:42:24 +0000
Subject: [PATCH 078/103] fix: new levels ignore the refinement ratio of the
 hierarchy

---
 src/AMReX/GriddingAlgorithm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AMReX/GriddingAlgorithm.cpp b/src/AMReX/GriddingAlgorithm.cpp
index 529f1e2..2e23346 100644
--- a/src/AMReX/GriddingAlgorithm.cpp
+++ b/src/AMReX/GriddingAlgorithm.cpp
@@ -223,7 +223,7 @@ void GriddingAlgorithm::MakeNewLevelFromCoarse(
       fine_level.data, time_point, coarse_level.data, 0, 0, n_comps,
       hierarchy_.GetGeometry(level - 1),
       hierarchy_.GetGeometry(level), fine_boundary, 0, coarse_boundary, 0,
-      {AMREX_D_DECL(2, 2, 2)}, &::amrex::pc_interp, bcr, 0);
+      hierarchy_.GetRatioToCoarserLevel(level), &::amrex::pc_interp, bcr, 0);
   if (level == hierarchy_.GetNumberOfLevels()) {
     hierarchy_.PushBack(std::move(fine_level));
   } else {
-- 
2.43.0


From bb1754b69d75b80f53fe2a492725a2095d4f9398 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:42:24 +0000
Subject: [PATCH 079/103] fix: box arrays of levels which do not exist are read
 out of bounds

---
 src/AMReX/PatchHierarchy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/AMReX/PatchHierarchy.cpp b/src/AMReX/PatchHierarchy.cpp
index d357e60..cf5d50d 100644
--- a/src/AMReX/PatchHierarchy.cpp
+++ b/src/AMReX/PatchHierarchy.cpp
@@ -233,7 +233,7 @@ const ::amrex::Vector<::amrex::Geometry> PatchHierarchy::GetGeometries() const {
 }
 
 const ::amrex::Vector<::amrex::BoxArray> PatchHierarchy::GetBoxArrays() const {
-  const std::size_t nlevels = patch_level_geometry_.size();
+  const std::size_t nlevels = patch_level_.size();
   ::amrex::Vector<::amrex::BoxArray> bas(nlevels);
   for (std::size_t level = 0; level < nlevels; ++level) {
     bas[level] = GetPatchLevel(static_cast<int>(level)).box_array;
@@ -243,7 +243,7 @@ const ::amrex::Vector<::amrex::BoxArray> PatchHierarchy::GetBoxArrays() const {
 
 const ::amrex::Vector<::amrex::DistributionMapping>
 PatchHierarchy::GetDistributionMappings() const {
-  const std::size_t nlevels = patch_level_geometry_.size();
+  const std::size_t nlevels = patch_level_.size();
   ::amrex::Vector<::amrex::DistributionMapping> dms(nlevels);
   for (std::size_t level = 0; level < nlevels; ++level) {
     dms[level] = GetPatchLevel(static_cast<int>(level)).distribution_mapping;
-- 
2.43.0


From 86e3e0026e91b298005232906666203b548838ee Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:42:45 +0000
Subject: [PATCH 080/103] fix: regridding resets the cycle count of a level

---
 src/AMReX/GriddingAlgorithm.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/AMReX/GriddingAlgorithm.cpp b/src/AMReX/GriddingAlgorithm.cpp
index 2e23346..7a3b7bc 100644
--- a/src/AMReX/GriddingAlgorithm.cpp
+++ b/src/AMReX/GriddingAlgorithm.cpp
@@ -243,6 +243,7 @@ void GriddingAlgorithm::RemakeLevel(
   PatchLevel new_level(level_number, Duration(time_point), box_array,
                        distribution_mapping, desc, hierarchy_.GetMFInfo());
   FillMultiFabFromLevel(new_level.data, level_number);
+  new_level.cycles = hierarchy_.GetPatchLevel(level_number).cycles;
   hierarchy_.GetPatchLevel(level_number) = std::move(new_level);
 }
 
-- 
2.43.0


From 712225c8140bc5c0f81fe6b7b68c3a81babdf333 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:42:45 +0000
Subject: [PATCH 081/103] fix: copying patch levels with face data takes arenas
 of other faces

---
 src/AMReX/PatchHierarchy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/AMReX/PatchHierarchy.cpp b/src/AMReX/PatchHierarchy.cpp
index cf5d50d..67411f0 100644
--- a/src/AMReX/PatchHierarchy.cpp
+++ b/src/AMReX/PatchHierarchy.cpp
@@ -83,7 +83,7 @@ PatchLevel::PatchLevel(const PatchLevel& other)
       faces[2] = std::make_unique<::amrex::MultiFab>(
           on_faces, distribution_mapping, other.faces[2]->nComp(),
           other.faces[2]->nGrowVect(),
-          ::amrex::MFInfo().SetArena(other.faces[1]->arena()),
+          ::amrex::MFInfo().SetArena(other.faces[2]->arena()),
           other.faces[2]->Factory());
       faces[2]->ParallelCopy(*other.faces[2]);
     }
@@ -92,7 +92,7 @@ PatchLevel::PatchLevel(const PatchLevel& other)
       faces[1] = std::make_unique<::amrex::MultiFab>(
           on_faces, distribution_mapping, other.faces[1]->nComp(),
           other.faces[1]->nGrowVect(),
-          ::amrex::MFInfo().SetArena(other.faces[2]->arena()),
+          ::amrex::MFInfo().SetArena(other.faces[1]->arena()),
           other.faces[1]->Factory());
       faces[1]->ParallelCopy(*other.faces[1]);
     }
-- 
2.43.0


From a14ea1d9a0ad0ea5910e1acc4fd784c78d4210ba Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:43:05 +0000
Subject: [PATCH 082/103] fix: copying patch levels reads faces of directions
 which do not exist

---
 src/AMReX/PatchHierarchy.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/AMReX/PatchHierarchy.cpp b/src/AMReX/PatchHierarchy.cpp
index 67411f0..929f1c7 100644
--- a/src/AMReX/PatchHierarchy.cpp
+++ b/src/AMReX/PatchHierarchy.cpp
@@ -78,6 +78,7 @@ PatchLevel::PatchLevel(const PatchLevel& other)
         ::amrex::MFInfo().SetArena(other.faces[0]->arena()),
         other.faces[0]->Factory());
     faces[0]->ParallelCopy(*other.faces[0]);
+#if AMREX_SPACEDIM > 2
     if (other.faces[2]) {
       on_faces.convert({AMREX_D_DECL(0, 0, 1)});
       faces[2] = std::make_unique<::amrex::MultiFab>(
@@ -87,6 +88,8 @@ PatchLevel::PatchLevel(const PatchLevel& other)
           other.faces[2]->Factory());
       faces[2]->ParallelCopy(*other.faces[2]);
     }
+#endif
+#if AMREX_SPACEDIM > 1
     if (other.faces[1]) {
       on_faces.convert({AMREX_D_DECL(0, 1, 0)});
       faces[1] = std::make_unique<::amrex::MultiFab>(
@@ -96,6 +99,7 @@ PatchLevel::PatchLevel(const PatchLevel& other)
           other.faces[1]->Factory());
       faces[1]->ParallelCopy(*other.faces[1]);
     }
+#endif
   }
 }
 
-- 
2.43.0


From 0fb58eac10a41837fc41088e38cd17936d5af320 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:43:05 +0000
Subject: [PATCH 083/103] fix: copies of integrator contexts lose their
 feedback and time step functions

---
 src/AMReX/IntegratorContext.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/AMReX/IntegratorContext.cpp b/src/AMReX/IntegratorContext.cpp
index 7006104..b5712bb 100644
--- a/src/AMReX/IntegratorContext.cpp
+++ b/src/AMReX/IntegratorContext.cpp
@@ -172,9 +172,11 @@ IntegratorContext::IntegratorContext(
 }
 
 IntegratorContext::IntegratorContext(const IntegratorContext& other)
-    : options_{other.options_}, gridding_{std::make_shared<GriddingAlgorithm>(
-                                    *other.gridding_)},
-      data_{}, method_{other.method_} {}
+    : count_per_level{other.count_per_level}, options_{other.options_},
+      gridding_{std::make_shared<GriddingAlgorithm>(*other.gridding_)}, data_{},
+      method_{other.method_},
+      post_advance_hierarchy_feedback_{other.post_advance_hierarchy_feedback_},
+      user_compute_stable_dt_{other.user_compute_stable_dt_} {}
 
 IntegratorContext& IntegratorContext::IntegratorContext::
 operator=(const IntegratorContext& other) {
-- 
2.43.0


From 95254fb42bb1acda4f5dbfe1ddf848f0a1ac0b30 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:43:05 +0000
Subject: [PATCH 084/103] fix: regrid_frequency suspends ghost cell exchanges
 instead of regridding

---
 include/fub/solver/SubcycleFineFirstSolver.hpp | 5 +----
 src/AMReX/IntegratorContext.cpp                | 2 +-
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/fub/solver/SubcycleFineFirstSolver.hpp b/include/fub/solver/SubcycleFineFirstSolver.hpp
index c831ad4..23c4497 100644
--- a/include/fub/solver/SubcycleFineFirstSolver.hpp
+++ b/include/fub/solver/SubcycleFineFirstSolver.hpp
@@ -178,10 +178,7 @@ template <typename LevelIntegrator>
 Result<void, TimeStepTooLarge>
 SubcycleFineFirstSolver<LevelIntegrator>::AdvanceHierarchy(Duration dt) {
   Result<void, TimeStepTooLarge> result = AdvanceLevel(0, dt, {0, 1});
-  const int num_step = Base::GetCycles();
-  int fill_boundary_frequency =
-      Base::GetContext().GetOptions().regrid_frequency;
-  if (result && num_step % fill_boundary_frequency == 0) {
+  if (result) {
     Base::GetContext().FillGhostLayerSingleLevel(0);
     int this_level = 1;
     while (Base::GetContext().LevelExists(this_level)) {
diff --git a/src/AMReX/IntegratorContext.cpp b/src/AMReX/IntegratorContext.cpp
index b5712bb..81f5761 100644
--- a/src/AMReX/IntegratorContext.cpp
+++ b/src/AMReX/IntegratorContext.cpp
@@ -614,7 +614,7 @@ int IntegratorContext::PreAdvanceLevel(int level_num, Duration dt,
   const std::size_t l = static_cast<std::size_t>(level_num);
   const int max_level = GetPatchHierarchy().GetMaxNumberOfLevels();
   int regrid_level = max_level;
-  if (subcycle.first == 0) {
+  if (subcycle.first == 0 && GetCycles(0) % options_.regrid_frequency == 0) {
     if (data_[l].regrid_time_point != data_[l].time_point) {
       regrid_level = gridding_->RegridAllFinerlevels(level_num);
       for (std::size_t lvl = l; lvl < data_.size(); ++lvl) {
-- 
2.43.0


From 437b63bdb227495b71df5a3e5ded069c76eb9b2e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:19:39 +0000
Subject: [PATCH 085/103] fix: boundary conditions leave ghost cells unset next
 to periodic boundaries

---
 include/fub/AMReX/boundary_condition/ConstantBoundary.hpp | 3 ++-
 src/AMReX/boundary_condition/TransmissiveBoundary.cpp     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/fub/AMReX/boundary_condition/ConstantBoundary.hpp b/include/fub/AMReX/boundary_condition/ConstantBoundary.hpp
index 34c3ea0..d1b8fad 100644
--- a/include/fub/AMReX/boundary_condition/ConstantBoundary.hpp
+++ b/include/fub/AMReX/boundary_condition/ConstantBoundary.hpp
@@ -57,7 +57,8 @@ template <typename Equation> struct ConstantBoundary {
     int idir = static_cast<int>(dir);
     if (!geom.isPeriodic(idir)) {
       const int ngrow = mf.nGrow(idir);
-      ::amrex::Box fully_grown_box = geom.growNonPeriodicDomain(ngrow);
+      ::amrex::Box fully_grown_box =
+          ::amrex::grow(geom.Domain(), mf.nGrowVect());
       ::amrex::Box grown_dir_box = ::amrex::grow(fully_grown_box, idir, -ngrow);
       ::amrex::BoxList boundaries = ::amrex::complementIn(
           fully_grown_box, ::amrex::BoxList{grown_dir_box});
diff --git a/src/AMReX/boundary_condition/TransmissiveBoundary.cpp b/src/AMReX/boundary_condition/TransmissiveBoundary.cpp
index cbac25f..39d8706 100644
--- a/src/AMReX/boundary_condition/TransmissiveBoundary.cpp
+++ b/src/AMReX/boundary_condition/TransmissiveBoundary.cpp
@@ -62,7 +62,8 @@ void TransmissiveBoundary::FillBoundary(::amrex::MultiFab& mf,
   int idir = static_cast<int>(dir);
   if (!geom.isPeriodic(idir)) {
     const int ngrow = mf.nGrow(idir);
-    ::amrex::Box fully_grown_box = geom.growNonPeriodicDomain(ngrow);
+    ::amrex::Box fully_grown_box =
+        ::amrex::grow(geom.Domain(), mf.nGrowVect());
     ::amrex::Box grown_dir_box = ::amrex::grow(fully_grown_box, idir, -ngrow);
     ::amrex::BoxList boundaries =
         ::amrex::complementIn(fully_grown_box, ::amrex::BoxList{grown_dir_box});
-- 
2.43.0


From 9a2b4233210462144a8743227b77eb523c800245 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:19:39 +0000
Subject: [PATCH 086/103] fix: reflective boundaries leave ghost cells in
 domain corners unset

---
 .../fub/AMReX/boundary_condition/ReflectiveBoundary.hpp   | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/fub/AMReX/boundary_condition/ReflectiveBoundary.hpp b/include/fub/AMReX/boundary_condition/ReflectiveBoundary.hpp
index 5e8866d..c8b41c9 100644
--- a/include/fub/AMReX/boundary_condition/ReflectiveBoundary.hpp
+++ b/include/fub/AMReX/boundary_condition/ReflectiveBoundary.hpp
@@ -67,10 +67,14 @@ ReflectiveBoundary<Tag, Equation>::ReflectiveBoundary(Tag,
 template <typename Tag, typename Equation>
 void ReflectiveBoundary<Tag, Equation>::FillBoundary(
     ::amrex::MultiFab& mf, const ::amrex::Geometry& geom) {
+  if (geom.isPeriodic(int(dir_))) {
+    return;
+  }
   const int ngrow = mf.nGrow(int(dir_));
-  ::amrex::Box grown_box = geom.growNonPeriodicDomain(ngrow);
+  ::amrex::Box grown_box = ::amrex::grow(geom.Domain(), mf.nGrowVect());
+  ::amrex::Box grown_dir_box = ::amrex::grow(grown_box, int(dir_), -ngrow);
   ::amrex::BoxList boundaries =
-      ::amrex::complementIn(grown_box, ::amrex::BoxList{geom.Domain()});
+      ::amrex::complementIn(grown_box, ::amrex::BoxList{grown_dir_box});
   if (boundaries.isEmpty()) {
     return;
   }
-- 
2.43.0


From a633c17f8946a15f68ac5baaff8897e50fcc42a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:09 +0000
Subject: [PATCH 087/103] fix: assigning a reactor keeps the lanes of the old
 one

The move assignment of FlameMasterReactor transferred the scalar state only.
The vectorised state stayed what it was before the assignment.
---
 src/equations/ideal_gas_mix/FlameMasterReactor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
index c1458d2..7659565 100644
--- a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
+++ b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
@@ -362,6 +362,7 @@ FlameMasterReactor& FlameMasterReactor::
 operator=(FlameMasterReactor&& other) noexcept {
   mechanism_ = std::move(other.mechanism_);
   state_ = std::move(other.state_);
+  array_state_ = std::move(other.array_state_);
   ode_solver_ = std::move(other.ode_solver_);
   state_.temperature = state_.molesStorage.data();
   state_.moles = make_span(state_.molesStorage).subspan(1);
-- 
2.43.0


From 97f867b9546c10c3f9f38f7aa3837fb1e4da4431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:23 +0000
Subject: [PATCH 088/103] fix: a new reactor starts with uninitialised lanes

Only the mass fraction of the first species was set, those of the others were
whatever the memory held.
---
 src/equations/ideal_gas_mix/FlameMasterReactor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
index 7659565..6984240 100644
--- a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
+++ b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
@@ -334,6 +334,7 @@ FlameMasterReactor::FlameMasterReactor(const FlameMasterMechanism& mechanism)
   UpdateMolesFromMassFractions(state_);
   SetTemperature(300.);
   SetPressure(101325.);
+  array_state_.massFractions.setZero();
   array_state_.massFractions.row(0) = Array1d::Constant(1.0);
   SetTemperatureArray(Array1d::Constant(300.0));
   SetPressureArray(Array1d::Constant(101325.0));
-- 
2.43.0


From b3c1ce971a995b61ef4fc3e7d38ab6ec452efe85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:13 +0000
Subject: [PATCH 089/103] fix: an output frequency of zero crashes the run

Intervals which are not positive are ignored, but a frequency of zero was used
as a divisor.
---
 include/fub/output/OutputAtFrequencyOrInterval.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/fub/output/OutputAtFrequencyOrInterval.hpp b/include/fub/output/OutputAtFrequencyOrInterval.hpp
index 54abe73..517b49c 100644
--- a/include/fub/output/OutputAtFrequencyOrInterval.hpp
+++ b/include/fub/output/OutputAtFrequencyOrInterval.hpp
@@ -73,9 +73,10 @@ public:
 
   bool ShallOutputNow(const GriddingAlgorithm& grid) override {
     const std::ptrdiff_t cycle = grid.GetCycles();
-    if (std::any_of(
-            frequencies_.begin(), frequencies_.end(),
-            [cycle](std::ptrdiff_t freq) { return cycle % freq == 0; })) {
+    if (std::any_of(frequencies_.begin(), frequencies_.end(),
+                    [cycle](std::ptrdiff_t freq) {
+                      return freq != 0 && cycle % freq == 0;
+                    })) {
       return true;
     }
     const Duration time_point = grid.GetTimePoint();
-- 
2.43.0


From 43f71cef904bc9c84cf84f406510f38b1e3cab8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:28 +0000
Subject: [PATCH 090/103] fix: isentropic pressure changes alter the
 composition of the mixture

---
 include/fub/equations/PerfectGasMix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fub/equations/PerfectGasMix.hpp b/include/fub/equations/PerfectGasMix.hpp
index 289f136..c838687 100644
--- a/include/fub/equations/PerfectGasMix.hpp
+++ b/include/fub/equations/PerfectGasMix.hpp
@@ -634,8 +634,8 @@ private:
     q.density = rho_new;
     q.momentum = rhou_new;
     q.energy = rhoE_new;
-    q.species = q0.species;
-    q.passive_scalars = q0.passive_scalars;
+    q.species = q0.species * (rho_new / rho_old);
+    q.passive_scalars = q0.passive_scalars * (rho_new / rho_old);
     q.pressure = p_new;
     q.speed_of_sound = std::sqrt(eq.gamma * p_new / rho_new);
   }
-- 
2.43.0


From 6ce625bd3a8b836bd9ac4e4900fa14f8716e7d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:35 +0000
Subject: [PATCH 091/103] fix: the pressure valve does not compile in one
 dimension

---
 src/AMReX/boundary_condition/PressureValveBoundary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AMReX/boundary_condition/PressureValveBoundary.cpp b/src/AMReX/boundary_condition/PressureValveBoundary.cpp
index 1376332..4f84015 100644
--- a/src/AMReX/boundary_condition/PressureValveBoundary.cpp
+++ b/src/AMReX/boundary_condition/PressureValveBoundary.cpp
@@ -103,7 +103,7 @@ GatherMoles_(const GriddingAlgorithm& grid, double x, IdealGasMix<1>& eq) {
       const ::amrex::FArrayBox& fab = data[mfi];
       auto view = MakeView<const Complete<IdealGasMix<1>>>(fab, eq);
       ForEachIndex(Box<0>(view), [&](std::ptrdiff_t i) {
-        ::amrex::IntVect iv(AMREX_D_DECL(int(i), 0, 0));
+        ::amrex::IntVect iv{AMREX_D_DECL(int(i), 0, 0)};
         double x_lo[AMREX_SPACEDIM]{};
         geom.LoNode(iv, x_lo);
         double x_hi[AMREX_SPACEDIM]{};
-- 
2.43.0


From 5f43df43ff9dbe34f4c3a29b034e67ac115b72ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:27 +0000
Subject: [PATCH 092/103] fix: the mean value in a box counts ghost cells as
 well

---
 src/AMReX/MultiFabUtilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AMReX/MultiFabUtilities.cpp b/src/AMReX/MultiFabUtilities.cpp
index 454cd20..d2bef98 100644
--- a/src/AMReX/MultiFabUtilities.cpp
+++ b/src/AMReX/MultiFabUtilities.cpp
@@ -79,7 +79,7 @@ double GetMeanValueInBox(const ::amrex::MultiFab& data, const ::amrex::Box& box,
   OmpLocal<double> omp_local_value{double{0.0}};
   ForEachFab(execution::openmp, data, [&](const ::amrex::MFIter& mfi) {
     const ::amrex::FArrayBox& fab = data[mfi];
-    const ::amrex::Box subbox = box & fab.box();
+    const ::amrex::Box subbox = box & mfi.tilebox();
     *omp_local_value += fab.sum(subbox, component) / volume;
   });
   const double local_value = omp_local_value.Accumulate();
-- 
2.43.0


From d1e52e7f4e980e3e91de16086d6814e72dfbc1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:27 +0000
Subject: [PATCH 093/103] fix: the mass flow boundary misses supersonic inflow
 at the upper side

---
 src/AMReX/boundary_condition/MassflowBoundary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AMReX/boundary_condition/MassflowBoundary.cpp b/src/AMReX/boundary_condition/MassflowBoundary.cpp
index c5501c0..9eb4515 100644
--- a/src/AMReX/boundary_condition/MassflowBoundary.cpp
+++ b/src/AMReX/boundary_condition/MassflowBoundary.cpp
@@ -113,7 +113,7 @@ void MassflowBoundary<Rank>::ComputeBoundaryState(
           return m;
         }
       } else {
-        if (m <= -(2.0 - uL)) {
+        if (m <= -(2.0 + uL)) {
           return m;
         } else {
           return 1.0 - std::sqrt((uL + 1.0) * (uL + 1.0) - 4.0 * m);
-- 
2.43.0


From d56fdfed8d28a7be9cee69833d118d37b8cc4b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:27 +0000
Subject: [PATCH 094/103] fix: the isentropic pressure boundary reverses a flow
 that it only slows down

---
 src/AMReX/boundary_condition/IsentropicPressureBoundary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AMReX/boundary_condition/IsentropicPressureBoundary.cpp b/src/AMReX/boundary_condition/IsentropicPressureBoundary.cpp
index e705594..a58cdb9 100644
--- a/src/AMReX/boundary_condition/IsentropicPressureBoundary.cpp
+++ b/src/AMReX/boundary_condition/IsentropicPressureBoundary.cpp
@@ -84,7 +84,7 @@ void IsentropicExpansionWithoutDissipation(IdealGasMix<1>& eq,
       double inner = efficiency * std::abs(enthalpyDifference) * 2 -
                      old_velocity * old_velocity;
       return inner > 0.0 ? Sign(enthalpyDifference) * std::sqrt(std::abs(inner))
-                         : Sign(inner) * std::sqrt(std::abs(inner));
+                         : Sign(old_velocity) * std::sqrt(std::abs(inner));
     }
   }();
   dest.momentum[0] = dest.density * u_border;
-- 
2.43.0


From 82b03e7e77e811b671512e55efcdb209f550209a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:27 +0000
Subject: [PATCH 095/103] fix: the isentropic pressure boundary ignores its
 efficiency

---
 .../AMReX/boundary_condition/IsentropicPressureBoundary.hpp  | 1 +
 src/AMReX/boundary_condition/IsentropicPressureBoundary.cpp  | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/fub/AMReX/boundary_condition/IsentropicPressureBoundary.hpp b/include/fub/AMReX/boundary_condition/IsentropicPressureBoundary.hpp
index 0fbcd22..bea6afc 100644
--- a/include/fub/AMReX/boundary_condition/IsentropicPressureBoundary.hpp
+++ b/include/fub/AMReX/boundary_condition/IsentropicPressureBoundary.hpp
@@ -92,6 +92,7 @@ private:
   double outer_pressure_;
   Direction dir_;
   int side_;
+  double efficiency_{1.0};
 };
 
 } // namespace fub::amrex
diff --git a/src/AMReX/boundary_condition/IsentropicPressureBoundary.cpp b/src/AMReX/boundary_condition/IsentropicPressureBoundary.cpp
index a58cdb9..292c53d 100644
--- a/src/AMReX/boundary_condition/IsentropicPressureBoundary.cpp
+++ b/src/AMReX/boundary_condition/IsentropicPressureBoundary.cpp
@@ -96,7 +96,8 @@ void IsentropicExpansionWithoutDissipation(IdealGasMix<1>& eq,
 IsentropicPressureBoundary::IsentropicPressureBoundary(
     const IdealGasMix<1>& eq, const IsentropicPressureBoundaryOptions& options)
     : equation_{eq}, outer_pressure_{options.outer_pressure},
-      dir_{options.direction}, side_{options.side} {}
+      dir_{options.direction}, side_{options.side},
+      efficiency_{options.efficiency} {}
 
 IsentropicPressureBoundary::IsentropicPressureBoundary(const IdealGasMix<1>& eq,
                                                        double outer_pressure,
@@ -145,7 +146,7 @@ void IsentropicPressureBoundary::FillBoundary(::amrex::MultiFab& mf,
           std::array<std::ptrdiff_t, 1> src = MapToSrc(dest, geom, side_, dir_);
           Load(state, states, src);
           IsentropicExpansionWithoutDissipation(equation_, state, state,
-                                                outer_pressure_);
+                                                outer_pressure_, efficiency_);
           Store(states, state, dest);
         });
       }
-- 
2.43.0


From 930d79bc939789653b1b3b5c26b861fb2a341680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:51 +0000
Subject: [PATCH 096/103] fix: the HLLEM Riemann solution depends on the units
 of velocity

---
 src/equations/perfect_gas/HllemMethod.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/equations/perfect_gas/HllemMethod.hpp b/src/equations/perfect_gas/HllemMethod.hpp
index 453998c..85e2ad8 100644
--- a/src/equations/perfect_gas/HllemMethod.hpp
+++ b/src/equations/perfect_gas/HllemMethod.hpp
@@ -115,7 +115,8 @@ void Hllem<EulerEquation, Larrouturou>::SolveRiemannProblem(
   const double squaredNormRoeU_half = 0.5 * squaredNormRoeU;
   const double u_bar = 0.5 * (sR + sL);
   const double u_bar_abs = std::abs(u_bar);
-  const double delta = roeA / (roeA + u_bar_abs);
+  // scaled by the width of the fan, such that the state is continuous in x / t
+  const double delta = 2.0 / db_positive * roeA / (roeA + u_bar_abs);
 
   const double deltaRho = rhoR - rhoL;
   const Array<double, 1, Dim> deltaRhoU = right_.momentum - left_.momentum;
-- 
2.43.0


From 6e3104a3b3d818afc810ff0f394180dd0653e493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:08 +0000
Subject: [PATCH 097/103] fix: the detonation ignition does not compile in one
 space dimension

---
 src/AMReX/IgniteDetonation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AMReX/IgniteDetonation.cpp b/src/AMReX/IgniteDetonation.cpp
index 02202d1..6849f3d 100644
--- a/src/AMReX/IgniteDetonation.cpp
+++ b/src/AMReX/IgniteDetonation.cpp
@@ -86,7 +86,7 @@ std::vector<double> GatherMoles_(const IntegratorContext& grid, double x,
       const ::amrex::FArrayBox& fab = data[mfi];
       auto view = MakeView<const Complete<IdealGasMix<1>>>(fab, eq);
       ForEachIndex(Box<0>(view), [&](std::ptrdiff_t i) {
-        ::amrex::IntVect iv(AMREX_D_DECL(int(i), 0, 0));
+        const ::amrex::IntVect iv{AMREX_D_DECL(int(i), 0, 0)};
         double x_lo[AMREX_SPACEDIM]{};
         geom.LoNode(iv, x_lo);
         double x_hi[AMREX_SPACEDIM]{};
-- 
2.43.0


From 6fbb59f3bcd39dd997f7a718d803702ba032f2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:01 +0000
Subject: [PATCH 098/103] fix: the first detonation ignition waits for an
 interval after a vanishing offset

---
 src/AMReX/IgniteDetonation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AMReX/IgniteDetonation.cpp b/src/AMReX/IgniteDetonation.cpp
index 6849f3d..dd1b6d1 100644
--- a/src/AMReX/IgniteDetonation.cpp
+++ b/src/AMReX/IgniteDetonation.cpp
@@ -60,7 +60,7 @@ IgniteDetonation::IgniteDetonation(
     const fub::amrex::IgniteDetonationOptions& opts)
     : equation_(eq), options_{opts},
       last_ignition_time_(static_cast<std::size_t>(max_number_levels),
-                          Duration(std::numeric_limits<double>::min())) {}
+                          Duration(std::numeric_limits<double>::lowest())) {}
 
 Duration IgniteDetonation::ComputeStableDt(const IntegratorContext&, int) const
     noexcept {
-- 
2.43.0


From 29474a7ff09c224dd8a56963b0d2196273223a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:01 +0000
Subject: [PATCH 099/103] fix: the detonation ignition measures the equivalence
 ratio in ghost cells

---
 src/AMReX/IgniteDetonation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/AMReX/IgniteDetonation.cpp b/src/AMReX/IgniteDetonation.cpp
index dd1b6d1..3b5b3fa 100644
--- a/src/AMReX/IgniteDetonation.cpp
+++ b/src/AMReX/IgniteDetonation.cpp
@@ -84,7 +84,8 @@ std::vector<double> GatherMoles_(const IntegratorContext& grid, double x,
     ForEachFab(data, [&local_moles, &local_found, &eq, &data, &geom, x,
                       &state](const ::amrex::MFIter& mfi) {
       const ::amrex::FArrayBox& fab = data[mfi];
-      auto view = MakeView<const Complete<IdealGasMix<1>>>(fab, eq);
+      auto view =
+          MakeView<const Complete<IdealGasMix<1>>>(fab, eq, mfi.tilebox());
       ForEachIndex(Box<0>(view), [&](std::ptrdiff_t i) {
         const ::amrex::IntVect iv{AMREX_D_DECL(int(i), 0, 0)};
         double x_lo[AMREX_SPACEDIM]{};
-- 
2.43.0


From 7987e8e0d63837742111d0fe5f3fea879e303e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:01 +0000
Subject: [PATCH 100/103] fix: the Arrhenius kinetics create fuel below the
 switch temperature

---
 src/equations/perfect_gas_mix/ArrheniusKinetics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/equations/perfect_gas_mix/ArrheniusKinetics.cpp b/src/equations/perfect_gas_mix/ArrheniusKinetics.cpp
index e790e98..bd166c3 100644
--- a/src/equations/perfect_gas_mix/ArrheniusKinetics.cpp
+++ b/src/equations/perfect_gas_mix/ArrheniusKinetics.cpp
@@ -71,7 +71,7 @@ void Advance_(Equation& eq, CompleteArray<Equation>& state,
       X.row(0) * Eigen::exp(-options.B * dt.count() * rate), eps_array);
   // const Array1d Xnew = X.row(0) * Eigen::exp(-options.B * dt.count() * rate);
 
-  const Array1d dX = activator.select((Xnew - X.row(0)), eps_array);
+  const Array1d dX = activator.select((Xnew - X.row(0)), 0.0);
   X.row(0) = X.row(0) + dX;
   X.row(1) = X.row(1) - dX;
   FUB_ASSERT(X.colwise().sum().isApproxToConstant(1.0));
-- 
2.43.0


From b822c062974eb87ce96a1088d5981168900983e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:01 +0000
Subject: [PATCH 101/103] fix: the Arrhenius kinetics create fuel in burnt gas

---
 src/equations/perfect_gas_mix/ArrheniusKinetics.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/equations/perfect_gas_mix/ArrheniusKinetics.cpp b/src/equations/perfect_gas_mix/ArrheniusKinetics.cpp
index bd166c3..7bdf678 100644
--- a/src/equations/perfect_gas_mix/ArrheniusKinetics.cpp
+++ b/src/equations/perfect_gas_mix/ArrheniusKinetics.cpp
@@ -68,7 +68,8 @@ void Advance_(Equation& eq, CompleteArray<Equation>& state,
   const MaskArray Xmask = (X.row(0) >= 1.0e-05);
   const Array1d rate = Eigen::exp(options.EA * (1.0 - 1.0 / T));
   const Array1d Xnew = Xmask.select(
-      X.row(0) * Eigen::exp(-options.B * dt.count() * rate), eps_array);
+      X.row(0) * Eigen::exp(-options.B * dt.count() * rate),
+      X.row(0).min(eps_array));
   // const Array1d Xnew = X.row(0) * Eigen::exp(-options.B * dt.count() * rate);
 
   const Array1d dX = activator.select((Xnew - X.row(0)), 0.0);
-- 
2.43.0


From 20fccd1e862862cc1a55d4906b504450cbd1e824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:01 +0000
Subject: [PATCH 102/103] fix: the dimensionless kinetics abort on lanes
 without a cell

---
 src/equations/perfect_gas_mix/ArrheniusKinetics.cpp     | 9 +++++++++
 src/equations/perfect_gas_mix/IgnitionDelayKinetics.cpp | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/equations/perfect_gas_mix/ArrheniusKinetics.cpp b/src/equations/perfect_gas_mix/ArrheniusKinetics.cpp
index 7bdf678..3c0e970 100644
--- a/src/equations/perfect_gas_mix/ArrheniusKinetics.cpp
+++ b/src/equations/perfect_gas_mix/ArrheniusKinetics.cpp
@@ -109,7 +109,16 @@ template <typename Equation> struct ArrheniusKinetics_Rows {
       Advance(out, kDefaultChunkSize);
       n = static_cast<int>(get<0>(end) - get<0>(in));
     }
+    if (n == 0) {
+      return;
+    }
     LoadN(complete, in, n);
+    // Repeat the last cell such that every lane holds a valid state
+    ForEachComponent(
+        [n](auto&& lanes) {
+          lanes.tail(kDefaultChunkSize - n) = lanes[n - 1];
+        },
+        complete);
     Advance_(eq, complete, kin, dt_, *options_);
     StoreN(out, complete, n);
   }
diff --git a/src/equations/perfect_gas_mix/IgnitionDelayKinetics.cpp b/src/equations/perfect_gas_mix/IgnitionDelayKinetics.cpp
index a1cfa07..4f516af 100644
--- a/src/equations/perfect_gas_mix/IgnitionDelayKinetics.cpp
+++ b/src/equations/perfect_gas_mix/IgnitionDelayKinetics.cpp
@@ -110,7 +110,16 @@ template <typename Equation> struct IgnitionDelayKinetics_Rows {
       Advance(out, kDefaultChunkSize);
       n = static_cast<int>(get<0>(end) - get<0>(in));
     }
+    if (n == 0) {
+      return;
+    }
     LoadN(complete, in, n);
+    // Repeat the last cell such that every lane holds a valid state
+    ForEachComponent(
+        [n](auto&& lanes) {
+          lanes.tail(kDefaultChunkSize - n) = lanes[n - 1];
+        },
+        complete);
     Advance_(eq, complete, kin, dt_, *options_);
     StoreN(out, complete, n);
   }
-- 
2.43.0


From 387c594fdaa27de4ebeb482d0dc9b332e9bece4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:01 +0000
Subject: [PATCH 103/103] fix: copies of a diffusion source term lose its
 options

---
 include/fub/AMReX/DiffusionSourceTerm.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fub/AMReX/DiffusionSourceTerm.hpp b/include/fub/AMReX/DiffusionSourceTerm.hpp
index 4b1b76a..7db2017 100644
--- a/include/fub/AMReX/DiffusionSourceTerm.hpp
+++ b/include/fub/AMReX/DiffusionSourceTerm.hpp
@@ -59,11 +59,13 @@ public:
       const DiffusionSourceTermOptions& options = DiffusionSourceTermOptions());
 
   DiffusionSourceTerm(const DiffusionSourceTerm& other)
-      : equation_{other.equation_} {}
+      : options_{other.options_}, equation_{other.equation_} {}
   DiffusionSourceTerm(DiffusionSourceTerm&& other) = default;
 
   DiffusionSourceTerm& operator=(const DiffusionSourceTerm& other) {
+    options_ = other.options_;
     equation_ = other.equation_;
+    constants_ = Constants{options_};
     return *this;
   }
   DiffusionSourceTerm& operator=(DiffusionSourceTerm&& other) = default;
-- 
2.43.0

