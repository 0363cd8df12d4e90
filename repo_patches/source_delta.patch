From a26eaea5772a0b01b88b194018b162183796e939 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:39:24 +0000
Subject: [PATCH 01/56] fix: keep empty ranges when slicing a mdspan

subspan() dropped range slices of length zero from the extents, so a
zero-length axis was replaced by the extent of another axis.
---
 include/fub/core/mdspan.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fub/core/mdspan.hpp b/include/fub/core/mdspan.hpp
index 910ca3d..54310f5 100644
--- a/include/fub/core/mdspan.hpp
+++ b/include/fub/core/mdspan.hpp
@@ -949,10 +949,11 @@ MakeSliceExtents2_(const Extents& e, SliceSpecifiers... slices) {
       dyn_length[i] = length[i];
     }
   }
+  const bool is_range[] = {IsSliceRange_<SliceSpecifiers>::value...};
   std::array<std::ptrdiff_t, SliceRank_<SliceSpecifiers...>> extents{};
   std::size_t slice = 0;
   for (std::size_t i = 0; i < Extents::rank(); ++i) {
-    if (dyn_length[i] > 0) {
+    if (is_range[i]) {
       extents[slice] = dyn_length[i];
       slice = slice + 1;
     }
-- 
2.43.0


From cc42b5911b66ef759831003b041c4543db809a30 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:39:24 +0000
Subject: [PATCH 02/56] fix: span<T>::last(count) of a dynamic span used the
 static extent

---
 include/fub/core/span.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fub/core/span.hpp b/include/fub/core/span.hpp
index f434d47..03a43a2 100644
--- a/include/fub/core/span.hpp
+++ b/include/fub/core/span.hpp
@@ -847,7 +847,7 @@ public:
   /// \throws Nothing.
   constexpr span<element_type> last(index_type count) const {
     FUB_ASSERT(0 <= count && count <= size());
-    return {pointer_ + (extent - count), count};
+    return {pointer_ + (size() - count), count};
   }
 
   /// Returns a subspan viewing `Count` many elements from offset `Offset`.
-- 
2.43.0


From ab1f21a1050e4541623377615e7227d9ec5852eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:14 +0000
Subject: [PATCH 03/56] fix: comparing strided mappings ignored the strides

---
 include/fub/core/mdspan.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/fub/core/mdspan.hpp b/include/fub/core/mdspan.hpp
index 54310f5..0c45fcb 100644
--- a/include/fub/core/mdspan.hpp
+++ b/include/fub/core/mdspan.hpp
@@ -33,6 +33,7 @@
 #include "fub/core/span.hpp"
 #include "fub/core/type_traits.hpp"
 
+#include <algorithm>
 #include <array>
 #include <type_traits>
 
@@ -536,7 +537,9 @@ struct layout_stride {
     template <class OtherExtents>
     constexpr bool
     operator==(const mapping<OtherExtents>& other) const noexcept {
-      return extents() == other.extents();
+      return extents() == other.extents() &&
+             std::equal(strides_.begin(), strides_.end(),
+                        other.strides().begin(), other.strides().end());
     }
     template <class OtherExtents>
     constexpr bool
-- 
2.43.0


From 8c9ded1f73f171844068c36764005a02df09887f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:37 +0000
Subject: [PATCH 04/56] fix: monotonic_bucket_resource handed out blocks twice
 and was not linkable

A freshly allocated block was left on the free list, so that the next
request of the same size returned the same memory. Blocks smaller than a
free list node were overrun, alignments were ignored, memory was returned
to the upstream resource with a wrong size and the constructor and
do_is_equal were never defined.
---
 include/fub/PoolAllocator.hpp | 13 +++++++---
 src/PoolAllocator.cpp         | 47 +++++++++++++++++++----------------
 2 files changed, 35 insertions(+), 25 deletions(-)

diff --git a/include/fub/PoolAllocator.hpp b/include/fub/PoolAllocator.hpp
index b852500..e0254eb 100644
--- a/include/fub/PoolAllocator.hpp
+++ b/include/fub/PoolAllocator.hpp
@@ -9,7 +9,8 @@
 #define FUB_WITH_MEMORY_RESOURCE 1
 #define FUB_WITH_EXPERIMENTAL_MEMORY_RESOURCE 1
 #endif
-#include <unordered_map>
+#include <map>
+#include <utility>
 #include <vector>
 
 namespace fub {
@@ -42,9 +43,15 @@ private:
   bool do_is_equal(const memory_resource& other) const noexcept override;
 
 private:
+  struct block {
+    pointer data;
+    size_type bytes;
+    size_type alignment;
+  };
+
   memory_resource* memory_resource_;
-  std::unordered_map<size_type, pointer> free_buckets_{};
-  std::vector<pointer> all_pointers_{};
+  std::map<std::pair<size_type, size_type>, pointer> free_buckets_{};
+  std::vector<block> all_pointers_{};
 };
 
 #endif
diff --git a/src/PoolAllocator.cpp b/src/PoolAllocator.cpp
index df5a2c4..533b6e4 100644
--- a/src/PoolAllocator.cpp
+++ b/src/PoolAllocator.cpp
@@ -1,19 +1,23 @@
 #include "fub/PoolAllocator.hpp"
 
+#include <algorithm>
+#include <new>
+
 namespace fub {
 
 struct bucket_node {
   void* next;
 };
 
-struct bucket_pointer {
-  std::size_t bytes;
-};
+monotonic_bucket_resource::monotonic_bucket_resource(memory_resource& resource)
+    : memory_resource_{&resource} {}
 
 monotonic_bucket_resource::pointer
-monotonic_bucket_resource::do_allocate(size_type bytes,
-                                       size_type /* alignment */) {
-  pointer& head = free_buckets_[bytes];
+monotonic_bucket_resource::do_allocate(size_type bytes, size_type alignment) {
+  // A released block has to be able to store a node of the free list.
+  bytes = std::max(bytes, sizeof(bucket_node));
+  alignment = std::max(alignment, alignof(bucket_node));
+  pointer& head = free_buckets_[{bytes, alignment}];
   // If we have a pointer hand it out
   if (head != nullptr) {
     pointer p = head;
@@ -24,30 +28,29 @@ monotonic_bucket_resource::do_allocate(size_type bytes,
     return p;
   }
   // our bucket is empty... we need to allocate new pointers!
-  pointer p = memory_resource_->allocate(sizeof(std::size_t) + bytes,
-                                         alignof(std::size_t));
-  new (p) std::size_t{bytes};
-  p = static_cast<pointer>(static_cast<std::size_t*>(p) + 1);
-  new (p) bucket_node{head};
-  head = p;
-  all_pointers_.push_back(p);
+  pointer p = memory_resource_->allocate(bytes, alignment);
+  all_pointers_.push_back({p, bytes, alignment});
   return p;
 }
 
-void monotonic_bucket_resource::do_deallocate(pointer p, size_type /* bytes */,
-                                              size_type /* salignment */) {
-  std::size_t bytes = *(static_cast<std::size_t*>(p) - 1);
-  pointer& head = free_buckets_[bytes];
+void monotonic_bucket_resource::do_deallocate(pointer p, size_type bytes,
+                                              size_type alignment) {
+  bytes = std::max(bytes, sizeof(bucket_node));
+  alignment = std::max(alignment, alignof(bucket_node));
+  pointer& head = free_buckets_[{bytes, alignment}];
   new (p) bucket_node{head};
   head = p;
 }
 
+bool monotonic_bucket_resource::do_is_equal(
+    const memory_resource& other) const noexcept {
+  return this == &other;
+}
+
 monotonic_bucket_resource::~monotonic_bucket_resource() noexcept {
-  for (pointer p : all_pointers_) {
-    pointer original_pointer =
-        static_cast<pointer>(static_cast<std::size_t*>(p) - 1);
-    memory_resource_->deallocate(original_pointer, 1);
+  for (const block& b : all_pointers_) {
+    memory_resource_->deallocate(b.data, b.bytes, b.alignment);
   }
 }
 
-} // namespace fub
\ No newline at end of file
+} // namespace fub
-- 
2.43.0


From 88fc14d299cbe89a5718e750ab54751396e62f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:09 +0000
Subject: [PATCH 05/56] fix: assigning to a running Timer dropped its
 measurement

---
 src/counter/Timer.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/counter/Timer.cpp b/src/counter/Timer.cpp
index 3735b86..78e6eef 100644
--- a/src/counter/Timer.cpp
+++ b/src/counter/Timer.cpp
@@ -34,6 +34,14 @@ Timer::Timer(Timer&& other) noexcept
                                std::chrono::steady_clock::time_point())) {}
 
 Timer& Timer::operator=(Timer&& other) noexcept {
+  if (this == &other) {
+    return *this;
+  }
+  if (counter_) {
+    // finish our own measurement before we take over the other one
+    this->stop();
+    this->submit();
+  }
   counter_ = std::exchange(other.counter_, nullptr);
   start_time_ =
       std::exchange(other.start_time_, std::chrono::steady_clock::time_point());
-- 
2.43.0


From 350a159a3a2e2a3f7bcc6518b1a2b4f664b10e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:10 +0000
Subject: [PATCH 06/56] fix: ConeIF distance outside of the cone was measured
 to the wrong point

---
 src/geometry/Cone.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/geometry/Cone.cpp b/src/geometry/Cone.cpp
index 30b2abf..80d1935 100644
--- a/src/geometry/Cone.cpp
+++ b/src/geometry/Cone.cpp
@@ -56,11 +56,13 @@ double ConeIF::ComputeDistanceTo(const std::array<double, 3>& x) const
     if (r < base_radius_) {
       return sign * -l;
     }
-    return sign * std::sqrt(l * l + (x0 - (p - l * normal)).squaredNorm());
+    const double dr = r - base_radius_;
+    return sign * std::sqrt(l * l + dr * dr);
   }
 
   Eigen::Vector3d apex = x0 + height_ * normal;
-  if (height_ < l) {
+  // The apex is the closest point only within the cone of face normals
+  if (height_ + base_radius_ / height_ * r < l) {
     return sign * (p - apex).norm();
   }
 
@@ -75,7 +77,7 @@ double ConeIF::ComputeDistanceTo(const std::array<double, 3>& x) const
   const double distance_on_face = face_tangential.dot(p - rim_point);
 
   if (distance_on_face < 0.0) {
-    return sign * std::sqrt(l * l + (p - rim_point).squaredNorm());
+    return sign * (p - rim_point).norm();
   }
 
   Eigen::Vector3d p_on_face = rim_point + distance_on_face * face_tangential;
-- 
2.43.0


From 2636d1e6b48d24aa8fcb7961b569aa0ed48e7e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:10 +0000
Subject: [PATCH 07/56] fix: ReadPointsFromFile lost its points when a line was
 skipped and the last line without newline

---
 src/geometry/ExpandTube.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geometry/ExpandTube.cpp b/src/geometry/ExpandTube.cpp
index a27ee6d..aefff27 100644
--- a/src/geometry/ExpandTube.cpp
+++ b/src/geometry/ExpandTube.cpp
@@ -111,7 +111,7 @@ Eigen::Matrix<double, 3, Eigen::Dynamic>
 ReadPointsFromFile(const std::string& filename) {
   const std::string content = ReadFile_(filename);
   const std::ptrdiff_t n_points =
-      std::count(content.begin(), content.end(), '\n');
+      std::count(content.begin(), content.end(), '\n') + 1;
   Eigen::Matrix<double, 3, Eigen::Dynamic> points(3, n_points);
   std::istringstream iss(content);
   std::string line{};
@@ -130,7 +130,7 @@ ReadPointsFromFile(const std::string& filename) {
       ++col;
     }
   }
-  points.resize(3, col);
+  points.conservativeResize(3, col);
   return points;
 }
 
-- 
2.43.0


From d8c9eb3b36d1a1334063287915cc374242581182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:52 +0000
Subject: [PATCH 08/56] fix: instantiate MusclHancock<PerfectGas<3>> and
 Hllem<PerfectGas<2>, false>

---
 src/equations/perfect_gas/HllemMethod_2d.cpp        | 1 +
 src/equations/perfect_gas/MusclHancockMethod_3d.cpp | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/equations/perfect_gas/HllemMethod_2d.cpp b/src/equations/perfect_gas/HllemMethod_2d.cpp
index 794ac56..80241a9 100644
--- a/src/equations/perfect_gas/HllemMethod_2d.cpp
+++ b/src/equations/perfect_gas/HllemMethod_2d.cpp
@@ -30,5 +30,6 @@ template struct Hllem<PerfectGas<2>, false>;
 namespace fub {
 
 template class FluxMethod<perfect_gas::Hllem<PerfectGas<2>>>;
+template class FluxMethod<perfect_gas::Hllem<PerfectGas<2>, false>>;
 
 }
\ No newline at end of file
diff --git a/src/equations/perfect_gas/MusclHancockMethod_3d.cpp b/src/equations/perfect_gas/MusclHancockMethod_3d.cpp
index 00a9981..b4a2023 100644
--- a/src/equations/perfect_gas/MusclHancockMethod_3d.cpp
+++ b/src/equations/perfect_gas/MusclHancockMethod_3d.cpp
@@ -22,7 +22,7 @@
 
 namespace fub {
 
-template struct MusclHancock<PerfectGas<2>>;
+template struct MusclHancock<PerfectGas<3>>;
 template class FluxMethod<MusclHancock<PerfectGas<3>>>;
 
 } // namespace fub
-- 
2.43.0


From fa3b2f98ee0682f53dddcd87c109c8638aa8d379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:50 +0000
Subject: [PATCH 09/56] fix: vectorised rows whose length is no multiple of the
 chunk size evaluated uninitialised lanes

---
 include/fub/CompleteFromCons.hpp       |  3 +++
 include/fub/StateArray.hpp             | 21 +++++++++++++++++++++
 include/fub/flux_method/FluxMethod.hpp |  6 ++++++
 3 files changed, 30 insertions(+)

diff --git a/include/fub/CompleteFromCons.hpp b/include/fub/CompleteFromCons.hpp
index b82d49b..1d3092b 100644
--- a/include/fub/CompleteFromCons.hpp
+++ b/include/fub/CompleteFromCons.hpp
@@ -165,6 +165,9 @@ template <typename Equation> struct CompleteFromConsFn {
         Advance(out, kDefaultChunkSize);
         n = static_cast<int>(get<0>(end) - get<0>(in));
       }
+      if (n == 0) {
+        return;
+      }
       LoadN(cons, in, n);
       ::fub::CompleteFromCons(equation, complete, cons);
       StoreN(out, complete, n);
diff --git a/include/fub/StateArray.hpp b/include/fub/StateArray.hpp
index 692ec5e..88b09ee 100644
--- a/include/fub/StateArray.hpp
+++ b/include/fub/StateArray.hpp
@@ -377,6 +377,10 @@ void LoadN(CompleteArray<Eq>& state,
                    for (int i = 0; i < n; ++i) {
                      x(i) = p[i];
                    }
+                   // fill unused lanes with an admissible state
+                   for (int i = n; 0 < n && i < kDefaultChunkSize; ++i) {
+                     x(i) = x(n - 1);
+                   }
                  },
                  [n](auto& xs, std::pair<const double*, std::ptrdiff_t> ps) {
                    const double* p = ps.first;
@@ -387,6 +391,9 @@ void LoadN(CompleteArray<Eq>& state,
                      for (int j = 0; j < n; ++j) {
                        xs(i, j) = p[j];
                      }
+                     for (int j = n; 0 < n && j < kDefaultChunkSize; ++j) {
+                       xs(i, j) = xs(i, n - 1);
+                     }
                      p += ps.second;
                    }
                  }},
@@ -405,6 +412,10 @@ void LoadN(PrimitiveArray<Eq>& state,
                    for (int i = 0; i < n; ++i) {
                      x(i) = p[i];
                    }
+                   // fill unused lanes with an admissible state
+                   for (int i = n; 0 < n && i < kDefaultChunkSize; ++i) {
+                     x(i) = x(n - 1);
+                   }
                  },
                  [n](auto& xs, std::pair<const double*, std::ptrdiff_t> ps) {
                    const double* p = ps.first;
@@ -415,6 +426,9 @@ void LoadN(PrimitiveArray<Eq>& state,
                      for (int j = 0; j < n; ++j) {
                        xs(i, j) = p[j];
                      }
+                     for (int j = n; 0 < n && j < kDefaultChunkSize; ++j) {
+                       xs(i, j) = xs(i, n - 1);
+                     }
                      p += ps.second;
                    }
                  }},
@@ -433,6 +447,10 @@ void LoadN(ConservativeArray<Eq>& state,
                    for (int i = 0; i < n; ++i) {
                      x(i) = p[i];
                    }
+                   // fill unused lanes with an admissible state
+                   for (int i = n; 0 < n && i < kDefaultChunkSize; ++i) {
+                     x(i) = x(n - 1);
+                   }
                  },
                  [n](auto& xs, std::pair<const double*, std::ptrdiff_t> ps) {
                    const double* p = ps.first;
@@ -443,6 +461,9 @@ void LoadN(ConservativeArray<Eq>& state,
                      for (int j = 0; j < n; ++j) {
                        xs(i, j) = p[j];
                      }
+                     for (int j = n; 0 < n && j < kDefaultChunkSize; ++j) {
+                       xs(i, j) = xs(i, n - 1);
+                     }
                      p += ps.second;
                    }
                  }},
diff --git a/include/fub/flux_method/FluxMethod.hpp b/include/fub/flux_method/FluxMethod.hpp
index 52e2848..9b94b8d 100644
--- a/include/fub/flux_method/FluxMethod.hpp
+++ b/include/fub/flux_method/FluxMethod.hpp
@@ -284,6 +284,9 @@ void FluxMethod<BaseMethod>::ComputeNumericFluxes(
       }
       n = static_cast<int>(get<0>(fend) - get<0>(fit));
     }
+    if (n == 0) {
+      return;
+    }
     for (std::size_t i = 0; i < StencilSize; ++i) {
       LoadN(stencil_array_[i], states[i], n);
     }
@@ -367,6 +370,9 @@ FluxMethod<BaseMethod>::ComputeStableDt(execution::SimdTag,
       }
       n = static_cast<int>(get<0>(send) - get<0>(states[0]));
     }
+    if (n == 0) {
+      return;
+    }
     for (std::size_t i = 0; i < StencilSize; ++i) {
       LoadN(stencil_array_[i], states[i], n);
     }
-- 
2.43.0


From 900172348e1c5c69f18aacd58bda3a644b0a69cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:50 +0000
Subject: [PATCH 10/56] fix: vectorised characteristic reconstruction read
 species rows out of range

---
 .../ideal_gas_mix/MusclHancockCharacteristicMethod.hpp          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp b/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp
index bbcf324..03c60b8 100644
--- a/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp
+++ b/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp
@@ -269,7 +269,7 @@ void Reconstruct(CompleteArray<IdealGasMix<Rank>>& rec, PrimitivesArray& diffs,
     diffs.velocity.row(d) += (q.momentum.row(d) / q.density);
   }
   diffs.pressure += q.pressure;
-  for (int s = 0; s < q.species.size(); ++s) {
+  for (int s = 0; s < q.species.rows(); ++s) {
     diffs.species.row(s) += (q.species.row(s) / q.density);
   }
   CompleteFromPrim(eq, rec, diffs);
-- 
2.43.0


From ae234e37805b87057752efc07eef722727b7a615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:22 +0000
Subject: [PATCH 11/56] fix: scalar HLLEM flipped the sign of quantities
 advected to the left

---
 src/equations/perfect_gas/HllemMethod.hpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/equations/perfect_gas/HllemMethod.hpp b/src/equations/perfect_gas/HllemMethod.hpp
index 59d8ae6..ff374cc 100644
--- a/src/equations/perfect_gas/HllemMethod.hpp
+++ b/src/equations/perfect_gas/HllemMethod.hpp
@@ -490,7 +490,7 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
         if constexpr (Larrouturou) {
           const double f_rho = flux.density;
           const int upwind = (f_rho > 0.0);
-          const double f_hllem = f_rho * (upwind * YL - (1 - upwind) * YR);
+          const double f_hllem = f_rho * (upwind * YL + (1 - upwind) * YR);
           flux.species[i] = f_hllem;
         } else {
           const double roeY = (sqRhoL * YL + sqRhoR * YR) / sqRhoSum;
@@ -514,7 +514,7 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
         if constexpr (Larrouturou) {
           const double f_rho = flux.density;
           const int upwind = (f_rho > 0.0);
-          const double f_hllem = f_rho * (upwind * YL - (1 - upwind) * YR);
+          const double f_hllem = f_rho * (upwind * YL + (1 - upwind) * YR);
           flux.passive_scalars[i] = f_hllem;
         } else {
           const double roeY = (sqRhoL * YL + sqRhoR * YR) / sqRhoSum;
@@ -545,9 +545,9 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
       const double f_rho = flux.density;
       const int upwind = (f_rho > 0.0);
       const double f_hllem_rhov =
-          f_rho * (upwind * vL_[iy] - (1 - upwind) * vR_[iy]);
+          f_rho * (upwind * vL_[iy] + (1 - upwind) * vR_[iy]);
       const double f_hllem_rhoE =
-          f_rho * (upwind * eKinRL - (1 - upwind) * eKinRR);
+          f_rho * (upwind * eKinRL + (1 - upwind) * eKinRR);
       flux.momentum[iy] = f_hllem_rhov;
       flux.energy = flux_hlle_.energy - b_delta_alpha_2 * squaredNormRoeU_half +
                     f_hllem_rhoE;
@@ -572,7 +572,7 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
         if constexpr (Larrouturou) {
           const double f_rho = flux.density;
           const int upwind = (f_rho > 0.0);
-          const double f_hllem = f_rho * (upwind * YL - (1 - upwind) * YR);
+          const double f_hllem = f_rho * (upwind * YL + (1 - upwind) * YR);
           flux.species[i] = f_hllem;
         } else {
           const double roeY = (sqRhoL * YL + sqRhoR * YR) / sqRhoSum;
@@ -596,7 +596,7 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
         if constexpr (Larrouturou) {
           const double f_rho = flux.density;
           const int upwind = (f_rho > 0.0);
-          const double f_hllem = f_rho * (upwind * YL - (1 - upwind) * YR);
+          const double f_hllem = f_rho * (upwind * YL + (1 - upwind) * YR);
           flux.passive_scalars[i] = f_hllem;
         } else {
           const double roeY = (sqRhoL * YL + sqRhoR * YR) / sqRhoSum;
@@ -629,11 +629,11 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
       const double f_rho = flux.density;
       const int upwind = (f_rho > 0.0);
       const double f_hllem_rhov =
-          f_rho * (upwind * vL_[iy] - (1 - upwind) * vR_[iy]);
+          f_rho * (upwind * vL_[iy] + (1 - upwind) * vR_[iy]);
       const double f_hllem_rhow =
-          f_rho * (upwind * vL_[iz] - (1 - upwind) * vR_[iz]);
+          f_rho * (upwind * vL_[iz] + (1 - upwind) * vR_[iz]);
       const double f_hllem_rhoE =
-          f_rho * (upwind * eKinRL - (1 - upwind) * eKinRR);
+          f_rho * (upwind * eKinRL + (1 - upwind) * eKinRR);
       flux.momentum[iy] = f_hllem_rhov;
       flux.momentum[iz] = f_hllem_rhow;
       flux.energy = flux_hlle_.energy - b_delta_alpha_2 * squaredNormRoeU_half +
@@ -665,7 +665,7 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
         if constexpr (Larrouturou) {
           const double f_rho = flux.density;
           const int upwind = (f_rho > 0.0);
-          const double f_hllem = f_rho * (upwind * YL - (1 - upwind) * YR);
+          const double f_hllem = f_rho * (upwind * YL + (1 - upwind) * YR);
           flux.species[i] = f_hllem;
         } else {
           const double roeY = (sqRhoL * YL + sqRhoR * YR) / sqRhoSum;
@@ -689,7 +689,7 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
         if constexpr (Larrouturou) {
           const double f_rho = flux.density;
           const int upwind = (f_rho > 0.0);
-          const double f_hllem = f_rho * (upwind * YL - (1 - upwind) * YR);
+          const double f_hllem = f_rho * (upwind * YL + (1 - upwind) * YR);
           flux.passive_scalars[i] = f_hllem;
         } else {
           const double roeY = (sqRhoL * YL + sqRhoR * YR) / sqRhoSum;
-- 
2.43.0


From e0dac605cad008e040d8545c1217c8e5ee86ad27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:22 +0000
Subject: [PATCH 12/56] fix: scalar HLLEM in 3D never computed the mass and
 normal momentum flux

---
 src/equations/perfect_gas/HllemMethod.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/equations/perfect_gas/HllemMethod.hpp b/src/equations/perfect_gas/HllemMethod.hpp
index ff374cc..75a9bb0 100644
--- a/src/equations/perfect_gas/HllemMethod.hpp
+++ b/src/equations/perfect_gas/HllemMethod.hpp
@@ -625,6 +625,8 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
                            l25 * deltaRhoE;
     const double b_delta = b * delta;
     const double b_delta_alpha_2 = b_delta * alpha_2;
+    flux.density = flux_hlle_.density - b_delta_alpha_2;
+    flux.momentum[ix] = flux_hlle_.momentum[ix] - b_delta_alpha_2 * roeU[ix];
     if constexpr (Larrouturou) {
       const double f_rho = flux.density;
       const int upwind = (f_rho > 0.0);
-- 
2.43.0


From 6546deba08142893d97ab751e329ce981ee84287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:22 +0000
Subject: [PATCH 13/56] fix: vectorised HLLEM in 3D used the transverse
 velocity in the normal momentum flux

---
 src/equations/perfect_gas/HllemMethod.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/equations/perfect_gas/HllemMethod.hpp b/src/equations/perfect_gas/HllemMethod.hpp
index 75a9bb0..0019a69 100644
--- a/src/equations/perfect_gas/HllemMethod.hpp
+++ b/src/equations/perfect_gas/HllemMethod.hpp
@@ -991,7 +991,7 @@ Array1d Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
     const Array1d b_delta_alpha_2 = b_delta * alpha_2;
     flux.density = flux_hlle_array_.density - b_delta_alpha_2;
     flux.momentum.row(ix) =
-        flux_hlle_array_.momentum.row(ix) - b_delta_alpha_2 * roeU.row(iy);
+        flux_hlle_array_.momentum.row(ix) - b_delta_alpha_2 * roeU.row(ix);
 
     if constexpr (Larrouturou) {
       const MaskArray upwind = (flux.density > 0.0);
-- 
2.43.0


From 843e50e334a559d62d4b290988137576423537bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:36 +0000
Subject: [PATCH 14/56] fix: 1D HLLEM aborted on masked lanes that hold no
 valid state

---
 src/equations/perfect_gas/HllemMethod.hpp | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/src/equations/perfect_gas/HllemMethod.hpp b/src/equations/perfect_gas/HllemMethod.hpp
index 0019a69..19c1269 100644
--- a/src/equations/perfect_gas/HllemMethod.hpp
+++ b/src/equations/perfect_gas/HllemMethod.hpp
@@ -882,15 +882,6 @@ Array1d Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
         }
       }
     }
-    FUB_ASSERT(!flux.density.isNaN().any());
-    FUB_ASSERT(!flux.momentum.isNaN().any());
-    FUB_ASSERT(!flux.energy.isNaN().any());
-    if constexpr (euler::state_with_species<Conservative>()) {
-      FUB_ASSERT(!flux.species.isNaN().any());
-    }
-    if constexpr (euler::state_with_species<Conservative>()) {
-      FUB_ASSERT(!flux.passive_scalars.isNaN().any());
-    }
   } else if constexpr (Dim == 2) {
     const int ix = int(dir);
     const int iy = (ix == 0);
-- 
2.43.0


From ab57c77c5445d4c964480bef3e8d29ad001e5e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:52 +0000
Subject: [PATCH 15/56] fix: the sequential stable time step skipped the last
 face of a patch

---
 include/fub/flux_method/FluxMethod.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fub/flux_method/FluxMethod.hpp b/include/fub/flux_method/FluxMethod.hpp
index 9b94b8d..4a7d298 100644
--- a/include/fub/flux_method/FluxMethod.hpp
+++ b/include/fub/flux_method/FluxMethod.hpp
@@ -301,7 +301,7 @@ FluxMethod<BaseMethod>::ComputeStableDt(execution::SequentialTag,
                                         const View<const Complete>& states,
                                         double dx, Direction dir) {
   double min_dt = std::numeric_limits<double>::infinity();
-  ForEachIndex(Shrink(Box<0>(states), dir, {0, GetStencilSize()}),
+  ForEachIndex(Shrink(Box<0>(states), dir, {0, GetStencilSize() - 1}),
                [&](const auto... is) {
                  using Index = std::array<std::ptrdiff_t, sizeof...(is)>;
                  const Index face{is...};
-- 
2.43.0


From 05c9cfc5a23b0dacec5761e93699cab813dcdeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:32 +0000
Subject: [PATCH 16/56] fix: vectorised primitive reconstruction mirrored the
 temperature of the right state

---
 src/equations/ideal_gas_mix/MusclHancockPrimMethod.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/equations/ideal_gas_mix/MusclHancockPrimMethod.hpp b/src/equations/ideal_gas_mix/MusclHancockPrimMethod.hpp
index 2dcaf63..02ead9c 100644
--- a/src/equations/ideal_gas_mix/MusclHancockPrimMethod.hpp
+++ b/src/equations/ideal_gas_mix/MusclHancockPrimMethod.hpp
@@ -441,7 +441,7 @@ void MusclHancockPrimitive<Rank>::ComputeNumericFlux(
                dt_over_dx * dpdt_array_.velocity.row(i));
   }
   pL_array_.temperature =
-      pM_array_.temperature -
+      pM_array_.temperature +
       0.5 * (-dpdx_array_.temperature + dt_over_dx * dpdt_array_.temperature);
   for (int i = 0; i < nspecies; ++i) {
     pL_array_.mass_fractions.row(i) =
@@ -514,7 +514,7 @@ void MusclHancockPrimitive<Rank>::ComputeNumericFlux(
                dt_over_dx * dpdt_array_.velocity.row(i));
   }
   pL_array_.temperature =
-      pM_array_.temperature -
+      pM_array_.temperature +
       0.5 * (-dpdx_array_.temperature + dt_over_dx * dpdt_array_.temperature);
   for (int i = 0; i < nspecies; ++i) {
     pL_array_.mass_fractions.row(i) =
-- 
2.43.0


From f6eeb518add8fae969808c13b2768c206fce2d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:20 +0000
Subject: [PATCH 17/56] fix: masked characteristic reconstruction of the
 reacting gas used covered cells

---
 .../MusclHancockCharacteristicMethod.hpp      | 30 +++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp b/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp
index 03c60b8..b6e4ed2 100644
--- a/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp
+++ b/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp
@@ -311,10 +311,36 @@ template <int Rank>
 void MusclHancockCharacteristic<Rank>::ComputeNumericFlux(
     ConservativeArray& flux, Array1d face_fractions,
     span<const CompleteArray, 4> stencil,
-    span<const Array1d, 4> /* volume_fractions */, Duration dt, double dx,
+    span<const Array1d, 4> volume_fractions, Duration dt, double dx,
     Direction dir) {
-  ComputeNumericFlux(flux, stencil, dt, dx, dir);
   MaskArray mask = (face_fractions > 0.0);
+  int open_lane = 0;
+  while (open_lane < mask.size() && !mask[open_lane]) {
+    ++open_lane;
+  }
+  if (open_lane == mask.size()) {
+    ForEachComponent([](auto&& flux) { flux = Array1d::Zero(); }, flux);
+    return;
+  }
+  // Lanes of closed faces hold no valid states, evaluate an open face there.
+  // Covered cells do not contribute a slope.
+  std::array<CompleteArray, 4> states{stencil[0], stencil[1], stencil[2],
+                                      stencil[3]};
+  const auto select = [](MaskArray is_valid) {
+    return [is_valid](auto&& q, auto&& q_else) {
+      q = is_valid.select(q, q_else).eval();
+    };
+  };
+  ForEachComponent(select(volume_fractions[0] > 0.0), states[0], stencil[1]);
+  ForEachComponent(select(volume_fractions[3] > 0.0), states[3], stencil[2]);
+  for (CompleteArray& state : states) {
+    ForEachComponent(
+        [&](auto&& q) {
+          q = mask.select(q, Array1d::Constant(q[open_lane])).eval();
+        },
+        state);
+  }
+  ComputeNumericFlux(flux, states, dt, dx, dir);
   ForEachComponent([&mask](auto&& flux) { flux = mask.select(flux, 0.0); },
                    flux);
 }
-- 
2.43.0


From 095d954d658934d3de16ea6444582ad2610d3f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:32 +0000
Subject: [PATCH 18/56] fix: the vectorised stable time step masked the
 remainder of a row with uninitialised lanes

---
 include/fub/flux_method/FluxMethod.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fub/flux_method/FluxMethod.hpp b/include/fub/flux_method/FluxMethod.hpp
index 4a7d298..f8ff95b 100644
--- a/include/fub/flux_method/FluxMethod.hpp
+++ b/include/fub/flux_method/FluxMethod.hpp
@@ -377,7 +377,7 @@ FluxMethod<BaseMethod>::ComputeStableDt(execution::SimdTag,
       LoadN(stencil_array_[i], states[i], n);
     }
     Array1d mask_;
-    for (int i = 0; i < mask_.rows(); ++i) {
+    for (int i = 0; i < mask_.size(); ++i) {
       mask_[i] = static_cast<double>(i);
     }
     auto mask = (mask_ < n).eval();
-- 
2.43.0


From 033db0c708929a1cec725becb7dcccbb60a2ce85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:32 +0000
Subject: [PATCH 19/56] fix: scalar and masked Einfeldt signals of the reacting
 gas halved the Roe sound speed

---
 src/equations/ideal_gas_mix/EinfeldtSignalVelocities.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/equations/ideal_gas_mix/EinfeldtSignalVelocities.hpp b/src/equations/ideal_gas_mix/EinfeldtSignalVelocities.hpp
index e634aeb..b4afbc9 100644
--- a/src/equations/ideal_gas_mix/EinfeldtSignalVelocities.hpp
+++ b/src/equations/ideal_gas_mix/EinfeldtSignalVelocities.hpp
@@ -44,8 +44,8 @@ operator()(const IdealGasMix<Dim>&, const Complete& left, const Complete& right,
       0.5 * (sqRhoL * sqRhoR) / ((sqRhoL + sqRhoR) * (sqRhoL + sqRhoR)) *
           (uR - uL) * (uR - uL));
   const double sL1 = uL - aL;
-  const double sL2 = roeU - 0.5 * roeA;
-  const double sR1 = roeU + 0.5 * roeA;
+  const double sL2 = roeU - roeA;
+  const double sR1 = roeU + roeA;
   const double sR2 = uR + aR;
   return {std::min(sL1, sL2), std::max(sR1, sR2)};
 }
@@ -107,8 +107,8 @@ operator()(const IdealGasMix<Dim>&, const CompleteArray& left,
        0.5 * sqRhoL_over_sqRho * sqRhoR_over_sqRho * (uR - uL) * (uR - uL))
           .sqrt();
   const Array1d sL1 = uL - aL;
-  const Array1d sL2 = roeU - 0.5 * roeA;
-  const Array1d sR1 = roeU + 0.5 * roeA;
+  const Array1d sL2 = roeU - roeA;
+  const Array1d sR1 = roeU + roeA;
   const Array1d sR2 = uR + aR;
   return {sL1.min(sL2), sR1.max(sR2)};
 }
-- 
2.43.0


From 361c16ac9ff2bf84a0ae7103da09aa7927570804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:03 +0000
Subject: [PATCH 20/56] fix: vectorised reactor turned negative mass fractions
 into positive ones

---
 src/equations/ideal_gas_mix/FlameMasterReactor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
index ce97221..e1a8707 100644
--- a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
+++ b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
@@ -877,7 +877,7 @@ void FlameMasterReactor::SetMassFractionsArray(
     const ArrayXd& newMassFractions) {
   Array1d sum = Array1d::Zero();
   for (int i = 0; i < array_state_.massFractions.rows(); ++i) {
-    array_state_.massFractions.row(i) = newMassFractions.row(i).abs();
+    array_state_.massFractions.row(i) = newMassFractions.row(i).max(0.0);
     sum += array_state_.massFractions.row(i);
   }
   sum = (sum > 0.0).select(sum, 1.0);
-- 
2.43.0


From c6f0ad1994202f5a94cba3aea38f4459ad4ac2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:34 +0000
Subject: [PATCH 21/56] fix: the shallow water flux used the momentum as
 velocity

---
 src/equations/ShallowWater.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/equations/ShallowWater.cpp b/src/equations/ShallowWater.cpp
index c643179..c5eeb14 100644
--- a/src/equations/ShallowWater.cpp
+++ b/src/equations/ShallowWater.cpp
@@ -26,7 +26,7 @@ namespace fub {
 void ShallowWater::Flux(Conservative& flux, const Complete& state,
                         Direction dir) const noexcept {
   const int d = int(dir);
-  const double velocity = state.momentum[d];
+  const double velocity = state.momentum[d] / state.height;
   flux.height = state.momentum[d];
   flux.momentum[0] = velocity * state.momentum[0];
   flux.momentum[1] = velocity * state.momentum[1];
@@ -36,7 +36,7 @@ void ShallowWater::Flux(Conservative& flux, const Complete& state,
 void ShallowWater::Flux(ConservativeArray& flux, const CompleteArray& state,
                         Direction dir) const noexcept {
   const int d = int(dir);
-  const Array1d velocity = state.momentum.row(d);
+  const Array1d velocity = state.momentum.row(d) / state.height;
   flux.height = state.momentum.row(d);
   flux.momentum.row(0) = velocity * state.momentum.row(0);
   flux.momentum.row(1) = velocity * state.momentum.row(1);
-- 
2.43.0


From 887ad1e7bbe057631c25e372d301c5cd8c0826a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:14 +0000
Subject: [PATCH 22/56] fix: Newton iteration returned unconverged values with
 a negative residual

---
 include/fub/NewtonIteration.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fub/NewtonIteration.hpp b/include/fub/NewtonIteration.hpp
index f45814b..2864438 100644
--- a/include/fub/NewtonIteration.hpp
+++ b/include/fub/NewtonIteration.hpp
@@ -41,7 +41,7 @@ double NewtonIteration(Function&& f, Derivative&& Df, double x0,
     err = std::abs(fx);
     counter += 1;
   }
-  if (counter == max_iterations && fx > tolerance) {
+  if (counter == max_iterations && err > tolerance) {
     std::ostringstream out;
     out << "Newton Iteration did not converge. (x0 = " << x0 << ", x = " << x
         << ", fx = " << fx << ", counter = " << counter << ", err = " << err
-- 
2.43.0


From b9d0727dc8c834365fd4cbca8e30ecc294469b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:41 +0000
Subject: [PATCH 23/56] fix: evolve the reconstruction of
 ideal_gas::MusclHancockCharacteristic by half a time step

The amplitudes already carry the factor one half of the half step, the
additional factor in lambda centred the fluxes at a quarter of the time step
and made the method first-order accurate in time.
---
 .../MusclHancockCharacteristicMethod.hpp             | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp b/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp
index b6e4ed2..10175a9 100644
--- a/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp
+++ b/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp
@@ -279,14 +279,14 @@ template <int Rank>
 void MusclHancockCharacteristic<Rank>::ComputeNumericFlux(
     Conservative& flux, span<const Complete, 4> stencil, Duration dt, double dx,
     Direction dir) {
-  const double dt_over_dx_half = 0.5 * dt.count() / dx;
+  const double dt_over_dx = dt.count() / dx;
   int left_side = 0;
   int right_side = 1;
   Reconstruct(reconstruction_[0], diffs_, amplitudes_, slopes_, left_side,
-              equation_, stencil.template first<3>(), dt_over_dx_half, limiter_,
+              equation_, stencil.template first<3>(), dt_over_dx, limiter_,
               dir);
   Reconstruct(reconstruction_[1], diffs_, amplitudes_, slopes_, right_side,
-              equation_, stencil.template last<3>(), dt_over_dx_half, limiter_,
+              equation_, stencil.template last<3>(), dt_over_dx, limiter_,
               dir);
   hlle_.ComputeNumericFlux(flux, reconstruction_, dt, dx, dir);
 }
@@ -295,15 +295,15 @@ template <int Rank>
 void MusclHancockCharacteristic<Rank>::ComputeNumericFlux(
     ConservativeArray& flux, span<const CompleteArray, 4> stencil, Duration dt,
     double dx, Direction dir) {
-  const Array1d dt_over_dx_half = Array1d::Constant(0.5 * dt.count() / dx);
+  const Array1d dt_over_dx = Array1d::Constant(dt.count() / dx);
   int left_side = 0;
   int right_side = 1;
   Reconstruct(reconstruction_array_[0], diffs_array_, amplitudes_array_,
               slopes_array_, left_side, equation_, stencil.template first<3>(),
-              dt_over_dx_half, array_limiter_, dir);
+              dt_over_dx, array_limiter_, dir);
   Reconstruct(reconstruction_array_[1], diffs_array_, amplitudes_array_,
               slopes_array_, right_side, equation_, stencil.template last<3>(),
-              dt_over_dx_half, array_limiter_, dir);
+              dt_over_dx, array_limiter_, dir);
   hlle_.ComputeNumericFlux(flux, reconstruction_array_, dt, dx, dir);
 }
 
-- 
2.43.0


From 8ad7dcd06c979b0de9928aa7dd9d7764304e0598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:41 +0000
Subject: [PATCH 24/56] fix: limit every species by its own differences in
 ideal_gas::MusclHancockPrimitive

The vectorised forms limited all mass fractions by the ratio of the first
species. Other species got unlimited slopes at their extrema and no slope at
all wherever the first species is constant. The cell-by-cell form already
limits every species on its own.
---
 .../ideal_gas_mix/MusclHancockPrimMethod.hpp   | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/equations/ideal_gas_mix/MusclHancockPrimMethod.hpp b/src/equations/ideal_gas_mix/MusclHancockPrimMethod.hpp
index 02ead9c..8b8dedb 100644
--- a/src/equations/ideal_gas_mix/MusclHancockPrimMethod.hpp
+++ b/src/equations/ideal_gas_mix/MusclHancockPrimMethod.hpp
@@ -296,13 +296,12 @@ void ApplyLimiter(PrimitiveArray<Rank>& dpdx, const PrimitiveArray<Rank>& pL,
         Limiter(pL.velocity.row(i), pM.velocity.row(i), pR.velocity.row(i)) *
         dqdx(pL.velocity.row(i), pM.velocity.row(i), pR.velocity.row(i));
   }
-  Array1d limiter_rhoY =
-      Limiter(pL.mass_fractions.row(0), pM.mass_fractions.row(0),
-              pR.mass_fractions.row(0));
   for (int i = 0; i < dpdx.mass_fractions.rows(); ++i) {
     dpdx.mass_fractions.row(i) =
-        limiter_rhoY * dqdx(pL.mass_fractions.row(i), pM.mass_fractions.row(i),
-                            pR.mass_fractions.row(i));
+        Limiter(pL.mass_fractions.row(i), pM.mass_fractions.row(i),
+                pR.mass_fractions.row(i)) *
+        dqdx(pL.mass_fractions.row(i), pM.mass_fractions.row(i),
+             pR.mass_fractions.row(i));
   }
 }
 
@@ -340,13 +339,12 @@ void ApplyLimiter(PrimitiveArray<Rank>& dpdx, const PrimitiveArray<Rank>& pL,
         Limiter(pL.velocity.row(i), pM.velocity.row(i), pR.velocity.row(i), mask) *
         dqdx(pL.velocity.row(i), pM.velocity.row(i), pR.velocity.row(i), mask);
   }
-  Array1d limiter_Y =
-      Limiter(pL.mass_fractions.row(0), pM.mass_fractions.row(0),
-              pR.mass_fractions.row(0), mask);
   for (int i = 0; i < dpdx.mass_fractions.rows(); ++i) {
     dpdx.mass_fractions.row(i) =
-        limiter_Y * dqdx(pL.mass_fractions.row(i), pM.mass_fractions.row(i),
-                            pR.mass_fractions.row(i), mask);
+        Limiter(pL.mass_fractions.row(i), pM.mass_fractions.row(i),
+                pR.mass_fractions.row(i), mask) *
+        dqdx(pL.mass_fractions.row(i), pM.mass_fractions.row(i),
+             pR.mass_fractions.row(i), mask);
   }
 }
 
-- 
2.43.0


From bb274090515e9b7d150f37afa48b76554143983d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 25/56] fix: make PrimitiveReconstruction::ReconstructInvers
 the inverse of Reconstruct

The linear coefficient of the quadratic equation for the velocity and the time
derivative of passive scalars had the wrong sign, and the root was 0/0 for
vanishing density gradients.
---
 include/fub/flux_method/Reconstruct.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fub/flux_method/Reconstruct.hpp b/include/fub/flux_method/Reconstruct.hpp
index 1860847..fa343e7 100644
--- a/include/fub/flux_method/Reconstruct.hpp
+++ b/include/fub/flux_method/Reconstruct.hpp
@@ -316,11 +316,11 @@ void PrimitiveReconstruction<EulerEquation>::ReconstructInvers(
     u = (uL - eta * du) / one_minus_tau_du;
   } else {
     const double A = one_minus_tau_du * tau * drho;
-    const double B = one_minus_tau_du * (rhoL - eta * drho) + tau * drho * (uL - eta * du);
+    const double B = one_minus_tau_du * (rhoL - eta * drho) - tau * drho * (uL - eta * du);
     const double C = -((rhoL - eta * drho) * (uL - eta * du) + tau * dp * one_minus_tau_du );
     const double D = B*B - 4.0 * A * C;
     FUB_ASSERT(D >= 0);
-    u = 0.5 * (-B + std::sqrt(D)) / A;
+    u = -2.0 * C / (B + std::sqrt(D));
   }
   w_rec_.density = (rhoL - eta * (1.0 - lambda * u) * drho) / one_minus_tau_du; 
   w_rec_.pressure = (pL - eta * (1.0 - lambda * u) * dp) / one_minus_gamma_tau_du;
@@ -343,7 +343,7 @@ void PrimitiveReconstruction<EulerEquation>::ReconstructInvers(
     for (int i = 0; i < w_rec_.passive_scalars.size(); ++i) {
       w_rec_.passive_scalars[i] =
           w_.passive_scalars[i] -
-          eta * (dw_dx.passive_scalars[i] +
+          eta * (dw_dx.passive_scalars[i] -
                      lambda * u * dw_dx.passive_scalars[i]);
     }
   }
-- 
2.43.0


From f9cabc571bd3f67f3ce7cef3b72cfa9ab9cbf1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:12 +0000
Subject: [PATCH 26/56] fix: SetIsentropicPressure of PerfectGasMix keeps mass
 fractions instead of partial densities

---
 include/fub/equations/PerfectGasMix.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/fub/equations/PerfectGasMix.hpp b/include/fub/equations/PerfectGasMix.hpp
index f0e7af1..cf60a09 100644
--- a/include/fub/equations/PerfectGasMix.hpp
+++ b/include/fub/equations/PerfectGasMix.hpp
@@ -633,8 +633,9 @@ private:
     q.density = rho_new;
     q.momentum = rhou_new;
     q.energy = rhoE_new;
-    q.species = q0.species;
-    q.passive_scalars = q0.passive_scalars;
+    // keep the mass fractions, i.e. scale the partial densities
+    q.species = q0.species * (rho_new / rho_old);
+    q.passive_scalars = q0.passive_scalars * (rho_new / rho_old);
     q.pressure = p_new;
     q.speed_of_sound = std::sqrt(eq.gamma * p_new / rho_new);
   }
-- 
2.43.0


From 833a562d30c8574eaf5f0f6720b62baa6f5079db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:12 +0000
Subject: [PATCH 27/56] fix: IsentropicExpansionWithoutDissipation counts the
 kinetic energy once

---
 include/fub/equations/EulerEquation.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/fub/equations/EulerEquation.hpp b/include/fub/equations/EulerEquation.hpp
index 8ffbc7a..6fb2ead 100644
--- a/include/fub/equations/EulerEquation.hpp
+++ b/include/fub/equations/EulerEquation.hpp
@@ -312,6 +312,10 @@ inline constexpr struct IsentropicExpansionWithoutDissipationFn {
       dest.energy = src.energy - rhoE_kin;
       const double h_before = (dest.energy + dest.pressure) / dest.density;
       SetIsentropicPressure(eq, dest, dest, pressure_dest);
+      // SetIsentropicPressure may accelerate the gas, only its internal energy
+      // is needed here
+      dest.energy -= KineticEnergy(dest.density, dest.momentum);
+      dest.momentum = Array<double, N, 1>::Zero();
       const double h_after = (dest.energy + dest.pressure) / dest.density;
       const double h_diff = h_before - h_after;
       const double e_kin_new = 2.0 * efficiency * std::abs(h_diff) +
-- 
2.43.0


From 07d4f277830406c4e0e5caa0d732da93643c5a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:12 +0000
Subject: [PATCH 28/56] fix: kinetic state, velocity and pressure of
 PerfectGasMix honour the reference Mach number

---
 include/fub/equations/PerfectGasMix.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fub/equations/PerfectGasMix.hpp b/include/fub/equations/PerfectGasMix.hpp
index cf60a09..e492546 100644
--- a/include/fub/equations/PerfectGasMix.hpp
+++ b/include/fub/equations/PerfectGasMix.hpp
@@ -403,7 +403,7 @@ private:
     q.density = kin.density;
     q.momentum = q.density * u;
     const double e = euler::InternalEnergy(eq, kin);
-    q.energy = q.density * (e + 0.5 * u.matrix().squaredNorm());
+    q.energy = q.density * (e + 0.5 * eq.Msq * u.matrix().squaredNorm());
     const double RT = kin.temperature;// * eq.Rspec;
     q.pressure = RT * q.density;
     q.speed_of_sound = std::sqrt(eq.gamma * RT);
@@ -474,7 +474,7 @@ private:
 
   template <typename Density, typename Momentum, typename Energy,
             typename Species, typename PassiveScalars>
-  friend void tag_invoke(tag_t<euler::SetVelocity>, const PerfectGasMix&,
+  friend void tag_invoke(tag_t<euler::SetVelocity>, const PerfectGasMix& eq,
                          PerfectGasMixConservative<Density, Momentum, Energy,
                                                    Species, PassiveScalars>& q,
                          nodeduce_t<const Momentum&> v) noexcept {
@@ -482,7 +482,7 @@ private:
       const double rhoE_kin_old = euler::KineticEnergy(q.density, q.momentum);
       q.momentum = q.density * v;
       const double rhoE_kin_new = euler::KineticEnergy(q.density, q.momentum);
-      q.energy += rhoE_kin_new - rhoE_kin_old;
+      q.energy += eq.Msq * (rhoE_kin_new - rhoE_kin_old);
     }
   }
 
@@ -565,7 +565,7 @@ private:
 
   friend double tag_invoke(tag_t<euler::Pressure>, const PerfectGasMix& eq,
                            const Conservative& q) noexcept {
-    const double ekin = euler::KineticEnergy(q.density, q.momentum);
+    const double ekin = eq.Msq * euler::KineticEnergy(q.density, q.momentum);
     return (q.energy - ekin) * eq.gamma_minus_one;
   }
 
-- 
2.43.0


From c65a0c1d0734b664a95535a46e3933b95271524d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:32 +0000
Subject: [PATCH 29/56] fix: RequireMassflow brackets the required mass flow by
 the choked state

---
 include/fub/equations/RequireMassflow.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/fub/equations/RequireMassflow.hpp b/include/fub/equations/RequireMassflow.hpp
index 6db53b8..da6f64f 100644
--- a/include/fub/equations/RequireMassflow.hpp
+++ b/include/fub/equations/RequireMassflow.hpp
@@ -206,13 +206,17 @@ operator()(EulerEquation& eq, Complete<EulerEquation>& expanded,
     double drhou = delta_rhou(p0);
     int counter = 12;
     if (drhou < 0.0) {
-      do {
-        lower *= 0.5;
-        if (counter-- == 0) {
-          return Result{};
-        }
-        drhou = delta_rhou(lower);
-      } while (drhou < 0.0);
+      // The mass flow grows up to the sonic point of the left rarefaction wave
+      // and decreases again beyond of it.
+      const double a_sonic =
+          data.gm1_over_gp1 * (data.uL + 2.0 * data.aL * data.oogm1);
+      lower = a_sonic > 0.0
+                  ? p0 * std::pow(a_sonic / data.aL,
+                                  2.0 * data.gamma * data.oogm1)
+                  : p0 / 4096.0;
+      if (!(0.0 < lower && lower < p0) || delta_rhou(lower) < 0.0) {
+        return Result{};
+      }
     } else {
       do {
         upper *= 2.0;
-- 
2.43.0


From 6ff9d4c8e1756d2709b4433585200e4f781f3bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:32 +0000
Subject: [PATCH 30/56] fix: NewtonIteration reports failure if the function
 value is not a number

---
 include/fub/NewtonIteration.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fub/NewtonIteration.hpp b/include/fub/NewtonIteration.hpp
index 2864438..0d20174 100644
--- a/include/fub/NewtonIteration.hpp
+++ b/include/fub/NewtonIteration.hpp
@@ -41,7 +41,7 @@ double NewtonIteration(Function&& f, Derivative&& Df, double x0,
     err = std::abs(fx);
     counter += 1;
   }
-  if (counter == max_iterations && err > tolerance) {
+  if (!(err <= tolerance)) {
     std::ostringstream out;
     out << "Newton Iteration did not converge. (x0 = " << x0 << ", x = " << x
         << ", fx = " << fx << ", counter = " << counter << ", err = " << err
-- 
2.43.0


From 9d761b413838d988320e77321c647a2c6c3d62c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:41 +0000
Subject: [PATCH 31/56] fix: reactor enthalpies and heat capacities belong to
 the temperature after Advance

---
 src/equations/ideal_gas_mix/FlameMasterReactor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
index e1a8707..88a09d8 100644
--- a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
+++ b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
@@ -411,6 +411,7 @@ void FlameMasterReactor::Advance(double dt) {
 
   // Retrieve mass fractions from the result vector
   UpdateMassFractionsFromMoles(state_);
+  UpdateThermoState(*mechanism_, state_);
 }
 
 void FlameMasterReactor::Advance(
@@ -431,6 +432,7 @@ void FlameMasterReactor::Advance(
 
   // Retrieve mass fractions from the result vector
   UpdateMassFractionsFromMoles(state_);
+  UpdateThermoState(*mechanism_, state_);
 }
 
 struct AdvanceAndFindMaxdTData {
@@ -464,6 +466,7 @@ double FlameMasterReactor::AdvanceAndFindMaxdT(double dt) {
 
   // Retrieve mass fractions from the result vector
   UpdateMassFractionsFromMoles(state_);
+  UpdateThermoState(*mechanism_, state_);
   return data.argmaxdT;
 }
 
-- 
2.43.0


From 156ef6ded70a33bd11547b619fd0ac8602669209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:41 +0000
Subject: [PATCH 32/56] fix: AdvanceAndFindMaxdT starts from the mass fractions
 and density that were set

---
 src/equations/ideal_gas_mix/FlameMasterReactor.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
index 88a09d8..cb9978a 100644
--- a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
+++ b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
@@ -458,6 +458,12 @@ double FlameMasterReactor::AdvanceAndFindMaxdT(double dt) {
     }
   };
   AdvanceAndFindMaxdTData data{0., GetTemperature(), -9000, -1};
+  if (dt == 0) {
+    return data.argmaxdT;
+  }
+  FUB_ASSERT(dt > 0);
+
+  UpdateMolesFromMassFractions(state_);
 
   // Do the actual computation
   ode_solver_->Integrate(AdvanceSystem{this, &state_},
-- 
2.43.0


From b96fc1e13727a5fe4a7a462b3c1278f5eadfa425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:41 +0000
Subject: [PATCH 33/56] fix: GetProductionRates uses the concentrations of the
 present density

---
 src/equations/ideal_gas_mix/FlameMasterReactor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
index cb9978a..cde55bd 100644
--- a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
+++ b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
@@ -930,6 +930,7 @@ span<const double> FlameMasterReactor::GetReactionRates() const {
 }
 
 span<const double> FlameMasterReactor::GetProductionRates() {
+  UpdateMolesFromMassFractions(state_);
   mechanism_->ComputeProductionRates(state_.production_rates,          // cdot
                                      state_.reaction_rates,            // w
                                      state_.rate_coefficients,         // k
-- 
2.43.0


From a2ff9e253c63b9ae7aa0b08e50ca6770cde3161a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:41 +0000
Subject: [PATCH 34/56] fix: assigning a reactor transfers its array state

---
 src/equations/ideal_gas_mix/FlameMasterReactor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
index cde55bd..983d695 100644
--- a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
+++ b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
@@ -362,6 +362,7 @@ FlameMasterReactor& FlameMasterReactor::
 operator=(FlameMasterReactor&& other) noexcept {
   mechanism_ = std::move(other.mechanism_);
   state_ = std::move(other.state_);
+  array_state_ = std::move(other.array_state_);
   ode_solver_ = std::move(other.ode_solver_);
   state_.temperature = state_.molesStorage.data();
   state_.moles = make_span(state_.molesStorage).subspan(1);
-- 
2.43.0


From f5552cb738c57d5b6f5fa4f45837dc90f13530b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:41 +0000
Subject: [PATCH 35/56] fix: a new reactor has a defined array composition

---
 src/equations/ideal_gas_mix/FlameMasterReactor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
index 983d695..18e1079 100644
--- a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
+++ b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
@@ -334,6 +334,7 @@ FlameMasterReactor::FlameMasterReactor(const FlameMasterMechanism& mechanism)
   UpdateMolesFromMassFractions(state_);
   SetTemperature(300.);
   SetPressure(101325.);
+  array_state_.massFractions.setZero();
   array_state_.massFractions.row(0) = Array1d::Constant(1.0);
   SetTemperatureArray(Array1d::Constant(300.0));
   SetPressureArray(Array1d::Constant(101325.0));
-- 
2.43.0


From 159d7bba8d0b167b3f94c2954d492ed6da471464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:07 +0000
Subject: [PATCH 36/56] fix: RadauSolver continues from the last accepted step
 when the step size collapses

---
 src/ode_solver/RadauSolver.cpp | 38 ++++++++++++++--------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/src/ode_solver/RadauSolver.cpp b/src/ode_solver/RadauSolver.cpp
index fb88204..e1bdc64 100644
--- a/src/ode_solver/RadauSolver.cpp
+++ b/src/ode_solver/RadauSolver.cpp
@@ -72,7 +72,7 @@ void radau_(int* N,       // Dimension
 
 int call_radau(rhs_t system,      // RHS function
                int* ipar,         // IPAR
-               double t_0,        // Initial time
+               double& t_0,       // Initial time, returns the time reached
                double t_end,      // Final integration time
                span<double> y,    // Initial y array
                double h,          // Initial step size
@@ -182,6 +182,7 @@ void RadauSolver::integrate(system_type system, span<double> y0, double t0,
   iwork_space_.resize(GetIWorkSpaceSize(y0.size()));
 
   const double t = t0 + dt; // final fime
+  double t_reached = t0;    // time of the last accepted step
 
   iwork_space_[0] = 1; // Use Hessenberg matrix form
   // iwork[1] = 10000; // Increase maximum number of steps
@@ -190,7 +191,7 @@ void RadauSolver::integrate(system_type system, span<double> y0, double t0,
 
   int idid = call_radau(radau_rhs,                          // RHS function
                         reinterpret_cast<int*>(&user_data), // IPAR
-                        t0,                                 // Initial time
+                        t_reached,                          // Initial time
                         t,                      // Final integration time
                         y0,                     // Initial y array and output
                         initial_time_step_size, // Initial step size
@@ -217,24 +218,14 @@ void RadauSolver::integrate(system_type system, span<double> y0, double t0,
     throw radau_error::InputIsNotConsistent{};
   case -2:
     throw radau_error::LargerNMaxIsNeeded{};
-  case -3:
-    idid = call_radau(radau_rhs, // RHS function
-                      reinterpret_cast<int*>(std::addressof(system)), // IPAR
-                      t0,                     // Initial time
-                      t / 2,                  // Final integration time
-                      y0,                     // Initial y array and output
-                      initial_time_step_size, // Initial step size
-                      relative_tolerance,     // Tolerances
-                      absolute_tolerance,     //
-                      work_space_,            // Temporary array of size LWORK
-                      iwork_space_,           // Temporary array of size LIWORK
-                      feedback ? radau_feedback : sol_t{nullptr},
-                      jacobian ? radau_jacobian : jac_t{nullptr});
-    if (idid > 0) {
-      idid = call_radau(radau_rhs, // RHS function
-                        reinterpret_cast<int*>(std::addressof(system)), // IPAR
-                        t0,                     // Initial time
-                        t / 2,                  // Final integration time
+  case -3: {
+    // Continue from the last accepted step in two smaller intervals
+    const double t_half = t_reached + 0.5 * (t - t_reached);
+    for (double t_end : {t_half, t}) {
+      idid = call_radau(radau_rhs,                          // RHS function
+                        reinterpret_cast<int*>(&user_data), // IPAR
+                        t_reached,                          // Initial time
+                        t_end,                  // Final integration time
                         y0,                     // Initial y array and output
                         initial_time_step_size, // Initial step size
                         relative_tolerance,     // Tolerances
@@ -243,11 +234,12 @@ void RadauSolver::integrate(system_type system, span<double> y0, double t0,
                         iwork_space_, // Temporary array of size LIWORK
                         feedback ? radau_feedback : sol_t{nullptr},
                         jacobian ? radau_jacobian : jac_t{nullptr});
-      if (idid > 0) {
-        break;
+      if (idid <= 0) {
+        throw radau_error::StepSizeBecomesTooSmall{};
       }
     }
-    throw radau_error::StepSizeBecomesTooSmall{};
+    break;
+  }
   case -4:
     throw radau_error::MatrixIsRepeatedlySingular{};
   case -42:
-- 
2.43.0


From 7fce27e8c3df3ac71722a2f898cd840286830249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:13 +0000
Subject: [PATCH 37/56] fix: a composition string with a missing number is
 rejected

---
 src/equations/ideal_gas_mix/FlameMasterReactor.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
index 18e1079..8e03baf 100644
--- a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
+++ b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
@@ -824,7 +824,9 @@ void FlameMasterReactor::SetMassFractions(std::string newMassFractions) {
     if (inputParser.get() != ':')
       throw FlameMasterReactorException("Invalid mass fraction string: " +
                                         newMassFractions);
-    inputParser >> speciesValue;
+    if (!(inputParser >> speciesValue))
+      throw FlameMasterReactorException("Invalid mass fraction string: " +
+                                        newMassFractions);
     while (inputParser.peek() == ',' || inputParser.peek() == ' ')
       inputParser.get();
 
-- 
2.43.0


From df6bce0f44f2ba20d98a8594a808221d60642441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:16 +0000
Subject: [PATCH 38/56] fix: RadauSolver reports a right-hand side that
 evaluates to NaN instead of looping forever

---
 src/ode_solver/radau.f | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ode_solver/radau.f b/src/ode_solver/radau.f
index ae48dcc..7ff7898 100644
--- a/src/ode_solver/radau.f
+++ b/src/ode_solver/radau.f
@@ -896,7 +896,11 @@ C --- JACOBIAN IS FULL
                CALL FCN(N,X,Y,CONT,RPAR,IPAR)
                DO J=M1+1,N
 C --- pberndt XXX: Check if the rhs returned a NaN
-                 IF (ISNAN(CONT(J))) GOTO 78
+C --- The Jacobian does not depend on H: a smaller step does not help
+                 IF (ISNAN(CONT(J))) THEN
+                    Y(I)=YSAFE
+                    GOTO 175
+                 END IF
                  FJAC(J-M1,I)=(CONT(J)-Y0(J))/DELT
                END DO
                Y(I)=YSAFE
-- 
2.43.0


From 4cd130fff02544fda78db22e18d3ff717f7de80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:35 +0000
Subject: [PATCH 39/56] fix: a cloned RadauSolver keeps the tolerances of its
 original

---
 include/fub/ode_solver/RadauSolver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fub/ode_solver/RadauSolver.hpp b/include/fub/ode_solver/RadauSolver.hpp
index b9e0a73..fffd5f9 100644
--- a/include/fub/ode_solver/RadauSolver.hpp
+++ b/include/fub/ode_solver/RadauSolver.hpp
@@ -71,7 +71,7 @@ public:
 
 private:
   std::unique_ptr<OdeSolver> clone() const override {
-    return std::make_unique<RadauSolver>();
+    return std::make_unique<RadauSolver>(*this);
   }
 
   void integrate(system_type system, span<double> y_0, double t, double dt,
-- 
2.43.0


From cb0d84486bb72c0aed7508d482675b95f60e7ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:58 +0000
Subject: [PATCH 40/56] fix: RadauSolver ends at the final time if the
 remaining interval is a rounding error

---
 src/ode_solver/radau.f | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ode_solver/radau.f b/src/ode_solver/radau.f
index 7ff7898..cc03607 100644
--- a/src/ode_solver/radau.f
+++ b/src/ode_solver/radau.f
@@ -1661,7 +1661,7 @@ C       --- UPDATE SCALING
          HOPT=MIN(H,HNEW)
          IF (REJECT) HNEW=POSNEG*MIN(ABS(HNEW),ABS(H)) 
          REJECT=.FALSE.
-         IF ((X+HNEW/QUOT1-XEND)*POSNEG.GE.0.D0) THEN
+         IF ((X+HNEW*1.0001D0/QUOT1-XEND)*POSNEG.GE.0.D0) THEN
             H=XEND-X
             LAST=.TRUE.
          ELSE
-- 
2.43.0


From 8e58781c56febac1dc0310bb41adc24d672bfc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:19 +0000
Subject: [PATCH 41/56] fix: RunSimulation does not repeat outputs after a
 rejected time step

---
 include/fub/RunSimulation.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fub/RunSimulation.hpp b/include/fub/RunSimulation.hpp
index 7e7a3cc..e948e23 100644
--- a/include/fub/RunSimulation.hpp
+++ b/include/fub/RunSimulation.hpp
@@ -109,6 +109,8 @@ void RunSimulation(Solver& solver, RunOptions options,
   while (time_point + eps < options.final_time &&
          (options.max_cycles < 0 || solver.GetGriddingAlgorithm()->GetCycles() < options.max_cycles)) {
     // We have a nested loop to exactly reach output time points.
+    // A rejected step restores the previous state, which has already been
+    // considered for output.
     do {
       Timer timestep_counter =
           counters->get_timer("RunSimulation::WholeTimeStep");
@@ -183,7 +185,7 @@ void RunSimulation(Solver& solver, RunOptions options,
     } while (
         time_point + eps < options.final_time &&
         (options.max_cycles < 0 || solver.GetCycles() < options.max_cycles) &&
-        !output.ShallOutputNow(*solver.GetGriddingAlgorithm()));
+        (failure_dt || !output.ShallOutputNow(*solver.GetGriddingAlgorithm())));
     auto output_timer = solver.GetCounterRegistry()->get_timer("Output");
     output(*solver.GetGriddingAlgorithm());
   }
-- 
2.43.0


From 3cbfc6d21e9210c4ada9d8b9a122dc332c5a5306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:16 +0000
Subject: [PATCH 42/56] fix: outputs with a frequency of zero do not divide by
 zero

---
 include/fub/output/OutputAtFrequencyOrInterval.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fub/output/OutputAtFrequencyOrInterval.hpp b/include/fub/output/OutputAtFrequencyOrInterval.hpp
index 7c42cb6..9414e2b 100644
--- a/include/fub/output/OutputAtFrequencyOrInterval.hpp
+++ b/include/fub/output/OutputAtFrequencyOrInterval.hpp
@@ -70,7 +70,9 @@ public:
     const std::ptrdiff_t cycle = grid.GetCycles();
     if (std::any_of(
             frequencies_.begin(), frequencies_.end(),
-            [cycle](std::ptrdiff_t freq) { return cycle % freq == 0; })) {
+            [cycle](std::ptrdiff_t freq) {
+              return freq > 0 && cycle % freq == 0;
+            })) {
       return true;
     }
     const Duration time_point = grid.GetTimePoint();
-- 
2.43.0


From 04951cb88d07cbd4d7160f95dc7d0b05d6001632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:34 +0000
Subject: [PATCH 43/56] fix: scheduled outputs fire at multiples of their
 interval within rounding errors

---
 include/fub/output/OutputAtFrequencyOrInterval.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/fub/output/OutputAtFrequencyOrInterval.hpp b/include/fub/output/OutputAtFrequencyOrInterval.hpp
index 9414e2b..20f8384 100644
--- a/include/fub/output/OutputAtFrequencyOrInterval.hpp
+++ b/include/fub/output/OutputAtFrequencyOrInterval.hpp
@@ -59,6 +59,11 @@ public:
       if (intervals_[i].count() > 0.0) {
         Duration dt(intervals_[i].count() -
                     std::fmod(time_point.count(), intervals_[i].count()));
+        // This multiple of the interval is the current time point, up to
+        // rounding errors.
+        if (dt < 2 * smallest_time_step_size_) {
+          dt += intervals_[i];
+        }
         dt += smallest_time_step_size_;
         next_output_time = std::min<Duration>(next_output_time, time_point + dt);
       }
@@ -79,8 +84,13 @@ public:
     if (time_point == Duration{} ||
         std::any_of(intervals_.begin(), intervals_.end(),
                     [this, time_point](Duration freq) {
-                      return std::abs(
-                                 std::fmod(time_point.count(), freq.count())) <
+                      if (!(freq.count() > 0.0)) {
+                        return false;
+                      }
+                      // distance to the nearest multiple of the interval
+                      const double rest =
+                          std::fmod(time_point.count(), freq.count());
+                      return std::min(rest, freq.count() - rest) <
                              2 * smallest_time_step_size_.count();
                     })) {
       return true;
-- 
2.43.0


From 88364b0722ee0e9d34edd0822c2a3007a0800baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:42 +0000
Subject: [PATCH 44/56] fix: NoSubcycleSolver fills fine ghost cells from
 coarse data of the same time

---
 include/fub/solver/NoSubcycleSolver.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/fub/solver/NoSubcycleSolver.hpp b/include/fub/solver/NoSubcycleSolver.hpp
index e552838..abc9e64 100644
--- a/include/fub/solver/NoSubcycleSolver.hpp
+++ b/include/fub/solver/NoSubcycleSolver.hpp
@@ -68,7 +68,17 @@ Duration NoSubcycleSolver<LevelIntegrator>::ComputeStableDt() {
 template <typename LevelIntegrator>
 Result<void, TimeStepTooLarge>
 NoSubcycleSolver<LevelIntegrator>::AdvanceHierarchy(Duration time_step_size) {
-  return AdvanceLevel(0, time_step_size);
+  Result<void, TimeStepTooLarge> result = AdvanceLevel(0, time_step_size);
+  if (!result) {
+    return result;
+  }
+  // Fill the ghost layers from coarse to fine after all levels have reached
+  // the new time point.
+  Base::GetContext().FillGhostLayerSingleLevel(0);
+  for (int level = 1; Base::LevelExists(level); ++level) {
+    Base::GetContext().FillGhostLayerTwoLevels(level, level - 1);
+  }
+  return result;
 }
 
 template <typename LevelIntegrator>
@@ -96,11 +106,6 @@ NoSubcycleSolver<LevelIntegrator>::AdvanceLevel(int level,
     Base::CompleteFromCons(level, time_step_size);
   }
   Base::CopyScratchToData(level);
-  if (level == 0) {
-    Base::GetContext().FillGhostLayerSingleLevel(level);
-  } else {
-    Base::GetContext().FillGhostLayerTwoLevels(level, level - 1);
-  }
   return Base::PostAdvanceLevel(level, time_step_size, {0, 1});
 }
 
-- 
2.43.0


From 26098fa8d783f28f5453e2493e1445a0a98c430d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:42 +0000
Subject: [PATCH 45/56] fix: SplitSystemSourceLevelIntegrator reports failures
 of the source term in PostAdvanceLevel

---
 include/fub/solver/SplitSystemSourceLevelIntegrator.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/fub/solver/SplitSystemSourceLevelIntegrator.hpp b/include/fub/solver/SplitSystemSourceLevelIntegrator.hpp
index 48470f3..e05fada 100644
--- a/include/fub/solver/SplitSystemSourceLevelIntegrator.hpp
+++ b/include/fub/solver/SplitSystemSourceLevelIntegrator.hpp
@@ -192,7 +192,11 @@ SplitSystemSourceLevelIntegrator<SystemSolver, SourceTerm, SplittingMethod>::
                      std::pair<int, int> subcycle) {
   if constexpr (is_detected<meta::PostAdvanceLevel, SourceTerm&, int, Duration,
                             std::pair<int, int>>()) {
-    source_term_.PostAdvanceLevel(this_level, dt, subcycle);
+    Result<void, TimeStepTooLarge> result =
+        source_term_.PostAdvanceLevel(this_level, dt, subcycle);
+    if (!result) {
+      return result;
+    }
   }
   return SystemSolver::PostAdvanceLevel(this_level, dt, subcycle);
 }
-- 
2.43.0


From 3dc369af22c5b90c66ea0fc0ebbbad55f50e6e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:53 +0000
Subject: [PATCH 46/56] fix: TagBuffer tags every cell within the buffer width
 and nothing outside of the patch

The one dimensional version skipped tags near the boundary and cleared
tags, the two dimensional one missed the upper end of the neighborhood,
and the three dimensional one tagged every interior cell.
---
 src/tagging_method/TagBuffer.cpp | 71 ++++++++++----------------------
 1 file changed, 22 insertions(+), 49 deletions(-)

diff --git a/src/tagging_method/TagBuffer.cpp b/src/tagging_method/TagBuffer.cpp
index f3123f1..adab9e4 100644
--- a/src/tagging_method/TagBuffer.cpp
+++ b/src/tagging_method/TagBuffer.cpp
@@ -23,66 +23,39 @@
 #include "fub/ForEach.hpp"
 
 namespace fub {
+namespace {
+// Tags with value one or two are buffered. Cells which are tagged by this
+// buffer get the value three such that they do not spread any further.
+template <int Rank>
+void TagCellsForRefinement_(
+    const PatchDataView<char, Rank, layout_stride>& tags, int width) {
+  const IndexBox<Rank> box = tags.Box();
+  ForEachIndex(box, [&](auto... is) {
+    if (tags(is...) == '\1' || tags(is...) == '\2') {
+      const IndexBox<Rank> neighborhood =
+          Intersect(box, Neighborhood<Rank>(Index<Rank>{is...}, width));
+      ForEachIndex(neighborhood, [&](auto... js) {
+        tags(js...) =
+            std::max(tags(js...), static_cast<char>('\3' - tags(js...)));
+      });
+    }
+  });
+}
+} // namespace
 
 void TagBuffer::TagCellsForRefinement(
     const PatchDataView<char, 1, layout_stride>& tags) {
-  span<char> data = tags.Span();
-  for (std::ptrdiff_t i = buffer_width_; i < data.size() - buffer_width_; ++i) {
-    if (data[i] == '\1') {
-      for (std::ptrdiff_t j = 0; j < buffer_width_; ++j) {
-        data[i + j] = static_cast<char>('\2' - data[i + j]);
-      }
-      for (std::ptrdiff_t j = buffer_width_; j > 0; --j) {
-        data[i - j - 1] = static_cast<char>('\2' - data[i - j - 1]);
-      }
-    }
-  }
+  TagCellsForRefinement_(tags, buffer_width_);
 }
 
 void TagBuffer::TagCellsForRefinement(
     const PatchDataView<char, 2, layout_stride>& tags) {
-  mdspan<char, 2, layout_stride> data = tags.MdSpan();
-  const std::ptrdiff_t nx = data.extent(0);
-  const std::ptrdiff_t ny = data.extent(1);
-  for (std::ptrdiff_t j = 0; j < ny; ++j) {
-    for (std::ptrdiff_t i = 0; i < nx; ++i) {
-      if (data(i, j) == '\1' || data(i, j) == '\2') {
-        const std::ptrdiff_t k0 =
-            std::max(i - buffer_width_, std::ptrdiff_t{0});
-        const std::ptrdiff_t k1 = std::min(i + buffer_width_, nx);
-        const std::ptrdiff_t l0 =
-            std::max(j - buffer_width_, std::ptrdiff_t{0});
-        const std::ptrdiff_t l1 = std::min(j + buffer_width_, ny);
-        for (std::ptrdiff_t l = l0; l < l1; ++l) {
-          for (std::ptrdiff_t k = k0; k < k1; ++k) {
-            data(k, l) =
-                std::max(data(k, l), static_cast<char>('\3' - data(k, l)));
-          }
-        }
-      }
-    }
-  }
+  TagCellsForRefinement_(tags, buffer_width_);
 }
 
 void TagBuffer::TagCellsForRefinement(
     const PatchDataView<char, 3, layout_stride>& tags) {
-  const std::array<std::ptrdiff_t, 2> shift{buffer_width_, buffer_width_};
-  const Direction X = Direction::X;
-  const Direction Y = Direction::Y;
-  const Direction Z = Direction::Z;
-  IndexBox<3> box =
-      Shrink(Shrink(Shrink(tags.Box(), X, shift), Y, shift), Z, shift);
-  ForEachIndex(box, [&](std::ptrdiff_t i0, std::ptrdiff_t j0,
-                        std::ptrdiff_t k0) {
-    Index<3> lower{i0 - buffer_width_, j0 - buffer_width_, k0 - buffer_width_};
-    Index<3> upper{i0 + buffer_width_, j0 + buffer_width_, k0 + buffer_width_};
-    IndexBox<3> neighborhood{lower, upper};
-    ForEachIndex(neighborhood, [&](std::ptrdiff_t i, std::ptrdiff_t j,
-                                   std::ptrdiff_t k) {
-      tags(i, j, k) =
-          std::max(tags(i, j, k), static_cast<char>('\2' - tags(i, j, k)));
-    });
-  });
+  TagCellsForRefinement_(tags, buffer_width_);
 }
 
 } // namespace fub
-- 
2.43.0


From e701593727faa252c7da54d7333bc768a5fa7133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:53 +0000
Subject: [PATCH 47/56] fix: ArrayGradientDetector considers all directions and
 reads matching neighbors

Only the x direction was examined, the loads of whole chunks used states
of the wrong cells and vanishing neighbors were tagged.
---
 .../fub/tagging_method/GradientDetector.hpp   | 92 +++++++++----------
 1 file changed, 45 insertions(+), 47 deletions(-)

diff --git a/include/fub/tagging_method/GradientDetector.hpp b/include/fub/tagging_method/GradientDetector.hpp
index 344045d..e30165d 100644
--- a/include/fub/tagging_method/GradientDetector.hpp
+++ b/include/fub/tagging_method/GradientDetector.hpp
@@ -240,31 +240,17 @@ template <typename Equation, typename... Projections>
 void ArrayGradientDetector_<Equation, Projections...>::TagCellsForRefinement(
     const PatchDataView<char, Rank, layout_stride>& tags,
     const View<const Complete<Equation>>& states) {
-  Direction dir = Direction::X;
-  BasicView shifted = Subview(states, Grow(tags.Box(), dir, {1, 1}));
-  std::tuple views{tags, Shrink(shifted, dir, {0, 2}),
-                   Shrink(shifted, dir, {1, 1}), Shrink(shifted, dir, {2, 0})};
-  FUB_ASSERT(Box<0>(std::get<2>(views)) == tags.Box());
-  ForEachRow(views, [&](span<char> tags_row,
-                        const Row<const Complete<Equation>>& rL,
-                        const Row<const Complete<Equation>>& rM,
-                        const Row<const Complete<Equation>>& rR) {
-    char* tags_pointer = tags_row.begin();
-    ViewPointer<const Complete<Equation>> pL = Begin(rL);
-    ViewPointer<const Complete<Equation>> pM = Begin(rM);
-    ViewPointer<const Complete<Equation>> pR = Begin(rR);
-    ViewPointer<const Complete<Equation>> pEnd = End(rR);
-    int n = static_cast<int>(get<0>(pEnd) - get<0>(pR));
-    if (n >= kDefaultChunkSize) {
-      Load(sM_, pL);
-      Load(sR_, pM);
-    }
+  for (int d = 0; d < Rank; ++d) {
+    const Direction dir = static_cast<Direction>(d);
+    const IndexBox<Rank> box =
+        Intersect(tags.Box(), Shrink(Box<0>(states), dir, {1, 1}));
+    BasicView shifted = Subview(states, Grow(box, dir, {1, 1}));
+    std::tuple views{tags.Subview(box), Shrink(shifted, dir, {0, 2}),
+                     Shrink(shifted, dir, {1, 1}),
+                     Shrink(shifted, dir, {2, 0})};
+    FUB_ASSERT(Box<0>(std::get<2>(views)) == box);
     const Array<char, 1> ones = Array<char, 1>::Constant(char(1));
-    while (n >= kDefaultChunkSize) {
-      sL_ = sM_;
-      sM_ = sR_;
-      Load(sR_, pR);
-      Array<char, 1> tags_array = Array<char, 1>::Map(tags_pointer);
+    auto tag_states = [&](Array<char, 1>& tags_array) {
       boost::mp11::tuple_for_each(Base::conditions_, [&](auto&& condition) {
         auto&& [proj, tolerance] = condition;
         const Array1d xL = std::invoke(proj, sL_);
@@ -272,31 +258,43 @@ void ArrayGradientDetector_<Equation, Projections...>::TagCellsForRefinement(
         const Array1d xR = std::invoke(proj, sR_);
         const Array1d left = (xM - xL).abs() / (xM.abs() + xL.abs());
         const Array1d right = (xM - xR).abs() / (xM.abs() + xR.abs());
-        tags_array = (left < tolerance).select(tags_array, ones);
-        tags_array = (right < tolerance).select(tags_array, ones);
+        // Neighbors which are both zero yield NaN and are not tagged
+        tags_array = (left > tolerance).select(ones, tags_array);
+        tags_array = (right > tolerance).select(ones, tags_array);
       });
-      Array<char, 1>::Map(tags_pointer) = tags_array;
-      Advance(pR, kDefaultChunkSize);
-      tags_pointer += kDefaultChunkSize;
-      n = static_cast<int>(get<0>(pEnd) - get<0>(pR));
-    }
-    LoadN(sL_, pL, n);
-    LoadN(sM_, pM, n);
-    LoadN(sR_, pR, n);
-    Array<char, 1> tags_array = Array<char, 1>::Zero();
-    LoadN(tags_array, tags_pointer, n);
-    boost::mp11::tuple_for_each(Base::conditions_, [&](auto&& condition) {
-      auto&& [proj, tolerance] = condition;
-      const Array1d xL = std::invoke(proj, sL_);
-      const Array1d xM = std::invoke(proj, sM_);
-      const Array1d xR = std::invoke(proj, sR_);
-      const Array1d left = (xM - xL).abs() / (xM.abs() + xL.abs());
-      const Array1d right = (xM - xR).abs() / (xM.abs() + xR.abs());
-      tags_array = (left < tolerance).select(tags_array, ones);
-      tags_array = (right < tolerance).select(tags_array, ones);
+    };
+    ForEachRow(views, [&](span<char> tags_row,
+                          const Row<const Complete<Equation>>& rL,
+                          const Row<const Complete<Equation>>& rM,
+                          const Row<const Complete<Equation>>& rR) {
+      char* tags_pointer = tags_row.begin();
+      ViewPointer<const Complete<Equation>> pL = Begin(rL);
+      ViewPointer<const Complete<Equation>> pM = Begin(rM);
+      ViewPointer<const Complete<Equation>> pR = Begin(rR);
+      ViewPointer<const Complete<Equation>> pEnd = End(rR);
+      int n = static_cast<int>(get<0>(pEnd) - get<0>(pR));
+      while (n >= kDefaultChunkSize) {
+        Load(sL_, pL);
+        Load(sM_, pM);
+        Load(sR_, pR);
+        Array<char, 1> tags_array = Array<char, 1>::Map(tags_pointer);
+        tag_states(tags_array);
+        Array<char, 1>::Map(tags_pointer) = tags_array;
+        Advance(pL, kDefaultChunkSize);
+        Advance(pM, kDefaultChunkSize);
+        Advance(pR, kDefaultChunkSize);
+        tags_pointer += kDefaultChunkSize;
+        n = static_cast<int>(get<0>(pEnd) - get<0>(pR));
+      }
+      LoadN(sL_, pL, n);
+      LoadN(sM_, pM, n);
+      LoadN(sR_, pR, n);
+      Array<char, 1> tags_array = Array<char, 1>::Zero();
+      LoadN(tags_array, tags_pointer, n);
+      tag_states(tags_array);
+      StoreN(tags_pointer, tags_array, n);
     });
-    StoreN(tags_pointer, tags_array, n);
-  });
+  }
 }
 
 } // namespace fub
-- 
2.43.0


From 3b448a959d562cc349de2dd313d3c6774381655b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:15 +0000
Subject: [PATCH 48/56] fix: ForEachIndex accepts strided mappings of patches
 that are one cell wide

---
 include/fub/ForEach.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/fub/ForEach.hpp b/include/fub/ForEach.hpp
index 66bbdc6..3abbd03 100644
--- a/include/fub/ForEach.hpp
+++ b/include/fub/ForEach.hpp
@@ -118,15 +118,20 @@ Function ForEachIndex(const layout_stride::mapping<Extents>& mapping,
       function(i);
     }
   } else if constexpr (Extents::rank() == 2) {
-    FUB_ASSERT(mapping.stride(0) < mapping.stride(1));
+    // Strides coincide if the patch is one cell wide
+    FUB_ASSERT(mapping.extents().extent(0) == 0 ||
+               mapping.stride(0) <= mapping.stride(1));
     for (int i = 0; i < mapping.extents().extent(1); ++i) {
       for (int j = 0; j < mapping.extents().extent(0); ++j) {
         function(j, i);
       }
     }
   } else if constexpr (Extents::rank() == 3) {
-    FUB_ASSERT(mapping.stride(0) < mapping.stride(1));
-    FUB_ASSERT(mapping.stride(1) < mapping.stride(2));
+    FUB_ASSERT(mapping.extents().extent(0) == 0 ||
+               mapping.stride(0) <= mapping.stride(1));
+    FUB_ASSERT(mapping.extents().extent(0) == 0 ||
+               mapping.extents().extent(1) == 0 ||
+               mapping.stride(1) <= mapping.stride(2));
     for (int i = 0; i < mapping.extents().extent(2); ++i) {
       for (int j = 0; j < mapping.extents().extent(1); ++j) {
         for (int k = 0; k < mapping.extents().extent(0); ++k) {
-- 
2.43.0


From c645553596ce329992d5bfc52437c8773e953db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:21 +0000
Subject: [PATCH 49/56] fix: MakeRotation is accurate for almost opposite
 directions

---
 include/fub/ext/Eigen.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/fub/ext/Eigen.hpp b/include/fub/ext/Eigen.hpp
index 5b07495..6dee64c 100644
--- a/include/fub/ext/Eigen.hpp
+++ b/include/fub/ext/Eigen.hpp
@@ -120,8 +120,13 @@ MakeRotation(const Eigen::Matrix<double, 3, 1>& a,
   if (a == -b) {
     return -Eigen::Matrix<double, 3, 3>::Identity();
   }
-  const Eigen::Matrix<double, 3, 1> v = a.cross(b);
   const double c = a.dot(b);
+  // The formula below divides by 1 + c, which loses all digits if a is almost
+  // opposite to b. As above, use the inversion of the opposite vector then.
+  if (c < -0.99) {
+    return -MakeRotation(Eigen::Matrix<double, 3, 1>(-a), b);
+  }
+  const Eigen::Matrix<double, 3, 1> v = a.cross(b);
   Eigen::Matrix<double, 3, 3> skew;
   skew << 0, -v[2], +v[1], +v[2], 0, -v[0], -v[1], +v[0], 0;
   Eigen::Matrix<double, 3, 3> I = Eigen::Matrix<double, 3, 3>::Identity();
-- 
2.43.0


From 733332249ec682b3a4c2333300f70e2155c7dd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:21 +0000
Subject: [PATCH 50/56] fix: masked Einfeldt signal velocities ignore the
 density of masked cells

---
 src/equations/euler_equations/EinfeldtSignalVelocities.hpp | 4 ++--
 src/equations/perfect_gas/EinfeldtSignalVelocities.hpp     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/equations/euler_equations/EinfeldtSignalVelocities.hpp b/src/equations/euler_equations/EinfeldtSignalVelocities.hpp
index fbcfaf3..c87f61c 100644
--- a/src/equations/euler_equations/EinfeldtSignalVelocities.hpp
+++ b/src/equations/euler_equations/EinfeldtSignalVelocities.hpp
@@ -129,8 +129,8 @@ operator()(const Equation& equation, const CompleteArray& left,
   const Array1d rhoER = mask.select(right.energy, zero);
   const Array1d pL = mask.select(left.pressure, zero);
   const Array1d pR = mask.select(right.pressure, zero);
-  const Array1d hL = (rhoEL + pL) / rhoL;
-  const Array1d hR = (rhoER + pR) / rhoR;
+  const Array1d hL = (rhoEL + pL) / rhoLs;
+  const Array1d hR = (rhoER + pR) / rhoRs;
   const Array1d roeH = roeAvg(hL, hR);
   const Array1d roeA2 = (equation.gamma_array_ - Array1d::Constant(1.0)) *
                         (roeH - Array1d::Constant(0.5) * roeU * roeU);
diff --git a/src/equations/perfect_gas/EinfeldtSignalVelocities.hpp b/src/equations/perfect_gas/EinfeldtSignalVelocities.hpp
index c542fd0..034732c 100644
--- a/src/equations/perfect_gas/EinfeldtSignalVelocities.hpp
+++ b/src/equations/perfect_gas/EinfeldtSignalVelocities.hpp
@@ -129,8 +129,8 @@ std::array<Array1d, 2> EinfeldtSignalVelocities<PerfectGas<Dim>>::operator()(
   const Array1d rhoER = mask.select(right.energy, zero);
   const Array1d pL = mask.select(left.pressure, zero);
   const Array1d pR = mask.select(right.pressure, zero);
-  const Array1d hL = (rhoEL + pL) / rhoL;
-  const Array1d hR = (rhoER + pR) / rhoR;
+  const Array1d hL = (rhoEL + pL) / rhoLs;
+  const Array1d hR = (rhoER + pR) / rhoRs;
   const Array1d roeH = roeAvg(hL, hR);
   const Array1d roeA2 = (equation.gamma_array_ - Array1d::Constant(1.0)) * (roeH  - Array1d::Constant(0.5) * roeU * roeU);
   const Array1d roeA = roeA2.sqrt();
-- 
2.43.0


From 0d34844804e7cd1394bcfdc67185ac2db5ef2bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:17 +0000
Subject: [PATCH 51/56] fix: limiter takes every neighbor on the fluid side of
 the wall into account

The position of the neighbor was relative to the volume centroid but the
position of the wall was relative to the cell center. Neighbors of small
cells were ignored.
---
 src/cutcell_method/AnyMdLimiter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cutcell_method/AnyMdLimiter.cpp b/src/cutcell_method/AnyMdLimiter.cpp
index 29ebd7b..8226dc5 100644
--- a/src/cutcell_method/AnyMdLimiter.cpp
+++ b/src/cutcell_method/AnyMdLimiter.cpp
@@ -129,11 +129,11 @@ bool IsConnected(const CutCellData<Rank>& geom, const Index<Rank>& i,
     if (diff.squaredNorm() != 1.0) {
       return false;
     }
-    const Coordinates<Rank> xI = GetVolumeCentroid(geom, i);
+    // All positions are relative to the center of cell i
     const Coordinates<Rank> xJ = diff + GetVolumeCentroid(geom, j);
     const Coordinates<Rank> xB = GetBoundaryCentroid(geom, i);
     const Coordinates<Rank> n = GetBoundaryNormal(geom, i);
-    return n.dot(xJ - xI) >= n.dot(xB);
+    return n.dot(xJ) >= n.dot(xB);
   } else {
     return false;
   }
-- 
2.43.0


From d5952f632ab6b3023a3312c5850453e9959bc66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:17 +0000
Subject: [PATCH 52/56] fix: sort neighbors of cut-cells with a strict weak
 ordering

Closed faces to large neighbors could be sorted before open faces to small
neighbors.
---
 include/fub/cutcell_method/MdGradients.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fub/cutcell_method/MdGradients.hpp b/include/fub/cutcell_method/MdGradients.hpp
index 480d1e8..9bcd95d 100644
--- a/include/fub/cutcell_method/MdGradients.hpp
+++ b/include/fub/cutcell_method/MdGradients.hpp
@@ -118,7 +118,8 @@ void MdGradients<GradientMethod>::ComputeGradients(
                        });
         // std::array<int, 4> is{0, 1, 2, 3};
         std::sort(is.begin(), is.end(), [&](int i, int j) {
-          return betas[i] >= betas[j] && alphas[i] >= alphas[j];
+          return betas[i] > betas[j] ||
+                 (betas[i] == betas[j] && alphas[i] > alphas[j]);
         });
         if (betas[is[2]] <= 0.0) {
           // Set neighbors[is[2]] to corner between neighbors[is[0]] and
-- 
2.43.0


From e33aa9b11d22eee1c0b630475f0b7625ebdc4b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:26 +0000
Subject: [PATCH 53/56] fix: linear optimization limiter is robust against
 round-off errors

Neighbor constraints whose coefficients are round-off errors set gradients to
zero or let the active set method cycle until it throws.
---
 src/cutcell_method/AnyMdLimiter.cpp | 32 +++++++++++++++++++----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/cutcell_method/AnyMdLimiter.cpp b/src/cutcell_method/AnyMdLimiter.cpp
index 8226dc5..8d754cc 100644
--- a/src/cutcell_method/AnyMdLimiter.cpp
+++ b/src/cutcell_method/AnyMdLimiter.cpp
@@ -29,6 +29,9 @@
 namespace fub
 {
 namespace {
+// relative magnitude of differences that are attributed to round-off errors
+constexpr double kRoundOff = 1e-12;
+
 template <int Rows, int Cols>
 Eigen::Matrix<double, 2, Cols>
 TakeRows(const Eigen::Matrix<double, Rows, Cols>& A,
@@ -65,7 +68,7 @@ Eigen::Vector2d SolveLinearOptimizationProblem(
     Eigen::Vector2d lambda_k = A_k.transpose().colPivHouseholderQr().solve(c);
 
     // Step 2: If λ_k >= 0, STOP. In this case, the point x_k is optimal.
-    if ((lambda_k.array() >= 0.0).all()) {
+    if ((lambda_k.array() >= -kRoundOff * c.cwiseAbs().maxCoeff()).all()) {
       return x_k;
     }
 
@@ -83,7 +86,7 @@ Eigen::Vector2d SolveLinearOptimizationProblem(
     int min_i = std::numeric_limits<int>::max();
     for (int i = 0; i < m; ++i) {
       const double ap = A.row(i).transpose().dot(p_k);
-      if (ap < 0.0) {
+      if (ap < -kRoundOff * p_k.cwiseAbs().maxCoeff()) {
         const double Aix = A.row(i).transpose().dot(x_k);
         const double y_i = (b[i] - Aix) / ap;
         if (y_i < alpha_k && IsNonSingular(A, {W_k[qq], i})) {
@@ -204,32 +207,39 @@ void LinearOptimizationLimiter<Rank>::LimitGradientsAtIndex(
     A.row(3) = Eigen::Vector2d(0, -1);
     b[3] = -1;
 
+    // The constraints of the neighbors are relaxed by round-off, otherwise they
+    // depend on the round-off errors in the centroids and in the data.
+    const double round_off =
+        kRoundOff * D.cwiseAbs().dot(dx) +
+        8.0 * std::numeric_limits<double>::epsilon() * std::abs(u_M);
+
     int r = 4;
-    for (const Index<Rank>& i : neighbors) {
-      if (r == n) {
-        break;
-      }
+    for (int k = 0; k < count_neighbors; ++k) {
+      const Index<Rank>& i = neighbors[static_cast<std::size_t>(k)];
       double u_i = u(i);
       const Coordinates<Rank> x_i = GetAbsoluteVolumeCentroid(geom, i, dx);
       Eigen::Vector2d a = (x_i - x_M).array() * D.array();
+      const double scale = a.cwiseAbs().maxCoeff();
+      if (scale <= round_off) {
+        continue;
+      }
+      a /= scale;
       if (u_i < u_M) {
         A.row(r) = a;
-        b[r] = u_i - u_M;
         A.row(r + 1) = -a;
-        b[r + 1] = 0.0;
       } else {
         A.row(r) = -a;
-        b[r] = -(u_i - u_M);
         A.row(r + 1) = a;
-        b[r + 1] = 0.0;
       }
+      b[r] = -(std::abs(u_i - u_M) + round_off) / scale;
+      b[r + 1] = -round_off / scale;
       r += 2;
     }
 
     const int max_iter = 100;
     Eigen::Vector2d limiter_initial_guess = Eigen::Vector2d::Zero();
     Eigen::Vector2d limiter = SolveLinearOptimizationProblem(
-        max_iter, limiter_initial_guess, cost_vector, A, b);
+        max_iter, limiter_initial_guess, cost_vector, A.topRows(r), b.head(r));
 
     // Now we do the limiting!
     grad_u[0](index) = limiter[0] * D[0];
-- 
2.43.0


From 6b1c8156f3196f05cb09b4f2c7ba4ca42f3865d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:40 +0000
Subject: [PATCH 54/56] fix: limit multi-dimensional gradients against the
 quantities they belong to

Gradients of primitive variables were limited with conservative variables.
---
 include/fub/cutcell_method/MdGradients.hpp | 69 +++++++++++++++-------
 1 file changed, 48 insertions(+), 21 deletions(-)

diff --git a/include/fub/cutcell_method/MdGradients.hpp b/include/fub/cutcell_method/MdGradients.hpp
index 9bcd95d..fae072c 100644
--- a/include/fub/cutcell_method/MdGradients.hpp
+++ b/include/fub/cutcell_method/MdGradients.hpp
@@ -47,11 +47,11 @@ private:
   void ComputeGradients(span<double, 2> gradient, span<const double, 5> states,
                         span<const Coordinates<Rank>, 5> x);
 
-  void
-  LimitGradients(const std::array<StridedDataView<double, Rank>, Rank>& grad_u,
-                 StridedDataView<const double, Rank> u,
-                 const CutCellData<Rank>& geom,
-                 const Coordinates<Rank>& dx) const;
+  void LimitGradients(const View<Gradient>& gradient_x,
+                      const View<Gradient>& gradient_y,
+                      const View<const Complete>& states,
+                      const CutCellData<Rank>& geom,
+                      const Coordinates<Rank>& dx);
 
 private:
   Equation equation_;
@@ -177,15 +177,7 @@ void MdGradients<GradientMethod>::ComputeGradients(
       Store(gradient_y, gradient[1], {i, j});
       Store(gradient_z, zero, {i, j});
     });
-    ForEachComponent(
-        [&](const StridedDataView<double, 2>& u_x,
-            const StridedDataView<double, 2>& u_y,
-            const StridedDataView<const double, 2>& u) {
-          std::array<StridedDataView<double, 2>, 2> grad_u{u_x.Subview(box),
-                                                           u_y.Subview(box)};
-          LimitGradients(grad_u, u.Subview(box), geom, dx);
-        },
-        gradient_x, gradient_y, states);
+    LimitGradients(gradient_x, gradient_y, states, geom, dx);
   }
 }
 
@@ -235,15 +227,50 @@ void MdGradients<GradientMethod>::ComputeGradients(
       states_as_gradient_type[3], states_as_gradient_type[4]);
 }
 
-template <typename GradientMethod> 
+template <typename GradientMethod>
 void MdGradients<GradientMethod>::LimitGradients(
-    const std::array<StridedDataView<double, Rank>, Rank>& grad_u,
-    StridedDataView<const double, Rank> u,
-    const CutCellData<Rank>& geom, const Coordinates<Rank>& dx) const {
-  ForEachIndex(u.Box(), [&](auto... is) {
-    if (geom.volume_fractions(is...) > 0.0) {
-      limiter_.LimitGradientsAtIndex(grad_u, u, geom, {is...}, dx);
+    const View<Gradient>& gradient_x, const View<Gradient>& gradient_y,
+    const View<const Complete>& states, const CutCellData<Rank>& geom,
+    const Coordinates<Rank>& dx) {
+  std::array<Gradient, 2> gradient{Gradient{equation_}, Gradient{equation_}};
+  std::array<Gradient, 5> u;
+  u.fill(Gradient{equation_});
+  Complete state{equation_};
+  ForEachIndex(Box<0>(gradient_x), [&](std::ptrdiff_t i, std::ptrdiff_t j) {
+    if (geom.volume_fractions(i, j) <= 0.0) {
+      return;
     }
+    // Gradients are limited against the same quantities they belong to
+    const std::array<Index<Rank>, 5> cells{
+        Index<Rank>{i, j}, Index<Rank>{i - 1, j}, Index<Rank>{i + 1, j},
+        Index<Rank>{i, j - 1}, Index<Rank>{i, j + 1}};
+    for (std::size_t k = 0; k < cells.size(); ++k) {
+      if (geom.volume_fractions(cells[k]) > 0.0) {
+        Load(state, states, cells[k]);
+        StateFromComplete(equation_, u[k], state);
+      }
+    }
+    Load(gradient[0], AsConst(gradient_x), {i, j});
+    Load(gradient[1], AsConst(gradient_y), {i, j});
+    ForEachComponent(
+        [&](double& u_x, double& u_y, double uM, double uxL, double uxR,
+            double uyL, double uyR) {
+          const std::array<double, 9> values{uM,  uyL, uM,  uxL, uM,
+                                             uxR, uM,  uyR, uM};
+          const PatchDataView<const double, 2> quantity(
+              mdspan<const double, 2>(values.data(), 3, 3), {i - 1, j - 1});
+          const PatchDataView<double, 2> grad_x(mdspan<double, 2>(&u_x, 1, 1),
+                                                {i, j});
+          const PatchDataView<double, 2> grad_y(mdspan<double, 2>(&u_y, 1, 1),
+                                                {i, j});
+          const std::array<StridedDataView<double, 2>, 2> grad_u{
+              grad_x.Subview(grad_x.Box()), grad_y.Subview(grad_y.Box())};
+          limiter_.LimitGradientsAtIndex(
+              grad_u, quantity.Subview(quantity.Box()), geom, {i, j}, dx);
+        },
+        gradient[0], gradient[1], u[0], u[1], u[2], u[3], u[4]);
+    Store(gradient_x, gradient[0], {i, j});
+    Store(gradient_y, gradient[1], {i, j});
   });
 }
 
-- 
2.43.0


From aaa3edf559e85eab972b2f0646cafb306f08b14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:45 +0000
Subject: [PATCH 55/56] fix: copying an empty AnyInitialData does not
 dereference a null pointer

---
 include/fub/AnyInitialData.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fub/AnyInitialData.hpp b/include/fub/AnyInitialData.hpp
index 40e43cd..9a754f1 100644
--- a/include/fub/AnyInitialData.hpp
+++ b/include/fub/AnyInitialData.hpp
@@ -134,7 +134,8 @@ AnyInitialData<GriddingAlgorithm>::AnyInitialData(T&& initial_data)
 
 template <typename GriddingAlgorithm>
 AnyInitialData<GriddingAlgorithm>::AnyInitialData(const AnyInitialData& other)
-    : initial_data_(other.initial_data_->Clone()) {}
+    : initial_data_(other.initial_data_ ? other.initial_data_->Clone()
+                                        : nullptr) {}
 
 template <typename GriddingAlgorithm>
 AnyInitialData<GriddingAlgorithm>&
-- 
2.43.0


From 8c8969ec608c7ec07fea31e748d9124773920a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:16 +0000
Subject: [PATCH 56/56] fix: assignment operators of Complete and BasicView
 return a reference

Leaving a function with a non-void return type without a value is undefined.
---
 include/fub/State.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fub/State.hpp b/include/fub/State.hpp
index 12fee35..c0ed9ba 100644
--- a/include/fub/State.hpp
+++ b/include/fub/State.hpp
@@ -350,6 +350,7 @@ template <typename Eq> struct Complete : CompleteBase<Eq> {
   Complete(const CompleteBase<Eq>& x) : CompleteBase<Eq>{x} {}
   Complete& operator=(const CompleteBase<Eq>& x) {
     static_cast<CompleteBase<Eq>&>(*this) = x;
+    return *this;
   }
   Complete(const Equation& eq) : CompleteBase<Eq>{} {
     auto depths = ::fub::Depths(eq, Type<Complete<Equation>>{});
@@ -426,6 +427,7 @@ struct BasicView : ViewBase<S, L, R> {
   BasicView(const ViewBase<S, L, R>& base) : ViewBase<S, L, R>{base} {}
   BasicView& operator=(const ViewBase<S, L, R>& base) {
     static_cast<ViewBase<S, L, R>&>(*this) = base;
+    return *this;
   }
 };
 
-- 
2.43.0

