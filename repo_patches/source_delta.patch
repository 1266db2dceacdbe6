From 37c43dbcc04873a596b40e07705f0e1f3580cef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:23 +0000
Subject: [PATCH 01/17] fix: store the thread count from one thread only

Every thread of the team assigned the shared num_threads, a data race.
---
 queso/embedding/flood_fill.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/queso/embedding/flood_fill.cpp b/queso/embedding/flood_fill.cpp
index 8f72f86..dd5cb21 100644
--- a/queso/embedding/flood_fill.cpp
+++ b/queso/embedding/flood_fill.cpp
@@ -69,6 +69,7 @@ Unique<StatusVectorType> FloodFill::ClassifyElements(GroupSetVectorType& rGroups
     IndexType num_threads = 1;
     #pragma omp parallel
     {
+        #pragma omp single
         num_threads = static_cast<IndexType>(omp_get_num_threads());
     }
 
-- 
2.43.0


From 79802e0435cb5d54116fa5b64e88fb1b72056240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:50 +0000
Subject: [PATCH 02/17] fix: refuse empty background grids and orders without a
 Gauss rule

---
 queso/utilities/check_dictionary_utilities.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/queso/utilities/check_dictionary_utilities.hpp b/queso/utilities/check_dictionary_utilities.hpp
index 3e8eca2..1d389aa 100644
--- a/queso/utilities/check_dictionary_utilities.hpp
+++ b/queso/utilities/check_dictionary_utilities.hpp
@@ -36,6 +36,7 @@ namespace CheckDictionaryUtilities {
         const IndexType min_order =  Math::Min( order );
         const IndexType max_order =  Math::Max( order );
         QuESo_ERROR_IF(min_order < 1) << "Invalid Input. The polynomial order must be p > 0. \n";
+        QuESo_ERROR_IF(max_order > 9) << "Invalid Input. Gauss quadrature rules are only available for p <= 9. \n";
         QuESo_INFO_IF(max_order > 4) << "Warning :: QuESo is designed to construct efficient quadrature rules for 1 <= p <= 4. "
             << "For higher polynomial degrees, the process might become slow. It is recommended to use quadratic bases. Generally, they offer the best performance and accuracy.\n";
 
@@ -47,6 +48,7 @@ namespace CheckDictionaryUtilities {
 
         // Check 'number_of_elements' related settings.
         const Vector3i num_elements = rSettings[MainSettings::background_grid_settings].GetRequiredValue<Vector3i>(BackgroundGridSettings::number_of_elements);
+        QuESo_ERROR_IF(Math::Min( num_elements ) < 1) << "Invalid Input. The background grid must have at least one element in each direction. \n";
         const IndexType tot_num_elements = num_elements[0]*num_elements[1]*num_elements[2];
         QuESo_INFO_IF( tot_num_elements < 2 && echo_level > 0 ) << "You are using only one single element.\n";
 
-- 
2.43.0


From fbe114d83bf2c96b4926006eac9692fdcc249234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:23 +0000
Subject: [PATCH 03/17] fix: check required values of condition settings passed
 in directly

---
 queso/embedded_model.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/queso/embedded_model.h b/queso/embedded_model.h
index e91de2f..4fa402e 100644
--- a/queso/embedded_model.h
+++ b/queso/embedded_model.h
@@ -146,6 +146,7 @@ public:
     ///@see CreateAllFromSettings <- Creates volume and condition directly from input files specified in mSettings.
     ///@todo Add try{} catch{} plus error handler
     void CreateCondition(const TriangleMeshView &rTriangleMesh, const MainDictionaryType& rConditionSettings){
+        rConditionSettings.CheckRequired();
         ComputeCondition(rTriangleMesh, rConditionSettings);
     }
 
-- 
2.43.0


From c5dc083a87c4e1a1bfcc622a9d54ba1b93a69eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:16 +0000
Subject: [PATCH 04/17] fix: rethrow exceptions of parallel loops after the
 loop

---
 queso/embedded_model.cpp       | 19 +++++++++++++++++--
 queso/embedding/flood_fill.cpp | 15 +++++++++++++++
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/queso/embedded_model.cpp b/queso/embedded_model.cpp
index 5e279f3..6a895e2 100644
--- a/queso/embedded_model.cpp
+++ b/queso/embedded_model.cpp
@@ -12,6 +12,7 @@
 //  Authors:    Manuel Messmer
 
 //// STL includes
+#include <exception>
 #include <omp.h>
 
 //// Project includes
@@ -85,9 +86,11 @@ void EmbeddedModel::ComputeVolume(const TriangleMeshView& rTriangleMesh)
     TrimmedElementBuilder<IntegrationPoint, BoundaryIntegrationPoint> trimmed_builder(r_settings, brep_operator);
     UntrimmedElementBuilder<IntegrationPoint, BoundaryIntegrationPoint> untrimmed_builder(r_settings);
 
-// Loop over all elements.
+// Loop over all elements. Exceptions must not leave the parallel region.
+    std::exception_ptr p_exception = nullptr;
 #pragma omp parallel for schedule(dynamic)
     for (int i = 0; i < static_cast<int>(active_indices.size()); ++i) {
+        try {
         const IndexType index = active_indices[static_cast<IndexType>(i)];
         const auto status = r_classifications[index];
 
@@ -98,7 +101,12 @@ void EmbeddedModel::ComputeVolume(const TriangleMeshView& rTriangleMesh)
         } else {
             mBackgroundGrid.MakeElement(untrimmed_builder, index + 1, bounds);
         }
+        } catch (...) {
+#pragma omp critical
+            p_exception = std::current_exception();
+        }
     }// End omp parallel for.
+    if (p_exception) { std::rethrow_exception(p_exception); }
 
     mBackgroundGrid.LockElements();
 
@@ -234,9 +242,11 @@ void EmbeddedModel::ComputeCondition(
     /// Initialize info variables.
     double surf_area_in_active_domain = 0.0;
 
-    // Loop over background grid.
+    // Loop over background grid. Exceptions must not leave the parallel region.
+    std::exception_ptr p_exception = nullptr;
 #pragma omp parallel for reduction(+ : surf_area_in_active_domain) schedule(dynamic)
     for (int for_index = 0; for_index < static_cast<int>(mGridIndexer.NumberOfElements()); ++for_index) {
+        try {
         const auto index = static_cast<IndexType>(for_index);
         // Clip embedded geoemetry with the current element (bounding box).
         const auto bounding_box_xyz = mGridIndexer.GetBoundingBoxXYZFromIndex(index);
@@ -256,7 +266,12 @@ void EmbeddedModel::ComputeCondition(
 #pragma omp critical
             new_condition.AddSegment(std::move(new_segment));
         }
+        } catch (...) {
+#pragma omp critical
+            p_exception = std::current_exception();
+        }
     }
+    if (p_exception) { std::rethrow_exception(p_exception); }
 
     // Add condition to background grid.
     mBackgroundGrid.AddCondition(std::move(new_condition));
diff --git a/queso/embedding/flood_fill.cpp b/queso/embedding/flood_fill.cpp
index dd5cb21..98143e1 100644
--- a/queso/embedding/flood_fill.cpp
+++ b/queso/embedding/flood_fill.cpp
@@ -14,6 +14,7 @@
 //// External includes
 #include <omp.h>
 #include <cstdlib>
+#include <exception>
 
 //// Project includes
 #include "queso/embedding/flood_fill.h"
@@ -122,8 +123,10 @@ void FloodFill::PartitionedFill(GroupSetVectorType& rGroupSetVector, PartitionBo
     // Loop through current partition
      const IndexType total_num_elements = mNumberOfElements[0]*mNumberOfElements[1]*mNumberOfElements[2];
     BoolVectorType visited(total_num_elements, false);
+    std::exception_ptr p_exception = nullptr; // Exceptions must not leave the parallel region.
     #pragma omp parallel for firstprivate(visited) schedule(static, 1)
     for( int p_i = 0; p_i < static_cast<int>(rPartitions.size()); ++p_i){
+        try {
         const auto& partition = rPartitions[static_cast<IndexType>(p_i)];
         for( IndexType i = partition.first[0]; i <= partition.second[0]; ++i ){
             for( IndexType j = partition.first[1]; j <= partition.second[1]; ++j ) {
@@ -141,7 +144,12 @@ void FloodFill::PartitionedFill(GroupSetVectorType& rGroupSetVector, PartitionBo
                 }
             }
         }
+        } catch (...) {
+            #pragma omp critical
+            p_exception = std::current_exception();
+        }
     }
+    if( p_exception ) { std::rethrow_exception(p_exception); }
 }
 
 void FloodFill::Fill(IndexType Index, GroupSetType& rGroupSet, const PartitionBoxType& rPartition,
@@ -241,8 +249,10 @@ void FloodFill::MergeGroups(GroupSetVectorType& rGroups, GroupSetVectorType& rMe
         group_boundary_indices[i].resize(2);
     }
 
+    std::exception_ptr p_exception = nullptr; // Exceptions must not leave the parallel region.
     #pragma omp parallel for
     for( int group_index = 0; group_index < static_cast<int>(num_groups);  ++group_index){
+        try {
         auto& group_set = rGroups[static_cast<IndexType>(group_index)];
         // Tuple: get<0> -> partition_index, get<1> -> index_set, get<2> -> is_inside_count.
         const auto& index_set = std::get<1>(group_set);
@@ -304,7 +314,12 @@ void FloodFill::MergeGroups(GroupSetVectorType& rGroups, GroupSetVectorType& rMe
             }
         }
 
+        } catch (...) {
+            #pragma omp critical
+            p_exception = std::current_exception();
+        }
     }
+    if( p_exception ) { std::rethrow_exception(p_exception); }
 
     // Run group fill. Must be single-thread.
     BoolVectorType visited(num_groups, false);
-- 
2.43.0


From 5423c8e6f8ba05895d20457081eafd32cd0ecd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:16 +0000
Subject: [PATCH 05/17] fix: report a duplicate element id outside the critical
 section

---
 queso/containers/background_grid.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/queso/containers/background_grid.hpp b/queso/containers/background_grid.hpp
index ad66735..cb014a9 100644
--- a/queso/containers/background_grid.hpp
+++ b/queso/containers/background_grid.hpp
@@ -327,9 +327,11 @@ public:
         QuESo_ASSERT(!mElementsLocked, "Cannot add elements after LockElements() was called.");
         auto result = rBuilder.Build(Id, rBounds);
         if (!result) return false;
+        bool is_duplicate = false; // Exceptions must not leave the critical section.
 #pragma omp critical
         {
-            QuESo_ERROR_IF(mElementIdMap.contains(Id)) << "Element ID '" << Id << "' already exists.\n";
+          is_duplicate = mElementIdMap.contains(Id);
+          if (!is_duplicate) {
             const auto location = [&]() {
                 if constexpr (TBuilderType::Builds == ElementFilter::trimmed) {
                     const IndexType index = mTrimmedElements.size();
@@ -347,7 +349,9 @@ public:
                 }
             }();
             mElementIdMap.emplace(Id, location);
+          }
         }
+        QuESo_ERROR_IF(is_duplicate) << "Element ID '" << Id << "' already exists.\n";
         return true;
     }
 
-- 
2.43.0


From efd8765e587f9282715e4b6c6a4db039ce64d19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:16 +0000
Subject: [PATCH 06/17] fix: do not throw from the destructor of
 BinaryBufferWriter

---
 queso/io/binary_buffer_writer.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/queso/io/binary_buffer_writer.hpp b/queso/io/binary_buffer_writer.hpp
index f160a0e..24090dd 100644
--- a/queso/io/binary_buffer_writer.hpp
+++ b/queso/io/binary_buffer_writer.hpp
@@ -54,9 +54,12 @@ public:
     {
     }
 
-    /// Destructor
+    /// Destructor. Writes what is left in the buffer. A failed write is not thrown from here, but leaves
+    /// the stream in a failed state, which can be checked by the caller.
     ~BinaryBufferWriter() {
-        Flush();
+        if (mBufferPos > 0) {
+            mOut.write(mBuffer.data(), static_cast<long int>(mBufferPos));
+        }
     }
 
     /// Delete copy and move operators.
-- 
2.43.0


From 90cb6cec08bbb6a618feff4c49db14ac9e641c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:16 +0000
Subject: [PATCH 07/17] fix: do not dereference the root of an empty tree

---
 queso/embedding/aabb_tree.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/queso/embedding/aabb_tree.cpp b/queso/embedding/aabb_tree.cpp
index 52dcb03..b53d248 100644
--- a/queso/embedding/aabb_tree.cpp
+++ b/queso/embedding/aabb_tree.cpp
@@ -45,12 +45,12 @@ std::vector<IndexType> AABB_tree::Query(const AABB_primitive_base& rAABB_primiti
         IndexType node = stack.back();
         stack.pop_back();
 
+        if (node == NULL_NODE) continue; // The root of an empty tree.
+
         /// TODO: remove this copy (pass lower_bound and upper_bound to intersect())
         const auto& r_aabb_base = BaseTreeType::Nodes()[node].aabb_base;
         const AABB_primitive aabb{r_aabb_base.lowerBound, r_aabb_base.upperBound};
 
-        if (node == NULL_NODE) continue;
-
         // Test for overlap between the AABBs.
         if (rAABB_primitive.intersect(aabb) )
         {
-- 
2.43.0


From 4e508d53f67830910f33812bda1d70b36635c665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:33 +0000
Subject: [PATCH 08/17] fix: refuse ASCII STL vertices without three
 coordinates

---
 queso/io/io_utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queso/io/io_utilities.cpp b/queso/io/io_utilities.cpp
index c33ba8c..985a1e5 100644
--- a/queso/io/io_utilities.cpp
+++ b/queso/io/io_utilities.cpp
@@ -249,7 +249,7 @@ void IO::ReadMeshFromSTL_Ascii(TriangleMesh& rTriangleMesh,
                 std::string word;
                 iss >> word; // "vertex"
                 float xf, yf, zf;
-                iss >> xf >> yf >> zf;
+                QuESo_ERROR_IF(!(iss >> xf >> yf >> zf)) << "Expected coordinates of a vertex but got: " << line << '.' << std::endl;
                 PointType vertex = PointType{static_cast<double>(xf),
                                              static_cast<double>(yf),
                                              static_cast<double>(zf)};
-- 
2.43.0


From ebb2098c056e7113a2423244a86604aebfb07998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:34 +0000
Subject: [PATCH 09/17] fix: only drop surplus points if there are any

---
 queso/quadrature/trimmed_element.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/queso/quadrature/trimmed_element.hpp b/queso/quadrature/trimmed_element.hpp
index 3a4ff4c..1ce6ed0 100644
--- a/queso/quadrature/trimmed_element.hpp
+++ b/queso/quadrature/trimmed_element.hpp
@@ -424,10 +424,12 @@ protected:
                     }
                 );
                 // Only keep #number_of_functions integration points.
-                rIntegrationPoint.erase(
-                    rIntegrationPoint.begin() + static_cast<std::ptrdiff_t>(number_of_functions),
-                    rIntegrationPoint.end()
-                );
+                if (rIntegrationPoint.size() > number_of_functions) {
+                    rIntegrationPoint.erase(
+                        rIntegrationPoint.begin() + static_cast<std::ptrdiff_t>(number_of_functions),
+                        rIntegrationPoint.end()
+                    );
+                }
 
                 // Additionally remove all points that are zero.
                 rIntegrationPoint.erase(
-- 
2.43.0


From 69eea85cb511456980a6f4df3f38608d06d8bc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:08 +0000
Subject: [PATCH 10/17] fix: keep the owner of element views, triangles and
 segments alive in Python

---
 .../bindings/add_containers_to_python.cpp     | 34 +++++++++----------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/queso/python/bindings/add_containers_to_python.cpp b/queso/python/bindings/add_containers_to_python.cpp
index 1eca5a2..30d5082 100644
--- a/queso/python/bindings/add_containers_to_python.cpp
+++ b/queso/python/bindings/add_containers_to_python.cpp
@@ -76,6 +76,19 @@ inline std::tuple<double, double, double> ToTuple3(const Vector3d &rV)
     return { rV[0], rV[1], rV[2] };
 }
 
+/// @brief Returns a list of element views. Each view keeps its owner (the object it refers to) alive.
+template<class TOwner>
+py::list GetElementList(py::handle Owner, const TOwner& rOwner)
+{
+    py::list elements;
+    for( const auto& r_view : rOwner.GetElementViews() ) {
+        py::object element = py::cast(ElementViewType(r_view));
+        py::detail::keep_alive_impl(element, Owner);
+        elements.append(element);
+    }
+    return elements;
+}
+
 } // namespace
 
 using namespace pybind11::literals;
@@ -88,7 +101,7 @@ void AddContainersToPython(pybind11::module& m) {
                 throw py::stop_iteration();
             }
             return self.mpMesh->Triangle<WithNormals>(self.mIndex++);
-        })
+        }, py::keep_alive<0, 1>()) // The triangle refers to the vertices of the mesh.
     ;
 
     py::class_<PythonVertexIterator>(m, "VertexIterator")
@@ -226,14 +239,7 @@ void AddContainersToPython(pybind11::module& m) {
 		.def(py::init<const GridType::MainDictionaryType&>())
 		.def(
 			"GetElements",
-			[](const GridType& rGrid) {
-				std::vector<ElementViewType> elements;
-				const auto views = rGrid.GetElementViews();
-				elements.reserve(views.size());
-				std::ranges::copy(views, std::back_inserter(elements));
-				return elements;
-			},
-			py::keep_alive<0, 1>()
+			[](py::object Self) { return GetElementList(Self, Self.cast<const GridType&>()); }
 		)
 		.def("NumberOfActiveElements", &GridType::NumberOfActiveElements)
 		.def("GetConditions", &GridType::GetConditions, py::return_value_policy::reference_internal)
@@ -251,7 +257,7 @@ void AddContainersToPython(pybind11::module& m) {
         .def("__len__", [](const ConditionSegmentVectorType &self) { return self.size(); })
         .def("__iter__", [](ConditionSegmentVectorType &self) {
             return py::make_iterator(self.begin(), self.end());
-        })
+        }, py::keep_alive<0, 1>())
     ;
 
     /// Export Condition
@@ -276,13 +282,7 @@ void AddContainersToPython(pybind11::module& m) {
         }))
         .def("CreateAllFromSettings", &EmbeddedModel::CreateAllFromSettings)
 		.def("GetElements",
-			[](const EmbeddedModel& rEmbeddedModel) {
-				std::vector<ElementViewType> elements;
-				const auto views = rEmbeddedModel.GetElementViews();
-				elements.reserve(views.size());
-				std::ranges::copy(views, std::back_inserter(elements));
-				return elements;
-			})
+			[](py::object Self) { return GetElementList(Self, Self.cast<const EmbeddedModel&>()); })
         .def("GetConditions", &EmbeddedModel::GetConditions, py::return_value_policy::reference_internal)
         .def("GetSettings", &EmbeddedModel::GetSettings, py::return_value_policy::reference_internal)
         .def("GetModelInfo", static_cast<const EmbeddedModel::MainDictionaryType& (EmbeddedModel::*)() const>(&EmbeddedModel::GetModelInfo),
-- 
2.43.0


From bb93e3d4d7b6ef191c9f1fabf89d93c4eb1cc45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:08 +0000
Subject: [PATCH 11/17] fix: refuse indices out of range in the Python
 containers

---
 queso/python/bindings/add_containers_to_python.cpp | 8 ++++++--
 queso/python/bindings/add_dictionary_to_python.cpp | 5 +++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/queso/python/bindings/add_containers_to_python.cpp b/queso/python/bindings/add_containers_to_python.cpp
index 30d5082..59433b3 100644
--- a/queso/python/bindings/add_containers_to_python.cpp
+++ b/queso/python/bindings/add_containers_to_python.cpp
@@ -211,6 +211,9 @@ void AddContainersToPython(pybind11::module& m) {
         .def("AddTriangle", [](TriangleMesh& self, const std::array<IndexType,3>& rTriangle){
             const Vector3i triangle_indices(rTriangle);
             const auto &vertices = self.Vertices();
+            for (const IndexType index : rTriangle) {
+                if (index >= vertices.size()) { throw py::index_error(); }
+            }
             const TriangleProxy<WithoutNormals> triangle {
                 std::span<const double, 3>(vertices[triangle_indices[0]].data(), 3),
                 std::span<const double, 3>(vertices[triangle_indices[1]].data(), 3),
@@ -252,8 +255,9 @@ void AddContainersToPython(pybind11::module& m) {
 
     // Export ConditionSegment Vector
     py::class_<ConditionSegmentVectorType>(m, "ConditionSegmentVector")
-        .def("__getitem__", [](const ConditionSegmentVectorType &self, const IndexType i)
-            { return &self[i]; }, py::return_value_policy::reference_internal)
+        .def("__getitem__", [](const ConditionSegmentVectorType &self, const IndexType i) {
+            if (i >= self.size()) { throw py::index_error(); }
+            return &self[i]; }, py::return_value_policy::reference_internal)
         .def("__len__", [](const ConditionSegmentVectorType &self) { return self.size(); })
         .def("__iter__", [](ConditionSegmentVectorType &self) {
             return py::make_iterator(self.begin(), self.end());
diff --git a/queso/python/bindings/add_dictionary_to_python.cpp b/queso/python/bindings/add_dictionary_to_python.cpp
index dd2d9a6..b1f8a25 100644
--- a/queso/python/bindings/add_dictionary_to_python.cpp
+++ b/queso/python/bindings/add_dictionary_to_python.cpp
@@ -53,8 +53,9 @@ void AddDictionaryToPython(pybind11::module& m) {
 
     // Export vector
     py::class_<DictionaryVectorPtrType>(m, "DictionaryList")
-        .def("__getitem__", [](DictionaryVectorPtrType &self, IndexType i)
-            { return &(*self[i]); }, py::return_value_policy::reference_internal)
+        .def("__getitem__", [](DictionaryVectorPtrType &self, IndexType i) {
+            if (i >= self.size()) { throw py::index_error(); }
+            return &(*self[i]); }, py::return_value_policy::reference_internal)
         .def("__len__", [](const DictionaryVectorPtrType &self) { return self.size(); })
         .def("__iter__", [](DictionaryVectorPtrType &self) {
             return py::make_iterator( dereference_iterator(self.begin()), dereference_iterator(self.end()) );
-- 
2.43.0


From 06af8f540c3ad53f7761501ffdc7a7d7e90bf331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:05 +0000
Subject: [PATCH 12/17] fix: keep the new owner of released dictionaries alive
 in Python

---
 queso/python/bindings/add_containers_to_python.cpp | 2 +-
 queso/python/bindings/add_dictionary_to_python.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/queso/python/bindings/add_containers_to_python.cpp b/queso/python/bindings/add_containers_to_python.cpp
index 59433b3..5771e6d 100644
--- a/queso/python/bindings/add_containers_to_python.cpp
+++ b/queso/python/bindings/add_containers_to_python.cpp
@@ -283,7 +283,7 @@ void AddContainersToPython(pybind11::module& m) {
     py::class_<EmbeddedModel>(m,"EmbeddedModel")
         .def(py::init([](MainDictionaryHolderType& rSettings) {
             return MakeUnique<EmbeddedModel>(EmbeddedModel::Create(rSettings.Release()));
-        }))
+        }), py::keep_alive<2, 1>()) // References obtained from the holder refer to the settings, now owned by the model.
         .def("CreateAllFromSettings", &EmbeddedModel::CreateAllFromSettings)
 		.def("GetElements",
 			[](py::object Self) { return GetElementList(Self, Self.cast<const EmbeddedModel&>()); })
diff --git a/queso/python/bindings/add_dictionary_to_python.cpp b/queso/python/bindings/add_dictionary_to_python.cpp
index b1f8a25..8838d21 100644
--- a/queso/python/bindings/add_dictionary_to_python.cpp
+++ b/queso/python/bindings/add_dictionary_to_python.cpp
@@ -62,7 +62,7 @@ void AddDictionaryToPython(pybind11::module& m) {
         }, py::keep_alive<0, 1>() )
         .def("append", [](DictionaryVectorPtrType& self, MainDictionaryHolderType& rDictionaryHolder){
             self.push_back(std::move(rDictionaryHolder.Release()));
-        } )
+        }, py::keep_alive<2, 1>() ) // References obtained from the holder refer to the object, now owned by the list.
     ;
 
 } // End AddDictionaryToPython
-- 
2.43.0


From da4c5e89ba50190743620be24363fda68624a49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:05 +0000
Subject: [PATCH 13/17] fix: read the weight of integration points through the
 bound property

---
 queso/python/PyQuESo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queso/python/PyQuESo.py b/queso/python/PyQuESo.py
index 2b1c58e..b05cdb3 100644
--- a/queso/python/PyQuESo.py
+++ b/queso/python/PyQuESo.py
@@ -91,7 +91,7 @@ class PyQuESo:
         for element in self.GetElements():
             if element.IsTrimmed():
                 for point_trimmed_reduced in element.GetIntegrationPoints():
-                    weight = point_trimmed_reduced.Weight()
+                    weight = point_trimmed_reduced.weight
                     if( weight > 0):
                         integration_points.append(point_trimmed_reduced)
             else:
-- 
2.43.0


From d7d93a8244eb62acdb718ee6e4398bc2a8a88144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:23 +0000
Subject: [PATCH 14/17] fix: let failed assertions leave the Jacobian of
 elements and views

---
 queso/containers/element_base.hpp | 4 ++--
 queso/containers/element_view.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/queso/containers/element_base.hpp b/queso/containers/element_base.hpp
index 6fd3aa0..43336bf 100644
--- a/queso/containers/element_base.hpp
+++ b/queso/containers/element_base.hpp
@@ -70,7 +70,7 @@ public:
 
     /// @brief Returns a lightweight read-only view of this element.
     /// @return ElementViewType
-    [[nodiscard]] ElementViewType View() const noexcept
+    [[nodiscard]] ElementViewType View() const noexcept(NOTDEBUG)
     { return ElementViewType(mCore, TIsTrimmed); }
 
     /// @brief Returns the element id.
@@ -124,7 +124,7 @@ public:
 
     /// @brief Returns the determinant of the element-local mapping Jacobian.
     /// @return double
-    [[nodiscard]] double DetJ() const noexcept
+    [[nodiscard]] double DetJ() const noexcept(NOTDEBUG)
     { return mapping::DetJ(mCore.bounds); }
 
     /// @brief Returns whether this element represents a trimmed domain.
diff --git a/queso/containers/element_view.hpp b/queso/containers/element_view.hpp
index 1a05559..3f41adc 100644
--- a/queso/containers/element_view.hpp
+++ b/queso/containers/element_view.hpp
@@ -55,7 +55,7 @@ public:
     /// bounds stored in the core and cached for the lifetime of the view.
     /// @param rCore  Element core to observe.  Must outlive this view.
     /// @param IsTrimmed  Whether the element represents a trimmed domain.
-    ElementView(const CoreType& rCore, bool IsTrimmed) noexcept
+    ElementView(const CoreType& rCore, bool IsTrimmed) noexcept(NOTDEBUG)
         : mCore(rCore), mDetJ(mapping::DetJ(rCore.bounds)), mIsTrimmed(IsTrimmed)
     {}
 
-- 
2.43.0


From 5eea766a8621630c9bf26ab085ea7c08b5f532f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:23 +0000
Subject: [PATCH 15/17] fix: do not grow boxes of generalised Gauss rules
 across the ends of grid rows

---
 queso/quadrature/multiple_elements.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/queso/quadrature/multiple_elements.hpp b/queso/quadrature/multiple_elements.hpp
index aa38a2f..5c1d9d1 100644
--- a/queso/quadrature/multiple_elements.hpp
+++ b/queso/quadrature/multiple_elements.hpp
@@ -306,7 +306,9 @@ private:
     /// @return ElementType*
 	/// TODO: Remove this function.
     static ElementType* pNextElement(BackgroundGridType& rElements, IndexType CurrentId, Direction Dir ) {
-        return rElements.template GetNextElement<BackgroundGridType::ElementFilter::untrimmed>(CurrentId, Dir).p_element;
+        const auto result = rElements.template GetNextElement<BackgroundGridType::ElementFilter::untrimmed>(CurrentId, Dir);
+        // At the end of a row, the next element starts the following row and is no neighbor of the current element.
+        return result.is_end ? nullptr : result.p_element;
     }
 
     /// @brief Helper function to compute the neighbor coefficient using a linear function.
-- 
2.43.0


From 17e5805c6587b5a892b73e235c4a9b2dc4ecb864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:27 +0000
Subject: [PATCH 16/17] fix: keep the operator and the mesh alive that trimmed
 elements refer to

---
 queso/embedded_model.cpp |  4 ++--
 queso/embedded_model.h   | 10 ++++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/queso/embedded_model.cpp b/queso/embedded_model.cpp
index 6a895e2..0eb2af1 100644
--- a/queso/embedded_model.cpp
+++ b/queso/embedded_model.cpp
@@ -45,8 +45,8 @@ void EmbeddedModel::ComputeVolume(const TriangleMeshView& rTriangleMesh)
     Timer timer_total{};
     const IndexType global_number_of_elements = mGridIndexer.NumberOfElements();
 
-    // Construct BRepOperator.
-    BRepOperator brep_operator(rTriangleMesh);
+    // Construct BRepOperator. The trimmed elements refer to it, so it must live as long as they do.
+    const BRepOperator& brep_operator = *mBRepOperators.emplace_back(MakeUnique<BRepOperator>(rTriangleMesh));
 
     // Classify all elements.
     Timer timer_check_intersect{};
diff --git a/queso/embedded_model.h b/queso/embedded_model.h
index 4fa402e..6341772 100644
--- a/queso/embedded_model.h
+++ b/queso/embedded_model.h
@@ -17,6 +17,7 @@
 /// Project includes
 #include "queso/containers/background_grid.hpp"
 #include "queso/containers/boundary_integration_point.hpp"
+#include "queso/embedding/brep_operator.h"
 #include "queso/io/io_utilities.h"
 #include "queso/includes/dictionary_factory.hpp"
 #include "queso/utilities/check_dictionary_utilities.hpp"
@@ -100,7 +101,8 @@ public:
         QuESo_INFO_IF(echo_level > 0) << "QuESo: Create Volume -------------------------------------- START" << std::endl;
 
         const auto& r_filename = r_general_settings.GetRequiredValue<std::string>(GeneralSettings::input_filename);
-        TriangleMesh triangle_mesh{};
+        // The trimmed elements refer to this mesh (see mBRepOperators).
+        TriangleMesh& triangle_mesh = *mVolumeMeshes.emplace_back(MakeUnique<TriangleMesh>());
         IO::ReadMeshFromSTL(triangle_mesh, r_filename.c_str());
 
         ComputeVolume(triangle_mesh.View());
@@ -131,7 +133,7 @@ public:
     ///@brief Creates integration points for an embedded volume that is enclosed/defined by rTriangleMesh.
     ///       This interface enables to pass a TriangleMeshView and, hence, facilitates other applications to
     ///       use QuESo on C++ level, which do not want QuESo to read rTriangleMesh from an input file.
-    ///@param rTriangleMesh
+    ///@param rTriangleMesh The viewed mesh must outlive this model, since the trimmed elements refer to it.
     ///@see CreateAllFromSettings <- Creates volume and condition directly from input files specified in mSettings.
     ///@todo Add try{} catch{} plus error handler
     void CreateVolume(const TriangleMeshView &rTriangleMesh){
@@ -238,6 +240,10 @@ private:
     ///@}
     ///@name Private Members Variables
     ///@{
+    /// Meshes and operators the trimmed elements in mBackgroundGrid refer to.
+    std::vector<Unique<TriangleMesh>> mVolumeMeshes;
+    std::vector<Unique<BRepOperator>> mBRepOperators;
+
     Unique<const MainDictionaryType> mpSettings;
     GridIndexer mGridIndexer;
     BackgroundGridType mBackgroundGrid;
-- 
2.43.0


From 5e1a26c502b887b3f265dd199e52503379571c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:08 +0000
Subject: [PATCH 17/17] fix: let ranges of global integration points refer to
 the element, not to the view

---
 queso/containers/element_view.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/queso/containers/element_view.hpp b/queso/containers/element_view.hpp
index 3f41adc..ea43575 100644
--- a/queso/containers/element_view.hpp
+++ b/queso/containers/element_view.hpp
@@ -98,9 +98,10 @@ public:
                 "Global integration-point access requires IntegrationPointType(PointType, double)."
             );
             const auto& r_core = mCore.get();
-            return r_core.integration_points | std::views::transform([this, &r_core](const auto& rPoint) {
+            // The range must not refer to this view, which may end before the range is used.
+            return r_core.integration_points | std::views::transform([det_j = mDetJ, &r_core](const auto& rPoint) {
                        return IntegrationPointType(
-                           mapping::ToGlobal(rPoint.Point(), r_core.bounds), rPoint.Weight() * mDetJ
+                           mapping::ToGlobal(rPoint.Point(), r_core.bounds), rPoint.Weight() * det_j
                        );
                    });
         }
-- 
2.43.0

