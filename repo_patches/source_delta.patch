From cfc6b831f1717ae9784336829a5190b3c571eb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:08 +0000
Subject: [PATCH 01/19] fix: cross surfaces far from the origin and at grazing
 angles

The distance streamed beyond a surface was a constant 2.2e-15 cm. It was lost to
rounding for coordinates of a few centimetres and more and for directions nearly
tangent to the surface, so that the Particle stayed on the same side. The
crossing was then scored several times or the history never ended.
---
 src/TransportMethod.cpp | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/TransportMethod.cpp b/src/TransportMethod.cpp
index b1535da..8d18de6 100644
--- a/src/TransportMethod.cpp
+++ b/src/TransportMethod.cpp
@@ -1,21 +1,53 @@
 #include "TransportMethod.hpp"
 
+#include "CSGSurface.hpp"
 #include "Cell.hpp"
 #include "Constants.hpp"
 #include "Estimator.hpp"
 #include "Material.hpp"
 #include "Nuclide.hpp"
 #include "Particle.hpp"
+#include "Point.hpp"
 #include "World.hpp"
 #include "pugixml.hpp"
 
+#include <algorithm>
 #include <cassert>
+#include <cmath>
 #include <iosfwd>
 #include <random>
 #include <stdexcept>
 #include <string>
 #include <type_traits>
 
+namespace {
+
+// Distance to stream for a Particle to end up on the other side of a surface.
+// The nudge beyond the surface is enlarged as long as it is lost to rounding,
+// which happens far away from the origin and for directions which are almost
+// tangent to the surface.
+Real DistanceAcross(
+    const CSGSurface& surface, const Particle& p,
+    const Real distance_to_surface) noexcept {
+  const auto& position = p.GetPosition();
+  const auto& direction = p.GetDirection();
+  const auto is_inside = surface.Contains(position);
+  const auto largest_nudge =
+      1e-7 * std::max(
+                 Real{1},
+                 std::sqrt(position.Dot(position)) + distance_to_surface);
+  auto distance = distance_to_surface + constants::nudge;
+  for (auto nudge = 2 * constants::nudge;
+       nudge < largest_nudge &&
+       surface.Contains(position + direction * distance) == is_inside;
+       nudge *= 2) {
+    distance = distance_to_surface + nudge;
+  }
+  return distance;
+}
+
+} // namespace
+
 // TransportMethod
 
 //// public
@@ -65,7 +97,8 @@ Bank SurfaceTracking::Transport(
       nuclide.Interact(p);
     }
     else {
-      p.Stream(distance_to_surface_crossing + constants::nudge);
+      p.Stream(DistanceAcross(
+          *nearest_surface, p, distance_to_surface_crossing));
       p.SetCell(w.FindCellContaining(p.GetPosition()));
       p.current_surface = nearest_surface;
       p.event = p.GetCell().material ? Particle::Event::surface_cross
@@ -97,7 +130,8 @@ Bank CellDeltaTracking::Transport(
         p.GetCell().NearestSurface(p.GetPosition(), p.GetDirection());
     if (distance_to_surface_crossing < distance_to_collision) {
       // a surface crossing occurs
-      p.Stream(distance_to_surface_crossing + constants::nudge);
+      p.Stream(DistanceAcross(
+          *nearest_surface, p, distance_to_surface_crossing));
       p.SetCell(w.FindCellContaining(p.GetPosition()));
       p.current_surface = nearest_surface;
       p.event = p.GetCell().material ? Particle::Event::surface_cross
-- 
2.43.0


From bcef8492e1933b9f599f404782edaf51c9e05c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:10 +0000
Subject: [PATCH 02/19] fix: compare squared distance to cylinder axis with
 squared radius

CylinderX::Contains() compared the distance with the squared radius, so a
Particle was only on the side of the surface given by CylinderX::Distance() when
the radius was one.
---
 src/CSGSurface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CSGSurface.cpp b/src/CSGSurface.cpp
index b4c214b..cc0a01f 100644
--- a/src/CSGSurface.cpp
+++ b/src/CSGSurface.cpp
@@ -170,5 +170,5 @@ bool CylinderX::Contains(const Point& p) const noexcept {
   const auto pw = p.Dot(w);
   // square length of distance from p to axis along projection is strictly less
   // than square radius of cylinder
-  return std::sqrt(pp - pw * pw) < radius * radius;
+  return pp - pw * pw < radius * radius;
 }
-- 
2.43.0


From 9b05c3c06949a830e8e93c3a8e3990b3c08668ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:02 +0000
Subject: [PATCH 03/19] fix: do not let addresses of Nuclides and CSGSurfaces
 determine results

Material and Cell iterate over maps keyed by shared_ptr, whose order is that
of the addresses malloc happened to return. Which Nuclide is sampled for a
given random number, and which of several equidistant CSGSurfaces is crossed,
followed from that order: the same input and seed could give different
results.
---
 src/Cell.cpp     |  6 ++++++
 src/Cell.hpp     | 11 ++++++++++-
 src/Material.cpp |  6 ++++++
 src/Material.hpp | 12 +++++++++++-
 4 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/Cell.cpp b/src/Cell.cpp
index 99436ed..e5d9b85 100644
--- a/src/Cell.cpp
+++ b/src/Cell.cpp
@@ -54,6 +54,12 @@ bool Cell::operator==(const Cell& rhs) const noexcept { return this == &rhs; }
 
 //// private
 
+bool Cell::CSGSurfaceOrder::operator()(
+    const std::shared_ptr<const CSGSurface>& lhs,
+    const std::shared_ptr<const CSGSurface>& rhs) const noexcept {
+  return lhs->name < rhs->name;
+}
+
 Cell::SurfaceSenses Cell::AssignSurfaceSenses(
     const pugi::xml_node& cell_node,
     const CSGSurfaceVector& all_surfaces) noexcept {
diff --git a/src/Cell.hpp b/src/Cell.hpp
index 1172c61..36c5c14 100644
--- a/src/Cell.hpp
+++ b/src/Cell.hpp
@@ -24,10 +24,19 @@ private:
   // A polymorphic vector of CSGSurface objects. Multiple Cell objects can
   // share the same CSGSurface object.
   using CSGSurfaceVector = std::vector<std::shared_ptr<const CSGSurface>>;
+  // Orders CSGSurface objects by name. The order in which CSGSurface objects
+  // are iterated over determines which of several equidistant CSGSurface
+  // objects is crossed. It must not depend on their addresses.
+  struct CSGSurfaceOrder {
+    bool operator()(
+        const std::shared_ptr<const CSGSurface>& lhs,
+        const std::shared_ptr<const CSGSurface>& rhs) const noexcept;
+  };
   // Map from (polymorphic) CSGSurface object to a bool corresponding to the
   // "sense" of the CSGSurface. Multiple Cell objects can share the same
   // CSGSurface object.
-  using SurfaceSenses = std::map<std::shared_ptr<const CSGSurface>, bool>;
+  using SurfaceSenses =
+      std::map<std::shared_ptr<const CSGSurface>, bool, CSGSurfaceOrder>;
   // A vector of Material objects. Multiple Cell objects can share the same
   // Material object.
   using MaterialVector = std::vector<std::shared_ptr<const Material>>;
diff --git a/src/Material.cpp b/src/Material.cpp
index 9a5bbdf..9470a39 100644
--- a/src/Material.cpp
+++ b/src/Material.cpp
@@ -13,6 +13,12 @@
 
 //// public
 
+bool Material::NuclideOrder::operator()(
+    const std::shared_ptr<const Nuclide>& lhs,
+    const std::shared_ptr<const Nuclide>& rhs) const noexcept {
+  return lhs->name < rhs->name;
+}
+
 pugi::xml_node Material::FindNode(
     const pugi::xml_node& root, const std::string& material_name) {
   const auto& materials_node{root.child("materials")};
diff --git a/src/Material.hpp b/src/Material.hpp
index 63338c0..6340971 100644
--- a/src/Material.hpp
+++ b/src/Material.hpp
@@ -16,8 +16,18 @@ class Particle;
 /// @details Nuclear properties are in NuclearData objects
 class Material {
 public:
+  /// @brief Orders Nuclide objects by name
+  /// @details The order in which Nuclide objects are iterated over determines
+  ///          which of them is sampled. It must not depend on their addresses.
+  struct NuclideOrder {
+    /// @brief Returns true if the name of lhs comes before that of rhs
+    bool operator()(
+        const std::shared_ptr<const Nuclide>& lhs,
+        const std::shared_ptr<const Nuclide>& rhs) const noexcept;
+  };
   /// @brief Nuclide objects and their associated atom fractions
-  using AtomFractions = std::map<std::shared_ptr<const Nuclide>, Real>;
+  using AtomFractions =
+      std::map<std::shared_ptr<const Nuclide>, Real, NuclideOrder>;
   /// @brief Find `material` node with given name in XML document
   /// @param root Root node of existing XML document
   /// @param material_name Value of `name` attribute of `material` node
-- 
2.43.0


From b5678643e65c8db1ca28347d1c8b96fc6bb1df1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:13 +0000
Subject: [PATCH 04/19] fix: write results to a file which only replaces the
 output file when complete

Errors while opening, writing or closing the output file were ignored: on a
full disk the program announced success and exited with status zero, leaving a
truncated or empty output file. The output file was also truncated before the
simulation started, so that any failure destroyed earlier results.
---
 src/minimc.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/minimc.cpp b/src/minimc.cpp
index a43ae37..7f3d581 100644
--- a/src/minimc.cpp
+++ b/src/minimc.cpp
@@ -15,11 +15,19 @@ int main(int argc, char* argv[]) {
   const std::filesystem::path input_filepath{argv[1]};
   auto driver = Driver::Create(input_filepath);
   auto output_filepath = input_filepath;
-  std::ofstream output_file {output_filepath.replace_extension(".out")};
+  output_filepath.replace_extension(".out");
   const auto& result = driver->Solve();
+  // The output file only ever contains complete results: they are written to
+  // another file which takes its place once nothing can fail anymore.
+  auto partial_filepath = output_filepath;
+  partial_filepath += ".partial";
+  std::ofstream output_file;
+  output_file.exceptions(std::ios::badbit | std::ios::failbit);
+  output_file.open(partial_filepath);
   output_file << driver->batchsize << std::endl;
   output_file << result.to_string();
   output_file.close();
+  std::filesystem::rename(partial_filepath, output_filepath);
   std::cout << "Output written to "
             << std::filesystem::absolute(output_filepath) << std::endl;
   return 0;
-- 
2.43.0


From 0b7591ad2d2903a6657cb9193e3e542e599db9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:15 +0000
Subject: [PATCH 05/19] fix: read nuclear data files once and completely

The axes and the values of a data set were read through two separate openings
of the file: replacing the file in between combined the axes of one version
with the values of another. HDF5 also reads anything missing from a file which
is cut short while it is open as zeros, which then were used as data.
---
 src/HDF5DataSet.hpp | 44 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/src/HDF5DataSet.hpp b/src/HDF5DataSet.hpp
index 3da9e1a..38c906b 100644
--- a/src/HDF5DataSet.hpp
+++ b/src/HDF5DataSet.hpp
@@ -8,7 +8,9 @@
 #include <array>
 #include <cstddef>
 #include <filesystem>
+#include <fstream>
 #include <functional>
+#include <ios>
 #include <iterator>
 #include <numeric>
 #include <stdexcept>
@@ -39,9 +41,7 @@ public:
   /// @brief Constructs an HDF5DataSet from an hdf5 file
   /// @details https://support.hdfgroup.org/HDF5/doc/cpplus_RM/readdata_8cpp-example.html
   HDF5DataSet(const std::filesystem::path& hdf5_filepath)
-      : axes{ReadPandasAxis(hdf5_filepath)},
-        values{ReadPandasValues(hdf5_filepath)}, strides{ComputeAxisStrides(
-                                                     axes)} {}
+      : HDF5DataSet{OpenFile(hdf5_filepath), hdf5_filepath} {}
   /// @brief Returns an instance of ContinuousMap with D levels of nesting
   /// @tparam Args Type of outer indices
   /// @param outer_indices Indices of outer levels; populated during recursion
@@ -81,17 +81,40 @@ public:
   }
 
 private:
-  // Helper function to read HDF5 file from pandas and return flattened array.
-  // Of all the other helper function this is the one that checks for file
-  // existence just because it happens to be called first.
-  static std::array<std::vector<double>, D>
-  ReadPandasAxis(const std::filesystem::path& hdf5_filepath) {
+  // Constructs an HDF5DataSet from an opened hdf5 file
+  HDF5DataSet(
+      const H5::H5File& file, const std::filesystem::path& hdf5_filepath)
+      : axes{ReadPandasAxis(file, hdf5_filepath)},
+        values{ReadPandasValues(file)}, strides{ComputeAxisStrides(axes)} {}
+  // Helper function to open an HDF5 file. The file is read as a whole: it may
+  // be replaced at any time and HDF5 takes anything missing for zeros.
+  static H5::H5File OpenFile(const std::filesystem::path& hdf5_filepath) {
     if (!std::filesystem::exists(hdf5_filepath)) {
       throw std::runtime_error(
           std::string{"File not found: "} + hdf5_filepath.string());
     }
+    std::ifstream stream;
+    stream.exceptions(std::ios::badbit | std::ios::failbit);
+    stream.open(hdf5_filepath, std::ios::binary | std::ios::ate);
+    std::vector<char> image(static_cast<size_t>(stream.tellg()));
+    stream.seekg(0);
+    stream.read(image.data(), static_cast<std::streamsize>(image.size()));
+    H5::FileAccPropList access;
+    access.setCore(1 << 20, false);
+    if (image.empty() ||
+        H5Pset_file_image(access.getId(), image.data(), image.size()) < 0) {
+      throw std::runtime_error(
+          std::string{"Cannot read file: "} + hdf5_filepath.string());
+    }
+    // HDF5 insists on a name under which no file exists
+    return {
+        (hdf5_filepath / "image").string(), H5F_ACC_RDONLY,
+        H5::FileCreatPropList::DEFAULT, access};
+  }
+  // Helper function to read HDF5 file from pandas and return flattened array.
+  static std::array<std::vector<double>, D> ReadPandasAxis(
+      const H5::H5File& file, const std::filesystem::path& hdf5_filepath) {
     std::array<std::vector<double>, D> result;
-    const H5::H5File file(hdf5_filepath.string(), H5F_ACC_RDONLY);
     // Read number of levels in pandas MultiIndex
     const auto pandas_group = file.openGroup("/pandas");
     size_t levels;
@@ -116,9 +139,8 @@ private:
   }
   // Helper function to read flattened array from HDF5 file
   static std::vector<double>
-  ReadPandasValues(const std::filesystem::path& hdf5_filepath) {
+  ReadPandasValues(const H5::H5File& file) {
     std::vector<double> result;
-    const H5::H5File file(hdf5_filepath.string(), H5F_ACC_RDONLY);
     // Read elements into result
     const auto block_dataset =
         file.openGroup("/pandas").openDataSet("block0_values");
-- 
2.43.0


From 5d3cae37629b86de6c2d83c4223a451e548df289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:15 +0000
Subject: [PATCH 06/19] fix: use the text of the input file that was validated

The input file was read a second time after it was validated. Replacing it in
between made the program use an input which never was validated.
---
 src/XMLDocument.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/XMLDocument.cpp b/src/XMLDocument.cpp
index d9d556d..7bd76ac 100644
--- a/src/XMLDocument.cpp
+++ b/src/XMLDocument.cpp
@@ -1,12 +1,14 @@
 #include "XMLDocument.hpp"
 
+#include "xercesc/framework/MemBufInputSource.hpp"
 #include "xercesc/parsers/XercesDOMParser.hpp"
 #include "xercesc/sax/ErrorHandler.hpp"
 #include "xercesc/sax/SAXParseException.hpp"
 #include "xercesc/util/PlatformUtils.hpp"
 #include "xercesc/util/XMLString.hpp"
 
-#include <iosfwd>
+#include <fstream>
+#include <ios>
 #include <memory>
 #include <stdexcept>
 #include <string>
@@ -70,6 +72,17 @@ public:
   }
 };
 
+// Returns contents of a file
+std::string ReadFile(const std::filesystem::path& filepath) {
+  std::ifstream stream;
+  stream.exceptions(std::ios::badbit | std::ios::failbit);
+  stream.open(filepath, std::ios::binary | std::ios::ate);
+  std::string result(static_cast<std::string::size_type>(stream.tellg()), 0);
+  stream.seekg(0);
+  stream.read(result.data(), static_cast<std::streamsize>(result.size()));
+  return result;
+}
+
 pugi::xml_document
 XMLDocument::ValidateXML(const std::filesystem::path& xml_filepath) {
   // Xerces-C++ validation
@@ -80,10 +93,15 @@ XMLDocument::ValidateXML(const std::filesystem::path& xml_filepath) {
   parser.setDoSchema(true);
   parser.setDoNamespaces(true);
   parser.setErrorHandler(&error_handler);
-  parser.parse(xml_filepath.string().c_str());
+  // The file is read once so that what is validated is what is used, even if
+  // the file is replaced in the meantime.
+  const auto text = ReadFile(xml_filepath);
+  parser.parse(xercesc::MemBufInputSource{
+      reinterpret_cast<const XMLByte*>(text.data()), text.size(),
+      std::filesystem::absolute(xml_filepath).string().c_str()});
   // pugixml DOM construction
   pugi::xml_document doc{};
-  if (auto result = doc.load_file(xml_filepath.c_str()); !result) {
+  if (auto result = doc.load_buffer(text.data(), text.size()); !result) {
     throw std::runtime_error(result.description());
   }
   return doc;
-- 
2.43.0


From 4632a19596acf6d5ca74827cf8ad79f58fe7f59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:23 +0000
Subject: [PATCH 07/19] fix: fail when memory runs out while formatting or
 parsing lists

Streams swallow std::bad_alloc unless asked not to. When memory ran out while
scores or bin boundaries were formatted, or while bin boundaries were parsed,
the remaining numbers were dropped and the run continued, up to announcing a
truncated output file as a success.
---
 src/Bins.cpp     | 4 ++++
 src/Scorable.cpp | 1 +
 2 files changed, 5 insertions(+)

diff --git a/src/Bins.cpp b/src/Bins.cpp
index 66403b1..72281ce 100644
--- a/src/Bins.cpp
+++ b/src/Bins.cpp
@@ -83,6 +83,7 @@ size_t LinspaceBins::GetIndex(const Real& v) const noexcept {
 
 std::string LinspaceBins::to_string() const noexcept {
   std::stringstream sstream;
+  sstream.exceptions(std::ios::badbit);
   for (size_t i = 0; i < n_bins - 1; i++) {
     sstream << std::scientific << lower_bound + i * bin_width << ", ";
   }
@@ -124,6 +125,7 @@ size_t LogspaceBins::GetIndex(const Real& v) const noexcept {
 
 std::string LogspaceBins::to_string() const noexcept {
   std::stringstream sstream;
+  sstream.exceptions(std::ios::badbit);
   for (size_t i = 0; i < n_bins - 1; i++) {
     sstream << std::scientific
             << std::pow(base, log_lower_bound + i * log_bin_width) << ", ";
@@ -139,6 +141,7 @@ BoundaryBins::BoundaryBins(const pugi::xml_node& boundaries_node)
     : boundaries{[&boundaries_node]() {
         std::vector<Real> result;
         std::stringstream boundary_stringlist{boundaries_node.child_value()};
+        boundary_stringlist.exceptions(std::ios::badbit);
         Real prev_boundary = -std::numeric_limits<Real>::infinity();
         Real boundary;
         while (boundary_stringlist >> boundary) {
@@ -163,6 +166,7 @@ size_t BoundaryBins::GetIndex(const Real& v) const noexcept {
 
 std::string BoundaryBins::to_string() const noexcept {
   std::stringstream sstream;
+  sstream.exceptions(std::ios::badbit);
   for (const auto boundary : boundaries) {
     sstream << std::scientific << boundary << ", ";
   }
diff --git a/src/Scorable.cpp b/src/Scorable.cpp
index cfcf088..8649c32 100644
--- a/src/Scorable.cpp
+++ b/src/Scorable.cpp
@@ -50,6 +50,7 @@ Scorable& Scorable::operator+=(const Scorable& other) noexcept {
 
 std::string Scorable::GetScoreAsString(const Real total_weight) const noexcept {
   std::stringstream sstream;
+  sstream.exceptions(std::ios::badbit);
   sstream << "mean\n----\n";
   sstream << std::scientific;
   for (const auto& score : scores) { // wow so clean
-- 
2.43.0


From ed8ec21a4028ae56ccf5e30b0664283512172567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:35 +0000
Subject: [PATCH 08/19] fix: run all histories each time a FixedSource is
 solved

The counter of histories was never reset: solving a second time returned
Estimators without any scores.
---
 src/FixedSource.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/FixedSource.cpp b/src/FixedSource.cpp
index fee2165..047d5cc 100644
--- a/src/FixedSource.cpp
+++ b/src/FixedSource.cpp
@@ -23,6 +23,7 @@ EstimatorSet FixedSource::Solve() {
   std::vector<std::future<EstimatorSet>> worker_estimator_sets;
   std::cout << "Spawning " << std::to_string(threads) << " threads working on "
             << std::to_string(batchsize) << " histories..." << std::endl;
+  histories_elapsed = 0;
   for (size_t i = 0; i < threads; i++) {
     worker_estimator_sets.push_back(
         std::async(&FixedSource::StartWorker, this));
-- 
2.43.0


From fcd0efefff99ccfc1f2fab6107a93498e23f9b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:21 +0000
Subject: [PATCH 09/19] fix: let each Driver use its own TransportMethod

Creating a Driver replaced the TransportMethod used by all other Drivers.
---
 src/Driver.cpp      | 7 ++-----
 src/Driver.hpp      | 3 +++
 src/FixedSource.cpp | 1 +
 src/KEigenvalue.cpp | 1 +
 src/Particle.cpp    | 2 +-
 src/Particle.hpp    | 5 +++--
 6 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/Driver.cpp b/src/Driver.cpp
index 7455389..b4b75cf 100644
--- a/src/Driver.cpp
+++ b/src/Driver.cpp
@@ -2,7 +2,6 @@
 
 #include "FixedSource.hpp"
 #include "KEigenvalue.hpp"
-#include "Particle.hpp"
 #include "TransportMethod.hpp"
 #include "XMLDocument.hpp"
 #include "pugixml.hpp"
@@ -46,9 +45,7 @@ Driver::Driver(const pugi::xml_node& root)
           root.child("estimators"), world, perturbations,
           static_cast<Real>(batchsize)},
       threads{
-          std::stoul(root.child("general").child("threads").child_value())} {
-  // All Particle objects will use the selected TransportMethod
-  Particle::transport_method = TransportMethod::Create(root, world);
-}
+          std::stoul(root.child("general").child("threads").child_value())},
+      transport_method{TransportMethod::Create(root, world)} {}
 
 Driver::~Driver() noexcept {}
diff --git a/src/Driver.hpp b/src/Driver.hpp
index 168cec7..4079884 100644
--- a/src/Driver.hpp
+++ b/src/Driver.hpp
@@ -48,4 +48,7 @@ protected:
   const EstimatorSet init_estimator_set;
   /// @brief Number of threads dedicated to particle transport
   const size_t threads;
+  /// @brief Selected TransportMethod. All Particle objects will use it while
+  ///        Solve() is running.
+  const std::unique_ptr<const TransportMethod> transport_method;
 };
diff --git a/src/FixedSource.cpp b/src/FixedSource.cpp
index 047d5cc..172250f 100644
--- a/src/FixedSource.cpp
+++ b/src/FixedSource.cpp
@@ -24,6 +24,7 @@ EstimatorSet FixedSource::Solve() {
   std::cout << "Spawning " << std::to_string(threads) << " threads working on "
             << std::to_string(batchsize) << " histories..." << std::endl;
   histories_elapsed = 0;
+  Particle::transport_method = transport_method.get();
   for (size_t i = 0; i < threads; i++) {
     worker_estimator_sets.push_back(
         std::async(&FixedSource::StartWorker, this));
diff --git a/src/KEigenvalue.cpp b/src/KEigenvalue.cpp
index 4f27d86..3ff1646 100644
--- a/src/KEigenvalue.cpp
+++ b/src/KEigenvalue.cpp
@@ -35,6 +35,7 @@ KEigenvalue::KEigenvalue(const pugi::xml_node& root)
 
 EstimatorSet KEigenvalue::Solve() {
   EstimatorSet solver_estimators = init_estimator_set;
+  Particle::transport_method = transport_method.get();
   // Perform inactive cycles
   for (Cycle c = 0; c < last_inactive; c++) {
     std::cout << "===== Cycle " << std::to_string(c) << " =====" << std::endl;
diff --git a/src/Particle.cpp b/src/Particle.cpp
index 3a59b98..850ff5f 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -31,7 +31,7 @@ Particle::Type Particle::ToType(const std::string& name) noexcept {
   };
 }
 
-std::unique_ptr<const TransportMethod> Particle::transport_method;
+const TransportMethod* Particle::transport_method{nullptr};
 
 Particle::Particle(
     const Point& position, const Direction& direction, const Energy& energy,
diff --git a/src/Particle.hpp b/src/Particle.hpp
index 178a9b4..1bbaaef 100644
--- a/src/Particle.hpp
+++ b/src/Particle.hpp
@@ -43,8 +43,9 @@ public:
   };
   /// @brief Helper function to convert from std::string to Type
   static Type ToType(const std::string& name) noexcept;
-  /// @brief The TransportMethod used by all Particle objects
-  static std::unique_ptr<const TransportMethod> transport_method;
+  /// @brief The TransportMethod used by all Particle objects. Owned by the
+  ///        Driver which is currently solving its problem.
+  static const TransportMethod* transport_method;
   /// @brief Member constructor. Explicitly assigns phase-space members.
   Particle(
       const Point& position, const Direction& direction, const Energy& energy,
-- 
2.43.0


From 0f4337437aa408f80391a5516983a05a70332a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:18 +0000
Subject: [PATCH 10/19] fix: let Drivers solve at the same time

Solving a Driver replaced the TransportMethod used by other Drivers whose
Solve() is still running.
---
 src/FixedSource.cpp | 2 +-
 src/KEigenvalue.cpp | 2 +-
 src/Particle.cpp    | 2 +-
 src/Particle.hpp    | 6 +++---
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/FixedSource.cpp b/src/FixedSource.cpp
index 172250f..86702ca 100644
--- a/src/FixedSource.cpp
+++ b/src/FixedSource.cpp
@@ -24,7 +24,6 @@ EstimatorSet FixedSource::Solve() {
   std::cout << "Spawning " << std::to_string(threads) << " threads working on "
             << std::to_string(batchsize) << " histories..." << std::endl;
   histories_elapsed = 0;
-  Particle::transport_method = transport_method.get();
   for (size_t i = 0; i < threads; i++) {
     worker_estimator_sets.push_back(
         std::async(&FixedSource::StartWorker, this));
@@ -40,6 +39,7 @@ EstimatorSet FixedSource::Solve() {
 //// private
 
 EstimatorSet FixedSource::StartWorker() {
+  Particle::transport_method = transport_method.get();
   // each thread gets its own EstimatorSet
   EstimatorSet worker_estimator_set = init_estimator_set;
   // keep sampling histories until batchsize histories have been sampled
diff --git a/src/KEigenvalue.cpp b/src/KEigenvalue.cpp
index 3ff1646..259ab66 100644
--- a/src/KEigenvalue.cpp
+++ b/src/KEigenvalue.cpp
@@ -35,7 +35,6 @@ KEigenvalue::KEigenvalue(const pugi::xml_node& root)
 
 EstimatorSet KEigenvalue::Solve() {
   EstimatorSet solver_estimators = init_estimator_set;
-  Particle::transport_method = transport_method.get();
   // Perform inactive cycles
   for (Cycle c = 0; c < last_inactive; c++) {
     std::cout << "===== Cycle " << std::to_string(c) << " =====" << std::endl;
@@ -65,6 +64,7 @@ EstimatorSet KEigenvalue::Solve() {
 //// private
 
 std::tuple<Bank, EstimatorSetProxy> KEigenvalue::StartWorker() {
+  Particle::transport_method = transport_method.get();
   EstimatorSet worker_estimator_set = init_estimator_set;
   auto scoring_proxy = worker_estimator_set.GetProxy();
   Bank worker_bank;
diff --git a/src/Particle.cpp b/src/Particle.cpp
index 850ff5f..140b46b 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -31,7 +31,7 @@ Particle::Type Particle::ToType(const std::string& name) noexcept {
   };
 }
 
-const TransportMethod* Particle::transport_method{nullptr};
+thread_local const TransportMethod* Particle::transport_method{nullptr};
 
 Particle::Particle(
     const Point& position, const Direction& direction, const Energy& energy,
diff --git a/src/Particle.hpp b/src/Particle.hpp
index 1bbaaef..dfdc5d2 100644
--- a/src/Particle.hpp
+++ b/src/Particle.hpp
@@ -43,9 +43,9 @@ public:
   };
   /// @brief Helper function to convert from std::string to Type
   static Type ToType(const std::string& name) noexcept;
-  /// @brief The TransportMethod used by all Particle objects. Owned by the
-  ///        Driver which is currently solving its problem.
-  static const TransportMethod* transport_method;
+  /// @brief The TransportMethod used by all Particle objects of a thread. Owned
+  ///        by the Driver whose histories the thread is running.
+  static thread_local const TransportMethod* transport_method;
   /// @brief Member constructor. Explicitly assigns phase-space members.
   Particle(
       const Point& position, const Direction& direction, const Energy& energy,
-- 
2.43.0


From b2f4015abaf4a9deb1f370a1401f1188f9be915a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:00 +0000
Subject: [PATCH 11/19] fix: refuse an input file which would be replaced by
 the output file

---
 src/minimc.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/minimc.cpp b/src/minimc.cpp
index 7f3d581..0e29cff 100644
--- a/src/minimc.cpp
+++ b/src/minimc.cpp
@@ -13,9 +13,12 @@ int main(int argc, char* argv[]) {
     throw std::runtime_error("MiniMC accepts exactly one argument");
   }
   const std::filesystem::path input_filepath{argv[1]};
-  auto driver = Driver::Create(input_filepath);
   auto output_filepath = input_filepath;
   output_filepath.replace_extension(".out");
+  if (output_filepath == input_filepath) {
+    throw std::runtime_error("Input file must not have the extension .out");
+  }
+  auto driver = Driver::Create(input_filepath);
   const auto& result = driver->Solve();
   // The output file only ever contains complete results: they are written to
   // another file which takes its place once nothing can fail anymore.
-- 
2.43.0


From 73311068fb8bf4e5e347acdca6d5096071695a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:00 +0000
Subject: [PATCH 12/19] fix: do not share the file being written with other
 processes

---
 src/minimc.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/minimc.cpp b/src/minimc.cpp
index 0e29cff..916edc6 100644
--- a/src/minimc.cpp
+++ b/src/minimc.cpp
@@ -6,6 +6,8 @@
 #include <iostream>
 #include <memory>
 #include <stdexcept>
+#include <string>
+#include <unistd.h>
 
 int main(int argc, char* argv[]) {
   std::cout << "Welcome to MiniMC!" << std::endl;
@@ -21,9 +23,10 @@ int main(int argc, char* argv[]) {
   auto driver = Driver::Create(input_filepath);
   const auto& result = driver->Solve();
   // The output file only ever contains complete results: they are written to
-  // another file which takes its place once nothing can fail anymore.
+  // another file, not shared with other processes, which takes its place once
+  // nothing can fail anymore.
   auto partial_filepath = output_filepath;
-  partial_filepath += ".partial";
+  partial_filepath += ".partial" + std::to_string(getpid());
   std::ofstream output_file;
   output_file.exceptions(std::ios::badbit | std::ios::failbit);
   output_file.open(partial_filepath);
-- 
2.43.0


From 24ee9eee7e873e79e6b09ed4be976ded8d3e0415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:01 +0000
Subject: [PATCH 13/19] fix: do not report results of k-eigenvalue calculations
 which are not run

---
 src/KEigenvalue.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/KEigenvalue.cpp b/src/KEigenvalue.cpp
index 259ab66..570ed51 100644
--- a/src/KEigenvalue.cpp
+++ b/src/KEigenvalue.cpp
@@ -9,6 +9,7 @@
 #include <iostream>
 #include <memory>
 #include <optional>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -34,6 +35,8 @@ KEigenvalue::KEigenvalue(const pugi::xml_node& root)
 }
 
 EstimatorSet KEigenvalue::Solve() {
+  // No particles are transported below, so the estimators would all be zero
+  throw std::runtime_error("k-eigenvalue calculations do not work yet");
   EstimatorSet solver_estimators = init_estimator_set;
   // Perform inactive cycles
   for (Cycle c = 0; c < last_inactive; c++) {
-- 
2.43.0


From 7703c2fd1d75aa3480c48e4217d2cd5db27ca5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:29 +0000
Subject: [PATCH 14/19] fix: refuse fission without outgoing groups

A column of zeros in chi dropped all particles produced by fission in that
group without notice.
---
 src/Multigroup.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/Multigroup.cpp b/src/Multigroup.cpp
index d36dedf..57dba02 100644
--- a/src/Multigroup.cpp
+++ b/src/Multigroup.cpp
@@ -35,7 +35,23 @@ Multigroup::Multigroup(const pugi::xml_node& particle_node)
               : std::nullopt},
       reactions{CreateReactions(particle_node)},
       total{CreateTotalXS(particle_node, reactions)},
-      max_group{GroupStructureSize(particle_node.root())} {}
+      max_group{GroupStructureSize(particle_node.root())} {
+  // Particles produced by fission would be lost if there was no group for them
+  if (const auto fission = reactions.find(Reaction::fission);
+      fission != reactions.cend() && nubar && chi) {
+    for (Group g = 1; g <= max_group; g++) {
+      const auto& group_probs{chi->at(g)};
+      if (fission->second.at(g) > 0 && nubar->at(g) > 0 &&
+          std::all_of(
+              group_probs.begin(), group_probs.end(),
+              [](const auto& prob) noexcept { return prob == 0; })) {
+        throw std::runtime_error(
+            particle_node.child("fission").child("chi").path() +
+            ": No outgoing group for fission in group " + std::to_string(g));
+      }
+    }
+  }
+}
 
 MicroscopicCrossSection
 Multigroup::GetMajorant(const Particle& p) const noexcept {
-- 
2.43.0


From 7e994ffc850f9e14a1c7e5711bb749f13386a07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:32 +0000
Subject: [PATCH 15/19] fix: do not resample forever if no reaction is possible

---
 src/Continuous.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Continuous.cpp b/src/Continuous.cpp
index b6f867c..a798216 100644
--- a/src/Continuous.cpp
+++ b/src/Continuous.cpp
@@ -11,6 +11,7 @@
 #include <iosfwd>
 #include <numeric>
 #include <random>
+#include <stdexcept>
 #include <string>
 #include <type_traits>
 #include <variant>
@@ -65,6 +66,11 @@ void Continuous::Interact(Particle& p) const noexcept {
       return;
     }
   }
+  if (accumulated == 0) {
+    // Resampling would never end
+    throw std::runtime_error("No reaction is possible although total cross "
+                             "section is not zero");
+  }
   // If no reaction found, resample tail-recursively
   return Interact(p);
 }
-- 
2.43.0


From 634df86d0054409cfbdaeedd4ab4d8dd66606f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:35 +0000
Subject: [PATCH 16/19] fix: do not report nan as standard deviation of equal
 scores

---
 src/Scorable.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Scorable.cpp b/src/Scorable.cpp
index 8649c32..337ff50 100644
--- a/src/Scorable.cpp
+++ b/src/Scorable.cpp
@@ -62,7 +62,9 @@ std::string Scorable::GetScoreAsString(const Real total_weight) const noexcept {
   for (size_t i = 0; i < scores.size(); i++) { // gross
     const auto& score = scores[i];
     const auto& square_score = square_scores[i];
-    sstream << std::sqrt(square_score - score * score / total_weight) /
+    // rounding can make the variance of equal scores negative
+    sstream << std::sqrt(std::max(
+                   square_score - score * score / total_weight, Real{0})) /
                    total_weight
             << ", ";
   }
-- 
2.43.0


From 3ebefec9287daeb594fcf605d5e25abca1fefa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:37 +0000
Subject: [PATCH 17/19] fix: do not overwrite nuclear data with results

A nuclear data file with the name of the output file was lost.
---
 src/Driver.cpp | 10 ++++++++++
 src/Driver.hpp |  3 +++
 src/minimc.cpp |  6 ++++++
 3 files changed, 19 insertions(+)

diff --git a/src/Driver.cpp b/src/Driver.cpp
index b4b75cf..4579b99 100644
--- a/src/Driver.cpp
+++ b/src/Driver.cpp
@@ -37,6 +37,16 @@ Driver::Driver(const pugi::xml_node& root)
     : world{root}, perturbations{root.child("perturbations"), world},
       batchsize(
           std::stoi(root.child("general").child("histories").child_value())),
+      // IIFE
+      data_filepaths{[&root]() {
+        std::vector<std::filesystem::path> result;
+        for (const auto& attribute : root.select_nodes("nuclides//@*")) {
+          if (std::filesystem::exists(attribute.attribute().value())) {
+            result.emplace_back(attribute.attribute().value());
+          }
+        }
+        return result;
+      }()},
       seed(std::stoi(
           root.child("general").child("seed")
               ? root.child("general").child("seed").child_value()
diff --git a/src/Driver.hpp b/src/Driver.hpp
index 4079884..c923e43 100644
--- a/src/Driver.hpp
+++ b/src/Driver.hpp
@@ -8,6 +8,7 @@
 #include <cstddef>
 #include <filesystem>
 #include <memory>
+#include <vector>
 
 namespace pugi {
 class xml_node;
@@ -40,6 +41,8 @@ public:
   /// @brief Total histories for fixed-source; cycle weight for k-eigenvalue
   ///        (C++ Core Guidelines C.131)
   const RNG::result_type batchsize;
+  /// @brief Files the nuclear data were read from (C++ Core Guidelines C.131)
+  const std::vector<std::filesystem::path> data_filepaths;
 
 protected:
   /// @brief Histories are assigned a seed in [seed, seed + batchsize)
diff --git a/src/minimc.cpp b/src/minimc.cpp
index 916edc6..9e3cc8a 100644
--- a/src/minimc.cpp
+++ b/src/minimc.cpp
@@ -21,6 +21,12 @@ int main(int argc, char* argv[]) {
     throw std::runtime_error("Input file must not have the extension .out");
   }
   auto driver = Driver::Create(input_filepath);
+  for (const auto& data_filepath : driver->data_filepaths) {
+    if (std::filesystem::exists(output_filepath) &&
+        std::filesystem::equivalent(output_filepath, data_filepath)) {
+      throw std::runtime_error("Output file must not be a nuclear data file");
+    }
+  }
   const auto& result = driver->Solve();
   // The output file only ever contains complete results: they are written to
   // another file, not shared with other processes, which takes its place once
-- 
2.43.0


From a3d409053a59bfc327d3d3489c5d26273567c8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:41 +0000
Subject: [PATCH 18/19] fix: do not share the file being written with processes
 on other hosts

Process identifiers are only unique within a host or container.
---
 src/minimc.cpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/minimc.cpp b/src/minimc.cpp
index 9e3cc8a..3174ce5 100644
--- a/src/minimc.cpp
+++ b/src/minimc.cpp
@@ -1,13 +1,31 @@
 #include "Driver.hpp"
 #include "Estimator.hpp"
 
+#include <cerrno>
+#include <cstddef>
+#include <cstdio>
 #include <filesystem>
 #include <fstream>
 #include <iostream>
 #include <memory>
 #include <stdexcept>
 #include <string>
-#include <unistd.h>
+
+// Creates a file which no other process, on any host, writes to
+std::filesystem::path
+CreatePartialFile(const std::filesystem::path& output_filepath) {
+  for (size_t i = 0;; i++) {
+    auto partial_filepath = output_filepath;
+    partial_filepath += ".partial" + std::to_string(i);
+    if (auto file = std::fopen(partial_filepath.string().c_str(), "wx")) {
+      std::fclose(file);
+      return partial_filepath;
+    }
+    if (errno != EEXIST) {
+      throw std::runtime_error("Cannot create " + partial_filepath.string());
+    }
+  }
+}
 
 int main(int argc, char* argv[]) {
   std::cout << "Welcome to MiniMC!" << std::endl;
@@ -31,8 +49,7 @@ int main(int argc, char* argv[]) {
   // The output file only ever contains complete results: they are written to
   // another file, not shared with other processes, which takes its place once
   // nothing can fail anymore.
-  auto partial_filepath = output_filepath;
-  partial_filepath += ".partial" + std::to_string(getpid());
+  const auto partial_filepath = CreatePartialFile(output_filepath);
   std::ofstream output_file;
   output_file.exceptions(std::ios::badbit | std::ios::failbit);
   output_file.open(partial_filepath);
-- 
2.43.0


From adf60cbc47a030b628cb78de69d6580695da271a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:44 +0000
Subject: [PATCH 19/19] fix: report errors in inputs instead of terminating

Exceptions thrown while reading perturbations, bins and thermal scattering data
could not be caught: functions which throw were declared noexcept.
---
 src/Bins.cpp              | 2 +-
 src/Bins.hpp              | 2 +-
 src/Estimator.cpp         | 2 +-
 src/Estimator.hpp         | 2 +-
 src/Perturbation.cpp      | 4 ++--
 src/Perturbation.hpp      | 4 ++--
 src/Scorable.cpp          | 2 +-
 src/Scorable.hpp          | 2 +-
 src/ThermalScattering.cpp | 6 +++---
 src/ThermalScattering.hpp | 2 +-
 10 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/Bins.cpp b/src/Bins.cpp
index 72281ce..2651c27 100644
--- a/src/Bins.cpp
+++ b/src/Bins.cpp
@@ -177,7 +177,7 @@ std::string BoundaryBins::to_string() const noexcept {
 
 //// public
 
-ParticleBins::ParticleBins(const pugi::xml_node& bins_node) noexcept
+ParticleBins::ParticleBins(const pugi::xml_node& bins_node)
     : // IIFE
       direction{[&bins_node]() noexcept {
         const auto& cosine_node = bins_node.child("cosine");
diff --git a/src/Bins.hpp b/src/Bins.hpp
index 4a13170..e442420 100644
--- a/src/Bins.hpp
+++ b/src/Bins.hpp
@@ -132,7 +132,7 @@ private:
 class ParticleBins {
 public:
   /// @brief Constructs a ParticleBins from a `bins` node of an XML document
-  ParticleBins(const pugi::xml_node& bins_node) noexcept;
+  ParticleBins(const pugi::xml_node& bins_node);
   /// @brief Total number of bins used
   size_t size() const noexcept;
   /// @brief Maps a point in @ref estimators_phase_space "phase space" @f$ X
diff --git a/src/Estimator.cpp b/src/Estimator.cpp
index cbf909e..a742ce2 100644
--- a/src/Estimator.cpp
+++ b/src/Estimator.cpp
@@ -75,7 +75,7 @@ Estimator& Estimator::operator+=(const Estimator& other) noexcept {
 
 Estimator::Estimator(
     const pugi::xml_node& estimator_node,
-    const PerturbationSet& perturbations) noexcept
+    const PerturbationSet& perturbations)
     : Scorable{
       estimator_node.attribute("name").as_string(),
       estimator_node.child("bins")},
diff --git a/src/Estimator.hpp b/src/Estimator.hpp
index 63f7c35..6ced3f3 100644
--- a/src/Estimator.hpp
+++ b/src/Estimator.hpp
@@ -46,7 +46,7 @@ protected:
   /// @brief Constructs an Estimator from an XML node
   Estimator(
       const pugi::xml_node& estimator_node,
-      const PerturbationSet& perturbations) noexcept;
+      const PerturbationSet& perturbations);
 
 private:
   // Sensitivity objects which depend on this Estimator
diff --git a/src/Perturbation.cpp b/src/Perturbation.cpp
index 8326cab..9f7c358 100644
--- a/src/Perturbation.cpp
+++ b/src/Perturbation.cpp
@@ -20,7 +20,7 @@
 //// public
 
 std::unique_ptr<Perturbation> Perturbation::Create(
-    const pugi::xml_node& perturbation_node, const World& world) noexcept {
+    const pugi::xml_node& perturbation_node, const World& world) {
   const std::string perturbation_type = perturbation_node.name();
   if (perturbation_type == "total") {
     return std::make_unique<TotalCrossSectionPerturbation>(
@@ -87,7 +87,7 @@ Real TotalCrossSectionPerturbation::Scatter(
 //// public
 
 PerturbationSet::PerturbationSet(
-    const pugi::xml_node& perturbations_node, const World& world) noexcept
+    const pugi::xml_node& perturbations_node, const World& world)
     : perturbations{[&perturbations_node, &world]() {
         std::vector<std::unique_ptr<const Perturbation>> result;
         for (const auto& perturbation_node : perturbations_node) {
diff --git a/src/Perturbation.hpp b/src/Perturbation.hpp
index 4ccc600..d7a6849 100644
--- a/src/Perturbation.hpp
+++ b/src/Perturbation.hpp
@@ -25,7 +25,7 @@ public:
   /// @brief Factory method to create a new Perturbation from a perturbation
   ///        node of an XML document
   static std::unique_ptr<Perturbation>
-  Create(const pugi::xml_node& perturbation_node, const World& world) noexcept;
+  Create(const pugi::xml_node& perturbation_node, const World& world);
   /// @brief Virtual destructor (C++ Core Guidelines C.127)
   virtual ~Perturbation() noexcept;
   /// @brief Create a Sensitivity estimator from a `perturbation` child of a
@@ -84,7 +84,7 @@ public:
   /// @brief Constructs a PerturbationSet from a `perturbations` node of an XML
   ///        document
   PerturbationSet(
-      const pugi::xml_node& perturbations_node, const World& world) noexcept;
+      const pugi::xml_node& perturbations_node, const World& world);
   /// @brief Returns the Perturbation with the given name
   /// @exception std::runtime_error Perturbation with given name not found
   /// @todo Template along with EstimatorSet::FindEstimatorByName
diff --git a/src/Scorable.cpp b/src/Scorable.cpp
index 337ff50..a1e0e11 100644
--- a/src/Scorable.cpp
+++ b/src/Scorable.cpp
@@ -15,7 +15,7 @@
 //// public
 
 Scorable::Scorable(
-    const std::string& name, const pugi::xml_node& bins_node) noexcept
+    const std::string& name, const pugi::xml_node& bins_node)
     : name{name}, bins{std::make_shared<ParticleBins>(bins_node)},
       scores(bins->size(), 0), square_scores(bins->size(), 0) {}
 
diff --git a/src/Scorable.hpp b/src/Scorable.hpp
index 3c8b756..7ed79ca 100644
--- a/src/Scorable.hpp
+++ b/src/Scorable.hpp
@@ -28,7 +28,7 @@ class Scorable {
 public:
   /// @brief Constructs a Scorable from a `bins` node of an XML document
   /// @details All scores are initialized to zero
-  Scorable(const std::string& name, const pugi::xml_node& bins_node) noexcept;
+  Scorable(const std::string& name, const pugi::xml_node& bins_node);
   /// @brief Constructs an Scorable from an existing estimator and
   ///        perturbation
   /// @details All scores are initialized to zero
diff --git a/src/ThermalScattering.cpp b/src/ThermalScattering.cpp
index bbc3dec..787be33 100644
--- a/src/ThermalScattering.cpp
+++ b/src/ThermalScattering.cpp
@@ -22,14 +22,14 @@
 
 //// public
 
-ThermalScattering::ThermalScattering(const pugi::xml_node& tsl_node) noexcept
+ThermalScattering::ThermalScattering(const pugi::xml_node& tsl_node)
     : majorant{HDF5DataSet<1>{tsl_node.attribute("majorant").as_string()}
                    .ToContinuousMap()},
       scatter_xs_T{tsl_node.attribute("total_T").as_string()},
       scatter_xs_S{tsl_node.attribute("total_S").as_string()},
       scatter_xs_E{tsl_node.attribute("total_E").as_string()},
       // IIFE
-      beta_partitions{[&tsl_node]() noexcept {
+      beta_partitions{[&tsl_node]() {
         std::vector<BetaPartition> result;
         for (const auto& partition_node : tsl_node.child("beta_partitions")) {
           result.emplace_back(partition_node);
@@ -62,7 +62,7 @@ ThermalScattering::ThermalScattering(const pugi::xml_node& tsl_node) noexcept
         return result;
       }()},
       // IIFE
-      alpha_partitions{[&tsl_node]() noexcept {
+      alpha_partitions{[&tsl_node]() {
         std::vector<AlphaPartition> result;
         for (const auto& partition_node : tsl_node.child("alpha_partitions")) {
           result.emplace_back(partition_node);
diff --git a/src/ThermalScattering.hpp b/src/ThermalScattering.hpp
index 25b2d06..e45d3d2 100644
--- a/src/ThermalScattering.hpp
+++ b/src/ThermalScattering.hpp
@@ -28,7 +28,7 @@ public:
   /// @brief Dimensionless momentum transfer
   using Alpha = Real;
   /// @brief Constructs thermal scattering data from a `tsl` node
-  ThermalScattering(const pugi::xml_node& tsl_node) noexcept;
+  ThermalScattering(const pugi::xml_node& tsl_node);
   /// @brief Returns true if Particle is Type::neutron and is strictly below
   ///        the cutoff energy
   bool IsValid(const Particle& p) const noexcept;
-- 
2.43.0

