From c382b9b303ea7132b4fef23d8b27f62af1dc1929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:21 +0000
Subject: [PATCH 01/18] fix: BoundingBox::ExpandToInclude(point) kept Min
 instead of Max

---
 include/libnurbs/Core/BoundingBox.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libnurbs/Core/BoundingBox.hpp b/include/libnurbs/Core/BoundingBox.hpp
index a42c058..0318ad1 100644
--- a/include/libnurbs/Core/BoundingBox.hpp
+++ b/include/libnurbs/Core/BoundingBox.hpp
@@ -23,7 +23,7 @@ namespace libnurbs
         void ExpandToInclude(const Vec3& point)
         {
             Min = Min.cwiseMin(point);
-            Max = Min.cwiseMax(point);
+            Max = Max.cwiseMax(point);
         }
 
         void ExpandToInclude(const BoundingBox& box)
-- 
2.43.0


From ce9ed9a206db754626f9180e63718ddb1596c424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:21 +0000
Subject: [PATCH 02/18] fix: reject NaN knots when a knot vector is built

---
 src/Core/KnotVector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Core/KnotVector.cpp b/src/Core/KnotVector.cpp
index 75cbc22..b774ed2 100644
--- a/src/Core/KnotVector.cpp
+++ b/src/Core/KnotVector.cpp
@@ -13,7 +13,7 @@ static bool ValidateKnots(const vector<Numeric>& knots)
     Numeric last_value = 0.0;
     for (Numeric val : knots)
     {
-        if (val < last_value) return false;
+        if (!(val >= last_value)) return false;
         last_value = val;
     }
     if (last_value != 1.0) return false;
-- 
2.43.0


From 0eefcad9c3044ac884ff172a87c3e1896660b49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:21 +0000
Subject: [PATCH 03/18] fix: KnotPair::Index is the first occurrence for every
 run, not only the last

---
 src/Core/KnotVector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Core/KnotVector.cpp b/src/Core/KnotVector.cpp
index b774ed2..bb517fa 100644
--- a/src/Core/KnotVector.cpp
+++ b/src/Core/KnotVector.cpp
@@ -73,7 +73,7 @@ vector<KnotVector::KnotPair> KnotVector::GetKnotPairs() const
         Numeric val = m_Values[i];
         if (val != last_value)
         {
-            result.emplace_back(i, last_value, multiplicity);
+            result.emplace_back(i - multiplicity, last_value, multiplicity);
             last_value = val;
             multiplicity = 1;
         }
-- 
2.43.0


From e48e8de70be17ee75d10ba5c75b18053dd6650b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:21 +0000
Subject: [PATCH 04/18] fix: KnotVector::IsClamped compared a count of zeros
 with an index

---
 src/Core/KnotVector.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Core/KnotVector.cpp b/src/Core/KnotVector.cpp
index bb517fa..d355a39 100644
--- a/src/Core/KnotVector.cpp
+++ b/src/Core/KnotVector.cpp
@@ -106,7 +106,8 @@ bool KnotVector::IsClamped() const
     {
         if (m_Values[count1] != 1.0) break;
     }
-    return count0 == count1;
+    count1 = (int)m_Values.size() - 1 - count1;
+    return count0 == count1 && count0 > 0;
 }
 
 bool KnotVector::IsUniform() const
-- 
2.43.0


From d9c0ea3c4391967bd44b954275858b5b1bb9dc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:11 +0000
Subject: [PATCH 05/18] fix: KnotRemoval derived its tolerance from homogeneous
 instead of Cartesian points

---
 src/Algorithm/KnotRemoval.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Algorithm/KnotRemoval.cpp b/src/Algorithm/KnotRemoval.cpp
index 97a6ac5..a1ee25e 100644
--- a/src/Algorithm/KnotRemoval.cpp
+++ b/src/Algorithm/KnotRemoval.cpp
@@ -24,6 +24,9 @@ namespace libnurbs
                     std::vector<Vec4>& points,
                     int degree, Numeric knot_remove, int times, Numeric tolerance)
     {
+        // The tolerance bound is stated for Cartesian control points
+        double tol = CalcTOL(points, tolerance);
+
         // Convert to Homogeneous Coordinate
         for (auto& point: points)
         {
@@ -34,8 +37,6 @@ namespace libnurbs
         int s = knot_vector.GetMultiplicity(knot_remove);
         int r = knot_vector.FindSpanIndex(degree, knot_remove);
 
-        double tol = CalcTOL(points, tolerance);
-
         int n = (int)points.size() - 1;
         int m = n + degree + 1;
         int order = degree + 1;
-- 
2.43.0


From 335ca7ae04821c69f0f020ba0bfa966ff14da1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:11 +0000
Subject: [PATCH 06/18] fix: KnotRemoval read out of bounds when asked for more
 removals than the knot has copies

---
 src/Algorithm/KnotRemoval.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Algorithm/KnotRemoval.cpp b/src/Algorithm/KnotRemoval.cpp
index a1ee25e..e8ffd88 100644
--- a/src/Algorithm/KnotRemoval.cpp
+++ b/src/Algorithm/KnotRemoval.cpp
@@ -24,6 +24,10 @@ namespace libnurbs
                     std::vector<Vec4>& points,
                     int degree, Numeric knot_remove, int times, Numeric tolerance)
     {
+        // A knot can be removed at most as often as it occurs
+        times = std::min(times, knot_vector.GetMultiplicity(knot_remove));
+        if (times <= 0) return 0;
+
         // The tolerance bound is stated for Cartesian control points
         double tol = CalcTOL(points, tolerance);
 
-- 
2.43.0


From c65f76d0b125f7915bd849e80a7ac90ee677b86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:11 +0000
Subject: [PATCH 07/18] fix: KnotRemoval left the points in homogeneous
 coordinates when nothing was removed

---
 src/Algorithm/KnotRemoval.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Algorithm/KnotRemoval.cpp b/src/Algorithm/KnotRemoval.cpp
index e8ffd88..1b54a50 100644
--- a/src/Algorithm/KnotRemoval.cpp
+++ b/src/Algorithm/KnotRemoval.cpp
@@ -31,6 +31,8 @@ namespace libnurbs
         // The tolerance bound is stated for Cartesian control points
         double tol = CalcTOL(points, tolerance);
 
+        const std::vector<Vec4> original_points = points;
+
         // Convert to Homogeneous Coordinate
         for (auto& point: points)
         {
@@ -101,7 +103,11 @@ namespace libnurbs
         }
 
         // no remove operation succeeded
-        if (t == 0) return t;
+        if (t == 0)
+        {
+            points = original_points;
+            return t;
+        }
 
         int j = (2 * r - s - degree) / 2, i = j;
         for (int k = 1; k < t; k++)
-- 
2.43.0


From c380a4306ed7b4e2a4cf33a3282189f8d719949b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:11 +0000
Subject: [PATCH 08/18] fix: knot removal dropped the requested instead of the
 achieved number of knots and points

---
 src/Algorithm/KnotRemoval.cpp | 6 +++---
 src/Surface/Surface.cpp       | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Algorithm/KnotRemoval.cpp b/src/Algorithm/KnotRemoval.cpp
index 1b54a50..10bdadd 100644
--- a/src/Algorithm/KnotRemoval.cpp
+++ b/src/Algorithm/KnotRemoval.cpp
@@ -121,14 +121,14 @@ namespace libnurbs
         {
             points[j] = points[k];
         }
-        points.resize(points.size() - times);
+        points.resize(points.size() - t);
 
         /* Update knot vector */
         for (int k = r + 1; k <= m; k++)
         {
-            knots[k - times] = knots[k];
+            knots[k - t] = knots[k];
         }
-        knots.resize(knots.size() - times);
+        knots.resize(knots.size() - t);
 
         // Convert to Cartesian Coordinate
         for (auto& point: points)
diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index d34bb00..5016771 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -765,7 +765,6 @@ std::tuple<Surface, int> Surface::RemoveKnotU(Numeric knot_remove, int times, Nu
 {
     Surface result{*this};
     auto& points_ref = result.ControlPoints;
-    points_ref = {points_ref.UCount - times, points_ref.VCount};
     int t = 0;
     for (int it_v = 0; it_v < ControlPoints.VCount; ++it_v)
     {
@@ -773,6 +772,7 @@ std::tuple<Surface, int> Surface::RemoveKnotU(Numeric knot_remove, int times, Nu
         auto points = this->ControlPoints.GetV(it_v);
         int t_tmp = KnotRemoval(knots, points, result.DegreeU, knot_remove, times, tolerance);
         if (t_tmp == 0 || it_v != 0 && t != t_tmp) return {*this, 0};
+        if (it_v == 0) points_ref = {(int)points.size(), ControlPoints.VCount};
         if (it_v == ControlPoints.VCount - 1) result.KnotsU = knots;
         points_ref.SetV(it_v, points);
         t = t_tmp;
@@ -784,7 +784,6 @@ std::tuple<Surface, int> Surface::RemoveKnotV(Numeric knot_remove, int times, Nu
 {
     Surface result{*this};
     auto& points_ref = result.ControlPoints;
-    points_ref = {points_ref.UCount, points_ref.VCount - times};
     int t = 0;
     for (int it_u = 0; it_u < ControlPoints.UCount; ++it_u)
     {
@@ -792,6 +791,7 @@ std::tuple<Surface, int> Surface::RemoveKnotV(Numeric knot_remove, int times, Nu
         auto points = this->ControlPoints.GetU(it_u);
         int t_tmp = KnotRemoval(knots, points, result.DegreeV, knot_remove, times, tolerance);
         if (t_tmp == 0 || it_u != 0 && t != t_tmp) return {*this, 0};
+        if (it_u == 0) points_ref = {ControlPoints.UCount, (int)points.size()};
         if (it_u == ControlPoints.UCount - 1) result.KnotsV = knots;
         points_ref.SetU(it_u, points);
         t = t_tmp;
-- 
2.43.0


From f10a916bfe99c1460928cdacbea849d69f27756c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:11 +0000
Subject: [PATCH 09/18] fix: NurbsDegreeElevation overran its buffers for
 several spans and times >= 2

---
 src/Algorithm/DegreeAlgo.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Algorithm/DegreeAlgo.cpp b/src/Algorithm/DegreeAlgo.cpp
index 9d3d40a..5504a46 100644
--- a/src/Algorithm/DegreeAlgo.cpp
+++ b/src/Algorithm/DegreeAlgo.cpp
@@ -53,10 +53,11 @@ namespace libnurbs
         int cind = 1;
         double ua = knots[0];
 
-        std::vector<Vec4> Qw((n + times) * 2);
+        // every knot span gains at most `times` control points, and there are at most n spans
+        std::vector<Vec4> Qw(n + 1 + n * times);
         Qw[0] = points[0];
 
-        std::vector<Numeric> Uh((n + times) * 2 + ph + 1);
+        std::vector<Numeric> Uh(Qw.size() + ph + 1);
         std::fill(Uh.begin(), Uh.begin() + ph + 1, ua);
 
         std::vector<Vec4> bpts(points.begin(), points.begin() + degree + 1);
-- 
2.43.0


From 8b81365c7b27945f86453483ca83c1d56ee18406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:11 +0000
Subject: [PATCH 10/18] fix: surface degree elevation sized the control grid as
 if there were no interior knots

---
 src/Surface/Surface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index 5016771..6e7b269 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -803,13 +803,13 @@ Surface Surface::ElevateDegreeU(int times) const
 {
     Surface result{*this};
     auto& points_ref = result.ControlPoints;
-    points_ref = {points_ref.UCount + times, points_ref.VCount};
     for (int it_v = 0; it_v < ControlPoints.VCount; ++it_v)
     {
         auto degree = result.DegreeU;
         auto knots = result.KnotsU;
         auto points = this->ControlPoints.GetV(it_v);
         NurbsDegreeElevation(knots, points, degree, times);
+        if (it_v == 0) points_ref = {(int)points.size(), ControlPoints.VCount};
         if (it_v == ControlPoints.VCount - 1)
         {
             result.KnotsU = knots;
@@ -824,13 +824,13 @@ Surface Surface::ElevateDegreeV(int times) const
 {
     Surface result{*this};
     auto& points_ref = result.ControlPoints;
-    points_ref = {points_ref.UCount, points_ref.VCount + times};
     for (int it_u = 0; it_u < ControlPoints.UCount; ++it_u)
     {
         auto degree = result.DegreeV;
         auto knots = result.KnotsV;
         auto points = this->ControlPoints.GetU(it_u);
         NurbsDegreeElevation(knots, points, degree, times);
+        if (it_u == 0) points_ref = {ControlPoints.UCount, (int)points.size()};
         if (it_u == ControlPoints.UCount - 1)
         {
             result.KnotsV = knots;
-- 
2.43.0


From 7ec9ecb1ae0d3463635e9210b509a0d8b96d6137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:11 +0000
Subject: [PATCH 11/18] fix: loading a text file appended to the knots and
 points the object already held

---
 src/Curve/Curve.cpp     | 2 ++
 src/Surface/Surface.cpp | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/src/Curve/Curve.cpp b/src/Curve/Curve.cpp
index fd0b05c..14b44ab 100644
--- a/src/Curve/Curve.cpp
+++ b/src/Curve/Curve.cpp
@@ -88,6 +88,8 @@ Curve& Curve::LoadFromFile(std::istream& is)
     }
 
     // TXT mode
+    Knots.Values().clear();
+    ControlPoints.clear();
     std::string line;
     std::string current_key;
     vector<std::string> content_lines;
diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index 6e7b269..d03e941 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -93,6 +93,9 @@ Surface& Surface::LoadFromFile(std::istream& is)
     else
     {
         // Text mode
+        KnotsU.Values().clear();
+        KnotsV.Values().clear();
+        ControlPoints = {0, 0};
         std::string line;
         std::string current_key;
         std::vector<std::string> content_lines;
-- 
2.43.0


From ba6b6cafa918164dbe911a400ea8907a5a905ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:11 +0000
Subject: [PATCH 12/18] fix: text files lost small values to fixed-point
 formatting

---
 src/Curve/Curve.cpp     | 2 +-
 src/Surface/Surface.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Curve/Curve.cpp b/src/Curve/Curve.cpp
index 14b44ab..0468522 100644
--- a/src/Curve/Curve.cpp
+++ b/src/Curve/Curve.cpp
@@ -255,7 +255,7 @@ void Curve::SaveToFile(std::ostream& os, bool binary_mode) const
         // Write textual data
         os << "*Degree: " << Degree << "\n";
 
-        os << std::fixed << std::setprecision(std::numeric_limits<double>::digits10 + 2);
+        os << std::scientific << std::setprecision(std::numeric_limits<double>::digits10 + 2);
 
         os << "*Knots:\n";
         for (size_t i = 0; i < Knots.Values().size(); ++i)
diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index d03e941..4e07ce5 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -325,7 +325,7 @@ void Surface::SaveToFile(std::ostream& os, bool binary_mode) const
         os << "*DegreeU: " << DegreeU << "\n";
         os << "*DegreeV: " << DegreeV << "\n";
 
-        os << std::fixed << std::setprecision(std::numeric_limits<double>::digits10 + 2);
+        os << std::scientific << std::setprecision(std::numeric_limits<double>::digits10 + 2);
 
         // Write knot vectors
         os << "*KnotsU:\n";
-- 
2.43.0


From a36e1b4eec9e0bb830824821bd7a007b939cdd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:11 +0000
Subject: [PATCH 13/18] fix: surface files whose grid dimensions overflow int
 are rejected

---
 src/Surface/Surface.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index 4e07ce5..ebdf24f 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -2,6 +2,7 @@
 #include <fstream>
 #include <iomanip>
 #include <iostream>
+#include <limits>
 
 #include "libnurbs/Algorithm/DegreeAlgo.hpp"
 #include "libnurbs/Algorithm/KnotRemoval.hpp"
@@ -83,6 +84,10 @@ Surface& Surface::LoadFromFile(std::istream& is)
         }
 
         // Read control points
+        if (ControlPoints.UCount > std::numeric_limits<int>::max() / ControlPoints.VCount)
+        {
+            throw std::runtime_error("Control point grid dimensions are too large.");
+        }
         int cp_count = ControlPoints.UCount * ControlPoints.VCount;
         ControlPoints.Values.resize(cp_count);
         for (int i = 0; i < cp_count; ++i)
@@ -189,6 +194,10 @@ Surface& Surface::LoadFromFile(std::istream& is)
                 }
 
                 // Read control points
+                if (ControlPoints.UCount > std::numeric_limits<int>::max() / ControlPoints.VCount)
+                {
+                    throw std::runtime_error("Control point grid dimensions are too large.");
+                }
                 int expected_cp_count = ControlPoints.UCount * ControlPoints.VCount;
                 if (static_cast<int>(lines.size() - 1) != expected_cp_count)
                 {
-- 
2.43.0


From d3c4b313592387863bb825b0e7d004d73bf43028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:11 +0000
Subject: [PATCH 14/18] fix: a damaged count in a binary file no longer
 triggers a huge allocation

---
 src/Curve/Curve.cpp         |  6 ++++--
 src/Surface/Surface.cpp     |  6 ++++--
 src/Utils/Serialization.cpp | 14 ++++++++++----
 3 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/Curve/Curve.cpp b/src/Curve/Curve.cpp
index 0468522..d6f1a48 100644
--- a/src/Curve/Curve.cpp
+++ b/src/Curve/Curve.cpp
@@ -79,10 +79,12 @@ Curve& Curve::LoadFromFile(std::istream& is)
         {
             throw std::runtime_error("Failed to read ControlPoints count.");
         }
-        ControlPoints.resize(cp_count);
+        ControlPoints.clear();
         for (int i = 0; i < cp_count; ++i)
         {
-            Utils::ReadVec4FromStream(ControlPoints[i], is);
+            Vec4 point;
+            Utils::ReadVec4FromStream(point, is);
+            ControlPoints.push_back(point);
         }
         return *this;
     }
diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index ebdf24f..eb47747 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -89,10 +89,12 @@ Surface& Surface::LoadFromFile(std::istream& is)
             throw std::runtime_error("Control point grid dimensions are too large.");
         }
         int cp_count = ControlPoints.UCount * ControlPoints.VCount;
-        ControlPoints.Values.resize(cp_count);
+        ControlPoints.Values.clear();
         for (int i = 0; i < cp_count; ++i)
         {
-            Utils::ReadVec4FromStream(ControlPoints.Values[i], is);
+            Vec4 point;
+            Utils::ReadVec4FromStream(point, is);
+            ControlPoints.Values.push_back(point);
         }
     }
     else
diff --git a/src/Utils/Serialization.cpp b/src/Utils/Serialization.cpp
index d0b31cf..3bd5439 100644
--- a/src/Utils/Serialization.cpp
+++ b/src/Utils/Serialization.cpp
@@ -12,11 +12,17 @@ namespace libnurbs::Utils
         {
             throw std::runtime_error("Failed to read KnotVector count from binary stream.");
         }
-        knot_vector.Values().resize(count);
-        is.read(reinterpret_cast<char*>(knot_vector.Values().data()), sizeof(Numeric) * count);
-        if (is.fail())
+        // grow with the data that is really there: the count of a damaged file must not drive an allocation
+        knot_vector.Values().clear();
+        for (int i = 0; i < count; ++i)
         {
-            throw std::runtime_error("Failed to read KnotVector data from binary stream.");
+            Numeric value;
+            is.read(reinterpret_cast<char*>(&value), sizeof(Numeric));
+            if (is.fail())
+            {
+                throw std::runtime_error("Failed to read KnotVector data from binary stream.");
+            }
+            knot_vector.Values().push_back(value);
         }
     }
 
-- 
2.43.0


From df32f15310292227d34eead138f6663d12fc3da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:11 +0000
Subject: [PATCH 15/18] fix: GetBoundingBox subdivided rational curves in
 Cartesian coordinates

---
 src/Curve/Curve.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Curve/Curve.cpp b/src/Curve/Curve.cpp
index d6f1a48..e701352 100644
--- a/src/Curve/Curve.cpp
+++ b/src/Curve/Curve.cpp
@@ -593,7 +593,7 @@ BoundingBox Curve::GetBoundingBox(Numeric epsilon) const
 
     auto to3 = [&](const Vec4& v) -> Vec3
     {
-        return v.head<3>();
+        return v.head<3>() / v.w();
     };
 
     // if p <= 5, use static buffer
@@ -604,6 +604,11 @@ BoundingBox Curve::GetBoundingBox(Numeric epsilon) const
     BoundingBox globalBox;
     for (auto& seg : segments)
     {
+        // subdivide in homogeneous coordinates, otherwise rational curves are wrong
+        for (auto& point : seg.ControlPoints)
+        {
+            point = ToHomo(point);
+        }
         stack<vector<Vec4>> stack;
         stack.push(std::move(seg.ControlPoints));
         while (!stack.empty())
-- 
2.43.0


From 0aeed06424599c54f81ead739bde96f6b99fea7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:11 +0000
Subject: [PATCH 16/18] fix: GeomRect ignored its fourth corner

---
 src/Geometry/GeomRect.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Geometry/GeomRect.cpp b/src/Geometry/GeomRect.cpp
index a173d38..a353494 100644
--- a/src/Geometry/GeomRect.cpp
+++ b/src/Geometry/GeomRect.cpp
@@ -20,12 +20,15 @@ namespace libnurbs
         surface.ControlPoints = {ControlPointCountU, ControlPointCountV};
         Vec3 k1 = (RightBottomPoint - LeftBottomPoint) / (ControlPointCountU - 1);
         Vec3 k2 = (LeftTopPoint - LeftBottomPoint) / (ControlPointCountV - 1);
+        // zero for a parallelogram
+        Vec3 k3 = (RightTopPoint - RightBottomPoint - LeftTopPoint + LeftBottomPoint)
+                  / ((ControlPointCountU - 1) * (ControlPointCountV - 1));
         for (int j = 0; j < ControlPointCountV; ++j)
         {
             for (int i = 0; i < ControlPointCountU; ++i)
             {
                 auto& point = surface.ControlPoints.Get(i, j);
-                point.head<3>() = LeftBottomPoint + i * k1 + j * k2;
+                point.head<3>() = LeftBottomPoint + i * k1 + j * k2 + (i * j) * k3;
                 point.w() = 1;
             }
         }
-- 
2.43.0


From a86562a5a7a7399ba59c68c6cb6706bec697253f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:24 +0000
Subject: [PATCH 17/18] fix: surface parameter search stepped to NaN when its
 Hessian estimate overflowed

---
 src/Surface/Surface.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index eb47747..439cb82 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -525,6 +525,8 @@ auto Surface::SearchParameter(const Vec3& point, Numeric init_u, Numeric init_v,
     while (!((current_residual < epsilon) || (count++ >= max_iteration_count)))
     {
         auto gk = Ki(u_last, v_last);
+        // The update below overflows when yk is nearly orthogonal to sk: restart instead of stepping to NaN
+        if (!(Hk * gk).allFinite()) Hk = Mat2x2::Identity();
         Vec2 uv_last = line_search(gk);
 
         Vec2 sk = uv_last - Vec2{u_last, v_last};
-- 
2.43.0


From ebf2ec7839df8e6f20164ae07b968bba9a435bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:07 +0000
Subject: [PATCH 18/18] fix: KnotRemoval produced control points without
 positive weight, whose Cartesian position is infinite

---
 src/Algorithm/KnotRemoval.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Algorithm/KnotRemoval.cpp b/src/Algorithm/KnotRemoval.cpp
index 10bdadd..8fe152a 100644
--- a/src/Algorithm/KnotRemoval.cpp
+++ b/src/Algorithm/KnotRemoval.cpp
@@ -60,6 +60,7 @@ namespace libnurbs
             int j = last;
             int ii = 1;
             int jj = last - off;
+            bool positive_weights = true;
 
             while (j - i > t)
             {
@@ -68,6 +69,7 @@ namespace libnurbs
 
                 temp[ii] = (points[i] - (1.0 - alphai) * temp[ii - 1]) / alphai;
                 temp[jj] = (points[j] - alphaj * temp[jj + 1]) / (1.0 - alphaj);
+                positive_weights = positive_weights && temp[ii].w() > 0 && temp[jj].w() > 0;
 
                 i = i + 1;
                 ii = ii + 1;
@@ -86,7 +88,8 @@ namespace libnurbs
                 double alphai = (knot_remove - knots[i]) / (knots[i + order + t] - knots[i]);
                 dist = ((alphai * temp[ii + t + 1] + (1.0 - alphai) * temp[ii - 1]) - points[i]).norm();
             }
-            if (dist > tol) break;
+            // A control point without positive weight has no Cartesian position
+            if (dist > tol || !positive_weights) break;
 
             i = first;
             j = last;
-- 
2.43.0

