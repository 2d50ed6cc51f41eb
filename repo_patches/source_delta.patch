From da8b75bbb73f717b348bcfd4dd07e1e396808af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 01/29] fix: heap overflow in where_to2/3 when most vertices
 are exported

The buffer was allocated with one row too few (1 + n*k instead of (1+n)*k
doubles) for the (1+n) x k array that is returned from it.
---
 SeismicMesh/migration/cpp/cpputils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SeismicMesh/migration/cpp/cpputils.cpp b/SeismicMesh/migration/cpp/cpputils.cpp
index f31bd6d..0b07600 100644
--- a/SeismicMesh/migration/cpp/cpputils.cpp
+++ b/SeismicMesh/migration/cpp/cpputils.cpp
@@ -167,7 +167,7 @@ std::vector<double> c_where_to2(std::vector<double> &points,
   }
 
   std::vector<double> pointsToMigrate;
-  pointsToMigrate.resize(1 + num_points * 3, -1);
+  pointsToMigrate.resize((1 + num_points) * 3, -1);
 
   double below_count = 0.0;
   double above_count = 0.0;
@@ -346,7 +346,7 @@ std::vector<double> c_where_to3(std::vector<double> &points,
   }
 
   std::vector<double> pointsToMigrate;
-  pointsToMigrate.resize(1 + num_points * 4, -1);
+  pointsToMigrate.resize((1 + num_points) * 4, -1);
 
   double below_count = 0.0;
   double above_count = 0.0;
-- 
2.43.0


From be4c37d80c3561a03ff29e936686fcdf9d6626aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 02/29] fix: send ghost vertices to every neighbour that needs
 them

A vertex was sent to one neighbour only (the one below won), cells were
skipped unless their bounding box touched the neighbour's extent, a box lying
inside a circumcircle didn't count, and vertices of the convex hull that the
neighbour can see were not considered.  Each left the neighbour with a wrong
triangulation near the interface, or with none.
---
 SeismicMesh/migration/cpp/cpputils.cpp | 391 +++++++++++--------------
 1 file changed, 174 insertions(+), 217 deletions(-)

diff --git a/SeismicMesh/migration/cpp/cpputils.cpp b/SeismicMesh/migration/cpp/cpputils.cpp
index 0b07600..2d90e5f 100644
--- a/SeismicMesh/migration/cpp/cpputils.cpp
+++ b/SeismicMesh/migration/cpp/cpputils.cpp
@@ -81,6 +81,51 @@ double calc_4x4dete(std::vector<double> &m) {
          m[4] * m[1] * m[10] * m[15] + m[0] * m[5] * m[10] * m[15];
 }
 
+// Does the ball centered at `c` with squared radius `sqr_radius` intersect the
+// box with lower corner `llc` and upper corner `urc`?
+bool ball_meets_box(const std::vector<double> &c, double sqr_radius,
+                    const double *llc, const double *urc) {
+  double sqr_dist = 0.0;
+  for (std::size_t d = 0; d < c.size(); ++d) {
+    double gap = std::max(std::max(llc[d] - c[d], c[d] - urc[d]), 0.0);
+    sqr_dist += gap * gap;
+  }
+  // if in doubt, rather export one vertex too many
+  return !(sqr_dist > sqr_radius * (1.0 + 1e-9));
+}
+
+// Facets that belong to only one element (the convex hull of the points), each
+// followed by the vertex of that element that is opposite to the facet.
+template <int DIM>
+std::vector<std::array<int, DIM + 1>> hull_facets(std::vector<int> &faces) {
+  // vertices of the facet in ascending order, then the opposite vertex
+  std::vector<std::array<int, DIM + 1>> all;
+  for (std::size_t ie = 0; ie < faces.size() / (DIM + 1); ++ie) {
+    for (int opp = 0; opp < DIM + 1; ++opp) {
+      std::array<int, DIM + 1> facet;
+      int n = 0;
+      for (int k = 0; k < DIM + 1; ++k) {
+        if (k != opp)
+          facet[n++] = faces[ie * (DIM + 1) + k];
+      }
+      facet[DIM] = faces[ie * (DIM + 1) + opp];
+      std::sort(facet.begin(), facet.begin() + DIM);
+      all.push_back(facet);
+    }
+  }
+  std::sort(all.begin(), all.end());
+  std::vector<std::array<int, DIM + 1>> hull;
+  for (std::size_t i = 0; i < all.size(); ++i) {
+    auto same = [&](std::size_t j) {
+      return std::equal(all[i].begin(), all[i].begin() + DIM, all[j].begin());
+    };
+    if ((i > 0 && same(i - 1)) || (i + 1 < all.size() && same(i + 1)))
+      continue;
+    hull.push_back(all[i]);
+  }
+  return hull;
+}
+
 // determine which rank points need to be exported to in 2D
 std::vector<double> c_where_to2(std::vector<double> &points,
                                 std::vector<int> &faces,
@@ -90,112 +135,72 @@ std::vector<double> c_where_to2(std::vector<double> &points,
   int num_points = points.size() / 2;
 
   // Determine which rank to send the vertex (exports)
-  // exports[iv] is either 0 or 1 (0 for block owned by rank-1 and 1 for block
-  // owned by rank+1)
-  std::vector<int> exports;
-  exports.resize(num_points, -1);
-
-  auto vtoe_map = build_vtoe2(points, faces);
-
-  double kount_below = 0.0;
-  double kount_above = 0.0;
-
- Rectangle rect1 = Rectangle(Point(llc[0 * 2], llc[0 * 2 + 1]),Point(urc[0 * 2], urc[0 * 2 + 1]));
- Rectangle rect2 = Rectangle(Point(llc[1 * 2], llc[1 * 2 + 1]),Point(urc[1 * 2], urc[1 * 2 + 1]));
-
- // create bbox of rectangles to filter tests
- CGAL::Bbox_2 rect1_bbox = CGAL::Bbox_2(llc[0], llc[1], urc[0], urc[1]);
- CGAL::Bbox_2 rect2_bbox = CGAL::Bbox_2(llc[2], llc[3], urc[2], urc[3]);
-
-  // For each point in points
-  for (std::size_t iv = 0; iv < num_points; ++iv) {
-
-    for (std::size_t ie = 0; ie < vtoe_map[iv].size(); ++ie) {
-
-      int nei_ele = vtoe_map[iv][ie];
-
-      // Indices of element into points
-      int nm1 = faces[nei_ele * 3];
-      int nm2 = faces[nei_ele * 3 + 1];
-      int nm3 = faces[nei_ele * 3 + 2];
-
-      // Test if this element has a bounding box that intersects with one of the rectangles
-      // otherwise go no further
-      std::array<double, 3> ele_x = {points[nm1*2], points[nm2*2], points[nm3*2]};
-      std::array<double, 3> ele_y = {points[nm1*2+1], points[nm2*2+1], points[nm3*2+1]};
-
-      auto min_x = std::min_element(std::begin(ele_x), std::end(ele_x));
-      auto min_y = std::min_element(std::begin(ele_y), std::end(ele_y));
-
-      auto max_x = std::max_element(std::begin(ele_x), std::end(ele_x));
-      auto max_y = std::max_element(std::begin(ele_y), std::end(ele_y));
-
-      CGAL::Bbox_2 ball_bbox = CGAL::Bbox_2(*min_x, *min_y, *max_x, *max_y);
-
-      if(CGAL::do_overlap(ball_bbox, rect1_bbox) or CGAL::do_overlap(ball_bbox, rect2_bbox)){
+  // exports[0][iv] is 1 if the vertex goes to the block owned by rank-1 and
+  // exports[1][iv] is 1 if it goes to the block owned by rank+1.
+  // A vertex may have to go to both blocks.
+  std::vector<std::vector<int>> exports(2, std::vector<int>(num_points, 0));
+
+  // For each element
+  for (std::size_t ie = 0; ie < num_faces; ++ie) {
+
+    // Indices of element into points
+    int nm1 = faces[ie * 3];
+    int nm2 = faces[ie * 3 + 1];
+    int nm3 = faces[ie * 3 + 2];
+
+    // Coordinates of each vertex of element
+    Point pnm1 = Point(points[nm1 * 2], points[nm1 * 2 + 1]);
+    Point pnm2 = Point(points[nm2 * 2], points[nm2 * 2 + 1]);
+    Point pnm3 = Point(points[nm3 * 2], points[nm3 * 2 + 1]);
+    bool isCollinear = CGAL::collinear(pnm1, pnm2, pnm3);
+    // if this happens we cannot test accurately
+    if (isCollinear) {
+      // std::cout<<"point is collinear" << std::endl;
+      continue;
+    }
+    // Calculate circumball of element
+    Point cc = CGAL::circumcenter(pnm1, pnm2, pnm3);
+    double sqr_radius = CGAL::squared_radius(pnm1, pnm2, pnm3);
+    // Does this circumball intersect with box above or box below?
+    for (std::size_t b = 0; b < 2; ++b) {
+      if (ball_meets_box({cc.x(), cc.y()}, sqr_radius, &llc[b * 2],
+                         &urc[b * 2])) {
+        exports[b][nm1] = exports[b][nm2] = exports[b][nm3] = 1;
+      }
+    }
+  }
 
-        // Coordinates of each vertex of element
-        Point pnm1 = Point(points[nm1 * 2], points[nm1 * 2 + 1]);
-        Point pnm2 = Point(points[nm2 * 2], points[nm2 * 2 + 1]);
-        Point pnm3 = Point(points[nm3 * 2], points[nm3 * 2 + 1]);
-        bool isCollinear = CGAL::collinear(pnm1, pnm2, pnm3);
-        // if this happens we cannot test accurately
-        if (isCollinear) {
-          // std::cout<<"point is collinear" << std::endl;
-          continue;
-        }
-        // Calculate circumball of element
-        Point cc = CGAL::circumcenter(pnm1, pnm2, pnm3);
-        double sqr_radius = CGAL::squared_radius(pnm1, pnm2, pnm3);
-        Circle circ = Circle(cc, sqr_radius, CGAL::CLOCKWISE);
-        // Does this circumball intersect with box above or box below?
-        bool intersects;
-        intersects = CGAL::do_intersect(circ, rect1);
-        if (intersects){
-            exports[iv] = 0;
-            kount_below += 1.0;
-            break;
-        }
-        intersects = CGAL::do_intersect(circ, rect2);
-        if (intersects){
-            exports[iv] = 1;
-            kount_above += 1.0;
-            break;
+  // Points beyond the convex hull connect to the facets of it they can see.
+  for (auto &f : hull_facets<2>(faces)) {
+    Point pf1 = Point(points[f[0] * 2], points[f[0] * 2 + 1]);
+    Point pf2 = Point(points[f[1] * 2], points[f[1] * 2 + 1]);
+    Point in = Point(points[f[2] * 2], points[f[2] * 2 + 1]);
+    CGAL::Orientation inside = CGAL::orientation(pf1, pf2, in);
+    for (std::size_t b = 0; b < 2; ++b) {
+      for (std::size_t corner = 0; corner < 4; ++corner) {
+        Point pc = Point(corner & 1 ? urc[b * 2] : llc[b * 2],
+                         corner & 2 ? urc[b * 2 + 1] : llc[b * 2 + 1]);
+        if (CGAL::orientation(pf1, pf2, pc) != inside) {
+          exports[b][f[0]] = exports[b][f[1]] = 1;
         }
       }
     }
   }
 
-  std::vector<double> pointsToMigrate;
-  pointsToMigrate.resize((1 + num_points) * 3, -1);
-
-  double below_count = 0.0;
-  double above_count = 0.0;
-
-  for (std::size_t iv = 0; iv < num_points; ++iv) {
-    if (exports[iv] == -1){
+  // header, then the vertices that go below, then those that go above
+  std::vector<double> pointsToMigrate(3, 0.0);
+  for (std::size_t b = 0; b < 2; ++b) {
+    for (std::size_t iv = 0; iv < num_points; ++iv) {
+      if (exports[b][iv] == 0) {
         continue;
-    }
-    if (exports[iv] == 0) {
-      pointsToMigrate[below_count * 3 + 0 + 3] = points[iv * 2];
-      pointsToMigrate[below_count * 3 + 1 + 3] = points[iv * 2 + 1];
-      pointsToMigrate[below_count * 3 + 2 + 3] = (double)iv;
-      below_count += 1.0;
-    }
-    else if (exports[iv] ==1){
-      pointsToMigrate[kount_below * 3 + above_count * 3 + 0 + 3] =
-          points[iv * 2];
-      pointsToMigrate[kount_below * 3 + above_count * 3 + 1 + 3] =
-          points[iv * 2 + 1];
-      pointsToMigrate[kount_below * 3 + above_count * 3 + 2 + 3] = (double)iv;
-      above_count += 1.0;
+      }
+      pointsToMigrate.push_back(points[iv * 2]);
+      pointsToMigrate.push_back(points[iv * 2 + 1]);
+      pointsToMigrate.push_back((double)iv);
+      pointsToMigrate[b] += 1.0;
     }
   }
 
-  pointsToMigrate[0] = kount_below;
-  pointsToMigrate[1] = kount_above;
-  pointsToMigrate[2] = 0.0;
-
   return pointsToMigrate;
 }
 
@@ -229,7 +234,7 @@ where_to2(py::array_t<double, py::array::c_style | py::array::forcecast> points,
 
   ssize_t sodble = sizeof(double);
   ssize_t ndim = 2;
-  std::vector<ssize_t> shape = {1 + num_points, 3};
+  std::vector<ssize_t> shape = {(ssize_t)pointsToMigrate.size() / 3, 3};
   std::vector<ssize_t> strides = {sodble * 3, sodble};
 
   // return 2-D NumPy array
@@ -253,131 +258,83 @@ std::vector<double> c_where_to3(std::vector<double> &points,
   int num_points = points.size() / 3;
 
   // Determine which rank to send the vertex (exports)
-  // exports[iv] is either 0 or 1 (0 for block owned by rank-1 and 1 for block
-  // owned by rank+1)
-  std::vector<int> exports;
-  exports.resize(num_points, -1);
-
-  auto vtoe_map = build_vtoe3(points, faces);
-
-  double kount_below = 0.0;
-  double kount_above = 0.0;
-
-  Cuboid cube1 = Cuboid(Point3(llc[0 * 3], llc[0 * 3 + 1], llc[0 * 3 + 2]),
-                Point3(urc[0 * 3], urc[0 * 3 + 1], urc[0 * 3 + 2]));
-  Cuboid cube2 = Cuboid(Point3(llc[1 * 3], llc[1 * 3 + 1], llc[1 * 3 + 2]),
-                Point3(urc[1 * 3], urc[1 * 3 + 1], urc[1 * 3 + 2]));
-
-  // create bbox of cuboids to filter tests
-  CGAL::Bbox_3 cuboid1_bbox = CGAL::Bbox_3(llc[0], llc[1], llc[2] ,urc[0], urc[1], urc[2]);
-  CGAL::Bbox_3 cuboid2_bbox = CGAL::Bbox_3(llc[3], llc[4], llc[5], urc[3], urc[4], urc[5]);
-
-  // For each point in points
-  for (std::size_t iv = 0; iv < num_points; ++iv) {
-
-    for (std::size_t ie = 0; ie < vtoe_map[iv].size(); ++ie) {
-
-      int nei_ele = vtoe_map[iv][ie];
-
-      // Indices of element into points
-      int nm1 = faces[nei_ele * 4];
-      int nm2 = faces[nei_ele * 4 + 1];
-      int nm3 = faces[nei_ele * 4 + 2];
-      int nm4 = faces[nei_ele * 4 + 3];
-
-      // Test if this element has a bounding box that intersects with one of the rectangles
-      // otherwise go no further
-      std::array<double, 4> ele_x = {points[nm1*3], points[nm2*3], points[nm3*3], points[nm4*3]};
-      std::array<double, 4> ele_y = {points[nm1*3+1], points[nm2*3+1], points[nm3*3+1], points[nm4*3+1]};
-      std::array<double, 4> ele_z = {points[nm1*3+2], points[nm2*3+2], points[nm3*3+2], points[nm4*3+2]};
-
-      auto min_x = std::min_element(std::begin(ele_x), std::end(ele_x));
-      auto min_y = std::min_element(std::begin(ele_y), std::end(ele_y));
-      auto min_z = std::min_element(std::begin(ele_z), std::end(ele_z));
-
-      auto max_x = std::max_element(std::begin(ele_x), std::end(ele_x));
-      auto max_y = std::max_element(std::begin(ele_y), std::end(ele_y));
-      auto max_z = std::max_element(std::begin(ele_z), std::end(ele_z));
-
-      CGAL::Bbox_3 sphere_bbox = CGAL::Bbox_3(*min_x, *min_y, *min_z, *max_x, *max_y, *max_z);
-
-      if(CGAL::do_overlap(sphere_bbox, cuboid1_bbox) or CGAL::do_overlap(sphere_bbox, cuboid2_bbox)){
-
-         // Coordinates of each vertex of element
-         Point3 pnm1 =
-             Point3(points[nm1 * 3], points[nm1 * 3 + 1], points[nm1 * 3 + 2]);
-         Point3 pnm2 =
-             Point3(points[nm2 * 3], points[nm2 * 3 + 1], points[nm2 * 3 + 2]);
-         Point3 pnm3 =
-             Point3(points[nm3 * 3], points[nm3 * 3 + 1], points[nm3 * 3 + 2]);
-         Point3 pnm4 =
-             Point3(points[nm4 * 3], points[nm4 * 3 + 1], points[nm4 * 3 + 2]);
-
-         if (volume(pnm1, pnm2, pnm3, pnm4) == 0) {
-           continue;
-         }
-
-         bool isCoplanar = CGAL::coplanar(pnm1, pnm2, pnm3, pnm4);
-         if (isCoplanar) {
-           // std::cout<<"alert"<<std::endl;
-           continue;
-         }
-
-         // Calculate circumball of element
-         Point3 cc = CGAL::circumcenter(pnm1, pnm2, pnm3, pnm4);
-         double sqr_radius = CGAL::squared_radius(pnm1, pnm2, pnm3, pnm4);
-         Sphere sphere = Sphere(cc, sqr_radius, CGAL::CLOCKWISE);
-         // Does this circumball intersect with box above or box below?
-         bool intersects;
-         intersects = CGAL::do_intersect(sphere, cube1);
-         if (intersects){
-             exports[iv] = 0;
-             kount_below += 1.0;
-             break;
-         }
-         intersects = CGAL::do_intersect(sphere, cube2);
-         if (intersects){
-              exports[iv] = 1;
-              kount_above += 1.0;
-              break;
-          }
-        }
-     }
-  }
-
-  std::vector<double> pointsToMigrate;
-  pointsToMigrate.resize((1 + num_points) * 4, -1);
-
-  double below_count = 0.0;
-  double above_count = 0.0;
+  // exports[0][iv] is 1 if the vertex goes to the block owned by rank-1 and
+  // exports[1][iv] is 1 if it goes to the block owned by rank+1.
+  // A vertex may have to go to both blocks.
+  std::vector<std::vector<int>> exports(2, std::vector<int>(num_points, 0));
+
+  // For each element
+  for (std::size_t ie = 0; ie < num_faces; ++ie) {
+
+    // Indices of element into points
+    int nm1 = faces[ie * 4];
+    int nm2 = faces[ie * 4 + 1];
+    int nm3 = faces[ie * 4 + 2];
+    int nm4 = faces[ie * 4 + 3];
+
+    // Coordinates of each vertex of element
+    Point3 pnm1 =
+        Point3(points[nm1 * 3], points[nm1 * 3 + 1], points[nm1 * 3 + 2]);
+    Point3 pnm2 =
+        Point3(points[nm2 * 3], points[nm2 * 3 + 1], points[nm2 * 3 + 2]);
+    Point3 pnm3 =
+        Point3(points[nm3 * 3], points[nm3 * 3 + 1], points[nm3 * 3 + 2]);
+    Point3 pnm4 =
+        Point3(points[nm4 * 3], points[nm4 * 3 + 1], points[nm4 * 3 + 2]);
+
+    bool isCoplanar = CGAL::coplanar(pnm1, pnm2, pnm3, pnm4);
+    if (isCoplanar) {
+      // std::cout<<"alert"<<std::endl;
+      continue;
+    }
 
-  for (std::size_t iv = 0; iv < num_points; ++iv) {
-      if (exports[iv] == -1){
-          continue;
+    // Calculate circumball of element (not finite if it is nearly flat, which
+    // makes it intersect with everything)
+    Point3 cc = CGAL::circumcenter(pnm1, pnm2, pnm3, pnm4);
+    double sqr_radius = CGAL::squared_radius(pnm1, pnm2, pnm3, pnm4);
+    // Does this circumball intersect with box above or box below?
+    for (std::size_t b = 0; b < 2; ++b) {
+      if (ball_meets_box({cc.x(), cc.y(), cc.z()}, sqr_radius, &llc[b * 3],
+                         &urc[b * 3])) {
+        exports[b][nm1] = exports[b][nm2] = 1;
+        exports[b][nm3] = exports[b][nm4] = 1;
       }
-    if (exports[iv] == 0) {
-      pointsToMigrate[below_count * 4 + 0 + 4] = points[iv * 3];
-      pointsToMigrate[below_count * 4 + 1 + 4] = points[iv * 3 + 1];
-      pointsToMigrate[below_count * 4 + 2 + 4] = points[iv * 3 + 2];
-      pointsToMigrate[below_count * 4 + 3 + 4] = (double)iv;
-      below_count += 1.0;
     }
-    else if (exports[iv] == 1) {
-      pointsToMigrate[kount_below * 4 + above_count * 4 + 0 + 4] =
-          points[iv * 3];
-      pointsToMigrate[kount_below * 4 + above_count * 4 + 1 + 4] =
-          points[iv * 3 + 1];
-      pointsToMigrate[kount_below * 4 + above_count * 4 + 2 + 4] =
-          points[iv * 3 + 2];
-      pointsToMigrate[kount_below * 4 + above_count * 4 + 3 + 4] = (double)iv;
-      above_count += 1.0;
+  }
+
+  // Points beyond the convex hull connect to the facets of it they can see.
+  for (auto &f : hull_facets<3>(faces)) {
+    Point3 pf1 = Point3(points[f[0] * 3], points[f[0] * 3 + 1], points[f[0] * 3 + 2]);
+    Point3 pf2 = Point3(points[f[1] * 3], points[f[1] * 3 + 1], points[f[1] * 3 + 2]);
+    Point3 pf3 = Point3(points[f[2] * 3], points[f[2] * 3 + 1], points[f[2] * 3 + 2]);
+    Point3 in = Point3(points[f[3] * 3], points[f[3] * 3 + 1], points[f[3] * 3 + 2]);
+    CGAL::Orientation inside = CGAL::orientation(pf1, pf2, pf3, in);
+    for (std::size_t b = 0; b < 2; ++b) {
+      for (std::size_t corner = 0; corner < 8; ++corner) {
+        Point3 pc = Point3(corner & 1 ? urc[b * 3] : llc[b * 3],
+                           corner & 2 ? urc[b * 3 + 1] : llc[b * 3 + 1],
+                           corner & 4 ? urc[b * 3 + 2] : llc[b * 3 + 2]);
+        if (CGAL::orientation(pf1, pf2, pf3, pc) != inside) {
+          exports[b][f[0]] = exports[b][f[1]] = exports[b][f[2]] = 1;
+        }
       }
     }
+  }
 
-  pointsToMigrate[0] = kount_below;
-  pointsToMigrate[1] = kount_above;
-  pointsToMigrate[2] = 0.0;
-  pointsToMigrate[3] = 0.0;
+  // header, then the vertices that go below, then those that go above
+  std::vector<double> pointsToMigrate(4, 0.0);
+  for (std::size_t b = 0; b < 2; ++b) {
+    for (std::size_t iv = 0; iv < num_points; ++iv) {
+      if (exports[b][iv] == 0) {
+        continue;
+      }
+      pointsToMigrate.push_back(points[iv * 3]);
+      pointsToMigrate.push_back(points[iv * 3 + 1]);
+      pointsToMigrate.push_back(points[iv * 3 + 2]);
+      pointsToMigrate.push_back((double)iv);
+      pointsToMigrate[b] += 1.0;
+    }
+  }
 
   return pointsToMigrate;
 }
@@ -413,7 +370,7 @@ where_to3(py::array_t<double, py::array::c_style | py::array::forcecast> points,
 
   ssize_t sodble = sizeof(double);
   ssize_t ndim = 2;
-  std::vector<ssize_t> shape = {1 + num_points, 4};
+  std::vector<ssize_t> shape = {(ssize_t)pointsToMigrate.size() / 4, 4};
   std::vector<ssize_t> strides = {sodble * 4, sodble};
 
   // return 2-D NumPy array
-- 
2.43.0


From 47b68d271be60e424e06bad23a81b6c8b45687a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 03/29] fix: exchange ghosts with both neighbours even if there
 are none to send

A rank with nothing to send skipped its send (or returned early) while its
neighbour waited for it: deadlock, or a stale message received an iteration
later.
---
 SeismicMesh/migration/migration.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/SeismicMesh/migration/migration.py b/SeismicMesh/migration/migration.py
index 8987a72..30896e5 100644
--- a/SeismicMesh/migration/migration.py
+++ b/SeismicMesh/migration/migration.py
@@ -152,32 +152,26 @@ def exchange(comm, rank, size, exports, dim=2):
     NSB = int(exports[0, 0])
     NSA = int(exports[0, 1])
 
-    if NSB == 0 and NSA == 0:
-        return np.array([[]])
+    # Every rank sends to and receives from each of its neighbors, even if
+    # there is nothing to send, so that the messages always match up.
+    new_points = [np.empty((0, dim))]
 
-    tmp = []
     # send points below
-    if NSB != 0 and (rank != 0):  # rank 0 can't send below
+    if rank != 0:  # rank 0 can't send below
         comm.send(exports[1 : NSB + 1, 0:dim], dest=rank - 1, tag=11)
 
     # receive points from above
     if rank != size - 1:
-        dat_recv = comm.recv(source=rank + 1, tag=11)
-        for p in dat_recv:
-            tmp.append(p)
+        new_points.append(comm.recv(source=rank + 1, tag=11))
 
     # send points above
-    if NSA != 0 and rank != (size - 1):  # topmost rank can't send to above
+    if rank != (size - 1):  # topmost rank can't send to above
         # all put the topmost rank receive from above
         comm.send(exports[NSB + 1 : NSB + 1 + NSA, 0:dim], dest=rank + 1, tag=11)
 
     # receive points from below
     if rank != 0:
         # all but the bottommost rank receive from below
-        dat_recv = comm.recv(source=rank - 1, tag=11)
-        for p in dat_recv:
-            tmp.append(p)
+        new_points.append(comm.recv(source=rank - 1, tag=11))
 
-    new_points = np.array(tmp)
-
-    return new_points
+    return np.concatenate(new_points, axis=0)
-- 
2.43.0


From d3199a3b9a37ef8c51c62dbb998aedb91bf2c26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 04/29] fix: only delete the ghosts that were inserted

A ghost that coincides with a local vertex isn't inserted, and with no ghosts
inv[-0::] is everything; both deleted local vertices.
---
 SeismicMesh/generation/mesh_generator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 7b73b33..ea15cf4 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -507,7 +507,7 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
 
         if comm.size > 1:
             # If continuing on, delete ghost points
-            p = np.delete(p, inv[-recv_ix::], axis=0)
+            p = np.delete(p, inv[len(inv) - recv_ix : :], axis=0)
 
         # Show the user some progress so they know something is happening
         if comm.rank == 0:
@@ -719,9 +719,11 @@ def _add_ghost_vertices(p, t, dt, extents, comm):
     dim = p.shape[1]
     exports = migration.enqueue(extents, p, t, comm.rank, comm.size, dim=dim)
     recv = migration.exchange(comm, comm.rank, comm.size, exports, dim=dim)
-    recv_ix = len(recv)
+    num_local = len(p)
     dt.insert(recv.ravel().tolist())
     p, t = _get_topology(dt)
+    # ghosts that coincide with a local vertex aren't inserted
+    recv_ix = len(p) - num_local
     p, t, inv = geometry.remove_external_entities(
         p,
         t,
-- 
2.43.0


From d39958cd3e045434d6e2f4debc8b72f4fd23882a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 05/29] fix: distribute every user-defined point to exactly one
 rank

Points on the boundary of two blocks went to both, points with the largest
coordinate could get lost to round-off, an empty block shifted the others to
the wrong rank, and in 2D the blocks didn't cut the axis that the sizing
function is localized along.
---
 SeismicMesh/decomp/blocker.py | 106 ++++------------------------------
 1 file changed, 12 insertions(+), 94 deletions(-)

diff --git a/SeismicMesh/decomp/blocker.py b/SeismicMesh/decomp/blocker.py
index 979d74c..e14c855 100644
--- a/SeismicMesh/decomp/blocker.py
+++ b/SeismicMesh/decomp/blocker.py
@@ -3,109 +3,27 @@ import numpy as np
 
 def blocker(points, rank, num_blocks, axis=0):
     """Decompose point coordinates into # of blocks
-    Blocks are orientated parallel to axis and have two neighbors
-    above and below/left and right to the block depending on axis.
+    The blocks are slices that cut `axis` and each has two neighbors, one above
+    and one below. Every point goes to exactly one block.
     """
     num_points, dim = points.shape
-    EPS = np.finfo(float).eps
 
     if dim < 2 or dim > 3:
         raise ValueError("Dimensions of points are not supported")
     assert num_points // num_blocks > 1, "too few points for chosen num_blocks"
 
-    x_lims = points[:, 0].min() - EPS, points[:, 0].max() + EPS
-    y_lims = points[:, 1].min() - EPS, points[:, 1].max() + EPS
-    if dim > 2:
-        z_lims = points[:, 2].min() - EPS, points[:, 2].max() + EPS
-
-    if axis == 0:
-        if dim == 2:
-            xx, yy = np.meshgrid(
-                np.linspace(*x_lims, 1, endpoint=False),
-                np.linspace(*y_lims, num_blocks, endpoint=False),
-            )
-
-            dx = (x_lims[1] - x_lims[0]) / 1
-            dy = (y_lims[1] - y_lims[0]) / num_blocks
-        elif dim == 3:
-            xx, yy, zz = np.meshgrid(
-                np.linspace(*x_lims, 1, endpoint=False),
-                np.linspace(*y_lims, num_blocks, endpoint=False),
-                np.linspace(*z_lims, 1, endpoint=False),
-            )
-
-            dx = (x_lims[1] - x_lims[0]) / 1
-            dy = (y_lims[1] - y_lims[0]) / num_blocks
-            dz = (z_lims[1] - z_lims[0]) / 1
-
-    elif axis == 1:
-        if dim == 2:
-            xx, yy = np.meshgrid(
-                np.linspace(*x_lims, num_blocks, endpoint=False),
-                np.linspace(*y_lims, 1, endpoint=False),
-            )
-
-            dx = (x_lims[1] - x_lims[0]) / num_blocks
-            dy = (y_lims[1] - y_lims[0]) / 1
-        elif dim == 3:
-            xx, yy, zz = np.meshgrid(
-                np.linspace(*x_lims, num_blocks, endpoint=False),
-                np.linspace(*y_lims, 1, endpoint=False),
-                np.linspace(*z_lims, 1, endpoint=False),
-            )
-
-            dx = (x_lims[1] - x_lims[0]) / num_blocks
-            dy = (y_lims[1] - y_lims[0]) / 1
-            dz = (z_lims[1] - z_lims[0]) / 1
-    elif axis == 2:
-        xx, yy, zz = np.meshgrid(
-            np.linspace(*x_lims, 1, endpoint=False),
-            np.linspace(*y_lims, num_blocks, endpoint=False),
-            np.linspace(*z_lims, num_blocks, endpoint=False),
-        )
-
-        dx = (x_lims[1] - x_lims[0]) / 1
-        dy = (y_lims[1] - y_lims[0]) / 1
-        dz = (z_lims[1] - z_lims[0]) / num_blocks
+    x = points[:, axis]
+    cuts = np.linspace(x.min(), x.max(), num_blocks + 1)
+    which = np.searchsorted(cuts[1:-1], x, side="right")
 
     blocks = []
     block_extents = []
-
-    if dim == 2:
-        for low_x, low_y in zip(xx.ravel(), yy.ravel()):
-            block = points[
-                (points[:, 0] >= low_x)
-                & (points[:, 0] <= low_x + dx)
-                & (points[:, 1] >= low_y)
-                & (points[:, 1] <= low_y + dy)
-            ]
-            if block.shape[0]:
-                blocks.append(block)
-
-        block_extents = []
-        for block in blocks:
-            tmpm = np.amin(block, axis=0)
-            tmpp = np.amax(block, axis=0)
-            # min x min y max x max y
-            block_extents.append([tmpm[0], tmpm[1], tmpp[0], tmpp[1]])
-    elif dim == 3:
-        for low_x, low_y, low_z in zip(xx.ravel(), yy.ravel(), zz.ravel()):
-            block = points[
-                (points[:, 0] >= low_x)
-                & (points[:, 0] <= low_x + dx)
-                & (points[:, 1] >= low_y)
-                & (points[:, 1] <= low_y + dy)
-                & (points[:, 2] >= low_z)
-                & (points[:, 2] <= low_z + dz)
-            ]
-            if block.shape[0]:
-                blocks.append(block)
-
-        block_extents = []
-        for block in blocks:
-            tmpm = np.amin(block, axis=0)
-            tmpp = np.amax(block, axis=0)
-            # min x min y min z max x max y max z
-            block_extents.append([tmpm[0], tmpm[1], tmpm[2], tmpp[0], tmpp[1], tmpp[2]])
+    for i in range(num_blocks):
+        block = points[which == i]
+        if len(block) == 0:
+            raise ValueError("No points in block %d, use less blocks" % i)
+        blocks.append(block)
+        # min x min y (min z) max x max y (max z)
+        block_extents.append([*np.amin(block, axis=0), *np.amax(block, axis=0)])
 
     return blocks, block_extents
-- 
2.43.0


From d5cc063a8f88e1e01737df08485d5ca39c80574f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 06/29] fix: user-defined points together with a sizing
 callable in parallel

The callable was handed a tuple of grids as only a SizeFunction expects, and
an error in the decomposition on rank 0 left the other ranks waiting.
---
 SeismicMesh/generation/mesh_generator.py | 31 ++++++++++++++++++------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index ea15cf4..e5f989d 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -786,19 +786,32 @@ def _project_points_back_newton(p, fd, deps, hmin, idx):
     return p
 
 
-def _user_defined_points(dim, fh, h0, bbox, points, comm, opts):
+def _user_defined_points(dim, fh, h0, bbox, points, comm, opts, lsf):
     """If the user has supplied initial points"""
     if comm.size > 1:
         # Domain decompose and localize points
         p = None
+        error = None
+        blocks = None
+        extents = None
         if comm.rank == 0:
-            blocks, extents = decomp.blocker(
-                points=points, rank=comm.rank, num_blocks=comm.size, axis=opts["axis"]
+            try:
+                blocks, extents = decomp.blocker(
+                    points=points,
+                    rank=comm.rank,
+                    num_blocks=comm.size,
+                    axis=opts["axis"],
+                )
+            except (AssertionError, ValueError) as e:
+                error = e
+        # either all ranks continue or none does
+        error = comm.bcast(error, 0)
+        if error is not None:
+            raise error
+        if lsf:
+            fh = migration.localize_sizing_function(
+                fh, h0, bbox, dim, opts["axis"], comm
             )
-        else:
-            blocks = None
-            extents = None
-        fh = migration.localize_sizing_function(fh, h0, bbox, dim, opts["axis"], comm)
         # send points to each subdomain
         p, extents = migration.localize_points(blocks, extents, comm, dim)
     else:
@@ -862,7 +875,9 @@ def _initialize_points(dim, geps, bbox, fh, fd, h0, opts, pfix, comm, lsf):
             h0, geps, dim, bbox, fh, fd, pfix, comm, opts, lsf
         )
     else:
-        fh, p, extents = _user_defined_points(dim, fh, h0, bbox, points, comm, opts)
+        fh, p, extents = _user_defined_points(
+            dim, fh, h0, bbox, points, comm, opts, lsf
+        )
     return fh, p, extents
 
 
-- 
2.43.0


From a4acd955212e17bc6fe706d2e251e45a841bf703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 07/29] fix: don't seed and draw from the global random number
 generator

Every call re-seeded numpy's global generator under the caller's feet, and the
meshes of two threads depended on how their draws interleaved.
---
 SeismicMesh/generation/mesh_generator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index e5f989d..7d0a080 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -856,11 +856,13 @@ def _generate_initial_points(h0, geps, dim, bbox, fh, fd, pfix, comm, opts, lsf)
     # Make sure decimation occurs uniformly accross ranks
     if comm.size > 1:
         r0m = comm.allreduce(r0m, op=MPI.MIN)
-    np.random.seed(opts["seed"])
+    # own generator: neither disturb the caller's random numbers nor be
+    # disturbed by another thread
+    rng = np.random.RandomState(opts["seed"])
     p = np.vstack(
         (
             pfix,
-            p[np.random.rand(p.shape[0]) < r0m**dim / r0**dim],
+            p[rng.rand(p.shape[0]) < r0m**dim / r0**dim],
         )
     )
     extents = _form_extents(p, h0, comm, opts)
-- 
2.43.0


From 7b1938dca51142d621b2b72f1324a75c5af338e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 08/29] fix: don't modify the caller's velocity_data

Unit conversion and the water velocity were written into the array passed in,
so that a second call with it got other velocities.
---
 SeismicMesh/sizing/mesh_size_function.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/SeismicMesh/sizing/mesh_size_function.py b/SeismicMesh/sizing/mesh_size_function.py
index 40de5de..f6f71d6 100644
--- a/SeismicMesh/sizing/mesh_size_function.py
+++ b/SeismicMesh/sizing/mesh_size_function.py
@@ -145,10 +145,10 @@ def get_sizing_function_from_segy(
 
         if sz_opts["units"] == "km-s":
             print("Converting from km-s to m-s...", flush=True)
-            vp *= 1000.0
+            vp = vp * 1000.0
         elif sz_opts["units"] == "ft-s":
             print("Converting from ft-s to m-s...", flush=True)
-            vp *= 0.30
+            vp = vp * 0.30
 
         # vp must be in m/s here
         pos = np.where(vp < 1e-3)  # for Vs (water positions in shear velocity data)
@@ -162,6 +162,7 @@ def get_sizing_function_from_segy(
                     "vp_water is None or out of bounds. It should be >1300 and <1800 m/s"
                 )
             else:
+                vp = vp.copy()
                 vp[pos] = sz_opts["vp_water"]  # vp_water in m/s
 
         # check the bbox
-- 
2.43.0


From 9c1d2ed75c14804bcaaa3f3f980a7fd38c1c3cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 09/29] fix: don't modify the caller's stretch vector

---
 SeismicMesh/geometry/signed_distance_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeismicMesh/geometry/signed_distance_functions.py b/SeismicMesh/geometry/signed_distance_functions.py
index 438dc39..ce17f62 100644
--- a/SeismicMesh/geometry/signed_distance_functions.py
+++ b/SeismicMesh/geometry/signed_distance_functions.py
@@ -135,7 +135,7 @@ def _build_stretch(object):
         ), "Length of stretch vector does not equal dimension"
     if object.v is not None:
         object.alpha = np.sqrt(np.dot(object.v, object.v))
-        object.v /= object.alpha
+        object.v = object.v / object.alpha
         _corners = corners(object.bbox)
         vx = np.multiply.outer(np.dot(object.v, _corners.T), object.v)
         tmp = (vx * object.alpha + (_corners - vx)).T
-- 
2.43.0


From b6e5caed3cec47bf59bdd3f188ba07e56303afa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 10/29] fix: raise on all ranks if one of them has no points

The rank without points failed on its own and all others waited for it forever
(e.g., a Cylinder or Torus on four ranks).
---
 SeismicMesh/generation/mesh_generator.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 7d0a080..549312a 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -836,6 +836,7 @@ def _generate_initial_points(h0, geps, dim, bbox, fh, fd, pfix, comm, opts, lsf)
 
     # Remove points outside the region, apply the rejection method
     p = p[fd(p) < geps]  # Keep only d<0 points
+    _check_all_have_points(p, comm)
     r0 = fh(p)
     if opts["r0m_is_h0"]:
         # Ideally, r0m should be h0 <= r0m < r0.min(), if h0<r0.min(),
@@ -865,10 +866,17 @@ def _generate_initial_points(h0, geps, dim, bbox, fh, fd, pfix, comm, opts, lsf)
             p[rng.rand(p.shape[0]) < r0m**dim / r0**dim],
         )
     )
+    _check_all_have_points(p, comm)
     extents = _form_extents(p, h0, comm, opts)
     return fh, p, extents
 
 
+def _check_all_have_points(p, comm):
+    """Either all ranks have points to mesh with or all give up"""
+    if comm.size > 1 and comm.allreduce(len(p), op=MPI.MIN) == 0:
+        raise ValueError("No vertices to mesh with on some rank, use less ranks!")
+
+
 def _initialize_points(dim, geps, bbox, fh, fd, h0, opts, pfix, comm, lsf):
     """Form initial point set to mesh with"""
     points = opts["points"]
-- 
2.43.0


From 30e7aab06aaa2e56603c427f46747c6e2bacf92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 11/29] fix: unused vertices and inverted cells in the returned
 mesh

Moving the boundary vertices and removing triangles came after the clean up.
---
 SeismicMesh/generation/mesh_generator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 549312a..26711e2 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -491,6 +491,7 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
             if comm.rank == 0:
                 p = _improve_level_set_newton(p, t, fd, deps, deps * 1000)
                 t = _remove_triangles_outside(p, t, fd, h0 * 0.001)
+                p, t, _ = geometry.fix_mesh(p, t, dim=dim, delete_unused=True)
             break
 
         # Compute the forces on the edges
-- 
2.43.0


From 7ad462b36e206bb20f56550b0aaee32bdc295bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:32 +0000
Subject: [PATCH 12/29] fix: keep cells of vertices that moved out of the
 initial extents in parallel

---
 SeismicMesh/generation/mesh_generator.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 26711e2..128ccc1 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -476,6 +476,7 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
 
         # Add ghost points to perform Delaunay in parallel.
         if comm.size > 1:
+            extents = _update_extents(p, extents, comm)
             p, t, inv, recv_ix = _add_ghost_vertices(p, t, dt, extents, comm)
 
         # Remove points outside the domain
@@ -905,6 +906,19 @@ def _form_extents(p, h0, comm, opts):
         return []
 
 
+def _update_extents(p, extents, comm):
+    """Enlarge the extents where vertices moved out of them. A vertex that isn't in the
+    extents of its rank would lose its cells."""
+    dim = p.shape[1]
+    extent = extents[comm.rank]
+    return comm.allgather(
+        [
+            *np.minimum(extent[:dim], np.amin(p, axis=0)),
+            *np.maximum(extent[dim:], np.amax(p, axis=0)),
+        ]
+    )
+
+
 def _dist(p1, p2):
     """Euclidean distance between two sets of points"""
     return np.sqrt(((p1 - p2) ** 2).sum(1))
-- 
2.43.0


From 95bfeccdea55e4fa36b879c0d55ea13a5b01dd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:27 +0000
Subject: [PATCH 13/29] fix: sliver_removal gives different meshes from run to
 run

---
 SeismicMesh/generation/mesh_generator.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 128ccc1..6333f0f 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -213,6 +213,7 @@ def sliver_removal(points, domain, edge_length, comm=None, **kwargs):  # noqa: C
 
         # Get the current topology of the triangulation
         p, t = _get_topology(dt)
+        t = _sort_cells(t)
 
         pold = p.copy()
 
@@ -950,6 +951,19 @@ def _get_topology(dt):
     return p, t
 
 
+def _sort_cells(t):
+    """Sort the cells by their vertices, keeping the orientation. After vertices were moved
+    CGAL's own order depends on memory addresses."""
+    odd = (
+        sum(t[:, i] > t[:, j] for i in range(t.shape[1]) for j in range(i + 1, t.shape[1]))
+        % 2
+        == 1
+    )
+    t = np.sort(t, axis=1)
+    t[odd, -2:] = t[odd, :-3:-1]
+    return t[np.lexsort(t.T[::-1])]
+
+
 def _closest_node(node, nodes):
     nodes = np.asarray(nodes)
     deltas = nodes - node
-- 
2.43.0


From 2dfdf4c1013e4e45bc4115eb59c26f1e3be433c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:27 +0000
Subject: [PATCH 14/29] fix: max_iter=0 iterates forever

---
 SeismicMesh/generation/mesh_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 6333f0f..06067cd 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -164,7 +164,7 @@ def sliver_removal(points, domain, edge_length, comm=None, **kwargs):  # noqa: C
     if h0 < 0:
         raise ValueError("`h0` must be > 0")
 
-    if sliver_opts["max_iter"] < 0:
+    if sliver_opts["max_iter"] <= 0:
         raise ValueError("`max_iter` must be > 0")
     max_iter = sliver_opts["max_iter"]
 
@@ -437,7 +437,7 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
         dim, geps, bbox, fh, fd, h0, gen_opts, pfix, comm, lsf
     )
 
-    if gen_opts["max_iter"] < 0:
+    if gen_opts["max_iter"] <= 0:
         raise ValueError("`max_iter` must be > 0")
 
     max_iter = gen_opts["max_iter"]
-- 
2.43.0


From 42b276e165640c8c5bf2cadb2728d2e3aa8321ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:27 +0000
Subject: [PATCH 15/29] fix: raise on all ranks if the sizing function can't be
 built on rank 0

---
 SeismicMesh/sizing/mesh_size_function.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/SeismicMesh/sizing/mesh_size_function.py b/SeismicMesh/sizing/mesh_size_function.py
index f6f71d6..e8f47c8 100644
--- a/SeismicMesh/sizing/mesh_size_function.py
+++ b/SeismicMesh/sizing/mesh_size_function.py
@@ -122,10 +122,10 @@ def get_sizing_function_from_segy(
         "dtype": "float32",
     }
     comm = comm or MPI.COMM_WORLD
-    cell_size = None
 
     sz_opts.update(kwargs)
-    if comm.rank == 0:
+
+    def build(bbox):
 
         vp = sz_opts["velocity_data"]
         nz = sz_opts["nz"]
@@ -227,12 +227,24 @@ def get_sizing_function_from_segy(
 
         cell_size, vp, bbox = _build_domain_pad(cell_size, vp, bbox, sz_opts)
 
-        fh = _build_sizing_function(cell_size, vp, bbox)
+        return bbox, _build_sizing_function(cell_size, vp, bbox)
+
+    error = None
+    if comm.rank == 0:
+        try:
+            bbox, fh = build(bbox)
+        except Exception as e:
+            error = e
     else:
 
         def fh(p):
             return 1
 
+    # either all ranks get a sizing function or none does
+    error = comm.bcast(error, 0)
+    if error is not None:
+        raise error
+
     # agreement re the bbox
     if comm.size > 1:
         bbox = comm.bcast(bbox, 0)
-- 
2.43.0


From 1e00991246ec62c73cd8aa59cf00c0763b0a3193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:27 +0000
Subject: [PATCH 16/29] fix: plot_sizing_function raises UnboundLocalError on
 ranks other than 0

---
 SeismicMesh/sizing/mesh_size_function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeismicMesh/sizing/mesh_size_function.py b/SeismicMesh/sizing/mesh_size_function.py
index e8f47c8..16733b6 100644
--- a/SeismicMesh/sizing/mesh_size_function.py
+++ b/SeismicMesh/sizing/mesh_size_function.py
@@ -398,7 +398,7 @@ def plot_sizing_function(
             plt.show()
         else:
             plt.savefig(filename)
-    return ax
+        return ax
 
 
 def _build_sizing_function(cell_size, vp, bbox):
-- 
2.43.0


From 8559b56098e2aca03fc4ec1aea7c76173f023d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:26 +0000
Subject: [PATCH 17/29] fix: send the ghosts of a rank whose points are all
 collinear or coplanar

---
 SeismicMesh/migration/cpp/cpputils.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/SeismicMesh/migration/cpp/cpputils.cpp b/SeismicMesh/migration/cpp/cpputils.cpp
index 2d90e5f..dfce1e8 100644
--- a/SeismicMesh/migration/cpp/cpputils.cpp
+++ b/SeismicMesh/migration/cpp/cpputils.cpp
@@ -187,6 +187,11 @@ std::vector<double> c_where_to2(std::vector<double> &points,
     }
   }
 
+  // Without elements (all points are collinear) any of them may be needed
+  if (num_faces == 0) {
+    exports.assign(2, std::vector<int>(num_points, 1));
+  }
+
   // header, then the vertices that go below, then those that go above
   std::vector<double> pointsToMigrate(3, 0.0);
   for (std::size_t b = 0; b < 2; ++b) {
@@ -321,6 +326,11 @@ std::vector<double> c_where_to3(std::vector<double> &points,
     }
   }
 
+  // Without elements (all points are coplanar) any of them may be needed
+  if (num_faces == 0) {
+    exports.assign(2, std::vector<int>(num_points, 1));
+  }
+
   // header, then the vertices that go below, then those that go above
   std::vector<double> pointsToMigrate(4, 0.0);
   for (std::size_t b = 0; b < 2; ++b) {
-- 
2.43.0


From 9fe48f38e21e84d3128e905259008a43b22db38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:52 +0000
Subject: [PATCH 18/29] fix: IndexError in 3D with perform_checks

The linter was given a mesh with unused vertices and so ran off the end of the
vertex-to-cell table when the last of them was unused.
---
 SeismicMesh/generation/mesh_generator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 06067cd..025a2f8 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -673,6 +673,7 @@ def _termination(p, t, opts, comm, sliver=False, verbose=1):
             # p, t = geometry.laplacian2(p, t, verbose=verbose)
     # perform linting if asked
     if comm.rank == 0 and opts["perform_checks"]:
+        p, t, _ = geometry.fix_mesh(p, t, dim=dim, delete_unused=True)
         p, t = geometry.linter(p, t, dim=dim)
     elif comm.rank == 0:
         p, t, _ = geometry.fix_mesh(p, t, dim=dim, delete_unused=True)
-- 
2.43.0


From 580f3053c24fc504b6b0c9cafb89b9c22b8758c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:06 +0000
Subject: [PATCH 19/29] fix: overlapping cells when a rank's slab is thinner
 than 5*h0

The extents of a rank were widened by 5*h0 along the axis, so a rank also kept
cells between ghosts deep in its neighbour's slab, which it cannot know without
the vertices of the rank beyond.
---
 SeismicMesh/generation/mesh_generator.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 025a2f8..bc85f2a 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -896,13 +896,9 @@ def _initialize_points(dim, geps, bbox, fh, fd, h0, opts, pfix, comm, lsf):
 
 
 def _form_extents(p, h0, comm, opts):
-    dim = p.shape[1]
-    _axis = opts["axis"]
     if comm.size > 1:
         # min x min y min z max x max y max z
         extent = [*np.amin(p, axis=0), *np.amax(p, axis=0)]
-        extent[_axis] -= 5 * h0
-        extent[_axis + dim] += 5 * h0
         return [comm.bcast(extent, r) for r in range(comm.size)]
     else:
         return []
-- 
2.43.0


From 96b42863c699c780a514aced31969db87ae6c376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:02 +0000
Subject: [PATCH 20/29] fix: cells with a repeated vertex in the returned mesh

When the final projection takes two vertices to the same place, fix_mesh merges
them; the cells between them collapse and must go.
---
 SeismicMesh/geometry/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SeismicMesh/geometry/utils.py b/SeismicMesh/geometry/utils.py
index 600481b..8aee582 100644
--- a/SeismicMesh/geometry/utils.py
+++ b/SeismicMesh/geometry/utils.py
@@ -231,8 +231,9 @@ def fix_mesh(p, t, ptol=2e-13, dim=2, delete_unused=False, fix_orientation=True)
     p = p[ix]
     t = jx[t]
 
-    # duplicate entities
+    # duplicate entities and those collapsed by the removal of duplicate vertices
     t = np.sort(t, axis=1)
+    t = t[(t[:, 1:] != t[:, :-1]).all(axis=1)]
     t, _ = unique_row_view(t)
 
     # delete disjoint vertices
-- 
2.43.0


From 14543cdc511005c74f296c4f8805492a9417324b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:58 +0000
Subject: [PATCH 21/29] fix: extents of ranks must be those of their current
 vertices

Extents that only grew made a rank keep cells it can't know all vertices of.
---
 SeismicMesh/generation/mesh_generator.py | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index bc85f2a..3be1b6e 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -477,7 +477,8 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
 
         # Add ghost points to perform Delaunay in parallel.
         if comm.size > 1:
-            extents = _update_extents(p, extents, comm)
+            # vertices may have moved out of the previous extents
+            extents = _form_extents(p, h0, comm, gen_opts)
             p, t, inv, recv_ix = _add_ghost_vertices(p, t, dt, extents, comm)
 
         # Remove points outside the domain
@@ -904,19 +905,6 @@ def _form_extents(p, h0, comm, opts):
         return []
 
 
-def _update_extents(p, extents, comm):
-    """Enlarge the extents where vertices moved out of them. A vertex that isn't in the
-    extents of its rank would lose its cells."""
-    dim = p.shape[1]
-    extent = extents[comm.rank]
-    return comm.allgather(
-        [
-            *np.minimum(extent[:dim], np.amin(p, axis=0)),
-            *np.maximum(extent[dim:], np.amax(p, axis=0)),
-        ]
-    )
-
-
 def _dist(p1, p2):
     """Euclidean distance between two sets of points"""
     return np.sqrt(((p1 - p2) ** 2).sum(1))
-- 
2.43.0


From 2fc71d2246589007b1c447efc9e644a7a3e2796d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:44 +0000
Subject: [PATCH 22/29] fix: binary velocity model with uninitialized values
 after a failed read

---
 SeismicMesh/sizing/mesh_size_function.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/SeismicMesh/sizing/mesh_size_function.py b/SeismicMesh/sizing/mesh_size_function.py
index 16733b6..25a7fba 100644
--- a/SeismicMesh/sizing/mesh_size_function.py
+++ b/SeismicMesh/sizing/mesh_size_function.py
@@ -628,12 +628,19 @@ def _read_bin(filename, nz, nx, ny, byte_order, axes_order, axes_order_sort, dty
     axes = [nz, nx, ny]
     ix = np.argsort(axes_order)
     axes = [axes[o] for o in ix]
+    # without a count, np.fromfile leaves what it could not read uninitialized;
+    # one value more than there should be shows a file that is too long
+    count = nz * nx * ny + 1
     with open(filename, "r") as file:
         print(f"Reading binary file: {filename}")
         if byte_order == "big":
-            vp = np.fromfile(file, dtype=np.dtype(dtype).newbyteorder(">"))
+            vp = np.fromfile(
+                file, dtype=np.dtype(dtype).newbyteorder(">"), count=count
+            )
         elif byte_order == "little":
-            vp = np.fromfile(file, dtype=np.dtype(dtype).newbyteorder("<"))
+            vp = np.fromfile(
+                file, dtype=np.dtype(dtype).newbyteorder("<"), count=count
+            )
         else:
             raise ValueError("Please specify byte_order as either: little or big.")
         vp = vp.reshape(*axes, order=axes_order_sort)
-- 
2.43.0


From e286785f1d649a2628327f6943aed229d61f9aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:14 +0000
Subject: [PATCH 23/29] fix: crash or silent loss when write_velocity_model
 cannot write the file

---
 SeismicMesh/sizing/mesh_size_function.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/SeismicMesh/sizing/mesh_size_function.py b/SeismicMesh/sizing/mesh_size_function.py
index 25a7fba..f7fbff7 100644
--- a/SeismicMesh/sizing/mesh_size_function.py
+++ b/SeismicMesh/sizing/mesh_size_function.py
@@ -12,6 +12,7 @@
 #
 #   You should have received a copy of the GNU General Public License
 #   along with this program.  If not, see <http://www.gnu.org/licenses/>.
+import io
 import warnings
 
 import matplotlib.pyplot as plt
@@ -342,10 +343,14 @@ def write_velocity_model(
 
         ofname += ".hdf5"
         print(f"Writing velocity model: {ofname}", flush=True)
-        with h5py.File(ofname, "w") as f:
+        # made in memory: when a write fails, HDF5 crashes or loses the error
+        image = io.BytesIO()
+        with h5py.File(image, "w") as f:
             f.create_dataset("velocity_model", data=vp, dtype="f")
             f.attrs["shape"] = vp.shape
             f.attrs["units"] = "m/s"
+        with open(ofname, "wb") as file:
+            file.write(image.getbuffer())
 
 
 def plot_sizing_function(
-- 
2.43.0


From 93dc1298a8a062dca39b6d59fca2055e1a944930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:25 +0000
Subject: [PATCH 24/29] fix: other ranks left waiting when rank 0 finds the
 iteration diverging

---
 SeismicMesh/generation/mesh_generator.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 3be1b6e..91c7dfa 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -514,15 +514,17 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
             p = np.delete(p, inv[len(inv) - recv_ix : :], axis=0)
 
         # Show the user some progress so they know something is happening
+        maxdp = delta_t * np.sqrt((Ftot**2).sum(1)).max()
         if comm.rank == 0:
-            maxdp = delta_t * np.sqrt((Ftot**2).sum(1)).max()
             print_msg2(
                 "Iteration #%d, max movement is %f, there are %d vertices and %d cells"
                 % (count + 1, maxdp, len(p), len(t)),
             )
-            assert (
-                maxdp < 1000 * h0
-            ), "max movement indicates there's a convergence problem"
+        # either all ranks continue or none does
+        converges = bool(maxdp < 1000 * h0)
+        if comm.size > 1:
+            converges = comm.allreduce(converges, op=MPI.LAND)
+        assert converges, "max movement indicates there's a convergence problem"
 
         count += 1
 
-- 
2.43.0


From 6fe748d7235ba4675a0f6029585819a49e7e70b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:24 +0000
Subject: [PATCH 25/29] fix: decomposition errors on rank 0 only, bad axis
 accepted

---
 SeismicMesh/generation/mesh_generator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 91c7dfa..8b611d5 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -404,6 +404,9 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
 
         fd = tmp.eval
 
+    if comm.size > 1 and gen_opts["axis"] not in range(dim):
+        raise ValueError("`axis` must be one of the domain's axes")
+
     bbox = np.array(bbox).reshape(-1, 2)
 
     if hmin is not None:
@@ -809,7 +812,7 @@ def _user_defined_points(dim, fh, h0, bbox, points, comm, opts, lsf):
                     num_blocks=comm.size,
                     axis=opts["axis"],
                 )
-            except (AssertionError, ValueError) as e:
+            except Exception as e:
                 error = e
         # either all ranks continue or none does
         error = comm.bcast(error, 0)
-- 
2.43.0


From 19fdaadcdd449fd54e59140d3a3c49916996e23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:48 +0000
Subject: [PATCH 26/29] fix: initial points of ranks 2 and up overlap those of
 the rank below

The start of a rank's rows was computed from the nominal lower limit of the
rank below, not from where that rank really starts, so with three or more
ranks rows were owned twice or left out.
---
 SeismicMesh/generation/utils.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/SeismicMesh/generation/utils.py b/SeismicMesh/generation/utils.py
index 80e47c9..bfbeccd 100644
--- a/SeismicMesh/generation/utils.py
+++ b/SeismicMesh/generation/utils.py
@@ -34,12 +34,13 @@ def make_init_points(bbox, rank, size, axis, h0, dim):
     for i in range(dim):
         if i == axis:
             new_lims = np.linspace(_bbox[i, 0], _bbox[i, 1], size + 1)
-            _bbox[i, :] = new_lims[rank : rank + 2]
-            if rank != 0:
+            start = new_lims[0]
+            for r in range(rank):
                 # starting point must be lasts + h0
-                prev_lims = new_lims[rank - 1 : rank - 1 + 2]
-                tmp = np.mgrid[slice(prev_lims[0], prev_lims[1] + h0, h0)]
-                _bbox[i, 0] = tmp[-1] + h0
+                tmp = np.mgrid[slice(start, new_lims[r + 1] + h0, h0)]
+                if len(tmp) > 0:
+                    start = tmp[-1] + h0
+            _bbox[i, :] = start, new_lims[rank + 1]
 
     points = create_staggered_grid(h0, dim, _bbox)
     return points
-- 
2.43.0


From c1035af4b3ecdcb2ef432261d51480d4a0a0ebf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:47 +0000
Subject: [PATCH 27/29] fix: smoothing of a mesh of poor quality can blow it
 up, depends on the origin

---
 SeismicMesh/geometry/utils.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/SeismicMesh/geometry/utils.py b/SeismicMesh/geometry/utils.py
index 8aee582..b8cde81 100644
--- a/SeismicMesh/geometry/utils.py
+++ b/SeismicMesh/geometry/utils.py
@@ -1,7 +1,7 @@
 import numpy as np
 import scipy.sparse as spsparse
 
-# from scipy.sparse.linalg import spsolve
+from scipy.sparse.linalg import spsolve
 import pyamg
 
 import _delaunay as c_cgal
@@ -538,14 +538,19 @@ def laplacian2_fixed_point(vertices, entities):
 
     rhs = np.zeros((n, 2))
     rhs[bnd] = vertices[bnd]
-
-    # vertices_new = spsolve(matrix, rhs)
+    # solve for the displacements: the tolerance of the solver is relative
+    # to the right hand side and must not depend on where the origin is
+    rhs -= matrix @ vertices
 
     # use AMG
     ml = pyamg.ruge_stuben_solver(matrix)
-    vertices_new = np.column_stack([ml.solve(rhs[:, 0]), ml.solve(rhs[:, 1])])
+    move = np.column_stack([ml.solve(rhs[:, 0]), ml.solve(rhs[:, 1])])
+    # AMG may diverge (on meshes of poor quality for instance)
+    residual = np.linalg.norm(rhs - matrix @ move, axis=0)
+    if not (residual <= 1e-4 * np.linalg.norm(rhs, axis=0)).all():
+        move = spsolve(matrix.tocsc(), rhs)
 
-    return vertices_new, entities
+    return vertices + move, entities
 
 
 def laplacian2(vertices, entities, max_iter=20, tol=0.01, verbose=1, pfix=None):
-- 
2.43.0


From cb30318c655cda449ca1152147982de717bd2aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:16 +0000
Subject: [PATCH 28/29] fix: an iterator over a dropped triangulation reads
 freed memory

---
 SeismicMesh/generation/cpp/delaunay_class.cpp  | 4 +++-
 SeismicMesh/generation/cpp/delaunay_class3.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/SeismicMesh/generation/cpp/delaunay_class.cpp b/SeismicMesh/generation/cpp/delaunay_class.cpp
index 8616af9..732e68e 100644
--- a/SeismicMesh/generation/cpp/delaunay_class.cpp
+++ b/SeismicMesh/generation/cpp/delaunay_class.cpp
@@ -227,7 +227,9 @@ PYBIND11_MODULE(_delaunay_class, m) {
            [](DT &dt) -> py::iterator {
              return py::make_iterator(dt.finite_vertices_begin(),
                                       dt.finite_vertices_end());
-           })
+           },
+           // the iterator walks over the triangulation
+           py::keep_alive<0, 1>())
 
       .def("get_finite_cells",
            [](DT &dt) {
diff --git a/SeismicMesh/generation/cpp/delaunay_class3.cpp b/SeismicMesh/generation/cpp/delaunay_class3.cpp
index ce8ab8a..f1d8ae6 100644
--- a/SeismicMesh/generation/cpp/delaunay_class3.cpp
+++ b/SeismicMesh/generation/cpp/delaunay_class3.cpp
@@ -271,7 +271,9 @@ PYBIND11_MODULE(_delaunay_class3, m) {
            [](DT &dt) -> py::iterator {
              return py::make_iterator(dt.finite_vertices_begin(),
                                       dt.finite_vertices_end());
-           })
+           },
+           // the iterator walks over the triangulation
+           py::keep_alive<0, 1>())
 
       .def("get_finite_cells",
            [](DT &dt) {
-- 
2.43.0


From e3425f02130bf2571088069ca821382ecca6434b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:34 +0000
Subject: [PATCH 29/29] fix: sizes are extrapolated on a rank whose
 user-defined points are elsewhere

---
 SeismicMesh/generation/mesh_generator.py | 3 ++-
 SeismicMesh/migration/migration.py       | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 8b611d5..3e582be 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -819,8 +819,9 @@ def _user_defined_points(dim, fh, h0, bbox, points, comm, opts, lsf):
         if error is not None:
             raise error
         if lsf:
+            # the points of a rank can be anywhere in the box
             fh = migration.localize_sizing_function(
-                fh, h0, bbox, dim, opts["axis"], comm
+                fh, h0, bbox, dim, opts["axis"], comm, whole=True
             )
         # send points to each subdomain
         p, extents = migration.localize_points(blocks, extents, comm, dim)
diff --git a/SeismicMesh/migration/migration.py b/SeismicMesh/migration/migration.py
index 30896e5..8bfbe88 100644
--- a/SeismicMesh/migration/migration.py
+++ b/SeismicMesh/migration/migration.py
@@ -13,10 +13,11 @@ Migration routines for moving things during parallel Delaunay
 """
 
 
-def localize_sizing_function(fh, h0, bbox, dim, axis, comm):
+def localize_sizing_function(fh, h0, bbox, dim, axis, comm, whole=False):
     """
     Localize the global sizing function into local chunks
-    that cover the span of the local point set.
+    that cover the span of the local point set, which is all of `bbox`
+    on every rank if `whole`.
     """
     rank = comm.Get_rank()
     size = comm.Get_size()
@@ -25,7 +26,7 @@ def localize_sizing_function(fh, h0, bbox, dim, axis, comm):
         if rank == 0:
             # form local point set
             for i in range(dim):
-                if i == axis:
+                if i == axis and not whole:
                     new_lims = np.linspace(_bbox[i, 0], _bbox[i, 1], size + 1)
                     _bbox[i, :] = new_lims[r : r + 2]
             grid = np.mgrid[
-- 
2.43.0

