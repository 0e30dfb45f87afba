From 8ef5de1237ac0c14d6ce7b2ec5a4b44873c7f639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:06:22 +0000
Subject: [PATCH 01/69] fix: keep the character before an opening brace in
 grouped lists

explode_braces() dropped the character right before each '{', so "12{3}"
was read as 1 and {3}, and "1{3}" lost the 1 altogether.
---
 src/util/string_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/string_utils.cpp b/src/util/string_utils.cpp
index aac7638..de61b34 100644
--- a/src/util/string_utils.cpp
+++ b/src/util/string_utils.cpp
@@ -146,7 +146,7 @@ std::vector<std::vector<int>> explode_braces(std::string data)
         pos_stp = data.find('}', pos_stt);
         if (pos_stt - pos > 0) {
             std::vector<int> naked_ints =
-                explode_string<int>(data.substr(pos, pos_stt - pos - 1));
+                explode_string<int>(data.substr(pos, pos_stt - pos));
             if (naked_ints.size() > 0) {
                 for (const auto &v : naked_ints) {
                     out.push_back(std::vector<int>(1, v));
-- 
2.43.0


From 7fe887dda599d8273ca67da1200562f010c04f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:06:22 +0000
Subject: [PATCH 02/69] fix: reject a closing brace that has no opening brace

explode_braces() only compared the number of braces, so "}{1" passed the
check and was then scanned forever.
---
 src/util/string_utils.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util/string_utils.cpp b/src/util/string_utils.cpp
index de61b34..5cddb8f 100644
--- a/src/util/string_utils.cpp
+++ b/src/util/string_utils.cpp
@@ -129,6 +129,9 @@ std::vector<std::vector<int>> explode_braces(std::string data)
         }
         if (c == '}') {
             brace_depth--;
+            if (brace_depth < 0) {
+                break;
+            }
             continue;
         }
     }
-- 
2.43.0


From 5c2389da465cba5db6c4aa9e6f2fdb17f89f8c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:14:24 +0000
Subject: [PATCH 03/69] fix: report every domain side a point leaves through at
 edges and corners

West and south, bottom and east, and north and top shared a slot, so one of
the two was lost when a point sat on both. Use one slot per axis.
---
 src/core/mesh.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/core/mesh.hpp b/src/core/mesh.hpp
index 0d8437f..2f89d42 100644
--- a/src/core/mesh.hpp
+++ b/src/core/mesh.hpp
@@ -542,16 +542,16 @@ public:
             {Surface::INTERNAL, Surface::INTERNAL, Surface::INTERNAL}};
         if ((p.x < REAL_FUZZ) && (dir.ox < 0.0)) {
             surf[0] = Surface::WEST;
-        } else if ((p.y < REAL_FUZZ) && (dir.oy < 0.0)) {
-            surf[0] = Surface::SOUTH;
-        }
-        if ((p.z < REAL_FUZZ) && (dir.oz < 0.0)) {
-            surf[1] = Surface::BOTTOM;
         } else if ((p.x / hx_ > 1.0 - REAL_FUZZ) && (dir.ox > 0.0)) {
-            surf[1] = Surface::EAST;
+            surf[0] = Surface::EAST;
         }
-        if ((p.y / hy_ > 1.0 - REAL_FUZZ) && (dir.oy > 0.0)) {
-            surf[2] = Surface::NORTH;
+        if ((p.y < REAL_FUZZ) && (dir.oy < 0.0)) {
+            surf[1] = Surface::SOUTH;
+        } else if ((p.y / hy_ > 1.0 - REAL_FUZZ) && (dir.oy > 0.0)) {
+            surf[1] = Surface::NORTH;
+        }
+        if ((p.z < REAL_FUZZ) && (dir.oz < 0.0)) {
+            surf[2] = Surface::BOTTOM;
         } else if ((p.z / hz_ > 1.0 - REAL_FUZZ) && (dir.oz > 0.0)) {
             surf[2] = Surface::TOP;
         }
-- 
2.43.0


From cfb6ae33ce1fa5cf252d97be954898630a72d8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:15:02 +0000
Subject: [PATCH 04/69] fix: extend vertical grid lines over the full height of
 the mesh

The lines ended at y = hx, so rays crossing them above that were not cut in
meshes that are taller than wide.
---
 src/core/core_mesh.cpp | 2 +-
 src/core/mesh.cpp      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/core_mesh.cpp b/src/core/core_mesh.cpp
index 62d65b6..b96a5e0 100644
--- a/src/core/core_mesh.cpp
+++ b/src/core/core_mesh.cpp
@@ -122,7 +122,7 @@ CoreMesh::CoreMesh(const pugi::xml_node &input)
 
     // Form lines for internal pin boundaries and domain bounding box
     for (auto xi = x_vec_.cbegin() + 1; xi != x_vec_.cend() - 1; ++xi) {
-        lines_.push_back(Line(Point2(*xi, 0.0), Point2(*xi, hx_)));
+        lines_.push_back(Line(Point2(*xi, 0.0), Point2(*xi, hy_)));
     }
     for (auto yi = y_vec_.cbegin() + 1; yi != y_vec_.cend() - 1; ++yi) {
         lines_.push_back(Line(Point2(0.0, *yi), Point2(hx_, *yi)));
diff --git a/src/core/mesh.cpp b/src/core/mesh.cpp
index 0dcfb42..fea6112 100644
--- a/src/core/mesh.cpp
+++ b/src/core/mesh.cpp
@@ -44,10 +44,10 @@ Mesh::Mesh(size_t n_reg, size_t n_xsreg, const VecF &hx, const VecF &hy,
     bc_ = bc;
 
     hx_ = x_vec_.back();
+    hy_ = y_vec_.back();
     for (auto xi = x_vec_.cbegin() + 1; xi != x_vec_.cend() - 1; ++xi) {
-        lines_.push_back(Line(Point2(*xi, 0.0), Point2(*xi, hx_)));
+        lines_.push_back(Line(Point2(*xi, 0.0), Point2(*xi, hy_)));
     }
-    hy_ = y_vec_.back();
     for (auto yi = y_vec_.cbegin() + 1; yi != y_vec_.cend() - 1; ++yi) {
         lines_.push_back(Line(Point2(0.0, *yi), Point2(hx_, *yi)));
     }
-- 
2.43.0


From ecbf4236db393d554d601c430eaf0d96c83a886a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:18:54 +0000
Subject: [PATCH 05/69] fix: look up the region at a point with pin-local
 coordinates

get_pinmesh() turns the point it is given into the origin of the pin, which
was then used as if it were the location inside the pin.
---
 src/core/core_mesh.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/core_mesh.hpp b/src/core/core_mesh.hpp
index be9c798..20bf9fb 100644
--- a/src/core/core_mesh.hpp
+++ b/src/core/core_mesh.hpp
@@ -327,10 +327,10 @@ public:
 
         // Get a pointer to the appropriate pin mesh, set ireg to the
         // beginning of that instance of the mesh.
-        Point2 p2d    = p.to_2d();
-        const auto pm = plane.get_pinmesh(p2d, ireg);
+        Point2 origin = p.to_2d();
+        const auto pm = plane.get_pinmesh(origin, ireg);
 
-        ireg += pm->find_reg(p2d);
+        ireg += pm->find_reg(p.to_2d() - origin);
 
         return ireg;
     }
-- 
2.43.0


From 31905d8e7ebf6e4ba4b8de944f081a7bc23b93b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:24:03 +0000
Subject: [PATCH 06/69] fix: make fuzzy_lt agree with fp_equiv close to zero

The relative tolerance vanishes near zero, so a point within round-off of a
boundary at zero was put on the wrong side of it whatever its direction.
---
 src/core/pin_mesh_cyl.cpp | 2 +-
 src/util/fp_utils.hpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/pin_mesh_cyl.cpp b/src/core/pin_mesh_cyl.cpp
index 04a2598..2bec78d 100644
--- a/src/core/pin_mesh_cyl.cpp
+++ b/src/core/pin_mesh_cyl.cpp
@@ -275,7 +275,7 @@ int PinMesh_Cyl::find_reg(Point2 p, Direction dir) const
     // lie on one of the rings, the index 'ir' will be that of the ring it lies
     // on. Therefore, in that case, we with to increment the index if the
     // direction is pointing to the exterior of the circle.
-    if (ir < (int)radii_.size() && fp_equiv_ulp(r, radii_[ir])) {
+    if (ir < (int)radii_.size() && fp_equiv(r, radii_[ir])) {
         // Use a "dot product" of dir's direction cosines and the point. If its
         // negative, bump to the next smallest ring
         real_t dot = p.x * dir.ox + p.y * dir.oy;
diff --git a/src/util/fp_utils.hpp b/src/util/fp_utils.hpp
index 90085b2..836857e 100644
--- a/src/util/fp_utils.hpp
+++ b/src/util/fp_utils.hpp
@@ -122,6 +122,6 @@ inline bool fp_equiv_saferel(real_t v1, real_t v2)
  * std::lower_bound() and \c std::upper_bound() algorithms.
  */
 inline auto fuzzy_lt(real_t l, real_t r) {
-    return (l - r) / std::abs(r) < -REAL_FUZZ;
+    return (l < r) && !fp_equiv(l, r);
 };
 }
-- 
2.43.0


From 1b3d7e4cda05a4a16c3645ff158f68d4d147265f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:24:03 +0000
Subject: [PATCH 07/69] fix: keep the angle of a point on the negative x axis
 within 2 pi

It came out as 3 pi when y was exactly zero.
---
 src/core/geometry/points.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/core/geometry/points.hpp b/src/core/geometry/points.hpp
index b69172b..10c9fa8 100644
--- a/src/core/geometry/points.hpp
+++ b/src/core/geometry/points.hpp
@@ -86,12 +86,8 @@ public:
     // jiggery to force the result to lie in [0,2PI]
     real_t alpha() const
     {
-        if (y > 0.0) {
-            return atan2(y, x);
-        }
-        else {
-            return atan2(y, x) + TWOPI;
-        }
+        real_t a = atan2(y, x);
+        return (a > 0.0) ? a : a + TWOPI;
     }
 
 private:
-- 
2.43.0


From 04e04e3c499f21318d93d104a807bd04c450d852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:24:03 +0000
Subject: [PATCH 08/69] fix: pick the sector that a direction turns into on an
 azimuthal division

Comparing the two angles fails when they are more than half a turn apart.
---
 src/core/pin_mesh_cyl.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/core/pin_mesh_cyl.cpp b/src/core/pin_mesh_cyl.cpp
index 2bec78d..bdd15be 100644
--- a/src/core/pin_mesh_cyl.cpp
+++ b/src/core/pin_mesh_cyl.cpp
@@ -284,11 +284,9 @@ int PinMesh_Cyl::find_reg(Point2 p, Direction dir) const
         }
     }
 
-    // Find the azimuthal subdivision that the point is in.
-    real_t azi = p.alpha();
-    if (fp_equiv_ulp(azi, TWOPI)) {
-        azi = (dir.alpha > PI) ? TWOPI : 0.0;
-    }
+    // Find the azimuthal subdivision that the point is in. From the center,
+    // it is the one that dir points into.
+    real_t azi       = fp_equiv_abs(r, 0.0) ? dir.alpha : p.alpha();
     real_t azi_space = (TWOPI / sub_azi_[0]);
     real_t azi_div   = azi / azi_space;
     int closest_azi  = std::round(azi_div);
@@ -296,11 +294,13 @@ int PinMesh_Cyl::find_reg(Point2 p, Direction dir) const
     int ia = -1;
 
     if (fp_equiv_abs(closest_azi * azi_space, azi)) {
-        ia = (azi < dir.alpha) ? closest_azi : closest_azi - 1;
+        // On a division. The sector is the one that dir turns into
+        real_t turn = p.x * dir.oy - p.y * dir.ox;
+        ia          = (turn > 0.0) ? closest_azi : closest_azi - 1;
     } else {
         ia = (int)azi_div;
     }
-    ia = ia % sub_azi_[0];
+    ia = (ia + sub_azi_[0]) % sub_azi_[0];
 
     // Determine the actual region index
     int ireg = ir * sub_azi_[0] + ia;
-- 
2.43.0


From 3bf966f8c667e13bca721aedfb9dfc99632408df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:38 +0000
Subject: [PATCH 09/69] fix: do not read past the exponential table at the end
 of its range

---
 src/core/exponential.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/exponential.hpp b/src/core/exponential.hpp
index 25db6ad..e093b91 100644
--- a/src/core/exponential.hpp
+++ b/src/core/exponential.hpp
@@ -61,7 +61,7 @@ public:
           space_((max - min_) / (real_t)(N)),
           rspace_(1.0 / space_)
     {
-        for (int i = 0; i <= N; i++) {
+        for (int i = 0; i <= N + 1; i++) {
             d_[i] = std::exp(min_ + i * space_);
         }
     }
@@ -108,7 +108,9 @@ protected:
     real_t max_;
     real_t space_;
     real_t rspace_;
-    std::array<real_t, N + 1> d_;
+    // One more point than intervals, and one past the end of the range, which
+    // is touched when evaluating max_ itself
+    std::array<real_t, N + 2> d_;
 };
 
 /**
-- 
2.43.0


From ba3ea4c3285a950bfed2967cbb1cbd1801dd6cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:08 +0000
Subject: [PATCH 10/69] fix: reverse an angle into the opposite octant in three
 dimensions

---
 src/core/angular_quadrature.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/angular_quadrature.hpp b/src/core/angular_quadrature.hpp
index deab430..afbd1ed 100644
--- a/src/core/angular_quadrature.hpp
+++ b/src/core/angular_quadrature.hpp
@@ -153,7 +153,8 @@ public:
      * Return the index of the angle that is in the reverse direction of the
      * angle index passed. This can operate in two different modes, based on
      * dim, which should be 2[D] or 3[D]. For 2D, the returned angle always
-     * lies in the positive-Z half-space. For 3D, the returned angle
+     * lies in the positive-Z half-space. For 3D, the returned angle is the
+     * opposite in all three components.
      */
     unsigned int reverse(unsigned int iang, unsigned int dim = 2) const
     {
@@ -161,7 +162,8 @@ public:
         if (dim == 2) {
             return (iang + ndir_oct_ * 2) % (ndir_oct_ * 4);
         } else {
-            return (iang + ndir_oct_ * 6) % (ndir_oct_ * 8);
+            unsigned int up = (iang + ndir_oct_ * 2) % (ndir_oct_ * 4);
+            return ((int)iang < ndir_oct_ * 4) ? up + ndir_oct_ * 4 : up;
         }
         return 0;
     }
-- 
2.43.0


From c892f4be782ec8bf958ddb5e5ff199b495babfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:08 +0000
Subject: [PATCH 11/69] fix: use the weights of the requested order for S12,
 S14 and S16

---
 src/core/level_symmetric.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/level_symmetric.hpp b/src/core/level_symmetric.hpp
index c81404a..3079e29 100644
--- a/src/core/level_symmetric.hpp
+++ b/src/core/level_symmetric.hpp
@@ -41,12 +41,14 @@ real_t w_unique[] = {
 int w_offset[] = {0, 1, 2, 4, 7, 11, 16, 23};
 
 int w_map[] = {1, 1, 1, 1, 1, 2, 2, 1, 2, 1, 1, 2, 2, 2, 3, 2, 1, 2, 2, 1,
-               1, 2, 2, 3, 4, 3, 2, 4, 4, 2, 1, 2, 3, 2, 1, 1, 2, 2, 3, 5,
+               1, 2, 2, 3, 4, 3, 2, 4, 4, 2, 1, 2, 3, 2, 1,
+               1, 2, 2, 3, 4, 3, 3, 5, 5, 3, 2, 4, 5, 4, 2, 1, 2, 3, 3, 2, 1,
+               1, 2, 2, 3, 5,
                3, 4, 6, 6, 4, 3, 6, 7, 6, 3, 2, 5, 6, 6, 5, 2, 1, 2, 3, 4,
                3, 2, 1, 1, 2, 2, 3, 5, 3, 4, 6, 6, 4, 4, 7, 8, 7, 4, 3, 6,
                8, 8, 6, 3, 2, 5, 6, 7, 6, 5, 2, 1, 2, 3, 4, 4, 3, 2, 1};
 
-int w_map_offset[] = {0, 1, 4, 10, 20, 35, 63};
+int w_map_offset[] = {0, 1, 4, 10, 20, 35, 56, 84};
 }
 
 // Produce a vector of angles matching the level-symmetric quadrature of order
-- 
2.43.0


From 747af9f1047460d5f5322c23e667fc46e6fd2fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:08 +0000
Subject: [PATCH 12/69] fix: refuse level-symmetric quadratures of order zero
 or less

---
 src/core/level_symmetric.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/level_symmetric.hpp b/src/core/level_symmetric.hpp
index 3079e29..3d71ee3 100644
--- a/src/core/level_symmetric.hpp
+++ b/src/core/level_symmetric.hpp
@@ -58,6 +58,9 @@ std::vector<Angle> GenSn(int order)
     if (order % 2 != 0) {
         throw EXCEPT("Sn quadrature order must be even.");
     }
+    if (order < 2) {
+        throw EXCEPT("Sn quadrature order must be at least 2.");
+    }
     if (order > 16) {
         throw EXCEPT("Max supported Sn quadrature order is 16.");
     }
-- 
2.43.0


From 3606c2e8c5572ed3c926b9fbb29e428a4998b9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:46 +0000
Subject: [PATCH 13/69] fix: exchange the remaining faces of an angle that has
 an empty one

---
 src/core/boundary_condition.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/boundary_condition.cpp b/src/core/boundary_condition.cpp
index 5d0ad33..0026fe5 100644
--- a/src/core/boundary_condition.cpp
+++ b/src/core/boundary_condition.cpp
@@ -161,7 +161,7 @@ void BoundaryCondition::update(int group, int angle,
         int size    = size_[angle][(int)n];
         int iang_in = ang_quad_.reflect(angle, n);
         if (size == 0) {
-            break;
+            continue;
         }
         assert(size == out.size_[iang_in][(int)n]);
         assert(iang_in < n_angle_);
-- 
2.43.0


From ab6140336c82c32685e26aaa80722d7516162f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:50 +0000
Subject: [PATCH 14/69] fix: compare scattering rows by their values and
 matrices by their rows

---
 src/core/scattering_matrix.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/scattering_matrix.hpp b/src/core/scattering_matrix.hpp
index 79b93fc..f014386 100644
--- a/src/core/scattering_matrix.hpp
+++ b/src/core/scattering_matrix.hpp
@@ -16,6 +16,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <iosfwd>
 #include "util/blitz_typedefs.hpp"
 #include "util/global_config.hpp"
@@ -63,7 +64,7 @@ public:
             return false;
         }
 
-        return true;
+        return std::equal(this->begin(), this->end(), other.begin());
     }
 
     bool operator!=(const ScatteringRow &other) const
@@ -251,6 +252,9 @@ public:
         if (out_ != other.out_) {
             return false;
         }
+        if (rows_ != other.rows_) {
+            return false;
+        }
         return true;
     }
 
-- 
2.43.0


From f4455bf26107902ccc9f6b92f5794b4d49b6690d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:50 +0000
Subject: [PATCH 15/69] fix: keep negative scattering entries at the ends of a
 row

---
 src/core/scattering_matrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/scattering_matrix.cpp b/src/core/scattering_matrix.cpp
index 0009cb5..37d5f5c 100644
--- a/src/core/scattering_matrix.cpp
+++ b/src/core/scattering_matrix.cpp
@@ -73,13 +73,13 @@ ScatteringMatrix::ScatteringMatrix(const ArrayB2 &scat)
         std::pair<int, int> these_bounds;
         for (int from = 0; from < ng_; from++) {
             these_bounds.first = from;
-            if (scat(to, from) > 0.0) {
+            if (scat(to, from) != 0.0) {
                 break;
             }
         }
         for (int from = ng_ - 1; from >= 0; from--) {
             these_bounds.second = from;
-            if (scat(to, from) > 0.0) {
+            if (scat(to, from) != 0.0) {
                 break;
             }
         }
-- 
2.43.0


From 2158c41aa9f7d57a6fcbecbc8778ee79c42ad8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:48 +0000
Subject: [PATCH 16/69] fix: refuse to assign the same material ID twice

---
 src/core/material_lib.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/material_lib.cpp b/src/core/material_lib.cpp
index 9c45e76..1ce7742 100644
--- a/src/core/material_lib.cpp
+++ b/src/core/material_lib.cpp
@@ -239,6 +239,11 @@ MaterialLib::MaterialLib(FileScrubber &input) : n_material_(0)
 
 void MaterialLib::assignID(int id, std::string name)
 {
+    if (this->has(id)) {
+        std::stringstream msg;
+        msg << "Duplicate material ID (" << id << ") specified";
+        throw EXCEPT(msg.str());
+    }
     try {
         LogFile << "Mapping material '" << name << "' to ID " << id
                 << std::endl;
-- 
2.43.0


From a9682d0adb1b57e4ef7eca449f551c39e213709b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:25 +0000
Subject: [PATCH 17/69] fix: refuse a library with a malformed material header

---
 src/core/material_lib.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core/material_lib.cpp b/src/core/material_lib.cpp
index 1ce7742..ca0954e 100644
--- a/src/core/material_lib.cpp
+++ b/src/core/material_lib.cpp
@@ -98,7 +98,9 @@ MaterialLib::MaterialLib(const pugi::xml_node &input) : n_material_(0)
 
         regex headExp("^\\s*XSMACRO\\s+([^\\s]+)\\s+([0-9]+)\\s*$");
         smatch results;
-        regex_match(line, results, headExp);
+        if (!regex_match(line, results, headExp)) {
+            throw EXCEPT("Malformed material header in library: " + line);
+        }
         string materialName = results[1].str();
 
         // Read in the non-scattering stuff
@@ -188,7 +190,9 @@ MaterialLib::MaterialLib(FileScrubber &input) : n_material_(0)
 
         regex headExp("^\\s*XSMACRO\\s+([^\\s]+)\\s+([0-9]+)\\s*$");
         smatch results;
-        regex_match(line, results, headExp);
+        if (!regex_match(line, results, headExp)) {
+            throw EXCEPT("Malformed material header in library: " + line);
+        }
         string materialName = results[1].str();
 
         // Read in the non-scattering stuff
-- 
2.43.0


From d2ab7679b24fabd732bdf7ec7bd3929964d4fb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:25 +0000
Subject: [PATCH 18/69] fix: refuse a library with two materials of the same
 name

---
 src/core/material_lib.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/core/material_lib.cpp b/src/core/material_lib.cpp
index ca0954e..b0b45ad 100644
--- a/src/core/material_lib.cpp
+++ b/src/core/material_lib.cpp
@@ -133,9 +133,7 @@ MaterialLib::MaterialLib(const pugi::xml_node &input) : n_material_(0)
 
         // produce a Material object and add it to the library
         lib_materials_.push_back(Material(abs, nuFiss, fiss, chi, scatTable));
-        try {
-            material_names_[materialName] = imat;
-        } catch (...) {
+        if (!material_names_.emplace(materialName, imat).second) {
             throw EXCEPT("Failed to add material from library. Duplicate "
                          "name?");
         }
@@ -232,9 +230,7 @@ MaterialLib::MaterialLib(FileScrubber &input) : n_material_(0)
 
         // produce a Material object and add it to the library
         lib_materials_.push_back(Material(abs, nuFiss, fiss, chi, scatTable));
-        try {
-            material_names_[materialName] = imat;
-        } catch (...) {
+        if (!material_names_.emplace(materialName, imat).second) {
             throw EXCEPT("Failed to add material from library. Duplicate "
                          "name?");
         }
-- 
2.43.0


From 1a446ca1abe7b0af905a91b776f25f759de582eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:40 +0000
Subject: [PATCH 19/69] fix: refuse a library without energy groups

---
 src/core/material_lib.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/material_lib.cpp b/src/core/material_lib.cpp
index b0b45ad..0064483 100644
--- a/src/core/material_lib.cpp
+++ b/src/core/material_lib.cpp
@@ -69,7 +69,7 @@ MaterialLib::MaterialLib(const pugi::xml_node &input) : n_material_(0)
         matLibFile.getline();
         stringstream inBuf(matLibFile.getline());
         inBuf >> n_grp_;
-        if (inBuf.fail()) {
+        if (inBuf.fail() || (n_grp_ == 0)) {
             throw EXCEPT("Failed to read number of groups!");
         }
         inBuf >> n_material_lib_;
@@ -159,7 +159,7 @@ MaterialLib::MaterialLib(FileScrubber &input) : n_material_(0)
         input.getline();
         stringstream inBuf(input.getline());
         inBuf >> n_grp_;
-        if (inBuf.fail()) {
+        if (inBuf.fail() || (n_grp_ == 0)) {
             throw EXCEPT("Failed to read number of groups!");
         }
         inBuf >> n_material_lib_;
-- 
2.43.0


From 811ad3a4cd283d16a6d05f33a9800a19c1d7e941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:53 +0000
Subject: [PATCH 20/69] fix: keep random numbers inside their half-open ranges

---
 src/util/rng_lcg.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/util/rng_lcg.hpp b/src/util/rng_lcg.hpp
index cd5a088..70316ab 100644
--- a/src/util/rng_lcg.hpp
+++ b/src/util/rng_lcg.hpp
@@ -16,9 +16,12 @@
 
 #pragma once
 
+#include <algorithm>
 #include <cassert>
+#include <cmath>
 #include <cstdint>
 #include <iostream>
+#include <limits>
 #include <random>
 
 #include "util/force_inline.hpp"
@@ -61,7 +64,9 @@ public:
      */
     real_t random()
     {
-        return float_scale_ * (*this)();
+        // The conversion to real_t rounds the largest states up to 1.0
+        real_t v = float_scale_ * (*this)();
+        return v < max_random_ ? v : max_random_;
     }
 
     /**
@@ -72,7 +77,7 @@ public:
     {
         assert(ubound > 0.0);
 
-        real_t v = float_scale_ * (*this)();
+        real_t v = this->random();
         return v * ubound;
     }
 
@@ -86,7 +91,8 @@ public:
 
         real_t v = this->random();
         v        = lbound + (ubound - lbound) * v;
-        return v;
+        // Rounding of the sum can reach the upper bound
+        return v < ubound ? v : std::nextafter(ubound, lbound);
     }
 
     /**
@@ -163,6 +169,9 @@ private:
     static const uint64_t mask_     = ~(UINT64_C(1) << 63);
     static const uint64_t mod_      = UINT64_C(1) << 63;
     static constexpr real_t float_scale_ = 1.0 / (UINT64_C(1) << 63);
+    // Largest real_t less than unity
+    static constexpr real_t max_random_ =
+        1.0 - std::numeric_limits<real_t>::epsilon() / 2.0;
 };
 
 } // namespace mocc
-- 
2.43.0


From 870b634ee219d7e46b0478578855422c7b1866bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:53 +0000
Subject: [PATCH 21/69] fix: always return a valid index from sample_cdf

---
 src/util/rng_lcg.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/rng_lcg.hpp b/src/util/rng_lcg.hpp
index 70316ab..b4ea4bd 100644
--- a/src/util/rng_lcg.hpp
+++ b/src/util/rng_lcg.hpp
@@ -121,8 +121,10 @@ public:
     {
         assert(fp_equiv_ulp(cdf.back(), 1.0));
         real_t v = this->random();
+        // Leave the last entry out of the search, so that samples above it
+        // (it may be slightly less than unity) still give a valid index
         return std::distance(cdf.begin(),
-                             std::lower_bound(cdf.begin(), cdf.end(), v));
+                             std::lower_bound(cdf.begin(), cdf.end() - 1, v));
     }
 
     /**
-- 
2.43.0


From d63c0ebc31c371cdf5d3fdbe86492b8d67f15e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:53 +0000
Subject: [PATCH 22/69] fix: do not overflow the random stream offset of a
 particle

---
 src/sweepers/mc/particle_pusher.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sweepers/mc/particle_pusher.cpp b/src/sweepers/mc/particle_pusher.cpp
index b507b7b..15e0b29 100644
--- a/src/sweepers/mc/particle_pusher.cpp
+++ b/src/sweepers/mc/particle_pusher.cpp
@@ -168,7 +168,7 @@ void ParticlePusher::simulate(Particle p, bool tally)
     bool print = print_particles_;
 
     RNG.set_seed(seed_);
-    RNG.jump_ahead((p.id + id_offset_) * 10000);
+    RNG.jump_ahead((uint64_t)(p.id + id_offset_) * 10000);
 
     // Register this particle with the tallies
     k_tally_tl_.add_weight(p.weight);
-- 
2.43.0


From bc629ce82120208643cda308c12555d50c4b255b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:57 +0000
Subject: [PATCH 23/69] fix: relative deviation of spatial tallies should not
 depend on the normalization

---
 src/sweepers/mc/tally_spatial.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sweepers/mc/tally_spatial.hpp b/src/sweepers/mc/tally_spatial.hpp
index 9abfbf1..36684bc 100644
--- a/src/sweepers/mc/tally_spatial.hpp
+++ b/src/sweepers/mc/tally_spatial.hpp
@@ -131,8 +131,8 @@ public:
             real_t mean_of_square = data_[i].second / (n_ - 1.0);
             real_t variance       = mean_of_square - square_of_mean;
 
-            ret.push_back({mean * r_norm,
-                           std::sqrt(variance * r_norm) / (mean * r_norm)});
+            // The normalization cancels out of the relative standard deviation
+            ret.push_back({mean * r_norm, std::sqrt(variance) / mean});
         }
 
         return ret;
-- 
2.43.0


From d433f0de6ca141bb815226f28c64eeaac375c85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:04 +0000
Subject: [PATCH 24/69] fix: report zero instead of NaN deviation for constant
 tallies

---
 src/sweepers/mc/tally_scalar.hpp  | 5 ++++-
 src/sweepers/mc/tally_spatial.hpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/sweepers/mc/tally_scalar.hpp b/src/sweepers/mc/tally_scalar.hpp
index eda32b2..ee2cd26 100644
--- a/src/sweepers/mc/tally_scalar.hpp
+++ b/src/sweepers/mc/tally_scalar.hpp
@@ -16,6 +16,8 @@
 
 #pragma once
 
+#include <algorithm>
+#include <cmath>
 #include <iostream>
 #include <utility>
 #include "util/global_config.hpp"
@@ -88,7 +90,8 @@ public:
         val.first  = mean;
         val.second = 1.0 / (weight_ - 1.0) *
                      ((1.0 / weight_) * sum_square_ - mean * mean);
-        val.second = std::sqrt(val.second) / mean;
+        // Rounding can make the variance slightly negative
+        val.second = std::sqrt(std::max(val.second, 0.0)) / mean;
         return val;
     }
 
diff --git a/src/sweepers/mc/tally_spatial.hpp b/src/sweepers/mc/tally_spatial.hpp
index 36684bc..90c7818 100644
--- a/src/sweepers/mc/tally_spatial.hpp
+++ b/src/sweepers/mc/tally_spatial.hpp
@@ -16,6 +16,8 @@
 
 #pragma once
 
+#include <algorithm>
+#include <cmath>
 #include <iostream>
 #include <utility>
 #include "util/global_config.hpp"
@@ -129,7 +131,8 @@ public:
             real_t square_of_mean =
                 data_[i].first * data_[i].first / (n_ * (n_ - 1.0));
             real_t mean_of_square = data_[i].second / (n_ - 1.0);
-            real_t variance       = mean_of_square - square_of_mean;
+            // Rounding can make this slightly negative
+            real_t variance = std::max(mean_of_square - square_of_mean, 0.0);
 
             // The normalization cancels out of the relative standard deviation
             ret.push_back({mean * r_norm, std::sqrt(variance) / mean});
-- 
2.43.0


From 7b703d7b65901ae9a768fa92a76795613e2243b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:35 +0000
Subject: [PATCH 25/69] fix: initialize the total fission of an empty fission
 bank

---
 src/sweepers/mc/fission_bank.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sweepers/mc/fission_bank.cpp b/src/sweepers/mc/fission_bank.cpp
index d0fa6b0..afbed1a 100644
--- a/src/sweepers/mc/fission_bank.cpp
+++ b/src/sweepers/mc/fission_bank.cpp
@@ -22,7 +22,8 @@
 
 namespace mocc {
 namespace mc {
-FissionBank::FissionBank(const CoreMesh &mesh) : mesh_(mesh)
+FissionBank::FissionBank(const CoreMesh &mesh)
+    : mesh_(mesh), total_fission_(0.0)
 {
     return;
 }
-- 
2.43.0


From 921976a370f87b150238439d8407f0439792afef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:35 +0000
Subject: [PATCH 26/69] fix: raise an error when resampling an empty fission
 bank

---
 src/sweepers/mc/fission_bank.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sweepers/mc/fission_bank.cpp b/src/sweepers/mc/fission_bank.cpp
index afbed1a..9bbe7b6 100644
--- a/src/sweepers/mc/fission_bank.cpp
+++ b/src/sweepers/mc/fission_bank.cpp
@@ -114,7 +114,9 @@ real_t FissionBank::shannon_entropy() const
 
 void FissionBank::resize(unsigned int n, RNG_LCG &rng)
 {
-    assert(sites_.size() > 0);
+    if (sites_.empty() && n > 0) {
+        throw EXCEPT("Cannot sample fission sites from an empty fission bank.");
+    }
 
     if (n > sites_.size()) {
         // Fission bank is too small. Randomly sample fission sites to
-- 
2.43.0


From bb7f7bb8fc56de0ac0b230076a04869dd028a5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:11 +0000
Subject: [PATCH 27/69] fix: normalize negative scattering entries in
 flux-weighted homogenization

---
 src/core/xs_mesh_homogenized.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/xs_mesh_homogenized.cpp b/src/core/xs_mesh_homogenized.cpp
index 175a44c..9d609c2 100644
--- a/src/core/xs_mesh_homogenized.cpp
+++ b/src/core/xs_mesh_homogenized.cpp
@@ -342,7 +342,7 @@ void XSMeshHomogenized::homogenize_region_flux(int i, int first_reg,
         }
 
         for (size_t igg = 0; igg < ng_; igg++) {
-            if (scat[ig][igg] > 0.0) {
+            if (scat[ig][igg] != 0.0) {
                 scat[ig][igg] /= scatsum[igg];
             }
         }
-- 
2.43.0


From c8bfe8a845e8fa64b9c9493fde578d5489be8fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:12 +0000
Subject: [PATCH 28/69] fix: forget the cached group when expanding split cross
 sections

A plain expansion of the same group after a split one returned the
cross sections with the splitting still added.
---
 src/core/xs_mesh.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/xs_mesh.hpp b/src/core/xs_mesh.hpp
index 118a704..caf3614 100644
--- a/src/core/xs_mesh.hpp
+++ b/src/core/xs_mesh.hpp
@@ -283,7 +283,10 @@ public:
     {
         if (split.size() > 0) {
             // If we are doing splitting, skip the checks on group, etc. and
-            // always expand
+            // always expand. What we store does not correspond to any group's
+            // plain cross sections, so make sure nobody tries to re-use it
+            state_->first  = -1;
+            state_->second = -1;
             assert((int)split.size() == xs_mesh_->n_reg_expanded());
             for (const auto &xsr : *xs_mesh_) {
                 real_t xs = xsr.xsmactr(group);
-- 
2.43.0


From ed9d03abfacce6ba2d614260725ad5aba94bd34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:09:22 +0000
Subject: [PATCH 29/69] fix: read the external source by group, then region

The shape is checked as (group, region), but the array was indexed the
other way around.
---
 src/core/source.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/source.cpp b/src/core/source.cpp
index 7900804..d0f577b 100644
--- a/src/core/source.cpp
+++ b/src/core/source.cpp
@@ -42,7 +42,7 @@ void Source::initialize_group(int ig)
 {
     if (has_external_) {
         for (int ireg = 0; ireg < (int)n_reg_; ireg++) {
-            source_1g_[ireg] = external_source_(ireg, ig);
+            source_1g_[ireg] = external_source_(ig, ireg);
         }
     }
     else {
-- 
2.43.0


From 1391015c112830b73f38b9545de344cf95ee1944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:09:22 +0000
Subject: [PATCH 30/69] fix: divide the source by the cross sections that were
 passed in

self_scatter() ignored the values of its argument, so with transverse
leakage splitting the source did not match the split cross section.
---
 src/core/source_isotropic.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/source_isotropic.cpp b/src/core/source_isotropic.cpp
index 2d3b205..7af564c 100644
--- a/src/core/source_isotropic.cpp
+++ b/src/core/source_isotropic.cpp
@@ -26,9 +26,9 @@ void SourceIsotropic::self_scatter(size_t ig, const ArrayB1 &xstr)
         for (auto &xsr : *xs_mesh_) {
             const ScatteringRow &scat_row = xsr.xsmacsc().to(ig);
             real_t xssc                   = scat_row[ig];
-            real_t r_fpi_tr               = 1.0 / (xsr.xsmactr(ig) * FPI);
             for (const int ireg : xsr.reg()) {
-                q_[ireg] = (source_1g_[ireg] + flux_1g(ireg) * xssc) * r_fpi_tr;
+                q_[ireg] = (source_1g_[ireg] + flux_1g(ireg) * xssc) /
+                           (xstr(ireg) * FPI);
             }
         }
     } else {
-- 
2.43.0


From 899a485cc6b9c03f929346793abded12217eb540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:09:22 +0000
Subject: [PATCH 31/69] fix: start with zero leakage splitting

With tl_splitting enabled the first sweeps used uninitialized memory if no
transverse leakage had been applied.
---
 src/sweepers/moc/moc_sweeper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sweepers/moc/moc_sweeper.cpp b/src/sweepers/moc/moc_sweeper.cpp
index 45c9b2c..c3d0c04 100644
--- a/src/sweepers/moc/moc_sweeper.cpp
+++ b/src/sweepers/moc/moc_sweeper.cpp
@@ -119,6 +119,7 @@ MoCSweeper::MoCSweeper(const pugi::xml_node &input, const CoreMesh &mesh)
     allow_splitting_ = input.attribute("tl_splitting").as_bool(false);
     if (allow_splitting_) {
         split_.resize(n_reg_);
+        split_ = 0.0;
     }
 
     // Sanity-check the subplane parameters. We will operate on the assumption
-- 
2.43.0


From 1db0a9a45a0b3b9a2493669db4365037555248eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:19:02 +0000
Subject: [PATCH 32/69] fix: multiple-balance Sn equation balances a cell of
 any height

The axial terms used the direction cosine where the cosine over the cell
height was meant, and the height was looked up with a wrong plane index
that could lie outside the mesh.
---
 src/sweepers/cmdo/sn_sweeper_cdd_mb.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/sweepers/cmdo/sn_sweeper_cdd_mb.hpp b/src/sweepers/cmdo/sn_sweeper_cdd_mb.hpp
index c6a5afc..9ed4951 100644
--- a/src/sweepers/cmdo/sn_sweeper_cdd_mb.hpp
+++ b/src/sweepers/cmdo/sn_sweeper_cdd_mb.hpp
@@ -42,8 +42,6 @@ public:
                     real_t xstr, int i, const ThreadState &t_state) const
     {
         int ix    = i % mesh_.nx();
-        int iz    = i % mesh_.nx() * mesh_.ny();
-        real_t dz = mesh_.dz(iz);
         int ia = t_state.macroplane * this->plane_size_ + i % this->plane_size_;
         real_t tx = t_state.ox / mesh_.dx(ix);
 
@@ -56,11 +54,11 @@ public:
         real_t gx = 0.5;//ax * b;
         real_t gy = 0.5;//ay * b;
 
-        real_t psi = q - (dz * t_state.oz * q) / (2.0 * t_state.tz + xstr) +
+        real_t psi = q - (t_state.tz * q) / (2.0 * t_state.tz + xstr) +
                      2.0 * (tx * flux_x + t_state.ty * flux_y) +
                      t_state.tz * flux_z;
         psi /= tx / gx + t_state.ty / gy +
-               (t_state.oz * t_state.oz) / (t_state.tz + 0.5 * xstr) + xstr;
+               (t_state.tz * t_state.tz) / (t_state.tz + 0.5 * xstr) + xstr;
 
         flux_x = psi / gx - flux_x;
         flux_y = psi / gy - flux_y;
-- 
2.43.0


From e1c3b419162561efd1648297d42d1ad518517d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:34:20 +0000
Subject: [PATCH 33/69] fix: MoC currents of grouped planes are copied to each
 plane of the group

The copy ran one entry too far and overwrote an axial current of the plane
above.  The currents were divided by the area of the plane they were copied
to although they contained the height of another one, so planes of unequal
height got wrong values.  The surface flux was not copied at all.
---
 src/sweepers/moc/moc_current_worker.hpp | 40 +++++++++++++------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/sweepers/moc/moc_current_worker.hpp b/src/sweepers/moc/moc_current_worker.hpp
index 9aeb1e2..f08d300 100644
--- a/src/sweepers/moc/moc_current_worker.hpp
+++ b/src/sweepers/moc/moc_current_worker.hpp
@@ -273,6 +273,21 @@ public:
     {
 #pragma omp single
         {
+            auto all          = blitz::Range::all();
+            auto current      = coarse_data_->current(all, group_);
+            auto surface_flux = coarse_data_->surface_flux(all, group_);
+            // Normalize the surface currents. At this point they are still
+            // stored by macroplane, and contain the plane height that was used
+            // in set_angle()
+            for (int plane = 0; plane < mesh_->n_macroplanes(); plane++) {
+                for (int surf = mesh_->plane_surf_xy_begin(plane);
+                     surf != (int)mesh_->plane_surf_end(plane); ++surf) {
+                    real_t area = mesh_->coarse_area(surf);
+                    current(surf) /= area;
+                    surface_flux(surf) /= area;
+                }
+            }
+
             // Check to see if we need to expand the currents across the mesh.
             if ((int)mesh_->nz() - 1 != (mesh_->macroplane_index().back())) {
                 // In the presence of subplaning, the currents coming from the
@@ -287,32 +302,19 @@ public:
                      mplane_it != mesh_->macroplane_index().crend();
                      ++mplane_it) {
                     int stt_out = mesh_->plane_surf_xy_begin(iz);
-                    int stp_out = mesh_->plane_surf_end(iz);
+                    int stp_out = mesh_->plane_surf_end(iz) - 1;
                     int ip      = *mplane_it;
                     int stt_in  = mesh_->plane_surf_xy_begin(ip);
-                    int stp_in  = mesh_->plane_surf_end(ip);
+                    int stp_in  = mesh_->plane_surf_end(ip) - 1;
 
-                    coarse_data_->current(blitz::Range(stt_out, stp_out),
-                                          group_) =
-                        coarse_data_->current(blitz::Range(stt_in, stp_in),
-                                              group_);
+                    current(blitz::Range(stt_out, stp_out)) =
+                        current(blitz::Range(stt_in, stp_in));
+                    surface_flux(blitz::Range(stt_out, stp_out)) =
+                        surface_flux(blitz::Range(stt_in, stp_in));
 
                     iz--;
                 }
             }
-
-            auto all          = blitz::Range::all();
-            auto current      = coarse_data_->current(all, group_);
-            auto surface_flux = coarse_data_->surface_flux(all, group_);
-            // Normalize the surface currents
-            for (size_t plane = 0; plane < mesh_->nz(); plane++) {
-                for (int surf = mesh_->plane_surf_xy_begin(plane);
-                     surf != (int)mesh_->plane_surf_end(plane); ++surf) {
-                    real_t area = mesh_->coarse_area(surf);
-                    current(surf) /= area;
-                    surface_flux(surf) /= area;
-                }
-            }
         }
         return;
     }
-- 
2.43.0


From 45641ea0e7d0e94b9b41ff4e3901245053daf449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:54:59 +0000
Subject: [PATCH 34/69] fix: take the module's aspect ratio into account when
 modularising angles

The rational modularisation approximated the slope itself although the
modular angle also depends on the ratio of the module's sides. On a
module that is not square the rays ran far from the quadrature's angle,
and could be spaced wider than requested.
---
 src/sweepers/moc/ray_data.cpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/sweepers/moc/ray_data.cpp b/src/sweepers/moc/ray_data.cpp
index 2740e69..9a6014e 100644
--- a/src/sweepers/moc/ray_data.cpp
+++ b/src/sweepers/moc/ray_data.cpp
@@ -496,22 +496,24 @@ std::pair<int, int> RayData::modularize_angle(Angle ang, real_t hx, real_t hy,
 
     switch (modularization_method_) {
     case Modularization::RATIONAL: {
-        // Get the angle cast into a slope less than 1, so that we can find a
-        // rational approximation to it.
-        real_t m = (ang.alpha < PI / 4.0) ? std::tan(ang.alpha)
-                                          : std::tan(PI / 2.0 - ang.alpha);
-        // Determine the best rational approximation of the slope.
-        auto Nxy     = rational_approximation(m, 0.002, 0);
-        Nx           = Nxy.first;
-        Ny           = Nxy.second;
+        // The modular angle is atan((Nx * hy) / (Ny * hx)), so the ratio of
+        // ray counts to approximate is the slope relative to the diagonal of
+        // the module. Get it cast into a number less than 1, so that we can
+        // find a rational approximation to it.
+        real_t m   = std::tan(ang.alpha) * hx / hy;
+        bool steep = m > 1.0;
+        // Determine the best rational approximation of the ratio.
+        auto Nxy = rational_approximation(steep ? 1.0 / m : m, 0.002, 0);
+        Nx       = Nxy.first;
+        Ny       = Nxy.second;
+        if (steep) {
+            std::swap(Nx, Ny);
+        }
         real_t alpha = std::atan((Nx * hy) / (Ny * hx));
         int scale =
             std::ceil((hx / Nx * std::abs(std::sin(alpha))) / nominal_spacing);
         Nx *= scale;
         Ny *= scale;
-        if (ang.alpha > PI / 4.0) {
-            std::swap(Nx, Ny);
-        }
 
     } break;
     case Modularization::TRIG:
-- 
2.43.0


From 0983c36b020a66d58bdb1ff1f181321598e1e3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:55:27 +0000
Subject: [PATCH 35/69] fix: keep the plane-averaged flux when setting an MoC
 pin flux by pins

The average over the planes of a group was computed and then overwritten
by the first entries of the pin-wise flux.
---
 src/sweepers/moc/moc_sweeper.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sweepers/moc/moc_sweeper.cpp b/src/sweepers/moc/moc_sweeper.cpp
index c3d0c04..ed8013c 100644
--- a/src/sweepers/moc/moc_sweeper.cpp
+++ b/src/sweepers/moc/moc_sweeper.cpp
@@ -395,7 +395,9 @@ real_t MoCSweeper::set_pin_flux_1g(int group, const ArrayB1 &pin_flux,
             plane_pin_flux(i) /= mesh_.macroplane_heights()[iz];
         }
     case MeshTreatment::PIN_PLANE: {
-        plane_pin_flux = pin_flux;
+        if (treatment == MeshTreatment::PIN_PLANE) {
+            plane_pin_flux = pin_flux;
+        }
         int iz       = 0;
         int ireg     = 0;
         for (const auto &mplane : mesh_.macroplanes()) {
-- 
2.43.0


From 2d9253f621af23d24950ea5a970e0e2a057d0e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:55:27 +0000
Subject: [PATCH 36/69] fix: report the change of the pin flux in the Sn
 sweeper

The residual compared every imposed value to the flux of the second pin,
and was always zero when imposing fluxes by plane groups.
---
 src/sweepers/sn/sn_sweeper.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sweepers/sn/sn_sweeper.hpp b/src/sweepers/sn/sn_sweeper.hpp
index 41981d0..808ca93 100644
--- a/src/sweepers/sn/sn_sweeper.hpp
+++ b/src/sweepers/sn/sn_sweeper.hpp
@@ -110,7 +110,7 @@ public:
         case MeshTreatment::PIN: {
             int i = 0;
             for (auto &v : pin_flux) {
-                real_t e = flux_(1, group) - v;
+                real_t e = flux_((int)i, (int)group) - v;
                 resid += e * e;
                 flux_((int)i, (int)group) = v;
                 i++;
@@ -122,6 +122,10 @@ public:
             ArrayB1 plane_pin_flux(mesh_.n_reg(MeshTreatment::PIN_PLANE));
             this->get_pin_flux_1g(group, plane_pin_flux,
                                   MeshTreatment::PIN_PLANE);
+            for (int i = 0; i < (int)pin_flux.size(); i++) {
+                real_t e = plane_pin_flux(i) - pin_flux(i);
+                resid += e * e;
+            }
             plane_pin_flux /= pin_flux;
 
             int n_per_plane = mesh_.nx() * mesh_.ny();
-- 
2.43.0


From 0639459073f4ffd0da189c122737f4e3359746e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:02:03 +0000
Subject: [PATCH 37/69] fix: count more than 255 ray segments in a pin

The coarse ray data kept eight bits of the number of segments, so a pin
with more regions along a ray was followed with the wrong segments. Keep
twelve bits, which fit the same structure, and refuse what is beyond.
---
 src/sweepers/moc/ray.cpp | 5 +++++
 src/sweepers/moc/ray.hpp | 6 +++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/sweepers/moc/ray.cpp b/src/sweepers/moc/ray.cpp
index c2b2988..b77efb1 100644
--- a/src/sweepers/moc/ray.cpp
+++ b/src/sweepers/moc/ray.cpp
@@ -17,6 +17,7 @@
 #include "ray.hpp"
 
 #include <cassert>
+#include "util/error.hpp"
 
 // Assuming that p1 is the "origin" return the quadrant of the angle formed by
 // p1. Since we assume that p1 is below p2 in y, only octants 1 or 2 can be
@@ -77,6 +78,10 @@ Ray::Ray(Point2 p1, Point2 p2, std::array<int, 2> bc, int iplane,
         int nseg = pmt.pm->trace(p_prev - pin_p, *pi - pin_p, first_reg,
                                  seg_len_, seg_index_);
 
+        // The coarse ray data can only count so many segments
+        if (nseg > MAX_NSEG) {
+            throw EXCEPT("Too many ray segments in a pin.");
+        }
         cm_nseg.push_back(nseg);
 
         p_prev = *pi;
diff --git a/src/sweepers/moc/ray.hpp b/src/sweepers/moc/ray.hpp
index 22532d5..4688fed 100644
--- a/src/sweepers/moc/ray.hpp
+++ b/src/sweepers/moc/ray.hpp
@@ -20,7 +20,7 @@
 #include "geometry/geom.hpp"
 #include "core_mesh.hpp"
 
-#define MAX_NSEG 255
+#define MAX_NSEG 4095
 
 namespace mocc {
 namespace moc {
@@ -42,8 +42,8 @@ class Ray {
     struct RayCoarseData {
         Surface fw : 4;
         Surface bw : 4;
-        unsigned int nseg_fw : 8;
-        unsigned int nseg_bw : 8;
+        unsigned int nseg_fw : 12;
+        unsigned int nseg_bw : 12;
 
         friend std::ostream &operator<<(std::ostream &os,
                                         const RayCoarseData rcd)
-- 
2.43.0


From 60a9f98698288a049cc9b12f4d47c9af688dab8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:09:58 +0000
Subject: [PATCH 38/69] fix: find the box side ahead when a line runs into a
 corner

Depending on rounding, the diagonal sector lines of a cylindrical pin
missed both sides of the corner ahead and took the opposite corner
instead, so two lines coincided and a sector boundary was lost.
---
 src/core/geometry/box.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/core/geometry/box.cpp b/src/core/geometry/box.cpp
index c479e04..ca80775 100644
--- a/src/core/geometry/box.cpp
+++ b/src/core/geometry/box.cpp
@@ -42,6 +42,8 @@ Point2 Box::intersect(Point2 p, Angle ang) const
     real_t ox = cos(ang.alpha);
     real_t oy = sin(ang.alpha);
 
+    // Only look ahead, and make sure that a corner is not missed by the sides
+    // that meet there.
     // Dont use this code for astronomy stuff
     real_t d_min = 1.0e12;
     real_t d;
@@ -53,8 +55,9 @@ Point2 Box::intersect(Point2 p, Angle ang) const
     x = p1_.x;
     d = (p1_.x - p.x) / ox;
     y = p.y + oy * d;
-    if ((fabs(d) > REAL_FUZZ) && (d < d_min) && (y > p1_.y) && (y < p2_.y)) {
-        d_min    = fabs(d);
+    if ((d > REAL_FUZZ) && (d < d_min) && (y > p1_.y - REAL_FUZZ) &&
+        (y < p2_.y + REAL_FUZZ)) {
+        d_min    = d;
         p_out.x  = x;
         p_out.y  = y;
         p_out.ok = true;
@@ -63,8 +66,9 @@ Point2 Box::intersect(Point2 p, Angle ang) const
     x = p2_.x;
     d = (p2_.x - p.x) / ox;
     y = p.y + oy * d;
-    if ((fabs(d) > REAL_FUZZ) && (d < d_min) && (y > p1_.y) && (y < p2_.y)) {
-        d_min    = fabs(d);
+    if ((d > REAL_FUZZ) && (d < d_min) && (y > p1_.y - REAL_FUZZ) &&
+        (y < p2_.y + REAL_FUZZ)) {
+        d_min    = d;
         p_out.x  = x;
         p_out.y  = y;
         p_out.ok = true;
@@ -74,8 +78,9 @@ Point2 Box::intersect(Point2 p, Angle ang) const
     y = p1_.y;
     d = (p1_.y - p.y) / oy;
     x = p.x + ox * d;
-    if ((fabs(d) > REAL_FUZZ) && (d < d_min) && (x > p1_.x) && (x < p2_.x)) {
-        d_min    = fabs(d);
+    if ((d > REAL_FUZZ) && (d < d_min) && (x > p1_.x - REAL_FUZZ) &&
+        (x < p2_.x + REAL_FUZZ)) {
+        d_min    = d;
         p_out.x  = x;
         p_out.y  = y;
         p_out.ok = true;
@@ -84,8 +89,9 @@ Point2 Box::intersect(Point2 p, Angle ang) const
     y = p2_.y;
     d = (p2_.y - p.y) / oy;
     x = p.x + ox * d;
-    if ((fabs(d) > REAL_FUZZ) && (d < d_min) && (x > p1_.x) && (x < p2_.x)) {
-        d_min    = fabs(d);
+    if ((d > REAL_FUZZ) && (d < d_min) && (x > p1_.x - REAL_FUZZ) &&
+        (x < p2_.x + REAL_FUZZ)) {
+        d_min    = d;
         p_out.x  = x;
         p_out.y  = y;
         p_out.ok = true;
-- 
2.43.0


From 29b4c038a64c63f4182e3a8dfa2f15247b234f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:25:27 +0000
Subject: [PATCH 39/69] fix: put points on sector lines near the pin center
 into the sector ahead

Points on a sector division close to the center of a cylindrical pin are
off the division by a larger angle for the same rounding error. Compare the
distance from the division too, so that a particle which has just crossed
a division is not put back into the sector that it left.
---
 src/core/pin_mesh_cyl.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core/pin_mesh_cyl.cpp b/src/core/pin_mesh_cyl.cpp
index bdd15be..2fac811 100644
--- a/src/core/pin_mesh_cyl.cpp
+++ b/src/core/pin_mesh_cyl.cpp
@@ -286,14 +286,18 @@ int PinMesh_Cyl::find_reg(Point2 p, Direction dir) const
 
     // Find the azimuthal subdivision that the point is in. From the center,
     // it is the one that dir points into.
-    real_t azi       = fp_equiv_abs(r, 0.0) ? dir.alpha : p.alpha();
+    bool at_center   = fp_equiv_abs(r, 0.0);
+    real_t azi       = at_center ? dir.alpha : p.alpha();
     real_t azi_space = (TWOPI / sub_azi_[0]);
     real_t azi_div   = azi / azi_space;
     int closest_azi  = std::round(azi_div);
 
     int ia = -1;
 
-    if (fp_equiv_abs(closest_azi * azi_space, azi)) {
+    // Close to the center, a point on a division can be off by a larger angle
+    real_t azi_diff = azi - closest_azi * azi_space;
+    if (fp_equiv_abs(azi_diff, 0.0) ||
+        (!at_center && fp_equiv_abs(r * azi_diff, 0.0))) {
         // On a division. The sector is the one that dir turns into
         real_t turn = p.x * dir.oy - p.y * dir.ox;
         ia          = (turn > 0.0) ? closest_azi : closest_azi - 1;
-- 
2.43.0


From 02100956ac182012f6505732111f52faf0cab231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:44 +0000
Subject: [PATCH 40/69] fix: let the eigenvalue solver stop after the minimum
 number of iterations

The iteration counter starts at zero, so one iteration more than min_iter
was always done before convergence was accepted.
---
 src/solvers/eigen_solver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solvers/eigen_solver.cpp b/src/solvers/eigen_solver.cpp
index 89e9f1c..af1f6b3 100644
--- a/src/solvers/eigen_solver.cpp
+++ b/src/solvers/eigen_solver.cpp
@@ -209,9 +209,9 @@ void EigenSolver::solve()
 
         LogFile << (error_k_ < tolerance_k_) << " "
                 << (error_psi_ < tolerance_psi_) << " "
-                << (n_iterations >= min_iterations_) << std::endl;
+                << (n_iterations + 1 >= min_iterations_) << std::endl;
         if ((error_k_ < tolerance_k_) && (error_psi_ < tolerance_psi_) &&
-            (n_iterations >= min_iterations_)) {
+            (n_iterations + 1 >= min_iterations_)) {
             LogScreen << "Convergence criteria satisfied!" << std::endl;
             break;
         }
-- 
2.43.0


From 8f00c1c152d8059c9910a617debceb0e773e28c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:44 +0000
Subject: [PATCH 41/69] fix: dump all requested iterations after a zero or
 repeated entry

A zero or repeated entry in dump_iterations was never reached, so none of
the later iterations in the list was written.
---
 src/solvers/eigen_solver.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/solvers/eigen_solver.cpp b/src/solvers/eigen_solver.cpp
index af1f6b3..a9838b6 100644
--- a/src/solvers/eigen_solver.cpp
+++ b/src/solvers/eigen_solver.cpp
@@ -86,6 +86,14 @@ EigenSolver::EigenSolver(const pugi::xml_node &input, const CoreMesh &mesh)
         dump_iterations_ =
             explode_string<int>(input.child("dump_iterations").child_value());
         std::sort(dump_iterations_.begin(), dump_iterations_.end());
+        // Iterations are numbered from one, and each is dumped once
+        dump_iterations_.erase(
+            std::unique(dump_iterations_.begin(), dump_iterations_.end()),
+            dump_iterations_.end());
+        dump_iterations_.erase(
+            dump_iterations_.begin(),
+            std::upper_bound(dump_iterations_.begin(), dump_iterations_.end(),
+                             0));
         LogFile << "Dumping data for eigenvalue iterations:" << std::endl;
         for (const auto i : dump_iterations_) {
             LogFile << i << " ";
-- 
2.43.0


From 1198d54b058d4f11ad08ce8b84ade5e0e5201272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:29:36 +0000
Subject: [PATCH 42/69] fix: store CMFD currents on the top surface and only on
 plane group bounds

With more than one plane per plane group, the current through the top of
the core was left at zero after a CMFD solve, and planes inside a group
were given the current of the bottom of the group.
---
 src/core/cmfd.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/core/cmfd.cpp b/src/core/cmfd.cpp
index ab2c243..3f66c47 100644
--- a/src/core/cmfd.cpp
+++ b/src/core/cmfd.cpp
@@ -626,8 +626,17 @@ void CMFD::store_currents()
                     int stp_coarse = mesh_.plane_surf_xy_begin(mplane) - 1;
                     coarse_data_.current(blitz::Range(stt_fine, stp_fine), ig) =
                         current_1g_(blitz::Range(stt_coarse, stp_coarse));
+                    current_mplane = mplane;
                 }
             }
+            // Lastly, store the top surface currents
+            int n_mplanes  = fine_mesh_->n_macroplanes();
+            int stt_fine   = fine_mesh_->plane_surf_begin(nz);
+            int stp_fine   = fine_mesh_->plane_surf_xy_begin(nz) - 1;
+            int stt_coarse = mesh_.plane_surf_begin(n_mplanes);
+            int stp_coarse = mesh_.plane_surf_xy_begin(n_mplanes) - 1;
+            coarse_data_.current(blitz::Range(stt_fine, stp_fine), ig) =
+                current_1g_(blitz::Range(stt_coarse, stp_coarse));
 
         } else {
             coarse_data_.current(blitz::Range::all(), ig) = current_1g_;
-- 
2.43.0


From 3dc31e7b6f021c236298ab5387aee4e3ebf2dbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:30:00 +0000
Subject: [PATCH 43/69] fix: write CMFD currents on the mesh they are stored on

With more than one plane per plane group, the currents in the result file
were looked up with the surface numbers of the wrong mesh.
---
 src/core/cmfd.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/core/cmfd.cpp b/src/core/cmfd.cpp
index 3f66c47..4ddc0b9 100644
--- a/src/core/cmfd.cpp
+++ b/src/core/cmfd.cpp
@@ -680,10 +680,11 @@ void CMFD::output(H5Node &node) const
         return;
     }
 
-    auto dims = mesh_.dimensions();
+    // The currents are stored on the fine mesh
+    auto dims = fine_mesh_->dimensions();
     std::reverse(dims.begin(), dims.end());
 
-    ArrayB1 surf_current(mesh_.n_pin());
+    ArrayB1 surf_current(fine_mesh_->n_pin());
 
     auto current_g = node.create_group("current");
     current_g.write("source", coarse_data_.source());
@@ -695,9 +696,10 @@ void CMFD::output(H5Node &node) const
             std::stringstream s_str;
             s_str << surf;
 
-            for (int i = 0; i < mesh_.n_pin(); ++i) {
+            for (int i = 0; i < fine_mesh_->n_pin(); ++i) {
                 surf_current(i) =
-                    coarse_data_.current(mesh_.coarse_surf(i, surf), ig);
+                    coarse_data_.current(fine_mesh_->coarse_surf(i, surf),
+                                         ig);
             }
             group_g.write(s_str.str(), surf_current, dims);
         }
-- 
2.43.0


From cb60a1cd3455bb45ec53f7a420040905d3cb2218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:31:36 +0000
Subject: [PATCH 44/69] fix: keep surface fluxes finite where a group has no
 flux

The surface flux correction of CMFD was left as NaN between cells without
flux, which spread to the stored surface fluxes and partial currents.
---
 src/core/cmfd.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/cmfd.cpp b/src/core/cmfd.cpp
index 4ddc0b9..96983da 100644
--- a/src/core/cmfd.cpp
+++ b/src/core/cmfd.cpp
@@ -493,6 +493,9 @@ void CMFD::setup_solve()
                                    (1.0 - s_tilde(is)) * flux_r) /
                                       (flux_l + flux_r)
                                 : (sfc_flux - s_tilde(is) * flux_r) / (flux_r);
+                if (!std::isfinite(s_hat(is))) {
+                    s_hat(is) = 0.0;
+                }
             } else {
                 d_hat(is) = 0.0;
                 s_hat(is) = 0.0;
-- 
2.43.0


From 9c2ee6957dea3aa96735b7107ad0299210a6ef94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:40:49 +0000
Subject: [PATCH 45/69] fix: impose coarse fluxes on Sn cells that have none

Scaling a cell without flux by the ratio of the new to the old pin flux
gave NaN, which ended accelerated runs as soon as a cell flux was cut to
zero.
---
 src/sweepers/sn/sn_sweeper.hpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/sweepers/sn/sn_sweeper.hpp b/src/sweepers/sn/sn_sweeper.hpp
index 808ca93..d466cc9 100644
--- a/src/sweepers/sn/sn_sweeper.hpp
+++ b/src/sweepers/sn/sn_sweeper.hpp
@@ -126,23 +126,26 @@ public:
                 real_t e = plane_pin_flux(i) - pin_flux(i);
                 resid += e * e;
             }
-            plane_pin_flux /= pin_flux;
 
             int n_per_plane = mesh_.nx() * mesh_.ny();
             int mplane_stt  = 0;
-            int mplane_stp  = 0;
             for (const auto &mplane : mesh_.macroplanes()) {
-                mplane_stp = mplane_stt + n_per_plane;
-
                 for (int iz = mplane.iz_min; iz <= mplane.iz_max; iz++) {
-                    flux_(blitz::Range(mesh_.plane_cell_begin(iz),
-                                       mesh_.plane_cell_end(iz) - 1),
-                          group) /=
-                        plane_pin_flux(
-                            blitz::Range(mplane_stt, mplane_stp - 1));
+                    int cell = mesh_.plane_cell_begin(iz);
+                    for (int i = mplane_stt; i < mplane_stt + n_per_plane;
+                         i++) {
+                        // There is no shape to preserve if there is no flux
+                        if (plane_pin_flux(i) != 0.0) {
+                            flux_(cell, group) /=
+                                plane_pin_flux(i) / pin_flux(i);
+                        } else {
+                            flux_(cell, group) = pin_flux(i);
+                        }
+                        cell++;
+                    }
                 }
 
-                mplane_stt = mplane_stp;
+                mplane_stt += n_per_plane;
             }
         } break;
 
-- 
2.43.0


From 40b2381b558b4aafabf39bca3af96aa74cfe53de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:10:10 +0000
Subject: [PATCH 46/69] fix: add the backward rays to the surface flux of the
 2D3D sweep

The surface flux is the sum over both directions of a ray, as in the plain
MoC sweep. The worker that also makes the correction factors subtracted the
backward direction.
---
 src/sweepers/cmdo/correction_worker.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sweepers/cmdo/correction_worker.hpp b/src/sweepers/cmdo/correction_worker.hpp
index 039c9bd..a696702 100644
--- a/src/sweepers/cmdo/correction_worker.hpp
+++ b/src/sweepers/cmdo/correction_worker.hpp
@@ -133,7 +133,7 @@ public:
                 psi2[iseg_bw] * current_weights_[norm_bw];
             surface_flux(surf_fw + surf_offset_) +=
                 psi1[iseg_fw] * flux_weights_[norm_fw];
-            surface_flux(surf_bw + surf_offset_) -=
+            surface_flux(surf_bw + surf_offset_) +=
                 psi2[iseg_bw] * flux_weights_[norm_bw];
 
             surf_sum_(surf_fw * 2 + 0) += psi1[iseg_fw];
@@ -191,7 +191,7 @@ public:
                     surf_bw = mesh_->coarse_surf(cell_bw, crd->bw);
                     current(surf_bw + surf_offset_) -=
                         psi2[iseg_bw] * current_weights_[norm_bw];
-                    surface_flux(surf_bw + surf_offset_) -=
+                    surface_flux(surf_bw + surf_offset_) +=
                         psi2[iseg_bw] * flux_weights_[norm_bw];
                     surf_sum_(surf_bw * 2 + 1) += psi2[iseg_bw];
                     surf_norm_(surf_bw * 2 + 1) += 1.0;
-- 
2.43.0


From 5a1ea0933facb864cf652ad6d525ea5a6363f761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:10:20 +0000
Subject: [PATCH 47/69] fix: read correction factors for all planes when no top
 plane is given

The bounds are checked with the top of the core as the default, but the data
were then read with plane 0, which was refused as inconsistent.
---
 src/sweepers/cmdo/correction_data.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sweepers/cmdo/correction_data.cpp b/src/sweepers/cmdo/correction_data.cpp
index 4e0691e..a8dcd46 100644
--- a/src/sweepers/cmdo/correction_data.cpp
+++ b/src/sweepers/cmdo/correction_data.cpp
@@ -195,7 +195,7 @@ void CorrectionData::read_data_multi(const pugi::xml_node &input)
 
     for (auto data = input.child("data"); data;
          data      = data.next_sibling("data")) {
-        int top_plane = 0;
+        int top_plane = np - 1;
         int bot_plane = 0;
         if (!data.attribute("top_plane").empty()) {
             top_plane = data.attribute("top_plane").as_int();
-- 
2.43.0


From ecc8b88079e2d96d273e502ff70894f43d613aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:10:20 +0000
Subject: [PATCH 48/69] fix: read correction factors of several planes from one
 file

The factors of a whole core are written as one array with all its planes, but
could only be read if the core had a single plane.
---
 src/sweepers/cmdo/correction_data.cpp | 31 +++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/sweepers/cmdo/correction_data.cpp b/src/sweepers/cmdo/correction_data.cpp
index a8dcd46..fc1b8c2 100644
--- a/src/sweepers/cmdo/correction_data.cpp
+++ b/src/sweepers/cmdo/correction_data.cpp
@@ -86,8 +86,28 @@ void CorrectionData::read_data_single(const pugi::xml_node &data,
 
     H5Node h5d(data.attribute("file").value(), H5Access::READ);
 
+    // The file may store a single plane of data, which applies to all of the
+    // planes in the range, or one plane of data for each of them.
+    int n_cell       = nx_ * ny_;
+    int n_plane_file = 1;
+    {
+        int n = 1;
+        for (const auto d : h5d.dimensions("alpha_x/000/000")) {
+            n *= d;
+        }
+        if (n == n_cell * (top_plane - bottom_plane + 1)) {
+            n_plane_file = top_plane - bottom_plane + 1;
+        }
+    }
+
     // allocate a single buffer to read our data into for each group/angle
-    ArrayB1 inbuf(nx_ * ny_);
+    ArrayB1 inbuf(n_cell * n_plane_file);
+
+    // the part of the buffer that applies to a given plane
+    auto plane_range = [&](int ip) {
+        int stt = n_plane_file == 1 ? 0 : (ip - bottom_plane) * n_cell;
+        return blitz::Range(stt, stt + n_cell - 1);
+    };
 
     for (int ig = 0; ig < ngroup_; ig++) {
         for (int iang = 0; iang < nang_; iang++) {
@@ -105,7 +125,8 @@ void CorrectionData::read_data_single(const pugi::xml_node &data,
                     int stt = mesh_->plane_cell_begin(ip);
                     int stp = mesh_->plane_cell_end(ip) - 1;
                     alpha_(ig, iang, blitz::Range(stt, stp),
-                           (int)Normal::X_NORM) = inbuf;
+                           (int)Normal::X_NORM) =
+                        inbuf(plane_range(ip));
                 }
             }
             // alpha y
@@ -122,7 +143,8 @@ void CorrectionData::read_data_single(const pugi::xml_node &data,
                     int stt = mesh_->plane_cell_begin(ip);
                     int stp = mesh_->plane_cell_end(ip) - 1;
                     alpha_(ig, iang, blitz::Range(stt, stp),
-                           (int)Normal::Y_NORM) = inbuf;
+                           (int)Normal::Y_NORM) =
+                        inbuf(plane_range(ip));
                 }
             }
             // beta
@@ -138,7 +160,8 @@ void CorrectionData::read_data_single(const pugi::xml_node &data,
                 for (int ip = bottom_plane; ip <= top_plane; ip++) {
                     int stt = mesh_->plane_cell_begin(ip);
                     int stp = mesh_->plane_cell_end(ip) - 1;
-                    beta_(ig, iang, blitz::Range(stt, stp)) = inbuf;
+                    beta_(ig, iang, blitz::Range(stt, stp)) =
+                        inbuf(plane_range(ip));
                 }
             }
         }
-- 
2.43.0


From edd05fb5f493c10748ec33f55b790625842998fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:16:57 +0000
Subject: [PATCH 49/69] fix: keep the diamond difference in 2D3D cells without
 flux

A cell in which a direction carries no flux gave 0/0 for its correction
factors.
---
 src/sweepers/cmdo/correction_worker.cpp | 26 +++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/sweepers/cmdo/correction_worker.cpp b/src/sweepers/cmdo/correction_worker.cpp
index 261f628..052c8f9 100644
--- a/src/sweepers/cmdo/correction_worker.cpp
+++ b/src/sweepers/cmdo/correction_worker.cpp
@@ -99,10 +99,15 @@ void CurrentCorrections::calculate_corrections(size_t ang, size_t group)
             real_t psi_yr =
                 surf_sum_(mesh_->coarse_surf(ic, surfs[FW][YR]) * 2 + 0) *
                 area_y;
-            real_t ax = vol_sum_(ic * 2 + 0) / (psi_xl + psi_xr);
-            real_t ay = vol_sum_(ic * 2 + 0) / (psi_yl + psi_yr);
-
-            real_t b = sigt_sum_(ic * 2 + 0) / xstr;
+            // Without any flux in the cell, stick with the diamond difference
+            real_t ax = 0.5;
+            real_t ay = 0.5;
+            real_t b  = 1.0;
+            if (vol_sum_(ic * 2 + 0) != 0.0) {
+                ax = vol_sum_(ic * 2 + 0) / (psi_xl + psi_xr);
+                ay = vol_sum_(ic * 2 + 0) / (psi_yl + psi_yr);
+                b  = sigt_sum_(ic * 2 + 0) / xstr;
+            }
             assert(b == b);
 
             real_t e =
@@ -133,10 +138,15 @@ void CurrentCorrections::calculate_corrections(size_t ang, size_t group)
                 surf_sum_(mesh_->coarse_surf(ic, surfs[BW][YR]) * 2 + 1) *
                 area_y;
 
-            real_t ax = vol_sum_(ic * 2 + 1) / (psi_xl + psi_xr);
-            real_t ay = vol_sum_(ic * 2 + 1) / (psi_yl + psi_yr);
-
-            real_t b = sigt_sum_(ic * 2 + 1) / xstr;
+            // Without any flux in the cell, stick with the diamond difference
+            real_t ax = 0.5;
+            real_t ay = 0.5;
+            real_t b  = 1.0;
+            if (vol_sum_(ic * 2 + 1) != 0.0) {
+                ax = vol_sum_(ic * 2 + 1) / (psi_xl + psi_xr);
+                ay = vol_sum_(ic * 2 + 1) / (psi_yl + psi_yr);
+                b  = sigt_sum_(ic * 2 + 1) / xstr;
+            }
             assert(b == b);
 
             real_t e =
-- 
2.43.0


From 1a68901d2e8c95e1d87ee2183db31d45bcc3c72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:40:27 +0000
Subject: [PATCH 50/69] fix: keep a particle on the far side of the pin surface
 it crossed

The position within the pin was nudged by its x and y components
separately.  Close to a circle or a slanted line, this could push the
particle back across the surface it had just crossed, and the next
flight was scored in the region it had left.
---
 src/sweepers/mc/particle.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sweepers/mc/particle.hpp b/src/sweepers/mc/particle.hpp
index cdabee4..e9e8f38 100644
--- a/src/sweepers/mc/particle.hpp
+++ b/src/sweepers/mc/particle.hpp
@@ -101,8 +101,11 @@ public:
      */
     void move(real_t d)
     {
-        location.x += (d + BUMP) * direction.ox + BUMP * sgn(direction.ox);
-        location.y += (d + BUMP) * direction.oy + BUMP * sgn(direction.oy);
+        // Within the pin, stay on the line of travel. Nudging the coordinates
+        // separately can push a particle back across a curved or slanted
+        // surface that it has just crossed.
+        location.x += (d + BUMP) * direction.ox;
+        location.y += (d + BUMP) * direction.oy;
 
         location_global.x +=
             (d + BUMP) * direction.ox + BUMP * sgn(direction.ox);
-- 
2.43.0


From 0d637da74a7fdd64b9fcc72c91640afaa075bc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:10:28 +0000
Subject: [PATCH 51/69] fix: strip the extension of the input file name only

A dot in the directory part of the path was taken for the start of the
extension, so that the case was named after part of the directory.
---
 src/input_proc.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/input_proc.cpp b/src/input_proc.cpp
index ee90a4c..9b03384 100644
--- a/src/input_proc.cpp
+++ b/src/input_proc.cpp
@@ -40,6 +40,13 @@ std::string strip_extension(std::string input)
 {
     std::string ret = input;
     size_t pos      = ret.rfind(".");
+    // Only the file name itself has an extension, not the directories leading
+    // to it; nor is the whole name one
+    size_t name = ret.rfind("/");
+    name        = (name == std::string::npos) ? 0 : name + 1;
+    if ((pos == std::string::npos) || (pos <= name)) {
+        return ret;
+    }
     return ret.substr(0, pos);
 }
 
-- 
2.43.0


From fa65f1c56e8874ff328d502b24487498122f5372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:10:28 +0000
Subject: [PATCH 52/69] fix: refuse lattices with undefined pins or negative
 dimensions

Both ended the program with an uncaught exception.
---
 src/core/lattice.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/core/lattice.cpp b/src/core/lattice.cpp
index 391fd73..11de1d9 100644
--- a/src/core/lattice.cpp
+++ b/src/core/lattice.cpp
@@ -38,11 +38,13 @@ Lattice::Lattice(const pugi::xml_node &input,
     }
 
     // Get dimensions
-    nx_ = input.attribute("nx").as_int(0);
-    ny_ = input.attribute("ny").as_int(0);
-    if ((nx_ == 0) | (ny_ == 0)) {
+    int nx_in = input.attribute("nx").as_int(0);
+    int ny_in = input.attribute("ny").as_int(0);
+    if ((nx_in < 1) || (ny_in < 1)) {
         throw EXCEPT("Trouble reading lattice dimensions.");
     }
+    nx_ = nx_in;
+    ny_ = ny_in;
 
     auto pin_ids = explode_string<int>(input.child_value());
     if (pin_ids.size() != nx_ * ny_) {
@@ -61,6 +63,9 @@ Lattice::Lattice(const pugi::xml_node &input,
         for (unsigned int ix = 0; ix < nx_; ix++) {
             unsigned int col       = ix;
             int pin_id             = pin_ids[iy * nx_ + ix];
+            if (pins.count(pin_id) == 0) {
+                throw EXCEPT("Unrecognized pin ID in lattice.");
+            }
             pins_[row * nx_ + col] = pins.at(pin_id).get();
         }
     }
-- 
2.43.0


From 447800af08520592a27a59b306e60be56af00753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:10:28 +0000
Subject: [PATCH 53/69] fix: refuse cylindrical pin meshes without rings,
 sectors or area

Radii that are not positive or not distinct and subdivisions below one
were accepted and led to empty regions or crashes.
---
 src/core/pin_mesh_cyl.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/core/pin_mesh_cyl.cpp b/src/core/pin_mesh_cyl.cpp
index 2fac811..9415ace 100644
--- a/src/core/pin_mesh_cyl.cpp
+++ b/src/core/pin_mesh_cyl.cpp
@@ -53,9 +53,15 @@ PinMesh_Cyl::PinMesh_Cyl(const pugi::xml_node &input) : PinMesh(input)
             stringstream msg;
             msg << "Dangling data in radii for pin ID=" << id_;
         }
+        // Make sure that there is something inside of the first radius
+        if (xs_radii_[0] <= 0.0) {
+            stringstream msg;
+            msg << "Pin radii must be positive for pin ID=" << id_;
+            throw EXCEPT(msg.str());
+        }
         // Make sure the radii are ordered
         for (unsigned int i = 0; i < xs_radii_.size() - 1; i++) {
-            if (xs_radii_[i] > xs_radii_[i + 1]) {
+            if (xs_radii_[i] >= xs_radii_[i + 1]) {
                 // The radii are not ordered. Pitch a fit
                 stringstream msg;
                 msg << "Pin radii do not appear to be ordered for pin ID="
@@ -91,7 +97,8 @@ PinMesh_Cyl::PinMesh_Cyl(const pugi::xml_node &input) : PinMesh(input)
         // Make sure that the azimuthal division is even and <=8. One of
         // these days, ill solve the more general problem of any number of
         // azis.
-        if ((sub_azi_[0] % 2 != 0) | (sub_azi_[0] > 8)) {
+        if ((sub_azi_[0] % 2 != 0) || (sub_azi_[0] < 2) ||
+            (sub_azi_[0] > 8)) {
             throw EXCEPT("Only supporting even azimuthal subdivisions "
                          "<=8.");
         }
@@ -105,6 +112,11 @@ PinMesh_Cyl::PinMesh_Cyl(const pugi::xml_node &input) : PinMesh(input)
         if ((int)sub_rad_.size() != (n_xsreg_ - 1)) {
             throw EXCEPT("Wrong number of radial subdivisions specified.");
         }
+        for (auto n : sub_rad_) {
+            if (n < 1) {
+                throw EXCEPT("Radial subdivisions must be positive.");
+            }
+        }
     }
 
     //
-- 
2.43.0


From acef54c7dfcdf6a8984691229c7d05c02bab63c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:10:28 +0000
Subject: [PATCH 54/69] fix: refuse assemblies with heights or plane counts
 that are not positive

They ended in a failed assertion, an allocation failure or planes of
negative volume.
---
 src/core/assembly.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/core/assembly.cpp b/src/core/assembly.cpp
index 56e00b6..77fb6e4 100644
--- a/src/core/assembly.cpp
+++ b/src/core/assembly.cpp
@@ -37,12 +37,13 @@ Assembly::Assembly(const pugi::xml_node &input,
     }
 
     // Parse number of planes
-    nz_ = input.attribute("np").as_int(0);
-    if (nz_ == 0) {
+    int nz_in = input.attribute("np").as_int(0);
+    if (nz_in < 1) {
         throw EXCEPT(
             "Invalid number of planes (nz) when parsing "
             "assembly.");
     }
+    nz_ = nz_in;
 
     // Parse plane heights (scalar form)
     if (!(input.attribute("hz").empty() ^ input.child("hz").empty())) {
@@ -76,6 +77,12 @@ Assembly::Assembly(const pugi::xml_node &input,
         std::reverse(dz_.begin(), dz_.end());
     }
 
+    if (dz_.empty() || (*std::min_element(dz_.begin(), dz_.end()) <= 0.0)) {
+        std::stringstream msg;
+        msg << "Plane heights must be positive for assembly " << id_ << ".";
+        throw EXCEPT(msg.str());
+    }
+
     // Parse lattice IDs
     if (input.child("lattices").empty()) {
         throw EXCEPT("No lattices specified!");
-- 
2.43.0


From ba114279d2b62b3010b8711d9290445b857b9ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:10:28 +0000
Subject: [PATCH 55/69] fix: check all materials of a pin

The check stopped at the first fissile material, so that an undefined
material after it was only found by a failed lookup later.
---
 src/core/pin.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/core/pin.cpp b/src/core/pin.cpp
index ae1d177..9f3bfa7 100644
--- a/src/core/pin.cpp
+++ b/src/core/pin.cpp
@@ -72,7 +72,6 @@ Pin::Pin(const pugi::xml_node &input, const PinMesh_Map_t &meshes,
         const auto &mat = mat_lib[mid];
         if (mat.is_fissile()) {
             is_fuel_ = true;
-            break;
         }
     }
 
-- 
2.43.0


From 4bde7acb3874da78dd4b531e89d9c505b966a970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:11:25 +0000
Subject: [PATCH 56/69] fix: refuse planes of lattices with different numbers
 of pins

Lattices of equal width but with more or fewer pins were accepted next to
each other, although the pins then do not line up. Sweepers crashed on
such a core.
---
 src/core/plane.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/plane.cpp b/src/core/plane.cpp
index f29d6a0..3b4a6cd 100644
--- a/src/core/plane.cpp
+++ b/src/core/plane.cpp
@@ -59,6 +59,11 @@ Plane::Plane(const std::vector<const Lattice *> &lattices, size_t nx, size_t ny)
             if (!fp_equiv_ulp(this->at(ix, iy).hy(), dy[iy])) {
                 throw EXCEPT("Lattices do not have compatible dimensions.");
             }
+            if ((this->at(ix, iy).nx() != this->at(ix, 0).nx()) ||
+                (this->at(ix, iy).ny() != this->at(0, iy).ny())) {
+                throw EXCEPT("Lattices do not have compatible numbers of "
+                             "pins.");
+            }
         }
     }
 
-- 
2.43.0


From c8229782acb1b4a2a43c236808087ff9c5e71153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:11:25 +0000
Subject: [PATCH 57/69] fix: refuse a fission box that extends beyond the core

Particles started outside the core crashed the program, and so did a
negative number of them.
---
 src/sweepers/mc/fission_bank.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/sweepers/mc/fission_bank.cpp b/src/sweepers/mc/fission_bank.cpp
index 9bbe7b6..422f2b4 100644
--- a/src/sweepers/mc/fission_bank.cpp
+++ b/src/sweepers/mc/fission_bank.cpp
@@ -58,6 +58,19 @@ FissionBank::FissionBank(const pugi::xml_node &input, int n,
         throw EXCEPT("Invalid fission_box bounds specified.");
     }
 
+    // The sites have to lie in the core
+    real_t z_core = mesh.z(mesh.nz());
+    if ((x_min < 0.0) || (y_min < 0.0) || (z_min < 0.0) ||
+        (x_max > mesh.hx_core() * (1.0 + REAL_FUZZ)) ||
+        (y_max > mesh.hy_core() * (1.0 + REAL_FUZZ)) ||
+        (z_max > z_core * (1.0 + REAL_FUZZ))) {
+        throw EXCEPT("The fission_box extends beyond the core.");
+    }
+
+    if (n < 0) {
+        throw EXCEPT("Invalid number of fission sites requested.");
+    }
+
     // See if we want to do a fissile region rejection (only accept fission
     // sites in fissile regions).
     bool fissile_rejection = input.attribute("fissile_rejection").as_bool(true);
-- 
2.43.0


From 6d11448653d0b9b957ece6c17b7396dd06b22dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:11:25 +0000
Subject: [PATCH 58/69] fix: refuse materials without an ID

They were silently given the ID 0.
---
 src/core/material_lib.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/material_lib.cpp b/src/core/material_lib.cpp
index 0064483..9bd6862 100644
--- a/src/core/material_lib.cpp
+++ b/src/core/material_lib.cpp
@@ -142,6 +142,9 @@ MaterialLib::MaterialLib(const pugi::xml_node &input) : n_material_(0)
     // Parse material IDs
     for (auto mat = input.child("material"); mat;
          mat      = mat.next_sibling("material")) {
+        if (mat.attribute("id").empty()) {
+            throw EXCEPT("No ID specified for a material.");
+        }
         this->assignID(mat.attribute("id").as_int(),
                        mat.attribute("name").value());
     }
-- 
2.43.0


From 3ea769651900772e1147cbc5a244c4a3ce6594c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:19:47 +0000
Subject: [PATCH 59/69] fix: refuse fixed source problems without an iteration
 limit

The limit was stored unsigned before it was checked, so that a missing or
negative one was taken for a very large number.
---
 src/solvers/fixed_source_solver.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/solvers/fixed_source_solver.cpp b/src/solvers/fixed_source_solver.cpp
index cd47f95..78ce1e3 100644
--- a/src/solvers/fixed_source_solver.cpp
+++ b/src/solvers/fixed_source_solver.cpp
@@ -42,11 +42,12 @@ FixedSourceSolver::FixedSourceSolver(const pugi::xml_node &input,
                 << std::endl;
 
         // Iteration limit
-        max_iter_ = input.attribute("max_iter").as_int(-1);
-        if (max_iter_ <= 0) {
+        int max_iter = input.attribute("max_iter").as_int(-1);
+        if (max_iter <= 0) {
             throw EXCEPT("Failed to parse reasonable number of maximum "
                          "iterations.");
         }
+        max_iter_ = max_iter;
 
         // Convergence criterion
         flux_tol_ = input.attribute("flux_tol").as_float(-1.0);
-- 
2.43.0


From 031730722a946600e1678eaa585bc123457a1c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:21:44 +0000
Subject: [PATCH 60/69] fix: refuse Monte Carlo runs without active cycles

With more inactive cycles than cycles there was nothing to average, and
writing the results failed.
---
 src/solvers/monte_carlo_eigenvalue_solver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/solvers/monte_carlo_eigenvalue_solver.cpp b/src/solvers/monte_carlo_eigenvalue_solver.cpp
index 5978147..588b3ee 100644
--- a/src/solvers/monte_carlo_eigenvalue_solver.cpp
+++ b/src/solvers/monte_carlo_eigenvalue_solver.cpp
@@ -70,6 +70,9 @@ MonteCarloEigenvalueSolver::MonteCarloEigenvalueSolver(
     if (n_inactive_cycles_ < 0) {
         throw EXCEPT("Invalid number of inactive cycles specified");
     }
+    if (n_inactive_cycles_ > n_cycles_) {
+        throw EXCEPT("There should not be more inactive cycles than cycles");
+    }
     if (n_inactive_cycles_ == 0) {
         Warn("Zero inactive cycles requested. You sure?");
     }
-- 
2.43.0


From 9d87103f78aa5257ed782a9e710fe1d473e37be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:35:10 +0000
Subject: [PATCH 61/69] fix: report failures to open HDF5 files and groups as
 errors

A missing file or group raised an exception of the HDF5 library, which the
driver does not handle.
---
 src/util/h5file.cpp | 14 +++++++++++++-
 src/util/h5file.hpp |  9 ++++++++-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/util/h5file.cpp b/src/util/h5file.cpp
index b5e85ee..bdfea30 100644
--- a/src/util/h5file.cpp
+++ b/src/util/h5file.cpp
@@ -34,8 +34,20 @@ unsigned int convert_access(mocc::H5Access access)
 }
 
 namespace mocc {
+static std::shared_ptr<H5::H5File> open_file(const char *filename,
+                                             H5Access access)
+{
+    try {
+        return std::make_shared<H5::H5File>(filename, convert_access(access));
+    } catch (...) {
+        std::stringstream msg;
+        msg << "Failed to open HDF5 file '" << filename << "'";
+        throw EXCEPT(msg.str());
+    }
+}
+
 H5Node::H5Node(const char *filename, H5Access access)
-    : file_(new H5::H5File(filename, convert_access(access))),
+    : file_(open_file(filename, access)),
       node_(file_),
       access_(access)
 {
diff --git a/src/util/h5file.hpp b/src/util/h5file.hpp
index 77694f8..b8ddefe 100644
--- a/src/util/h5file.hpp
+++ b/src/util/h5file.hpp
@@ -113,7 +113,14 @@ public:
      */
     H5Node operator[](std::string path)
     {
-        std::shared_ptr<H5::CommonFG> g(new H5::Group(node_->openGroup(path)));
+        std::shared_ptr<H5::CommonFG> g;
+        try {
+            g.reset(new H5::Group(node_->openGroup(path)));
+        } catch (...) {
+            std::stringstream msg;
+            msg << "Failed to open group: " << path;
+            throw EXCEPT(msg.str());
+        }
         return H5Node(g, access_);
     }
 
-- 
2.43.0


From daaa0650832ef247f8d4f3f1bbad72a53c0c9076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:35:10 +0000
Subject: [PATCH 62/69] fix: keep the index order of Blitz arrays in HDF5 files

Arrays stored in other than row-major order were written and read in memory
order, which permutes their elements.
---
 src/util/h5file.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/util/h5file.hpp b/src/util/h5file.hpp
index b8ddefe..952ac22 100644
--- a/src/util/h5file.hpp
+++ b/src/util/h5file.hpp
@@ -188,7 +188,11 @@ public:
             H5::DataSpace space(dims.size(), dims.data());
             H5::DataSet dataset =
                 node_->createDataSet(path, H5::PredType::NATIVE_DOUBLE, space);
-            dataset.write(data.data(), H5::PredType::NATIVE_DOUBLE);
+            // HDF5 expects the elements in row-major order, which need not be
+            // how they are stored
+            BlitzArray buffer(data.shape());
+            buffer = data;
+            dataset.write(buffer.data(), H5::PredType::NATIVE_DOUBLE);
         } catch (...) {
             std::stringstream msg;
             msg << "Failed to write dataset: " << path;
@@ -333,7 +337,9 @@ public:
         }
 
         try {
-            dataset.read(data.data(), H5::PredType::NATIVE_DOUBLE);
+            BlitzArray buffer(data.shape());
+            dataset.read(buffer.data(), H5::PredType::NATIVE_DOUBLE);
+            data = buffer;
         } catch (...) {
             std::stringstream msg;
             msg << "Failed to read dataset: " << path;
-- 
2.43.0


From 8dd82981009aa59afab9a4f03db919254915d677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:35:10 +0000
Subject: [PATCH 63/69] fix: refuse to read HDF5 data into an array of another
 rank

With an allocated array, only as many dimensions as the dataset has were
compared, reading past the end of the array's shape or storage.
---
 src/util/h5file.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/util/h5file.hpp b/src/util/h5file.hpp
index 952ac22..e51acdc 100644
--- a/src/util/h5file.hpp
+++ b/src/util/h5file.hpp
@@ -300,9 +300,6 @@ public:
             throw EXCEPT(msg.str().c_str());
         }
 
-        if ((int)ndim != data.dimensions()) {
-        }
-
         auto shape = data.shape();
         auto size  = data.size();
 
@@ -327,6 +324,10 @@ public:
                     throw EXCEPT("Incorrect array size.");
                 }
             } else {
+                if (data.dimensions() != ndim) {
+                    throw EXCEPT(
+                        "Array and dataset dimensionality disagree.");
+                }
                 // Make sure the dimensions match
                 for (int i = 0; i < ndim; i++) {
                     if (shape[i] != (int)dims[i]) {
-- 
2.43.0


From 8beef0135a1ce82a4dd495c89749cbb55a193e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:35:10 +0000
Subject: [PATCH 64/69] fix: refuse to write HDF5 data that does not fill its
 dimensions

Data shorter than the dimensions was read past its end, and iterator ranges
longer than them were copied past the end of the buffer.
---
 src/util/h5file.cpp | 10 +++++++++-
 src/util/h5file.hpp |  7 ++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/util/h5file.cpp b/src/util/h5file.cpp
index bdfea30..164f18a 100644
--- a/src/util/h5file.cpp
+++ b/src/util/h5file.cpp
@@ -143,7 +143,10 @@ void H5Node::write(std::string path, const VecF &data, VecI dims)
         dims_a[i] = dims[i];
         size *= dims[i];
     }
-    assert(size == data.size());
+    if (size != (int)data.size()) {
+        delete[] dims_a;
+        throw EXCEPT("Data size does not match the dimensions.");
+    }
 
     try {
         H5::DataSpace space(dims.size(), dims_a);
@@ -168,8 +171,13 @@ void H5Node::write(std::string path, const ArrayB1 &data, VecI dims)
     }
     std::vector<hsize_t> dims_a;
     dims_a.reserve(dims.size());
+    int size = 1;
     for (const auto &v : dims) {
         dims_a.push_back(v);
+        size *= v;
+    }
+    if (size != (int)data.size()) {
+        throw EXCEPT("Data size does not match the dimensions.");
     }
 
     try {
diff --git a/src/util/h5file.hpp b/src/util/h5file.hpp
index e51acdc..650cdf8 100644
--- a/src/util/h5file.hpp
+++ b/src/util/h5file.hpp
@@ -398,9 +398,10 @@ public:
             dims_a.push_back(di);
         }
 
-        VecF d(n);
-        std::copy(first, last, d.begin());
-        assert((int)d.size() == n);
+        VecF d(first, last);
+        if ((int)d.size() != n) {
+            throw EXCEPT("Data size does not match the dimensions.");
+        }
 
         try {
             H5::DataSpace space(dims.size(), dims_a.data());
-- 
2.43.0


From f168d1c4f39421a2a5d2c90ccdcb746332eea1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:35:10 +0000
Subject: [PATCH 65/69] fix: refuse to read HDF5 arrays into a scalar

Reading wrote all elements of the dataset over the memory following the
scalar.
---
 src/util/h5file.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util/h5file.hpp b/src/util/h5file.hpp
index 650cdf8..5c9ba1d 100644
--- a/src/util/h5file.hpp
+++ b/src/util/h5file.hpp
@@ -367,6 +367,10 @@ public:
             throw EXCEPT(msg.str().c_str());
         }
 
+        if (dataspace.getSimpleExtentNpoints() != 1) {
+            throw EXCEPT("Dataset is not a scalar: " + path);
+        }
+
         try {
             dataset.read(&data, H5::PredType::NATIVE_INT);
         } catch (...) {
-- 
2.43.0


From f15210c9c2c9196d33c0aae9a55814761675d6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:35:56 +0000
Subject: [PATCH 66/69] fix: write reversed Blitz arrays to HDF5 files in index
 order

The reshaping version of write() read past the end of an array stored
backwards.
---
 src/util/h5file.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/h5file.cpp b/src/util/h5file.cpp
index 164f18a..79d3af7 100644
--- a/src/util/h5file.cpp
+++ b/src/util/h5file.cpp
@@ -184,7 +184,9 @@ void H5Node::write(std::string path, const ArrayB1 &data, VecI dims)
         H5::DataSpace space(dims.size(), dims_a.data());
         H5::DataSet dataset =
             node_->createDataSet(path, H5::PredType::NATIVE_DOUBLE, space);
-        dataset.write(data.data(), H5::PredType::NATIVE_DOUBLE);
+        ArrayB1 buffer(data.shape());
+        buffer = data;
+        dataset.write(buffer.data(), H5::PredType::NATIVE_DOUBLE);
     } catch (...) {
         std::stringstream msg;
         msg << "Failed to write dataset: " << path;
-- 
2.43.0


From 849735713d33129d1fd0af0cbde5cd5807baa312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:35:56 +0000
Subject: [PATCH 67/69] fix: accept an empty link source as the node itself

The documentation of create_link() allows it, but HDF5 does not.
---
 src/util/h5file.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util/h5file.cpp b/src/util/h5file.cpp
index 79d3af7..7d95693 100644
--- a/src/util/h5file.cpp
+++ b/src/util/h5file.cpp
@@ -82,6 +82,10 @@ H5Node H5Node::create_group(std::string path)
 void H5Node::create_link(std::string source, std::string destination,
                          H5Link type)
 {
+    if (source.empty()) {
+        source = ".";
+    }
+
     try {
         switch (type) {
         case H5Link::HARD:
-- 
2.43.0


From adf11390c113579daa9c9bc2ccaa56e668ee6fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:46:12 +0000
Subject: [PATCH 68/69] fix: reflect particles that a reflection moves across
 another boundary

The small step back into the core after a reflection can cross another
boundary of the core next to it.  The particle then went on outside the
core.
---
 src/sweepers/mc/particle_pusher.cpp | 69 ++++++++++++++++-------------
 1 file changed, 37 insertions(+), 32 deletions(-)

diff --git a/src/sweepers/mc/particle_pusher.cpp b/src/sweepers/mc/particle_pusher.cpp
index 15e0b29..5451a15 100644
--- a/src/sweepers/mc/particle_pusher.cpp
+++ b/src/sweepers/mc/particle_pusher.cpp
@@ -281,41 +281,46 @@ void ParticlePusher::simulate(Particle p, bool tally)
                     std::cout << p << std::endl;
                 }
 
-                // Check for domain boundary crossing
-                auto bound_surf =
-                    mesh_.boundary_surface(p.location_global, p.direction);
-                bool reflected = false;
-                for (const auto &b : bound_surf) {
-                    if (print) {
-                        std::cout << b << std::endl;
-                    }
-                    if ((b != Surface::INTERNAL) && (p.alive)) {
-                        // We are exiting a domain boundary. Handle the boundary
-                        // condition.
-                        auto bc = mesh_.boundary_condition(b);
-                        switch (bc) {
-                        case Boundary::REFLECT:
-                            // Move the particle back into the domain so it's
-                            // not floating in limbo
-                            reflected = true;
-                            p.direction.reflect(b);
-                            break;
-                        case Boundary::VACUUM:
-                            // Just kill the thing
-                            p.alive = false;
-                            break;
-                        default:
-                            throw EXCEPT("Unsupported boundary condition");
+                // Check for domain boundary crossing. Moving back into the domain
+                // after a reflection can carry the particle across another
+                // boundary close by, so repeat this until it stays inside.
+                bool reflected = true;
+                while (reflected && p.alive) {
+                    reflected = false;
+                    auto bound_surf =
+                        mesh_.boundary_surface(p.location_global, p.direction);
+                    for (const auto &b : bound_surf) {
+                        if (print) {
+                            std::cout << b << std::endl;
+                        }
+                        if ((b != Surface::INTERNAL) && (p.alive)) {
+                            // We are exiting a domain boundary. Handle the boundary
+                            // condition.
+                            auto bc = mesh_.boundary_condition(b);
+                            switch (bc) {
+                            case Boundary::REFLECT:
+                                // Move the particle back into the domain so it's
+                                // not floating in limbo
+                                reflected = true;
+                                p.direction.reflect(b);
+                                break;
+                            case Boundary::VACUUM:
+                                // Just kill the thing
+                                p.alive = false;
+                                break;
+                            default:
+                                throw EXCEPT("Unsupported boundary condition");
+                            }
                         }
                     }
-                }
 
-                if (reflected) {
-                    p.move(BUMP);
-                    if (print) {
-                        std::cout << "Particle after reflection and move back:"
-                             << std::endl;
-                        std::cout << p << std::endl;
+                    if (reflected) {
+                        p.move(BUMP);
+                        if (print) {
+                            std::cout << "Particle after reflection and move back:"
+                                 << std::endl;
+                            std::cout << p << std::endl;
+                        }
                     }
                 }
 
-- 
2.43.0


From dd77f0d450c61fb05fa8f19bfee45052d63efe8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:05:01 +0000
Subject: [PATCH 69/69] fix: notice when a particle slips past a pin boundary

Moving a particle ends slightly beyond the surface it goes to.  Where a
surface inside the pin meets the pin boundary, or at a collision next to
the boundary, this took the particle out of the pin unnoticed.  The
boundary it had passed was then ignored and the particle could leave the
core.
---
 src/sweepers/mc/particle_pusher.cpp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/sweepers/mc/particle_pusher.cpp b/src/sweepers/mc/particle_pusher.cpp
index 5451a15..1a239ab 100644
--- a/src/sweepers/mc/particle_pusher.cpp
+++ b/src/sweepers/mc/particle_pusher.cpp
@@ -26,7 +26,9 @@
 namespace {
 using namespace mocc;
 // Given an array of two points and a Particle, determine the distance from the
-// particle to the box formed by the
+// particle to the box formed by the two points. Moving a particle ends slightly
+// beyond the surface it goes to. If this took it out of the box already, the
+// distance is zero.
 real_t inline distance_to_pin(std::array<Point3, 2> bounds,
                               const mc::Particle &p)
 {
@@ -36,25 +38,36 @@ real_t inline distance_to_pin(std::array<Point3, 2> bounds,
     other = (p.direction.ox > 0.0)
                 ? (bounds[1].x - p.location_global.x) / p.direction.ox
                 : (bounds[0].x - p.location_global.x) / p.direction.ox;
-    other = other > 0.0 ? other : std::numeric_limits<real_t>::max();
+    other = p.direction.ox != 0.0 ? std::max(other, 0.0)
+                                  : std::numeric_limits<real_t>::max();
     dist  = std::min(other, dist);
 
     other = (p.direction.oy > 0.0)
                 ? (bounds[1].y - p.location_global.y) / p.direction.oy
                 : (bounds[0].y - p.location_global.y) / p.direction.oy;
-    other = other > 0.0 ? other : std::numeric_limits<real_t>::max();
+    other = p.direction.oy != 0.0 ? std::max(other, 0.0)
+                                  : std::numeric_limits<real_t>::max();
     dist  = std::min(other, dist);
 
     other = (p.direction.oz > 0.0)
                 ? (bounds[1].z - p.location_global.z) / p.direction.oz
                 : (bounds[0].z - p.location_global.z) / p.direction.oz;
-    other = other > 0.0 ? other : std::numeric_limits<real_t>::max();
+    other = p.direction.oz != 0.0 ? std::max(other, 0.0)
+                                  : std::numeric_limits<real_t>::max();
     dist  = std::min(other, dist);
 
     assert(dist < std::numeric_limits<real_t>::max());
     assert(dist >= 0.0);
     return dist;
 }
+
+// Determine whether a particle is outside of the box formed by two points
+bool inline outside(std::array<Point3, 2> bounds, const mc::Particle &p)
+{
+    const auto &l = p.location_global;
+    return (l.x < bounds[0].x) || (l.x > bounds[1].x) || (l.y < bounds[0].y) ||
+           (l.y > bounds[1].y) || (l.z < bounds[0].z) || (l.z > bounds[1].z);
+}
 }
 
 namespace mocc {
@@ -257,10 +270,10 @@ void ParticlePusher::simulate(Particle p, bool tally)
         } else {
             // Particle reached a surface before colliding. Move to the
             // surface and re-sample distance to collision.
-            if (!d_to_surf.second) {
+            p.move(d_to_surf.first);
+            if (!d_to_surf.second && !outside(location_info.pin_boundary, p)) {
                 // Particle crossed an internal boundary in the pin.
                 // Update its location and region index
-                p.move(d_to_surf.first);
                 p.ireg = location_info.pm->find_reg(p.location, p.direction) +
                          location_info.reg_offset;
                 assert(p.ireg >= 0);
@@ -272,9 +285,7 @@ void ParticlePusher::simulate(Particle p, bool tally)
             } else {
                 // Particle crossed a pin boundary. Move to neighboring pin,
                 // handle boundary condition, etc.
-                // Regardless of what happens, move the particle
                 p.coincident = -1;
-                p.move(d_to_surf.first);
 
                 if (print) {
                     std::cout << "particle after move to surf:" << std::endl;
-- 
2.43.0

