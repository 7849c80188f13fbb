From 0ea965b105177861d01de275d05a5160964af060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:19 +0000
Subject: [PATCH 01/77] fix: Box::DistanceToBorder for rays through edges and
 corners

A ray through an edge or corner hits several planes at the same distance.
These were counted as separate intersections, so the exit was reported as
entry, or no intersection was reported at all.
---
 src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx | 24 +++++++------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx b/src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx
index 6000455..ade3a92 100644
--- a/src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx
@@ -1,4 +1,5 @@
 
+#include <algorithm>
 #include <cmath>
 #include <vector>
 
@@ -226,6 +227,13 @@ std::pair<double, double> Box::DistanceToBorder(const Vector3D& position, const
         }
     }
 
+    // A trajectory through an edge or a corner of the box intersects several
+    // planes at the same distance, which is one intersection with the box.
+    std::sort(dist.begin(), dist.end());
+    dist.erase(std::unique(dist.begin(), dist.end(),
+                   [](double a, double b) { return b - a < GEOMETRY_PRECISION; }),
+        dist.end());
+
     if (dist.size() < 1) // No intersection with the box
     {
         distance.first  = -1;
@@ -240,24 +248,8 @@ std::pair<double, double> Box::DistanceToBorder(const Vector3D& position, const
                                  // of the particle trajectory ( two
                                  // intersections).
     {
-        if (dist.at(0) == dist.at(1)) {
-            // Both distances are equal, this means he have hit an edge of the box
-            distance.first = dist.at(0);
-            distance.second = -1;
-        }
         distance.first  = dist.at(0);
         distance.second = dist.at(1);
-        if (distance.second < distance.first)
-        {
-            std::swap(distance.first, distance.second);
-        }
-
-    } else if (dist.size() == 3 && dist.at(0) == dist.at(1) && dist.at(1) == dist.at(2))
-    {
-        // We have three intersections, all of them are equal, this means we
-        // hit an corner of the box
-        distance.first = dist.at(0);
-        distance.second = -1;
     } else
     {
         Logging::Get("proposal.geometry")->error("This point should never be reached... (-1/-1) is returned");
-- 
2.43.0


From 68c5dae1e10e757c10262ab049580f96c67b6a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:19 +0000
Subject: [PATCH 02/77] fix: Cylinder::DistanceToBorder for hollow cylinders
 and rim rays

Rays crossing the caps inside the hole were dropped and the bookkeeping of
inner/outer hits could return distances out of order; rays through the rim
produced duplicate hits.
---
 .../detail/PROPOSAL/geometry/Cylinder.cxx     | 326 ++++--------------
 1 file changed, 61 insertions(+), 265 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx b/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
index 6a5a27c..8575978 100644
--- a/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
@@ -1,5 +1,7 @@
 
+#include <algorithm>
 #include <cmath>
+#include <limits>
 #include <vector>
 
 #include "PROPOSAL/Constants.h"
@@ -175,10 +177,7 @@ std::pair<double, double> Cylinder::DistanceToBorder(const Vector3D& position, c
 
                 if (std::sqrt(std::pow((intersection_x - position_.GetX()), 2) +
                     std::pow((intersection_y - position_.GetY()), 2)) <=
-                        radius_ &&
-                    std::sqrt(std::pow((intersection_x - position_.GetX()), 2) +
-                    std::pow((intersection_y - position_.GetY()), 2)) >=
-                        inner_radius_)
+                        radius_ + GEOMETRY_PRECISION)
                 {
                     dist.push_back(t);
                 }
@@ -202,16 +201,21 @@ std::pair<double, double> Cylinder::DistanceToBorder(const Vector3D& position, c
 
                 if (std::sqrt(std::pow((intersection_x - position_.GetX()), 2) +
                     std::pow((intersection_y - position_.GetY()), 2)) <=
-                        radius_ &&
-                    std::sqrt(std::pow((intersection_x - position_.GetX()), 2) +
-                    std::pow((intersection_y - position_.GetY()), 2)) >=
-                        inner_radius_)
+                        radius_ + GEOMETRY_PRECISION)
                 {
                     dist.push_back(t);
                 }
             }
         }
     }
+    // A trajectory through the rim of the cylinder may intersect the barrel
+    // and the top/bottom surface at the same distance, which is one
+    // intersection with the cylinder.
+    std::sort(dist.begin(), dist.end());
+    dist.erase(std::unique(dist.begin(), dist.end(),
+                   [](double a, double b) { return b - a < GEOMETRY_PRECISION; }),
+        dist.end());
+
     // No intersection with the outer cylinder
     if (dist.size() < 1)
     {
@@ -227,33 +231,38 @@ std::pair<double, double> Cylinder::DistanceToBorder(const Vector3D& position, c
     {
         distance.first  = dist.at(0);
         distance.second = dist.at(1);
-
-        if (distance.second < distance.first)
-        {
-            std::swap(distance.first, distance.second);
-        }
-
     } else
     {
-        Logging::Get("proposal.geometry")->error("This point should never be reached");
-    }
-    // This cylinder might be hollow and we have to check if the inner border is
-    // reached before.
-    // So we caluculate the intersection with the inner cylinder.
+        Logging::Get("proposal.geometry")->error("This point should never be reached... (-1/-1) is returned");
 
-    if (inner_radius_ > 0)
+        distance.first  = -1;
+        distance.second = -1;
+    }
+    // This cylinder might be hollow. The part of the particle trajectory inside
+    // the hole is then removed from the part inside the cylinder, which leaves
+    // up to two parts inside the material. We are interested in the first one.
+    if (inner_radius_ > 0 && distance.first > 0)
     {
-        if (!(dir_vec.GetX() == 0 && dir_vec.GetY() == 0))
-        {
+        double begin = distance.second > 0 ? distance.first : 0;
+        double end = distance.second > 0 ? distance.second : distance.first;
 
-            A = std::pow((pos_vec.GetX() - position_.GetX()), 2) +
-                std::pow((pos_vec.GetY() - position_.GetY()), 2) -
-                inner_radius_*inner_radius_;
+        // part of the particle trajectory inside the hole
+        double hole_begin = std::numeric_limits<double>::infinity();
+        double hole_end = -std::numeric_limits<double>::infinity();
 
-            B = 2 *
-                ((pos_vec.GetX() - position_.GetX()) * dir_vec.GetX() + (pos_vec.GetY() - position_.GetY()) * dir_vec.GetY());
+        A = std::pow((pos_vec.GetX() - position_.GetX()), 2) +
+            std::pow((pos_vec.GetY() - position_.GetY()), 2) -
+            inner_radius_*inner_radius_;
 
-            C = dir_vec.GetX() * dir_vec.GetX() + dir_vec.GetY() * dir_vec.GetY();
+        C = dir_vec.GetX() * dir_vec.GetX() + dir_vec.GetY() * dir_vec.GetY();
+
+        if (C == 0) // particle trajectory is parallel to cylinder barrel
+        {
+            if (A < 0)
+                std::swap(hole_begin, hole_end);
+        } else
+        {
+            B = 2 * ((pos_vec.GetX() - position_.GetX()) * dir_vec.GetX() + (pos_vec.GetY() - position_.GetY()) * dir_vec.GetY());
 
             B /= C;
             A /= C;
@@ -262,245 +271,32 @@ std::pair<double, double> Cylinder::DistanceToBorder(const Vector3D& position, c
 
             if (determinant > 0) // determinant == 0 (boundery point) is ignored
             {
-                t1 = -1 * B / 2 + std::sqrt(determinant);
-                t2 = -1 * B / 2 - std::sqrt(determinant);
-
-                // Computer precision controll
-                if (t1 > 0 && t1 < GEOMETRY_PRECISION)
-                    t1 = 0;
-                if (t2 > 0 && t2 < GEOMETRY_PRECISION)
-                    t2 = 0;
-
-                // Ok we have a intersection with the inner cylinder
-
-                // If distance.first and distance.second are positive this means
-                // the cylinder is infornt of the particle. So the first
-                // distance
-                // ( intersection with the outer border) does not change
-                // but the second distance has to be updated (intersection with
-                // the inner border)
-                if (distance.first > 0 && distance.second > 0)
-                {
-                    if (t1 > 0)
-                    {
-                        intersection_z = pos_vec.GetZ() + t1 * dir_vec.GetZ();
-                        // is inside the borders
-                        if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                        {
-                            if (t1 < distance.second)
-                                distance.second = t1;
-                        }
-                    }
-
-                    if (t2 > 0)
-                    {
-                        intersection_z = pos_vec.GetZ() + t2 * dir_vec.GetZ();
-                        // is inside the borders
-                        if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                        {
-                            if (t2 < distance.second)
-                                distance.second = t2;
-                        }
-                    }
-                }
-                // The particle trajectory hits the inner cylinder first
-                // (particle flys through the hole and hits inner cylinder
-                // barrel first)
-                //  ___  ^     ___
-                // |   |  \   |   |
-                // |   |   \  |   |
-                // |   |    \ |   |
-                // |   |     \|   |
-                // |   |      *   |
-                // |   |      |\  |
-                // |   |      | x |
-                // |   |      |   |
-                // |___|      |___|
-                else if (distance.first < 0 && distance.second < 0)
-                {
-                    if (t1 > 0)
-                    {
-                        intersection_z = pos_vec.GetZ() + t1 * dir_vec.GetZ();
-                        // is inside the borders
-                        if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                        {
-                            distance.first = t1;
-                        }
-                    }
-                    if (t2 > 0)
-                    {
-                        intersection_z = pos_vec.GetZ() + t2 * dir_vec.GetZ();
-                        // is inside the borders
-                        if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                        {
-                            distance.first = t2;
-                        }
-                    }
-                }
-                // The particle is inside the outer cylinder
-                // or particle hits bottom or top surface and then hits
-                // the inner cylinder barrel
-                else
-                {
-                    // The inner cylinder is infront of the particle trajectory
-                    // distance.first has to be updated
-                    if (t1 > 0 && t2 > 0)
-                    {
-                        //  _____        _____
-                        // |     |      |     |
-                        // |     |      |     |
-                        // |     |      |     |
-                        // |     |      |     |
-                        // |     |      |     |
-                        // | x---*----->|     |
-                        // |     |      |     |
-                        // |     |      |     |
-                        // |_____|      |_____|
-                        //
-                        if (pos_vec.GetZ() >= z_calc_neg && pos_vec.GetZ() <= z_calc_pos &&
-                            std::sqrt(std::pow((pos_vec.GetX() - position_.GetX()), 2) +
-                            std::pow((pos_vec.GetY() - position_.GetY()), 2)) <=
-                                radius_ + GEOMETRY_PRECISION &&
-                            std::sqrt(std::pow((pos_vec.GetX() - position_.GetX()), 2) +
-                            std::pow((pos_vec.GetY() - position_.GetY()), 2)) >=
-                                inner_radius_ - GEOMETRY_PRECISION)
-                        {
-                            if (t1 < distance.first)
-                            {
-                                intersection_z = pos_vec.GetZ() + t1 * dir_vec.GetZ();
-                                // is inside the borders
-                                if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                                {
-                                    // This case means particle is inside in
-                                    // hits
-                                    // inner cylinder first
-                                    distance.first = t1;
-                                }
-                            }
-                            if (t2 < distance.first)
-                            {
-                                intersection_z = pos_vec.GetZ() + t2 * dir_vec.GetZ();
-                                // is inside the borders
-                                if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                                {
-                                    // This case means particle is inside in
-                                    // hits
-                                    // inner cylinder first
-                                    distance.first = t2;
-                                }
-                            }
-                        }
-                        //               ^
-                        //  _____       / _____
-                        // |     |     / |     |
-                        // |     |    /  |     |
-                        // |     |   /   |     |
-                        // |     |  /    |     |
-                        // |     | /     |     |
-                        // |     |/      |     |
-                        // |     *       |     |
-                        // |    /|       |     |
-                        // |___/_|       |_____|
-                        //    *
-                        //   x
-                        else
-                        {
-                            intersection_z = pos_vec.GetZ() + t1 * dir_vec.GetZ();
-                            // is inside the borders
-                            if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                            {
-                                // This case means particle is inside in hits
-                                // inner cylinder first
-                                distance.second = t1;
-                            }
-
-                            if (distance.second < 0)
-                            {
-                                intersection_z = pos_vec.GetZ() + t2 * dir_vec.GetZ();
-                                // is inside the borders
-                                if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                                {
-                                    // This case means particle is inside in
-                                    // hits
-                                    // inner cylinder first
-                                    distance.second = t2;
-                                }
-                            }
-                        }
-                    }
-                    // The particle is inside the inner cylinder
-                    // this means distance.second becomes distanc.first
-                    // and distance.first beomces distance to intersection with
-                    // the inner cylinder in direction of the particle
-                    // trajectory
-                    //  _____        _____
-                    // |     |      |     |
-                    // |     |      |     |
-                    // |     |      |     |
-                    // |     |      |     |
-                    // |     |      |     |
-                    // |     |  x---*-----*------->
-                    // |     |      |     |
-                    // |     |      |     |
-                    // |_____|      |_____|
-                    //
-                    if ((t1 > 0 && t2 < 0) || (t2 > 0 && t1 < 0))
-                    {
-                        if (t1 > 0)
-                        {
-                            intersection_z = pos_vec.GetZ() + t1 * dir_vec.GetZ();
-                            // is inside the borders
-                            if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                            {
-                                std::swap(distance.first, distance.second);
-                                distance.first = t1;
-                            }
-                        } else
-                        {
-                            intersection_z = pos_vec.GetZ() + t2 * dir_vec.GetZ();
-                            // is inside the borders
-                            if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                            {
-                                std::swap(distance.first, distance.second);
-                                distance.first = t2;
-                            }
-                        }
-                    }
-                    // Now we have to check if the particle is on the border of
-                    // the inner sphere
-                    if (t1 == 0)
-                    {
-                        // The particle is moving into the inner cylinder
-                        if (t2 > 0)
-                        {
-                            intersection_z = pos_vec.GetZ() + t2 * dir_vec.GetZ();
-                            // is inside the borders
-                            if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                            {
-                                std::swap(distance.first, distance.second);
-                                distance.first = t2;
-                            }
-                        }
-                        // if not we don't have to update distance.first
-                    }
-                    if (t2 == 0)
-                    {
-                        // The particle is moving into the inner sphere
-                        if (t1 > 0)
-                        {
-                            intersection_z = pos_vec.GetZ() + t1 * dir_vec.GetZ();
-                            // is inside the borders
-                            if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                            {
-                                std::swap(distance.first, distance.second);
-                                distance.first = t1;
-                            }
-                        }
-                        // if not we don't have to update distance.first
-                    }
-                }
+                hole_begin = -1 * B / 2 - std::sqrt(determinant);
+                hole_end = -1 * B / 2 + std::sqrt(determinant);
             }
         }
+
+        if (hole_begin < end && hole_end > begin)
+        {
+            if (hole_begin - begin >= GEOMETRY_PRECISION)
+                end = hole_begin; // the particle reaches the hole
+            else
+                begin = hole_end; // the particle crosses the hole first
+        }
+
+        if (end - begin < GEOMETRY_PRECISION)
+        {
+            distance.first  = -1;
+            distance.second = -1;
+        } else if (begin < GEOMETRY_PRECISION)
+        {
+            distance.first  = end;
+            distance.second = -1;
+        } else
+        {
+            distance.first  = begin;
+            distance.second = end;
+        }
     }
 
     // Make a computer precision controll!
-- 
2.43.0


From be7463bb3c7195133d43a1e40f513b20f7c4a90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:24 +0000
Subject: [PATCH 03/77] fix: compare axes of density distributions by type and
 direction

Density_distr::operator== compares axes through the base class, which only saw
the reference point: distributions along different axes, or along a Cartesian
and a radial axis, compared equal.
---
 .../PROPOSAL/density_distr/density_distr.h      |  5 +++++
 .../PROPOSAL/density_distr/density_distr.cxx    | 17 +++++++++++++----
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/density_distr/density_distr.h b/src/PROPOSAL/PROPOSAL/density_distr/density_distr.h
index 8300c05..5b483fa 100644
--- a/src/PROPOSAL/PROPOSAL/density_distr/density_distr.h
+++ b/src/PROPOSAL/PROPOSAL/density_distr/density_distr.h
@@ -54,6 +54,8 @@ class Axis {
     auto GetFp0() const { return fp0_; };
 
    protected:
+    virtual bool compare(const Axis& axis) const;
+
     Cartesian3D fp0_;
 };
 }  // namespace PROPOSAL
@@ -90,6 +92,9 @@ class CartesianAxis : public Axis {
     double GetDepth(const Vector3D& xi) const override;
     double GetEffectiveDistance(const Vector3D& xi, const Vector3D& direction) const override;
 
+   protected:
+    bool compare(const Axis& axis) const override;
+
    private:
     Cartesian3D fAxis_;
 
diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
index ec0636a..81cab91 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
@@ -1,5 +1,6 @@
 
 #include <iostream>
+#include <typeinfo>
 #include "PROPOSAL/Logging.h"
 #include "PROPOSAL/density_distr/density_distr.h"
 #include "PROPOSAL/density_distr/density_exponential.h"
@@ -73,9 +74,13 @@ Axis::Axis(const nlohmann::json& config) {
 Axis::Axis(const Axis& axis) : fp0_(axis.fp0_) {}
 
 bool Axis::operator==(const Axis& axis) const {
-    if(fp0_ != axis.fp0_)
+    if(typeid(*this) != typeid(axis))
         return false;
-    return true;
+    return compare(axis);
+}
+
+bool Axis::compare(const Axis& axis) const {
+    return fp0_ == axis.fp0_;
 }
 
 bool Axis::operator!=(const Axis& axis) const {
@@ -122,11 +127,15 @@ CartesianAxis::CartesianAxis(const nlohmann::json& config) : Axis(config) {
 }
 
 bool CartesianAxis::operator==(const CartesianAxis& axis) const {
-    if(fAxis_ != axis.fAxis_)
-        return false;
     return Axis::operator==(axis);
 }
 
+bool CartesianAxis::compare(const Axis& axis) const {
+    if(fAxis_ != static_cast<const CartesianAxis&>(axis).fAxis_)
+        return false;
+    return Axis::compare(axis);
+}
+
 bool CartesianAxis::operator!=(const CartesianAxis& axis) const {
     return !(*this == axis);
 }
-- 
2.43.0


From 4e7039d547981ed867eccdfd791562e318437217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:24 +0000
Subject: [PATCH 04/77] fix: compare the splines of Density_splines, not their
 addresses

---
 .../detail/PROPOSAL/density_distr/density_splines.cxx         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
index 6933db5..43c623f 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
@@ -43,9 +43,9 @@ bool Density_splines::compare(const Density_distr& dens_distr) const {
     const Density_splines* dens_splines= dynamic_cast<const Density_splines*>(&dens_distr);
     if(!dens_splines)
         return false;
-    if( spline_!= dens_splines->spline_)
+    if( *spline_ != *dens_splines->spline_)
         return false;
-    if( integrated_spline_!= dens_splines->integrated_spline_)
+    if( *integrated_spline_ != *dens_splines->integrated_spline_)
         return false;
     return true;
 }
-- 
2.43.0


From 511a1c4d85efb954c4b2056dd62cd52811038ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:24 +0000
Subject: [PATCH 05/77] fix: grammage of density distributions for rays not
 along the axis

The substitution from the ray to the axis contributes 1/delta, not 1/delta^2,
and delta = 0 (ray perpendicular to the axis) means constant density instead
of NaN.  The derivative handed to the root search is that of the function.
---
 .../detail/PROPOSAL/density_distr/density_exponential.cxx | 6 ++++++
 .../detail/PROPOSAL/density_distr/density_polynomial.cxx  | 8 +++++---
 .../detail/PROPOSAL/density_distr/density_splines.cxx     | 7 +++++--
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_exponential.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_exponential.cxx
index 02f75e7..c257716 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_exponential.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_exponential.cxx
@@ -48,6 +48,9 @@ double Density_exponential::Correct(const Vector3D& xi,
     double phi = GetDepth(xi);
     double delta = GetEffectiveDistance(xi, direction);
 
+    if (delta == 0) // constant density along the direction
+        return res / Evaluate(xi);
+
     double aux = 1. / delta * std::log(1 + std::exp(-phi) * res * delta / massDensity_);
 
     if (std::isnan(aux))
@@ -61,6 +64,9 @@ double Density_exponential::Integrate(const Vector3D& xi,
                                       double l) const {
     double delta = GetEffectiveDistance(xi, direction);
 
+    if (delta == 0) // constant density along the direction
+        return Evaluate(xi) * l;
+
     return massDensity_ * std::exp(GetDepth(xi) + l * delta) / delta;
 }
 
diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx
index b61cc00..1970894 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx
@@ -59,7 +59,7 @@ double Density_polynomial::helper_function(const Vector3D& xi,
                                            double l) const {
     (void)res;
     Cartesian3D dir_cartesian(direction);
-    return Evaluate(xi) - Evaluate(xi + l * dir_cartesian);
+    return -Evaluate(xi + l * dir_cartesian);
 }
 
 double Density_polynomial::Correct(const Vector3D& xi,
@@ -87,8 +87,10 @@ double Density_polynomial::Integrate(const Vector3D& xi,
                                      double l) const {
     double delta = axis_->GetEffectiveDistance(xi, direction);
 
-    return massDensity_ * antiderived_density_distribution(axis_->GetDepth(xi) + l * delta) /
-           (delta * delta);
+    if (delta == 0) // constant density along the direction
+        return Evaluate(xi) * l;
+
+    return massDensity_ * antiderived_density_distribution(axis_->GetDepth(xi) + l * delta) / delta;
 }
 
 double Density_polynomial::Calculate(const Vector3D& xi,
diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
index 43c623f..4a05763 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
@@ -63,7 +63,7 @@ double Density_splines::helper_function(const Vector3D& xi,
                                         double l) const {
     (void)res;
     auto dir_cartesian = Cartesian3D(direction);
-    return Evaluate(xi) - Evaluate(xi + l * dir_cartesian);
+    return -Evaluate(xi + l * dir_cartesian);
 }
 
 double Density_splines::Correct(const Vector3D& xi,
@@ -88,7 +88,10 @@ double Density_splines::Integrate(const Vector3D& xi,
                                   double l) const {
     double delta = axis_->GetEffectiveDistance(xi, direction);
 
-    return massDensity_ / (delta * delta) *
+    if (delta == 0) // constant density along the direction
+        return Evaluate(xi) * l;
+
+    return massDensity_ / delta *
            integrated_spline_->evaluate(axis_->GetDepth(xi) + l * delta);
 }
 
-- 
2.43.0


From f68e377ddfb7bf265aeffb7aeb042307b9f50cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:24 +0000
Subject: [PATCH 06/77] fix: sign of RadialAxis::GetEffectiveDistance

The depth is the distance from the reference point, so it grows for directions
pointing away from it; grammages along a radius contradicted Evaluate.
---
 src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
index 81cab91..98fcd7f 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
@@ -107,7 +107,7 @@ double RadialAxis::GetEffectiveDistance(const Vector3D& xi, const Vector3D& dire
     Cartesian3D aux{Cartesian3D(xi) - fp0_};
     aux.normalize();
 
-    return -aux * direction;
+    return aux * direction;
 }
 
 // %%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%
-- 
2.43.0


From abd4876f523b2197e9b92d821a3ef0552d370159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:00 +0000
Subject: [PATCH 07/77] fix: copies of a Polynom share no coefficients, Polynom
 from json

Copies shared the coefficient array, so shifting a copy changed the original.
The json constructor demanded an array and then looked up a key in it, which
always failed, and copied between iterators of different temporaries.
---
 src/PROPOSAL/PROPOSAL/math/Function.h         |  4 ++--
 .../detail/PROPOSAL/math/Function.cxx         | 22 +++++++------------
 2 files changed, 10 insertions(+), 16 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/math/Function.h b/src/PROPOSAL/PROPOSAL/math/Function.h
index b2aefe5..02aecd7 100644
--- a/src/PROPOSAL/PROPOSAL/math/Function.h
+++ b/src/PROPOSAL/PROPOSAL/math/Function.h
@@ -43,7 +43,7 @@ class Polynom {
    public:
     Polynom(std::vector<double> coefficients);
     Polynom(const nlohmann::json&);
-    Polynom(const Polynom&);
+    Polynom(const Polynom&) = default;
 
     ~Polynom() {};
     Polynom& operator=(const Polynom& poly) = default;
@@ -66,7 +66,7 @@ class Polynom {
 
    protected:
     int N_;
-    double* coeff_;
+    std::vector<double> coeff_;
 };
 
 }  // namespace PROPOSAL
diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
index 0138e80..11a067c 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
@@ -12,23 +12,18 @@
 
 using namespace PROPOSAL;
 
-Polynom::Polynom(std::vector<double> coefficients) : N_(coefficients.size()) {
-    coeff_ = new double[N_];
-
-    std::copy(coefficients.begin(), coefficients.end(), coeff_);
-}
+Polynom::Polynom(std::vector<double> coefficients)
+    : N_(coefficients.size()), coeff_(coefficients) {}
 
 Polynom::Polynom(const nlohmann::json& config) {
-    if(!config.is_array()) throw std::invalid_argument("Polynom is not an array.");
+    if(!config.contains("coefficients")) throw std::invalid_argument("Polynom: coefficients must be defined.");
+    if(!config["coefficients"].is_array() || config["coefficients"].empty())
+        throw std::invalid_argument("Polynom: coefficients is not an array.");
 
-    N_ = config["coefficients"].get<std::vector<double>>().size();
-    coeff_ = new double[N_];
-
-    std::copy(config["coefficients"].get<std::vector<double>>().begin(), config["coefficients"].get<std::vector<double>>().end(), coeff_);
+    coeff_ = config["coefficients"].get<std::vector<double>>();
+    N_ = coeff_.size();
 }
 
-Polynom::Polynom(const Polynom& poly) : N_(poly.N_), coeff_(poly.coeff_) {}
-
 bool Polynom::operator==(const Polynom& polynom) const {
     if (N_ != polynom.N_)
         return false;
@@ -98,8 +93,7 @@ Polynom Polynom::GetAntiderivative(double constant) {
 }
 
 std::vector<double> Polynom::GetCoefficient() const {
-    std::vector<double> v(coeff_, coeff_ + N_);
-    return v;
+    return coeff_;
 }
 
 std::function<double(double)> Polynom::GetFunction() {
-- 
2.43.0


From e04eaeb30104b196e2c5cf0a99ebf1d45aa9d965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:00 +0000
Subject: [PATCH 08/77] fix: Spline::Derivative and derivative of a constant
 Polynom

Spline::Derivative changed copies of the polynomials only; the derivative of a
constant had no coefficients at all and was evaluated out of bounds.
---
 src/PROPOSAL/detail/PROPOSAL/math/Function.cxx | 3 +++
 src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx   | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
index 11a067c..b1422ce 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
@@ -80,6 +80,9 @@ Polynom Polynom::GetDerivative() {
     for (auto i = 1; i < N_; ++i)
         derivative_coeff_.push_back(coeff_[i] * i);
 
+    if (derivative_coeff_.empty()) // derivative of a constant
+        derivative_coeff_.push_back(0);
+
     return Polynom(derivative_coeff_);
 }
 
diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
index 938e313..f883a8a 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
@@ -78,7 +78,7 @@ double Spline::evaluate(double x) {
 }
 
 void Spline::Derivative() {
-    for (auto spline : splines_)
+    for (auto& spline : splines_)
         spline = spline.GetDerivative();
 }
 
-- 
2.43.0


From 04aaaa05cb75e2a60df760c26adb5ce8c189c948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:50 +0000
Subject: [PATCH 09/77] fix: copying and assigning density distributions

Copies of Density_splines shared splines which each of them deleted, assigned
distributions shared the axis which each of them deleted, and an assigned
Density_polynomial evaluated the polynomial of the object assigned from.
---
 .../PROPOSAL/density_distr/density_distr.h        |  1 +
 .../PROPOSAL/density_distr/density_polynomial.h   |  1 +
 .../PROPOSAL/density_distr/density_splines.h      |  1 +
 .../PROPOSAL/density_distr/density_distr.cxx      | 10 ++++++++++
 .../PROPOSAL/density_distr/density_polynomial.cxx |  9 +++++++++
 .../PROPOSAL/density_distr/density_splines.cxx    | 15 +++++++++++++--
 6 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/density_distr/density_distr.h b/src/PROPOSAL/PROPOSAL/density_distr/density_distr.h
index 5b483fa..83a8919 100644
--- a/src/PROPOSAL/PROPOSAL/density_distr/density_distr.h
+++ b/src/PROPOSAL/PROPOSAL/density_distr/density_distr.h
@@ -120,6 +120,7 @@ class Density_distr {
     Density_distr(const Axis& axis, double);
     Density_distr(const nlohmann::json&);
     Density_distr(const Density_distr&);
+    Density_distr& operator=(const Density_distr&);
 
     virtual ~Density_distr() { delete axis_; };
 
diff --git a/src/PROPOSAL/PROPOSAL/density_distr/density_polynomial.h b/src/PROPOSAL/PROPOSAL/density_distr/density_polynomial.h
index 3ceeebe..8369262 100644
--- a/src/PROPOSAL/PROPOSAL/density_distr/density_polynomial.h
+++ b/src/PROPOSAL/PROPOSAL/density_distr/density_polynomial.h
@@ -41,6 +41,7 @@ class Density_polynomial : public Density_distr {
     Density_polynomial(const Axis&, const Polynom&, double massDensity);
     Density_polynomial(const Axis&, const Polynom&, const Medium& medium);
     Density_polynomial(const Density_polynomial&);
+    Density_polynomial& operator=(const Density_polynomial&);
     Density_polynomial(const nlohmann::json&);
     ~Density_polynomial();
 
diff --git a/src/PROPOSAL/PROPOSAL/density_distr/density_splines.h b/src/PROPOSAL/PROPOSAL/density_distr/density_splines.h
index 81cf0c6..a66b0fe 100644
--- a/src/PROPOSAL/PROPOSAL/density_distr/density_splines.h
+++ b/src/PROPOSAL/PROPOSAL/density_distr/density_splines.h
@@ -44,6 +44,7 @@ class Density_splines : public Density_distr {
     Density_splines(const Axis&, const Spline&, double massDensity);
     Density_splines(const Axis&, const Spline&, const Medium& medium);
     Density_splines(const Density_splines&);
+    Density_splines& operator=(const Density_splines&);
     Density_splines(const nlohmann::json&);
 
     ~Density_splines() {
diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
index 98fcd7f..1a50cf2 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
@@ -18,6 +18,16 @@ Density_distr::Density_distr() : axis_(CartesianAxis().clone()), massDensity_(1.
 Density_distr::Density_distr(const Density_distr& density_distr)
     : axis_(density_distr.axis_->clone()), massDensity_(density_distr.massDensity_) {}
 
+Density_distr& Density_distr::operator=(const Density_distr& density_distr)
+{
+    if (this != &density_distr) {
+        delete axis_;
+        axis_ = density_distr.axis_->clone();
+        massDensity_ = density_distr.massDensity_;
+    }
+    return *this;
+}
+
 Density_distr::Density_distr(const nlohmann::json& config) {
     if(!config.contains("axis_type"))
         throw std::invalid_argument("Axis: Type of axis must be specified using axis_type");
diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx
index 1970894..be84c0f 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx
@@ -28,6 +28,15 @@ Density_polynomial::Density_polynomial(const Density_polynomial& dens)
       density_distribution(polynom_.GetFunction()),
       antiderived_density_distribution(Polynom_.GetFunction()) {}
 
+Density_polynomial& Density_polynomial::operator=(const Density_polynomial& dens) {
+    Density_distr::operator=(dens);
+    polynom_ = dens.polynom_;
+    Polynom_ = dens.Polynom_;
+    density_distribution = polynom_.GetFunction();
+    antiderived_density_distribution = Polynom_.GetFunction();
+    return *this;
+}
+
 Density_polynomial::Density_polynomial(const nlohmann::json& config) : Density_distr(config),
     polynom_(config),
     Polynom_(polynom_.GetAntiderivative(0)),
diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
index 4a05763..246e698 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
@@ -19,8 +19,19 @@ Density_splines::Density_splines(const PROPOSAL::Axis& axis, const PROPOSAL::Spl
 
 Density_splines::Density_splines(const Density_splines& dens_splines)
     : Density_distr(dens_splines),
-      spline_(dens_splines.spline_),
-      integrated_spline_(dens_splines.integrated_spline_) {}
+      spline_(dens_splines.spline_->clone()),
+      integrated_spline_(dens_splines.integrated_spline_->clone()) {}
+
+Density_splines& Density_splines::operator=(const Density_splines& dens_splines) {
+    if (this != &dens_splines) {
+        Density_distr::operator=(dens_splines);
+        delete spline_;
+        delete integrated_spline_;
+        spline_ = dens_splines.spline_->clone();
+        integrated_spline_ = dens_splines.integrated_spline_->clone();
+    }
+    return *this;
+}
 
 Density_splines::Density_splines(const nlohmann::json& config) : Density_distr(config) {
     if(!config.contains("spline_type"))
-- 
2.43.0


From da39b358461ab8d88425f76884379018d3efea77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:01 +0000
Subject: [PATCH 10/77] fix: RadialAxis::GetEffectiveDistance at the reference
 point

The radial direction is undefined there, which made all grammages NaN.
---
 src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
index 1a50cf2..6a821f8 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
@@ -115,6 +115,9 @@ double RadialAxis::GetDepth(const Vector3D& xi) const {
 
 double RadialAxis::GetEffectiveDistance(const Vector3D& xi, const Vector3D& direction) const {
     Cartesian3D aux{Cartesian3D(xi) - fp0_};
+    if (aux.magnitude() == 0) // every direction points away from fp0
+        return Cartesian3D(direction).magnitude();
+
     aux.normalize();
 
     return aux * direction;
-- 
2.43.0


From a82437c7d3a5351baa3247a94d19ccbf8bbb34a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:51 +0000
Subject: [PATCH 11/77] fix: copies of an Integral keep their own integrand

---
 src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
index ab5af53..810c4c4 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
@@ -396,7 +396,7 @@ Integral::Integral(const Integral& integral)
     , q_rlist2_(integral.q_rlist2_)
     , q_iord_(integral.q_iord_)
 {
-    integrand_ = std::ref(integral.integrand_);
+    integrand_ = integral.integrand_;
 }
 
 //----------------------------------------------------------------------------//
@@ -571,7 +571,7 @@ void Integral::swap(Integral& integral)
     c_.swap(integral.c_);
     d_.swap(integral.d_);
 
-    integrand_ = std::ref(integral.integrand_);
+    integrand_.swap(integral.integrand_);
 
     swap(romberg4refine_, integral.romberg4refine_);
     swap(powerOfSubstitution_, integral.powerOfSubstitution_);
-- 
2.43.0


From 543bd4dd90a9e2192e8694271c799da97d22aa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:51 +0000
Subject: [PATCH 12/77] fix: Integral with less than 12 steps for the upper
 limit wrote beyond its buffers

---
 src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
index 810c4c4..f5f5ca0 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
@@ -359,8 +359,8 @@ Integral::Integral()
         precision_ = 1.e-6;
     }
 
-    iX_.resize(maxSteps_upper_limit_);
-    iY_.resize(maxSteps_upper_limit_);
+    iX_.resize(std::max(maxSteps_upper_limit_, maxSteps_romberg_));
+    iY_.resize(std::max(maxSteps_upper_limit_, maxSteps_romberg_));
 
     aux = std::max(romberg_, romberg4refine_);
     c_.resize(aux);
@@ -446,8 +446,8 @@ Integral::Integral(int romberg, int maxSteps, double precision)
     this->maxSteps_upper_limit_ = maxSteps;
     this->precision_            = precision;
 
-    iX_.resize(maxSteps_upper_limit_);
-    iY_.resize(maxSteps_upper_limit_);
+    iX_.resize(std::max(maxSteps_upper_limit_, maxSteps_romberg_));
+    iY_.resize(std::max(maxSteps_upper_limit_, maxSteps_romberg_));
 
     aux = std::max(romberg_, romberg4refine_);
     c_.resize(aux);
-- 
2.43.0


From 810f6021500be5393b49eaed49deeadd642eb037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:01 +0000
Subject: [PATCH 13/77] fix: Integral answered for an earlier range after an
 empty one

---
 src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
index f5f5ca0..24312d5 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
@@ -37,6 +37,8 @@ double Integral::Integrate(double min,
                            int method,
                            double powerOfSubstitution)
 {
+    randomDo_ = false;
+
     if (min == 0. && max == 0.)
     {
         return 0.;
@@ -78,6 +80,11 @@ double Integral::IntegrateWithRandomRatio(double min,
                                           double randomRatio,
                                           double powerOfSubstitution)
 {
+    // state of an empty range, for the ranges that are considered to be empty
+    this->min_ = min;
+    this->max_ = min;
+    randomDo_  = true;
+
     if (min == 0. && max == 0.)
     {
         return 0.;
-- 
2.43.0


From 5204dbab0153cdaf4f6169f6bd203dfb420808a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:17 +0000
Subject: [PATCH 14/77] fix: asking an Integral twice for the same upper limit

---
 src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
index 24312d5..c144475 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
@@ -120,26 +120,27 @@ double Integral::GetUpperLimit()
         }
 
         RefineUpperLimit(savedResult_);
+        double upper_limit = randomX_;
 
         if (reverse_)
         {
-            randomX_ = reverseX_ - randomX_;
+            upper_limit = reverseX_ - upper_limit;
         }
 
         if (powerOfSubstitution_ > 0)
         {
-            randomX_ = std::pow(randomX_, -powerOfSubstitution_);
+            upper_limit = std::pow(upper_limit, -powerOfSubstitution_);
         } else if (powerOfSubstitution_ < 0)
         {
-            randomX_ = -std::pow(-randomX_, powerOfSubstitution_);
+            upper_limit = -std::pow(-upper_limit, powerOfSubstitution_);
         }
 
         if (useLog_)
         {
-            randomX_ = std::exp(randomX_);
+            upper_limit = std::exp(upper_limit);
         }
 
-        return randomX_;
+        return upper_limit;
     } else
     {
         Logging::Get("proposal.integral")->error("No previous call to upper limit functions was made!");
-- 
2.43.0


From 91fd3dc9eabf3969323afefd3a5af5df935582e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:30 +0000
Subject: [PATCH 15/77] fix: find the definitions of staus by their type

---
 src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx b/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx
index c567841..d6f562e 100644
--- a/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx
@@ -277,7 +277,9 @@ std::unordered_map<int, ParticleDef> ParticleDef::create_particle_map() {
         { static_cast<int>(ParticleType::KMinus), KMinusDef() },
         { static_cast<int>(ParticleType::Monopole), MonopoleDef() },
         { static_cast<int>(ParticleType::SMPPlus), SMPPlusDef() },
-        { static_cast<int>(ParticleType::SMPMinus), SMPMinusDef() }};
+        { static_cast<int>(ParticleType::SMPMinus), SMPMinusDef() },
+        { static_cast<int>(ParticleType::STauPlus), StauPlusDef() },
+        { static_cast<int>(ParticleType::STauMinus), StauMinusDef() }};
 }
 
 /******************************************************************************
-- 
2.43.0


From 086150fadb01198828c1dc7d8c6144f85554ea6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:30 +0000
Subject: [PATCH 16/77] fix: vectors in different coordinate systems are not
 equal because of equal coordinates

---
 src/PROPOSAL/detail/PROPOSAL/math/Vector3D.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Vector3D.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Vector3D.cxx
index 538e5b1..0bd5829 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Vector3D.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Vector3D.cxx
@@ -1,6 +1,7 @@
 
 #include <cmath>
 #include <sstream>
+#include <typeinfo>
 
 #include "PROPOSAL/math/Vector3D.h"
 #include "PROPOSAL/methods.h"
@@ -13,6 +14,8 @@ void Vector3D::SetCoordinates(double val1, double val2, double val3) {
 }
 
 bool Vector3D::operator==(const Vector3D& rhs) const {
+    if (typeid(*this) != typeid(rhs)) // coordinates mean different things
+        return false;
     for (size_t i = 0; i<3; i++) {
         if (coordinates[i] != rhs.coordinates[i] )
             return false;
-- 
2.43.0


From 396e77715720b9db93ae46dbb2b4e2fb102122f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:31 +0000
Subject: [PATCH 17/77] fix: time of states between the points of a track

The elapsed time was calculated from the distance instead of the grammage.
---
 src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
index 9f4de31..e2f56f0 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
@@ -310,7 +310,7 @@ ParticleState Secondaries::RePropagateEnergy(const ParticleState& init,
 
     auto E_f = init.energy - energy_lost;
     auto new_time = init.time + utility.TimeElapsed(
-            init.energy, E_f, displacement, density->Evaluate(init.position));
+            init.energy, E_f, advance_grammage, density->Evaluate(init.position));
     auto new_position = init.position + direction * displacement;
     auto new_propagated_distance = init.propagated_distance + displacement;
 
@@ -335,7 +335,7 @@ ParticleState Secondaries::RePropagateDistance(const ParticleState& init,
                                                displacement);
     auto E_f = utility.EnergyDistance(init.energy, advance_grammage);
     auto new_time = init.time + utility.TimeElapsed(
-            init.energy, E_f, displacement, density->Evaluate(init.position));
+            init.energy, E_f, advance_grammage, density->Evaluate(init.position));
     auto new_position = init.position + direction * displacement;
     auto new_propagated_distance = init.propagated_distance + displacement;
     return ParticleState((ParticleType)primary_def_->particle_type, new_position,
-- 
2.43.0


From 24e850997a4262358bd09f0413965b1dc9c45db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:31 +0000
Subject: [PATCH 18/77] fix: maximal distance of the step to an energy of a
 track

GetStateForEnergy passed the negative length of the step.
---
 src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
index e2f56f0..77387f1 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
@@ -93,7 +93,7 @@ ParticleState Secondaries::GetStateForEnergy(double energy) const
                 displacement.normalize();
                 return RePropagateEnergy(
                         track_[i-1], displacement, track_[i-1].energy - energy,
-                        track_[i-1].propagated_distance - track_[i].propagated_distance);
+                        track_[i].propagated_distance - track_[i-1].propagated_distance);
             } else {
                 return track_[i-1];
             }
-- 
2.43.0


From 1c5d5ed81e701bdb40f379e307eb22c71a1649bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:31 +0000
Subject: [PATCH 19/77] fix: unknown interaction type in GetStochasticLosses

The end iterator was dereferenced after logging the problem.
---
 src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
index 77387f1..bd2c48e 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
@@ -430,8 +430,10 @@ std::vector<StochasticLoss> Secondaries::GetStochasticLosses(
                            [&interaction_type](const std::pair<InteractionType, std::string> &p) {
         return p.second == interaction_type;
     });
-    if (it == Type_Interaction_Name_Map.end())
+    if (it == Type_Interaction_Name_Map.end()) {
         Logging::Get("proposal.secondaries")->critical("Could not find interaction type {}", interaction_type);
+        throw std::invalid_argument("Could not find interaction type " + interaction_type);
+    }
 
     return GetStochasticLosses(it->first);
 }
-- 
2.43.0


From 5c960979adc70723105f263fb5e2d5299e8cbcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:31 +0000
Subject: [PATCH 20/77] fix: energy lost in a geometry which the track does not
 enter or leave

A nullptr was dereferenced.
---
 src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
index bd2c48e..dbf9af3 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
@@ -165,7 +165,20 @@ double Secondaries::GetELost(const Geometry& geometry) const
 {
     auto entry_point = GetEntryPoint(geometry);
     auto exit_point = GetExitPoint(geometry);
-    return entry_point->energy - exit_point->energy;
+
+    // without an entry point (exit point), the track either starts (ends)
+    // inside the geometry, or it has never been inside
+    auto inside = [&geometry](const ParticleState& p) {
+        return geometry.IsInside(p.position, p.direction);
+    };
+    if (!entry_point && !inside(track_.front()))
+        return 0.;
+    if (!exit_point && !inside(track_.back()))
+        return 0.;
+
+    auto initial_energy = entry_point ? entry_point->energy : track_.front().energy;
+    auto final_energy = exit_point ? exit_point->energy : track_.back().energy;
+    return initial_energy - final_energy;
 }
 
 std::shared_ptr<ParticleState> Secondaries::GetEntryPoint(
-- 
2.43.0


From 0ed5a44342e31c96af256e51bceefdb686dbc96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:07 +0000
Subject: [PATCH 21/77] fix: closest approach of a track which turns towards
 the geometry later

The first local minimum of the distance was returned instead of the smallest
distance along the whole track.
---
 src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx | 44 ++++++++++++--------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
index dbf9af3..7e89908 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
@@ -252,31 +252,41 @@ std::shared_ptr<ParticleState> Secondaries::GetExitPoint(
 std::shared_ptr<ParticleState> Secondaries::GetClosestApproachPoint(
         const Geometry& geometry) const
 {
-   if (track_.size() == 1)
-       return std::make_unique<ParticleState>(track_.front());
+    auto center = geometry.GetPosition();
+    auto min_distance = (track_.front().position - center).magnitude();
+    unsigned int min_index = 0; // track point before the closest approach
+    double min_advance = 0.;    // distance from this track point
 
     for (unsigned int i = 0; i < track_.size() - 1; i++) {
         auto pos_i = track_[i].position;
-        auto pos_f = track_[i+1].position;
-
-        auto displacement = pos_f - pos_i;
+        auto displacement = track_[i+1].position - pos_i;
         auto dist_i_f = displacement.magnitude();
+        if (dist_i_f == 0)
+            continue;
         displacement.normalize();
 
-        auto distance_to_closest_approach
-            = geometry.DistanceToClosestApproach(pos_i, displacement);
-        if (std::abs(distance_to_closest_approach - dist_i_f) <= PARTICLE_POSITION_RESOLUTION) {
-            return std::make_unique<ParticleState>(track_[i+1]);
-        } else if (distance_to_closest_approach < dist_i_f) {
-            if (distance_to_closest_approach < PARTICLE_POSITION_RESOLUTION)
-                return std::make_unique<ParticleState>(track_[i]);
-
-            auto closest_approach = RePropagateDistance(
-                    track_[i], displacement, distance_to_closest_approach);
-            return std::make_unique<ParticleState>(closest_approach);
+        auto advance = geometry.DistanceToClosestApproach(pos_i, displacement);
+        if (advance < PARTICLE_POSITION_RESOLUTION)
+            advance = 0.;
+        else if (advance > dist_i_f - PARTICLE_POSITION_RESOLUTION)
+            advance = dist_i_f;
+
+        auto distance = (pos_i + advance * displacement - center).magnitude();
+        if (distance < min_distance) {
+            min_distance = distance;
+            min_index = (advance == dist_i_f) ? i + 1 : i;
+            min_advance = (advance == dist_i_f) ? 0. : advance;
         }
     }
-    return std::make_unique<ParticleState>(track_.back());
+
+    if (min_advance == 0.)
+        return std::make_unique<ParticleState>(track_[min_index]);
+
+    auto displacement = track_[min_index+1].position - track_[min_index].position;
+    displacement.normalize();
+    auto closest_approach = RePropagateDistance(track_[min_index], displacement,
+                                                min_advance);
+    return std::make_unique<ParticleState>(closest_approach);
 }
 
 bool Secondaries::HitGeometry(const Geometry& geometry) const {
-- 
2.43.0


From abb86ddecd7c2dcc7b0154343a6db9039b2f40e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:42 +0000
Subject: [PATCH 22/77] fix: HitGeometry for steps which end within the hole of
 a geometry

A step that crosses the wall of a hollow geometry and ends in its hole was
not a hit, since the geometry is not behind its end point.
---
 src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
index 7e89908..8d91046 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
@@ -294,14 +294,18 @@ bool Secondaries::HitGeometry(const Geometry& geometry) const {
         auto pos_a = track_[i].position;
         auto pos_b = track_[i+1].position;
         auto disp = (pos_b - pos_a);
+        auto dist_a_b = disp.magnitude();
+        if (dist_a_b == 0)
+            continue;
         disp.normalize();
 
         // check if first track point lies inside geometry
         if (geometry.IsInside(pos_a, disp))
             return true;
 
-        // check if geometry lies between two track points
-        if (geometry.IsInfront(pos_a, disp) && geometry.IsBehind(pos_b, disp))
+        // check if geometry is entered between two track points
+        if (geometry.IsInfront(pos_a, disp)
+            && geometry.DistanceToBorder(pos_a, disp).first <= dist_a_b)
             return true;
     }
 
-- 
2.43.0


From 86729ac3b9322a7f8526c9a12349d4951e44ddf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:51 +0000
Subject: [PATCH 23/77] fix: entry and exit points of tracks with points on the
 border

---
 src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
index 8d91046..8245909 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
@@ -201,7 +201,7 @@ std::shared_ptr<ParticleState> Secondaries::GetEntryPoint(
         displacement.normalize();
 
         auto distance = geometry.DistanceToBorder(pos_i, displacement).first;
-        if (distance <= dist_i_f && distance >= 0) {
+        if (distance <= dist_i_f + PARTICLE_POSITION_RESOLUTION && distance >= 0) {
             if (std::abs(dist_i_f - distance) < PARTICLE_POSITION_RESOLUTION)
                 return std::make_unique<ParticleState>(track_[i+1]);
             auto entry_point = RePropagateDistance(track_[i], displacement,
@@ -232,7 +232,7 @@ std::shared_ptr<ParticleState> Secondaries::GetExitPoint(
         displacement.normalize();
 
         auto distance = geometry.DistanceToBorder(pos_f, -displacement).first;
-        if (distance <= dist_i_f && distance >= 0) {
+        if (distance <= dist_i_f + PARTICLE_POSITION_RESOLUTION && distance >= 0) {
             if (std::abs(dist_i_f - distance) < PARTICLE_POSITION_RESOLUTION)
                 return std::make_unique<ParticleState>(track_[i-1]);
             auto exit_point = RePropagateDistance(
-- 
2.43.0


From c301e67a643022280f41a61103d3d043d4aaecd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:27 +0000
Subject: [PATCH 24/77] fix: entry and exit points at a track point on the
 border of a geometry

---
 src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
index 8245909..64f2ad8 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
@@ -198,8 +198,14 @@ std::shared_ptr<ParticleState> Secondaries::GetEntryPoint(
 
         auto displacement = pos_f - pos_i;
         auto dist_i_f = displacement.magnitude();
+        if (dist_i_f == 0)
+            continue;
         displacement.normalize();
 
+        // the track point lies on the border, the geometry is entered here
+        if (geometry.IsInside(pos_i, displacement))
+            return std::make_unique<ParticleState>(track_[i]);
+
         auto distance = geometry.DistanceToBorder(pos_i, displacement).first;
         if (distance <= dist_i_f + PARTICLE_POSITION_RESOLUTION && distance >= 0) {
             if (std::abs(dist_i_f - distance) < PARTICLE_POSITION_RESOLUTION)
@@ -229,8 +235,14 @@ std::shared_ptr<ParticleState> Secondaries::GetExitPoint(
 
         auto displacement = pos_f - pos_i;
         auto dist_i_f = displacement.magnitude();
+        if (dist_i_f == 0)
+            continue;
         displacement.normalize();
 
+        // the track point lies on the border, the geometry is left here
+        if (geometry.IsInside(pos_f, -displacement))
+            return std::make_unique<ParticleState>(track_[i]);
+
         auto distance = geometry.DistanceToBorder(pos_f, -displacement).first;
         if (distance <= dist_i_f + PARTICLE_POSITION_RESOLUTION && distance >= 0) {
             if (std::abs(dist_i_f - distance) < PARTICLE_POSITION_RESOLUTION)
-- 
2.43.0


From f2d338b77e7f31823420bd022c72091796004be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:15 +0000
Subject: [PATCH 25/77] fix: propagation below the minimal energy or beyond the
 maximal distance

---
 src/PROPOSAL/detail/PROPOSAL/Propagator.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
index e6f88c2..309ffd4 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
@@ -77,6 +77,10 @@ Secondaries Propagator::Propagate(const ParticleState& initial_particle,
 
         InteractionEnergy[MinimalE] = std::max(
                 min_energy, utility.collection.displacement_calc->GetLowerLim());
+        // nothing left to propagate, e.g. in a sector with a larger lower limit
+        if (state.energy < InteractionEnergy[MinimalE]
+            || state.propagated_distance > max_distance)
+            break;
         InteractionEnergy[Decay] = utility.EnergyDecay(
             state.energy, rnd, density->Evaluate(state.position));
         InteractionEnergy[Stochastic]
-- 
2.43.0


From 8328410ced09ad788014e9540067e1c4104d1b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:15 +0000
Subject: [PATCH 26/77] fix: Propagator dereferenced a missing sector

---
 src/PROPOSAL/detail/PROPOSAL/Propagator.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
index 309ffd4..65d8d58 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
@@ -353,6 +353,7 @@ Sector Propagator::GetCurrentSector(
                                                       spherical_position.GetX(),
                                                       spherical_position.GetY(),
                                                       spherical_position.GetZ());
+        throw std::logic_error("Propagator: No sector defined at current particle position.");
     }
     auto highest_sector_iter = std::max_element(
         potential_sec.begin(), potential_sec.end(), [](Sector* a, Sector* b) {
-- 
2.43.0


From bc1864cf877dfd844dadb4238e898f5fd9fe7d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:03 +0000
Subject: [PATCH 27/77] fix: continuous randomization with a random number of
 the scattering angle

---
 src/PROPOSAL/detail/PROPOSAL/Propagator.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
index 65d8d58..a7befbb 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
@@ -301,7 +301,7 @@ int Propagator::AdvanceParticle(ParticleState &state,
     if (min_energy_step && advancement_type == ReachedInteraction)
         state.energy = energy; // we reached a specific energy, no randomization
     else
-        state.energy = utility.EnergyRandomize(state.energy, energy, rnd, min_energy);
+        state.energy = utility.EnergyRandomize(state.energy, energy, rnd_generator, min_energy);
 
     return advancement_type;
 }
-- 
2.43.0


From 5b16239027fdaa01a09fd1a4f4536d4ce0a9c6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:16 +0000
Subject: [PATCH 28/77] fix: particles scattered into a sector of higher
 hierarchy at its border

---
 src/PROPOSAL/detail/PROPOSAL/Propagator.cxx | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
index a7befbb..9ba6b97 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
@@ -238,6 +238,13 @@ int Propagator::AdvanceParticle(ParticleState &state,
         // Check step
         double distance_to_border = CalculateDistanceToBorder(state.position, mean_direction, *geometry);
         bool is_inside = geometry->IsInside(state.position, mean_direction);
+        for (auto& sector : sector_list) {
+            // a sector of higher hierarchy may begin right here
+            auto& other = get<GEOMETRY>(sector);
+            if (other->GetHierarchy() > geometry->GetHierarchy()
+                && other->IsInside(state.position, mean_direction))
+                is_inside = false;
+        }
 
         if (num_steps > PropagationSettings::ADVANCE_PARTICLE_MAX_STEPS) {
             // too many iteration steps!
@@ -254,7 +261,8 @@ int Propagator::AdvanceParticle(ParticleState &state,
             energy = utility.EnergyDistance(state.energy, grammage);
             advancement_type = ReachedBorder;
         } else if (!is_inside) {
-            // Special case: We are on the sector border, but scattering back outside the current sector!
+            // Special case: We are on the sector border, but scattering back outside the current sector
+            // (or into a sector of higher hierarchy)!
             // Update sector and recalculate values
             advancement_type = InvalidStep;
             auto new_sector = GetCurrentSector(state.position, mean_direction);
-- 
2.43.0


From a2e8cc34cd79ccf06d3310d401d7752dba018a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:32 +0000
Subject: [PATCH 29/77] fix: particles went beyond the maximal distance to a
 border where they would interact

---
 src/PROPOSAL/detail/PROPOSAL/Propagator.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
index 9ba6b97..02d6832 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
@@ -289,7 +289,8 @@ int Propagator::AdvanceParticle(ParticleState &state,
         } else if (distance <= distance_to_border && distance == max_distance) {
             // reached max distance
             advancement_type = ReachedMaxDistance;
-        } else if (std::abs(distance - distance_to_border) <= PARTICLE_POSITION_RESOLUTION) {
+        } else if (std::abs(distance - distance_to_border) <= PARTICLE_POSITION_RESOLUTION
+                   && distance_to_border <= max_distance) {
             // reached geometry border
             advancement_type = ReachedBorder;
             distance = distance_to_border;
-- 
2.43.0


From 8126cbf0a41b6cab5d9cedaea111ddfe4cbb5d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:42 +0000
Subject: [PATCH 30/77] fix: rays which only touch an edge, corner or rim of a
 geometry are not inside

---
 src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx      | 6 ++++++
 src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx b/src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx
index ade3a92..1841028 100644
--- a/src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx
@@ -244,6 +244,12 @@ std::pair<double, double> Box::DistanceToBorder(const Vector3D& position, const
     {
         distance.first  = dist.at(0);
         distance.second = -1;
+        // ... unless the trajectory only touches an edge or a corner of the box
+        auto middle = pos_vec + 0.5 * dist.at(0) * dir_vec;
+        if (middle.GetX() < x_calc_neg || middle.GetX() > x_calc_pos ||
+            middle.GetY() < y_calc_neg || middle.GetY() > y_calc_pos ||
+            middle.GetZ() < z_calc_neg || middle.GetZ() > z_calc_pos)
+            distance.first = -1;
     } else if (dist.size() == 2) // Particle is outside and the box is infront
                                  // of the particle trajectory ( two
                                  // intersections).
diff --git a/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx b/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
index 8575978..27a82ba 100644
--- a/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
@@ -226,6 +226,12 @@ std::pair<double, double> Cylinder::DistanceToBorder(const Vector3D& position, c
     {
         distance.first  = dist.at(0);
         distance.second = -1;
+        // ... unless the trajectory only touches the rim of the cylinder
+        auto middle = pos_vec + 0.5 * dist.at(0) * dir_vec;
+        if (middle.GetZ() < z_calc_neg || middle.GetZ() > z_calc_pos ||
+            std::sqrt(std::pow(middle.GetX() - position_.GetX(), 2) +
+                      std::pow(middle.GetY() - position_.GetY(), 2)) > radius_ + GEOMETRY_PRECISION)
+            distance.first = -1;
 
     } else if (dist.size() == 2) // cylinder is infront of the particle
     {
-- 
2.43.0


From 96786fad29bcfc31b6d0a895f7d0bb0c8fe11487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:40 +0000
Subject: [PATCH 31/77] fix: density distribution of the global settings was
 ignored

---
 src/PROPOSAL/PROPOSAL/Propagator.h          | 1 +
 src/PROPOSAL/detail/PROPOSAL/Propagator.cxx | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/src/PROPOSAL/PROPOSAL/Propagator.h b/src/PROPOSAL/PROPOSAL/Propagator.h
index f684fcf..20ce2ac 100644
--- a/src/PROPOSAL/PROPOSAL/Propagator.h
+++ b/src/PROPOSAL/PROPOSAL/Propagator.h
@@ -49,6 +49,7 @@ private:
         GlobalSettings(const nlohmann::json& config_global);
         nlohmann::json cross;
         nlohmann::json scattering;
+        nlohmann::json density_distr;
         std::shared_ptr<EnergyCutSettings> cuts = nullptr;
         std::shared_ptr<Medium> medium = nullptr;
         bool do_exact_time;
diff --git a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
index 02d6832..2a70367 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
@@ -426,6 +426,8 @@ void Propagator::InitializeSectorFromJSON(const ParticleDef& p_def,
         { "mass_density", medium->GetMassDensity() } };
     if (json_sector.contains("density_distribution"))
         density_distr = json_sector["density_distribution"];
+    else if (!global.density_distr.empty())
+        density_distr = global.density_distr;
 
     auto cross_config = json_sector.value("CrossSections", global.cross);
     PropagationUtility::Collection collection;
@@ -546,6 +548,8 @@ Propagator::GlobalSettings::GlobalSettings(const nlohmann::json& config_global)
         cuts = std::make_shared<EnergyCutSettings>(config_global["cuts"]);
     if (config_global.contains("scattering"))
         scattering = config_global["scattering"];
+    if (config_global.contains("density_distribution"))
+        density_distr = config_global["density_distribution"];
     do_exact_time = config_global.value("exact_time", true);
     do_interpolation = config_global.value("do_interpolation", true);
 }
@@ -557,4 +561,5 @@ Propagator::GlobalSettings::GlobalSettings()
     do_exact_time = true;
     do_interpolation = true;
     scattering = {};
+    density_distr = {};
 }
-- 
2.43.0


From 77c629bd58e8ee17e9379ef38a94d35c95658016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:49 +0000
Subject: [PATCH 32/77] fix: keep decay channels that share a branching ratio

DecayTable stored the channels in a map keyed by the branching ratio, so
that adding a second channel with the same ratio silently replaced the
first one (and leaked it).
---
 src/PROPOSAL/PROPOSAL/decay/DecayTable.h          | 2 +-
 src/PROPOSAL/detail/PROPOSAL/decay/DecayTable.cxx | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/decay/DecayTable.h b/src/PROPOSAL/PROPOSAL/decay/DecayTable.h
index a4d9640..bbb05cf 100644
--- a/src/PROPOSAL/PROPOSAL/decay/DecayTable.h
+++ b/src/PROPOSAL/PROPOSAL/decay/DecayTable.h
@@ -42,7 +42,7 @@ void swap(DecayTable&, DecayTable&);
 
 class DecayTable
 {
-    typedef std::map<double, DecayChannel*> DecayMap;
+    typedef std::multimap<double, DecayChannel*> DecayMap;
 
 public:
     DecayTable();
diff --git a/src/PROPOSAL/detail/PROPOSAL/decay/DecayTable.cxx b/src/PROPOSAL/detail/PROPOSAL/decay/DecayTable.cxx
index 5c1bf5e..16333f1 100644
--- a/src/PROPOSAL/detail/PROPOSAL/decay/DecayTable.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/decay/DecayTable.cxx
@@ -28,7 +28,7 @@ DecayTable::DecayTable(const DecayTable& table)
 
     for (DecayMap::const_iterator iter = table.channels_.begin(); iter != table.channels_.end(); ++iter)
     {
-        channels_[iter->first] = iter->second->clone();
+        channels_.emplace(iter->first, iter->second->clone());
     }
 }
 
@@ -136,13 +136,13 @@ void DecayTable::SetStable()
 
     // TODO(mario): Find better way Wed 2017/08/23
     // A stable channel which alwas will be selected
-    channels_[1.1] = new StableChannel();
+    channels_.emplace(1.1, new StableChannel());
 }
 
 // ------------------------------------------------------------------------- //
 DecayTable& DecayTable::addChannel(double Br, const DecayChannel& dc)
 {
-    channels_[Br] = dc.clone();
+    channels_.emplace(Br, dc.clone());
     return *this;
 }
 
-- 
2.43.0


From 440fc26d87176768bb3b0581ed641690b8e45727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:49 +0000
Subject: [PATCH 33/77] fix: refuse to select a channel of an empty decay table

SelectChannel dereferenced the end iterator of the empty table.
---
 src/PROPOSAL/detail/PROPOSAL/decay/DecayTable.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/decay/DecayTable.cxx b/src/PROPOSAL/detail/PROPOSAL/decay/DecayTable.cxx
index 16333f1..65fd3d0 100644
--- a/src/PROPOSAL/detail/PROPOSAL/decay/DecayTable.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/decay/DecayTable.cxx
@@ -1,5 +1,6 @@
 
 #include <sstream>
+#include <stdexcept>
 
 #include "PROPOSAL/decay/DecayTable.h"
 #include "PROPOSAL/decay/DecayChannel.h"
@@ -107,6 +108,9 @@ std::ostream& operator<<(std::ostream& os, DecayTable const& table)
 // ------------------------------------------------------------------------- //
 DecayChannel& DecayTable::SelectChannel(double rnd) const
 {
+    if (channels_.empty())
+        throw std::logic_error("No decay channel to select from: the decay table is empty.");
+
     double sumBranchingRatio = 0.0;
     for (DecayMap::const_iterator iter = channels_.begin(); iter != channels_.end(); ++iter)
     {
-- 
2.43.0


From 5693565ee1784586d8fdf0772722077b1c793d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:49 +0000
Subject: [PATCH 34/77] fix: start the leptonic decay root search inside its
 bracket

For a lepton heavy enough that its minimal energy exceeds half of the
maximal one the Newton iteration started below the bracket, where the
spectrum is not defined, and the products were nan.
---
 src/PROPOSAL/detail/PROPOSAL/decay/LeptonicDecayChannel.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/decay/LeptonicDecayChannel.cxx b/src/PROPOSAL/detail/PROPOSAL/decay/LeptonicDecayChannel.cxx
index f148dc7..48a5317 100644
--- a/src/PROPOSAL/detail/PROPOSAL/decay/LeptonicDecayChannel.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/decay/LeptonicDecayChannel.cxx
@@ -86,7 +86,7 @@ double LeptonicDecayChannelApprox::DifferentialDecayRate(double x, double parent
 double LeptonicDecayChannelApprox::FindRoot(double min, double parent_mass, double E_max, double right_side)
 {
     double max        = 1;
-    double x_start    = 0.5;
+    double x_start    = (min < 0.5) ? 0.5 : 0.5 * (min + max);
 
     return NewtonRaphson(std::bind(&LeptonicDecayChannelApprox::DecayRate, this, std::placeholders::_1, parent_mass, E_max, right_side),
                          std::bind(&LeptonicDecayChannelApprox::DifferentialDecayRate, this, std::placeholders::_1, parent_mass, E_max),
-- 
2.43.0


From 63764c98cb9ff2786a7e776bdf7b246a842f4eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:49 +0000
Subject: [PATCH 35/77] fix: compare the daughters of many body decays, not
 only their masses

Channels into particles of opposite charge compared equal.
---
 src/PROPOSAL/detail/PROPOSAL/decay/ManyBodyPhaseSpace.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/decay/ManyBodyPhaseSpace.cxx b/src/PROPOSAL/detail/PROPOSAL/decay/ManyBodyPhaseSpace.cxx
index 23403ab..158e3d5 100644
--- a/src/PROPOSAL/detail/PROPOSAL/decay/ManyBodyPhaseSpace.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/decay/ManyBodyPhaseSpace.cxx
@@ -85,6 +85,11 @@ bool ManyBodyPhaseSpace::compare(const DecayChannel& channel) const
     {
         return false;
     } else if (daughter_masses_ != many_body->daughter_masses_)
+    {
+        return false;
+    } else if (!std::equal(daughters_.begin(), daughters_.end(), many_body->daughters_.begin(),
+                           [](std::shared_ptr<const ParticleDef> const& a,
+                              std::shared_ptr<const ParticleDef> const& b) { return *a == *b; }))
     {
         return false;
     } else if (uniform_ != many_body->uniform_)
-- 
2.43.0


From ae490af70307eb8529b4d4ccec59252078afc2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:02 +0000
Subject: [PATCH 36/77] fix: boosting a particle to zero momentum made its
 direction nan

The direction was the normalised zero vector; further boosts then spoiled
the energy, too.
---
 src/PROPOSAL/detail/PROPOSAL/decay/DecayChannel.cxx | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/decay/DecayChannel.cxx b/src/PROPOSAL/detail/PROPOSAL/decay/DecayChannel.cxx
index 41c92a2..27ae159 100644
--- a/src/PROPOSAL/detail/PROPOSAL/decay/DecayChannel.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/decay/DecayChannel.cxx
@@ -64,10 +64,14 @@ void DecayChannel::Boost(ParticleState& particle, const Vector3D& direction_unno
     momentum_vec = momentum_vec + direction_correction * direction;
 
     // Energy will be implicit corrected with respect to the mass:
-    particle.SetMomentum(momentum_vec.magnitude());
+    double momentum = momentum_vec.magnitude();
+    particle.SetMomentum(momentum);
 
-    momentum_vec.normalize();
-    particle.direction = momentum_vec;
+    // a particle without momentum has no new direction
+    if (momentum > 0.0) {
+        momentum_vec.normalize();
+        particle.direction = momentum_vec;
+    }
 }
 
 // ------------------------------------------------------------------------- //
-- 
2.43.0


From ebb8e8330ae600cba292ddb6451dfadc776033d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:28 +0000
Subject: [PATCH 37/77] fix: BremsKochMotz reseeded the global random number
 generator

The engine of RandomGenerator is static, so that the internal generator
shared it with the global one: every bremsstrahlung loss reset the random
sequence of the whole simulation.
---
 .../parametrization/bremsstrahlung/BremsKochMotz.cxx   | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/bremsstrahlung/BremsKochMotz.cxx b/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/bremsstrahlung/BremsKochMotz.cxx
index 83b381e..6b96572 100644
--- a/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/bremsstrahlung/BremsKochMotz.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/bremsstrahlung/BremsKochMotz.cxx
@@ -1,9 +1,9 @@
 #include "PROPOSAL/secondaries/parametrization/bremsstrahlung/BremsKochMotz.h"
 #include "PROPOSAL/Constants.h"
-#include "PROPOSAL/math/RandomGenerator.h"
 #include <cmath>
 #include <algorithm>
 #include <limits>
+#include <random>
 
 using namespace PROPOSAL;
 
@@ -35,8 +35,8 @@ secondaries::BremsKochMotz::CalculateDirections(
         const Component& c, std::vector<double>& rnd){
     // We do not know in advance how many random numbers we need, so use one
     // passed random number to set the seed for a RNG to keep reproducibility
-    RandomGenerator internal_rnd_generator;
-    internal_rnd_generator.SetSeed(std::numeric_limits<int>::max() * rnd[0]);
+    std::mt19937 internal_rng(static_cast<int>(std::numeric_limits<int>::max() * rnd[0]));
+    std::uniform_real_distribution<double> uniform(0., 1.);
 
     // Based on "Improved bremsstrahlung photon angular sampling in the EGS4
     // code system" (PIRS-0203), algorithm given in chapter (2.1)
@@ -45,10 +45,10 @@ secondaries::BremsKochMotz::CalculateDirections(
     auto Z = c.GetNucCharge();
     double phi, x_hat, g_max;
     do {
-        phi = CalculatePhiCandidate(E_0, internal_rnd_generator.RandomDouble());
+        phi = CalculatePhiCandidate(E_0, uniform(internal_rng));
         x_hat = std::pow(E_0 * phi, 2);
         g_max = N(E, E_0, Z) * g(x_hat, E, E_0, Z);
-    } while (internal_rnd_generator.RandomDouble() > g_max);
+    } while (uniform(internal_rng) > g_max);
     auto cosphi = std::cos(phi);
     auto theta = rnd[1] * 2. * PI;
     auto dir_photon = Cartesian3D(init_direction);
-- 
2.43.0


From 3b92fd636f617db2129a8b6ec8c9aaa6a804963b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:59 +0000
Subject: [PATCH 38/77] fix: scattering parametrizations of different type are
 not equal

---
 .../scattering/multiple_scattering/Parametrization.cxx       | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Parametrization.cxx b/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Parametrization.cxx
index cd2e7fe..f21fcf1 100644
--- a/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Parametrization.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Parametrization.cxx
@@ -12,6 +12,7 @@
 #include <string>
 #include <sstream>
 #include <iostream>
+#include <typeinfo>
 #include <PROPOSAL/math/Spherical3D.h>
 
 
@@ -29,7 +30,9 @@ Parametrization::Parametrization(double _mass)
 
 bool Parametrization::operator==(const Parametrization& scattering) const
 {
-    if (mass != scattering.mass)
+    if (typeid(*this) != typeid(scattering))
+        return false;
+    else if (mass != scattering.mass)
         return false;
     else
         return this->compare(scattering);
-- 
2.43.0


From 56495936fe63bb183a66409232b40cb2c5bd229b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:59 +0000
Subject: [PATCH 39/77] fix: equality of Moliere scattering depended on its
 last use

---
 .../PROPOSAL/scattering/multiple_scattering/Moliere.cxx       | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Moliere.cxx b/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Moliere.cxx
index 0f5c471..3c13041 100644
--- a/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Moliere.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Moliere.cxx
@@ -202,10 +202,6 @@ bool Moliere::compare(const Parametrization& scattering) const
         return false;
     else if (max_weight_index_ != sc->max_weight_index_)
         return false;
-    else if (chiCSq_ != sc->chiCSq_)
-        return false;
-    else if (B_ != sc->B_)
-        return false;
     else
         return true;
 }
-- 
2.43.0


From 69f650ce08d80edbcc4ab6178329cef5cf7d3b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:15 +0000
Subject: [PATCH 40/77] fix: no interaction was chosen for random numbers close
 to one

---
 .../PROPOSAL/propagation_utility/Interaction.cxx      | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/propagation_utility/Interaction.cxx b/src/PROPOSAL/detail/PROPOSAL/propagation_utility/Interaction.cxx
index 2eb8352..b4f3b64 100644
--- a/src/PROPOSAL/detail/PROPOSAL/propagation_utility/Interaction.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/propagation_utility/Interaction.cxx
@@ -38,8 +38,11 @@ Interaction::Loss Interaction::SampleLoss(
     auto overall_rate = std::accumulate(rates.begin(), rates.end(), 0.,
         [](double a, Rate r) { return a + r.rate; });
     auto sampled_rate = rnd * overall_rate;
+    Rate const* last = nullptr;
     for (auto& r : rates) {
         sampled_rate -= r.rate;
+        if (r.rate > 0.)
+            last = &r;
         if (sampled_rate < 0.) {
             auto loss = r.crosssection->CalculateStochasticLoss(
                 r.comp_hash, energy, -sampled_rate);
@@ -54,6 +57,14 @@ Interaction::Loss Interaction::SampleLoss(
         return {InteractionType::Undefined, 0, 0};
     }
 
+    // for rnd close to one, nothing may be left due to rounding
+    if (last && rnd < 1.) {
+        auto loss = last->crosssection->CalculateStochasticLoss(
+            last->comp_hash, energy, 0.);
+        return { last->crosssection->GetInteractionType(), last->comp_hash,
+            loss };
+    }
+
     std::stringstream ss;
     ss << "Given rate (" << std::to_string(sampled_rate)
        << ") for given energy (" << std::to_string(energy)
-- 
2.43.0


From 66868ef92419b940577f1c233a5dff2b1bdb7634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:15 +0000
Subject: [PATCH 41/77] fix: tabulated time between equal energies was nan at
 rest

---
 .../propagation_utility/PropagationUtilityInterpolant.cxx     | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/propagation_utility/PropagationUtilityInterpolant.cxx b/src/PROPOSAL/detail/PROPOSAL/propagation_utility/PropagationUtilityInterpolant.cxx
index 6ea0017..7fd392f 100644
--- a/src/PROPOSAL/detail/PROPOSAL/propagation_utility/PropagationUtilityInterpolant.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/propagation_utility/PropagationUtilityInterpolant.cxx
@@ -66,6 +66,10 @@ double UtilityInterpolant::Calculate(double energy_initial, double energy_final)
     assert(energy_initial >= energy_final);
     assert(energy_final >= lower_lim);
 
+    // the integrand may be infinite at rest
+    if (energy_initial == energy_final)
+        return 0.;
+
     if (energy_initial - energy_final < energy_initial * IPREC)
         return FunctionToIntegral((energy_initial + energy_initial) / 2)
             * (energy_final - energy_initial);
-- 
2.43.0


From c4a08aa2ffe2eca5fddb67559f55b73044132016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:05 +0000
Subject: [PATCH 42/77] fix: large multiple scattering angles gave directions
 longer than one

---
 .../multiple_scattering/Parametrization.cxx     | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Parametrization.cxx b/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Parametrization.cxx
index f21fcf1..5551c42 100644
--- a/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Parametrization.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Parametrization.cxx
@@ -41,10 +41,19 @@ bool Parametrization::operator==(const Parametrization& scattering) const
 namespace PROPOSAL {
     namespace multiple_scattering {
         std::pair<Cartesian3D, Cartesian3D> ScatterInitialDirection(const Vector3D& direction, const ScatteringOffset& offsets) {
-            auto& sx = offsets.sx;
-            auto& sy = offsets.sy;
-            auto& tx = offsets.tx;
-            auto& ty = offsets.ty;
+            auto sx = offsets.sx;
+            auto sy = offsets.sy;
+            auto tx = offsets.tx;
+            auto ty = offsets.ty;
+
+            // offsets longer than one would not leave a direction of unit length
+            auto s_norm = std::sqrt(std::max(sx * sx + sy * sy, 1.));
+            auto t_norm = std::sqrt(std::max(tx * tx + ty * ty, 1.));
+            sx /= s_norm;
+            sy /= s_norm;
+            tx /= t_norm;
+            ty /= t_norm;
+
             auto sz = std::sqrt(std::max(1. - (sx * sx + sy * sy), 0.));
             auto tz = std::sqrt(std::max(1. - (tx * tx + ty * ty), 0.));
 
-- 
2.43.0


From 2a4b9b8b3dab6b6647359c8cdfd8d23fc99846c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:05 +0000
Subject: [PATCH 43/77] fix: copies of HighlandIntegral used the freed original

---
 .../scattering/multiple_scattering/HighlandIntegral.h       | 3 ++-
 .../scattering/multiple_scattering/HighlandIntegral.cxx     | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/scattering/multiple_scattering/HighlandIntegral.h b/src/PROPOSAL/PROPOSAL/scattering/multiple_scattering/HighlandIntegral.h
index 4224f35..72fb283 100644
--- a/src/PROPOSAL/PROPOSAL/scattering/multiple_scattering/HighlandIntegral.h
+++ b/src/PROPOSAL/PROPOSAL/scattering/multiple_scattering/HighlandIntegral.h
@@ -41,7 +41,8 @@ namespace multiple_scattering {
     class HighlandIntegral : public Highland {
         std::shared_ptr<UtilityIntegral> highland_integral;
 
-        inline double Integral(Displacement&, double);
+        // independent of this, as copies share the integral
+        static double Integral(Displacement&, double mass, double energy);
 
     public:
         HighlandIntegral(const ParticleDef& p, Medium const& m,
diff --git a/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/HighlandIntegral.cxx b/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/HighlandIntegral.cxx
index bd7e34c..1bd0eba 100644
--- a/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/HighlandIntegral.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/HighlandIntegral.cxx
@@ -17,7 +17,7 @@ double HighlandIntegral::CalculateTheta0(double grammage, double ei, double ef)
     return std::min(aux, 1.0);
 }
 
-double HighlandIntegral::Integral(Displacement& disp, double energy)
+double HighlandIntegral::Integral(Displacement& disp, double mass, double energy)
 {
     auto square_momentum = (energy - mass) * (energy + mass);
     auto aux = energy / square_momentum;
@@ -28,14 +28,14 @@ HighlandIntegral::HighlandIntegral(const ParticleDef& p, Medium const& m,
                  std::shared_ptr<Displacement> disp, std::false_type)
         : Highland(p, m)
         , highland_integral(std::make_unique<UtilityIntegral>(
-                [this, disp](double E) { return Integral(*disp, E); },
+                [mass = p.mass, disp](double E) { return Integral(*disp, mass, E); },
                 disp->GetLowerLim(), disp->GetHash())) {};
 
 HighlandIntegral::HighlandIntegral(const ParticleDef& p, Medium const& m,
                  std::shared_ptr<Displacement> disp, std::true_type)
         : Highland(p, m)
         , highland_integral(std::make_unique<UtilityInterpolant>(
-                [this, disp](double E) { return Integral(*disp, E); },
+                [mass = p.mass, disp](double E) { return Integral(*disp, mass, E); },
                 disp->GetLowerLim(), disp->GetHash())) {
         highland_integral->BuildTables("scattering_", 500, true);
 };
-- 
2.43.0


From cc124b5fe2abe091bcbe9d8a496be8e82cab9841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:05 +0000
Subject: [PATCH 44/77] fix: BremsGinneken threw for losses close to where its
 ranges meet

---
 .../bremsstrahlung/BremsGinneken.cxx                     | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/bremsstrahlung/BremsGinneken.cxx b/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/bremsstrahlung/BremsGinneken.cxx
index afc7baa..5c90f84 100644
--- a/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/bremsstrahlung/BremsGinneken.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/bremsstrahlung/BremsGinneken.cxx
@@ -21,7 +21,7 @@ double stochastic_deflection::BremsGinneken::get_nu_g(double n, double k_4) cons
     };
     if (f(0.5) * f(1.) < 0) { 
         // check different sign of the definition range, not possible for e_i < 0.7 GeV
-        auto nu_g_x = Bisection(f, 0.5, 1., 1e-5, 100);
+        auto nu_g_x = Bisection(f, 0.5, 1., 1e-14, 100);
         return (nu_g_x.first + nu_g_x.second) / 2;
     } 
     return 0.5; // return boundary value of parametrization
@@ -46,11 +46,8 @@ double stochastic_deflection::BremsGinneken::get_rms_theta(double e_i, double e_
         } else {
             double nu_g = get_nu_g(n, k_4);
             auto k_5 = k_4 * pow(nu_g, 1 + n) * pow(1 - nu_g, 0.5 - n);
-            rms_theta = k_5 * pow(1 - nu, -0.5);
-            if (rms_theta < 0.2) {
-                // This case is an undefined state
-                throw std::invalid_argument("BremsGinneken deflection rms_theta = " + to_string(rms_theta) + " < 0.2 is not defined in this case");
-            }
+            // the ranges meet at 0.2, nu_g is only known up to its numerical precision
+            rms_theta = max(k_5 * pow(1 - nu, -0.5), 0.2);
             return rms_theta;
         }
     }
-- 
2.43.0


From 2354e4ab91992ba83129f454bf17dfb2b3fe65ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:05 +0000
Subject: [PATCH 45/77] fix: deflections in interactions with almost no
 deflection were nan

---
 .../stochastic_deflection/ionization/IonizNaive.cxx           | 4 ++++
 .../photonuclear/PhotoBorogPetrukhin.cxx                      | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/ionization/IonizNaive.cxx b/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/ionization/IonizNaive.cxx
index 7343b7e..5a0a852 100644
--- a/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/ionization/IonizNaive.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/ionization/IonizNaive.cxx
@@ -1,5 +1,6 @@
 #include "PROPOSAL/scattering/stochastic_deflection/ionization/IonizNaive.h"
 #include "PROPOSAL/Constants.h"
+#include <algorithm>
 #include <cmath>
 using namespace PROPOSAL;
 
@@ -11,5 +12,8 @@ stochastic_deflection::IonizNaive::CalculateStochasticDeflection(
     auto p_f = std::sqrt((e_f + mass) * (e_f - mass));
     auto costheta = ((e_i + ME) * e_f - e_i * ME - mass * mass) / (p_i * p_f);
 
+    // rounding must not lead out of the domain of acos
+    costheta = std::max(-1., std::min(1., costheta));
+
     return UnitSphericalVector { std::acos(costheta), 2 * PI * rnd[0] };
 }
\ No newline at end of file
diff --git a/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/photonuclear/PhotoBorogPetrukhin.cxx b/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/photonuclear/PhotoBorogPetrukhin.cxx
index dfcde07..4297174 100644
--- a/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/photonuclear/PhotoBorogPetrukhin.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/photonuclear/PhotoBorogPetrukhin.cxx
@@ -1,5 +1,6 @@
 #include "PROPOSAL/scattering/stochastic_deflection/photonuclear/PhotoBorogPetrukhin.h"
 #include "PROPOSAL/Constants.h"
+#include <algorithm>
 #include <cmath>
 
 using namespace PROPOSAL;
@@ -16,6 +17,8 @@ stochastic_deflection::PhotoBorogPetrukhin::CalculateStochasticDeflection(
     auto t_1 = std::min(epsilon * epsilon, m_0 * m_0);
     auto t_p = (t_max * t_1) / ((t_max + t_1) * pow(((t_max * (t_min + t_1)) / (t_min * (t_max + t_1))), rnd[0]) - t_max); 
     auto sin2 = (t_p - t_min) / (4 * (e_i * e_f - mass * mass) - 2 * t_min);
+    // rounding must not lead out of the domain of asin
+    sin2 = std::max(0., std::min(1., sin2));
     auto theta_muon = 2 * std::asin(std::sqrt(sin2));
 
     return UnitSphericalVector { theta_muon, 2 * PI * rnd[1] };
-- 
2.43.0


From 583f52487ed226893a3f746d952eb442f20762cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:44 +0000
Subject: [PATCH 46/77] fix: Moliere scattered by unrelated angles in very thin
 layers

---
 .../PROPOSAL/scattering/multiple_scattering/Moliere.cxx     | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Moliere.cxx b/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Moliere.cxx
index 3c13041..2a5463a 100644
--- a/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Moliere.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Moliere.cxx
@@ -45,6 +45,12 @@ double Moliere::GetPrefactor(double ei, double grammage) {
         // Newton-Raphson method
         double xn = 15.;
 
+        // the iteration is only meaningful if there is a solution, B - ln(B)
+        // grows with B for all values of B which are appropriate (see below)
+        auto b = std::log(chiCSq_ / chi_A_Sq[i]) + 1. - 2. * EULER_MASCHERONI;
+        if (!(b >= 4.5 - std::log(4.5)))
+            return 0;
+
         for (int n = 0; n < 6; n++) {
             if (xn < 0)
                 return 0; // xn would become nan for further iterations
-- 
2.43.0


From 6537026155a571ce3565d21178080863c8f16a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:34 +0000
Subject: [PATCH 47/77] fix: inelastic screening of lithium and beryllium in
 PhotoPairTsai

---
 .../crosssection/parametrization/PhotoPairProduction.cxx      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoPairProduction.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoPairProduction.cxx
index 20a4073..553518a 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoPairProduction.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoPairProduction.cxx
@@ -282,14 +282,14 @@ double crosssection::PhotoPairTsai::DifferentialCrossSection(
                     + std::log(std::pow(ap, 2.) * std::pow(Z, 4. / 3.)
                         * std::pow(ME, 2.)))
             - 2. * std::log(1 + std::pow(bp, 2.))
-            - 4. * bp * std::atan(1. / b); // (3.48)
+            - 4. * bp * std::atan(1. / bp); // (3.48)
         Psi2 = 2.
                 * (2. / 3.
                     + std::log(std::pow(ap, 2.) * std::pow(Z, 4. / 3.)
                         * std::pow(ME, 2.)))
             - 2. * std::log(1. + std::pow(bp, 2.))
             + 8. * std::pow(bp, 2.)
-                * (1. - b * std::atan(1. / bp)
+                * (1. - bp * std::atan(1. / bp)
                     - 0.75 * std::log(1 + std::pow(bp, -2.))); // (3.49)
     } else {
         // Heavier elements
-- 
2.43.0


From 61f038c0da5daad65a71aa7fc4ccb0c05959ab7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:34 +0000
Subject: [PATCH 48/77] fix: PhotoPairKochMotz was infinite just above the
 threshold

---
 .../crosssection/parametrization/PhotoPairProduction.cxx        | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoPairProduction.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoPairProduction.cxx
index 553518a..31c0854 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoPairProduction.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoPairProduction.cxx
@@ -125,6 +125,8 @@ double crosssection::PhotoPairKochMotz::DifferentialCrossSection(
         return this->DifferentialCrossSectionWithoutA(p, comp, energy, v) / NA * comp.GetAtomicNum() / (1e-24);
     };
     auto dNdx_nocorrection = i.Integrate(limits.v_min, limits.v_max, integrand, 3);
+    if (dNdx_nocorrection <= 0)
+        return 0.; // no phase space left just above the threshold
     auto A = interpolant_->InterpolateArray(comp.GetNucCharge(), energy) / dNdx_nocorrection;
     return A * DifferentialCrossSectionWithoutA(p, comp, energy, v);
 }
-- 
2.43.0


From 7c3964165d5214456da07e4c539714b344b2002a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:34 +0000
Subject: [PATCH 49/77] fix: photoeffect on a component below its ionization
 energy was nan

---
 .../PROPOSAL/crosssection/parametrization/Photoeffect.cxx       | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Photoeffect.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Photoeffect.cxx
index 8151cf8..abf57fd 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Photoeffect.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Photoeffect.cxx
@@ -45,6 +45,8 @@ double crosssection::Photoeffect::PhotonAtomCrossSection(double energy, const Co
 double crosssection::Photoeffect::CalculatedNdx(
         double energy, size_t comp_hash, const ParticleDef&, const Medium& m, cut_ptr) {
         auto comp = Component::GetComponentForHash(comp_hash);
+        if (energy <= GetCutOff(comp))
+            return 0.;
         auto weight = detail::weight_component(m, comp);
         return NA / comp.GetAtomicNum() * PhotonAtomCrossSection(energy, comp) / weight;
 }
-- 
2.43.0


From 0af5f7e91dbb14657ba0be787c356aa58a99830f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:07 +0000
Subject: [PATCH 50/77] fix: factor of the electron mass missing in the
 logarithm of the Berger-Seltzer ionization losses

---
 .../PROPOSAL/crosssection/parametrization/Ionization.cxx      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Ionization.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Ionization.cxx
index 640f0ce..318d0d9 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Ionization.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Ionization.cxx
@@ -333,7 +333,7 @@ double crosssection::IonizBergerSeltzerBhabha::FunctionToDEdxIntegral(
     auto fplus = std::log(tau * bigDelta) - aux;
 
     auto result
-        = std::log(2. * (tau + 2.) / (std::pow(1e-6 * medium.GetI(), 2.) / ME));
+        = std::log(2. * (tau + 2.) / std::pow(1e-6 * medium.GetI() / ME, 2.));
     result += fplus;
     result -= Delta(medium, std::sqrt(betasquared), gamma);
 
@@ -455,7 +455,7 @@ double crosssection::IonizBergerSeltzerMoller::FunctionToDEdxIntegral(
         + tau / (tau - bigDelta);
 
     auto result
-        = std::log(2. * (tau + 2.) / (std::pow(1e-6 * medium.GetI(), 2.) / ME));
+        = std::log(2. * (tau + 2.) / std::pow(1e-6 * medium.GetI() / ME, 2.));
     result += fminus;
     result -= Delta(medium, std::sqrt(betasquared), gamma);
 
-- 
2.43.0


From 3614b5de7c296469a1795be94cf5452c66c8a09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:26 +0000
Subject: [PATCH 51/77] fix: tabulated dE2dx was zero where it is positive at
 the lowest energy of the table

---
 .../crosssection/CrossSectionDE2DX/AxisBuilderDE2DX.cxx        | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/CrossSectionDE2DX/AxisBuilderDE2DX.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/CrossSectionDE2DX/AxisBuilderDE2DX.cxx
index 1c5f50e..f06fd56 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/CrossSectionDE2DX/AxisBuilderDE2DX.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/CrossSectionDE2DX/AxisBuilderDE2DX.cxx
@@ -20,6 +20,9 @@ void AxisBuilderDE2DX::refine_definition_range(
         throw std::logic_error("No positive values to build dE2dx tables!");
     low = ax.back_transform(i);
 
+    if (i == 0)
+        return;
+
     double i_accuracy = 0.5;
     auto f = [&func, &ax](double i) {return func(ax.back_transform(i));};
     auto i_low = Bisection(f, i-1, i, i_accuracy, 100).first;
-- 
2.43.0


From a19431188203a603c98e1deee74901fa6314d80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:49 +0000
Subject: [PATCH 52/77] fix: cross sections without continuous losses could not
 be tabulated with continuous randomization

---
 .../PROPOSAL/crosssection/CrossSection.h       | 18 +++++++++++-------
 .../CrossSectionDE2DX/AxisBuilderDE2DX.h       |  7 +++++++
 .../CrossSectionDE2DXBuilder.h                 |  9 +++++++--
 .../CrossSectionDE2DX/AxisBuilderDE2DX.cxx     |  2 +-
 4 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/crosssection/CrossSection.h b/src/PROPOSAL/PROPOSAL/crosssection/CrossSection.h
index 6ab98eb..13b5c41 100644
--- a/src/PROPOSAL/PROPOSAL/crosssection/CrossSection.h
+++ b/src/PROPOSAL/PROPOSAL/crosssection/CrossSection.h
@@ -159,10 +159,13 @@ namespace detail {
     inline auto _build_de2dx(Cont container, std::true_type, bool interpol,
         T1&& param, T2&& p_def, T3 const& target, Args&&... args)
     {
-        for (auto& c : target.GetComponents())
-            container->emplace_back(weight_component(target, c),
-                make_de2dx(interpol, std::forward<T1>(param),
-                    std::forward<T2>(p_def), c, args...));
+        for (auto& c : target.GetComponents()) {
+            auto de2dx = make_de2dx(interpol, std::forward<T1>(param),
+                std::forward<T2>(p_def), c, args...);
+            if (de2dx)
+                container->emplace_back(
+                    weight_component(target, c), std::move(de2dx));
+        }
     }
 
     template <typename Cont, typename T1, typename T2, typename T3,
@@ -170,9 +173,10 @@ namespace detail {
     inline auto _build_de2dx(Cont container, std::false_type, bool interpol,
         T1&& param, T2&& p_def, T3 const& target, Args&&... args)
     {
-        container->emplace_back(1.,
-            make_de2dx(interpol, std::forward<T1>(param),
-                std::forward<T2>(p_def), target, args...));
+        auto de2dx = make_de2dx(interpol, std::forward<T1>(param),
+            std::forward<T2>(p_def), target, args...);
+        if (de2dx)
+            container->emplace_back(1., std::move(de2dx));
     }
 
     template <typename Type, typename T1, typename T2, typename T3, typename T4,
diff --git a/src/PROPOSAL/PROPOSAL/crosssection/CrossSectionDE2DX/AxisBuilderDE2DX.h b/src/PROPOSAL/PROPOSAL/crosssection/CrossSectionDE2DX/AxisBuilderDE2DX.h
index 63c1a27..ea2f9b0 100644
--- a/src/PROPOSAL/PROPOSAL/crosssection/CrossSectionDE2DX/AxisBuilderDE2DX.h
+++ b/src/PROPOSAL/PROPOSAL/crosssection/CrossSectionDE2DX/AxisBuilderDE2DX.h
@@ -3,6 +3,7 @@
 #include "CubicInterpolation/Axis.h"
 #include "PROPOSAL/Constants.h"
 #include <functional>
+#include <stdexcept>
 
 namespace PROPOSAL {
     class AxisBuilderDE2DX {
@@ -18,4 +19,10 @@ namespace PROPOSAL {
 
         std::unique_ptr<cubic_splines::ExpAxis<double>> Create() const;
     };
+struct exception_axis_builder_de2dx_out_of_range : public std::logic_error {
+    exception_axis_builder_de2dx_out_of_range()
+        : std::logic_error("No positive values to build dE2dx tables!")
+    {
+    }
+};
 } // namespace PROPOSAL
diff --git a/src/PROPOSAL/PROPOSAL/crosssection/CrossSectionDE2DX/CrossSectionDE2DXBuilder.h b/src/PROPOSAL/PROPOSAL/crosssection/CrossSectionDE2DX/CrossSectionDE2DXBuilder.h
index c367ee1..f29d90c 100644
--- a/src/PROPOSAL/PROPOSAL/crosssection/CrossSectionDE2DX/CrossSectionDE2DXBuilder.h
+++ b/src/PROPOSAL/PROPOSAL/crosssection/CrossSectionDE2DX/CrossSectionDE2DXBuilder.h
@@ -1,6 +1,7 @@
 #pragma once
 #include "PROPOSAL/crosssection/CrossSectionDE2DX/CrossSectionDE2DXIntegral.h"
 #include "PROPOSAL/crosssection/CrossSectionDE2DX/CrossSectionDE2DXInterpolant.h"
+#include "PROPOSAL/Logging.h"
 
 namespace PROPOSAL {
 
@@ -8,8 +9,12 @@ template <typename... Args> auto make_de2dx(bool interpolate, Args&&... args)
 {
     auto ptr = std::unique_ptr<CrossSectionDE2DX>();
     if (interpolate)
-        ptr = std::make_unique<CrossSectionDE2DXInterpolant>(
-            std::forward<Args>(args)...);
+        try {
+            ptr = std::make_unique<CrossSectionDE2DXInterpolant>(
+                std::forward<Args>(args)...);
+        } catch (exception_axis_builder_de2dx_out_of_range const& e) {
+            Logging::Get("CrossSection.DE2DX")->debug(e.what());
+        }
     else
         ptr = std::make_unique<CrossSectionDE2DXIntegral>(
             std::forward<Args>(args)...);
diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/CrossSectionDE2DX/AxisBuilderDE2DX.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/CrossSectionDE2DX/AxisBuilderDE2DX.cxx
index f06fd56..c399c21 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/CrossSectionDE2DX/AxisBuilderDE2DX.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/CrossSectionDE2DX/AxisBuilderDE2DX.cxx
@@ -17,7 +17,7 @@ void AxisBuilderDE2DX::refine_definition_range(
     while (!(func(ax.back_transform(i)) > 0) && i < n)
         ++i;
     if (i == n)
-        throw std::logic_error("No positive values to build dE2dx tables!");
+        throw exception_axis_builder_de2dx_out_of_range();
     low = ax.back_transform(i);
 
     if (i == 0)
-- 
2.43.0


From e3ff09c3a8307f44aaf46d6db9dfcfa080d2f541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:13 +0000
Subject: [PATCH 53/77] fix: keep the low-energy correction of
 PhotoPairKochMotz where its formula is negative (follow-up to 61f038c)

---
 .../crosssection/parametrization/PhotoPairProduction.cxx        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoPairProduction.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoPairProduction.cxx
index 31c0854..0883ab9 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoPairProduction.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoPairProduction.cxx
@@ -125,7 +125,7 @@ double crosssection::PhotoPairKochMotz::DifferentialCrossSection(
         return this->DifferentialCrossSectionWithoutA(p, comp, energy, v) / NA * comp.GetAtomicNum() / (1e-24);
     };
     auto dNdx_nocorrection = i.Integrate(limits.v_min, limits.v_max, integrand, 3);
-    if (dNdx_nocorrection <= 0)
+    if (dNdx_nocorrection == 0)
         return 0.; // no phase space left just above the threshold
     auto A = interpolant_->InterpolateArray(comp.GetNucCharge(), energy) / dNdx_nocorrection;
     return A * DifferentialCrossSectionWithoutA(p, comp, energy, v);
-- 
2.43.0


From 7f59a9ecdfdafff0f75ab5d48185ef760874471b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:33 +0000
Subject: [PATCH 54/77] fix: SecondariesCalculator dereferenced the end of its
 map for interactions without a calculator

---
 .../PROPOSAL/secondaries/SecondariesCalculator.h         | 9 +++++++--
 .../PROPOSAL/secondaries/SecondariesCalculator.cxx       | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/secondaries/SecondariesCalculator.h b/src/PROPOSAL/PROPOSAL/secondaries/SecondariesCalculator.h
index 51b93d6..45f160f 100644
--- a/src/PROPOSAL/PROPOSAL/secondaries/SecondariesCalculator.h
+++ b/src/PROPOSAL/PROPOSAL/secondaries/SecondariesCalculator.h
@@ -4,6 +4,7 @@
 #include "PROPOSAL/secondaries/parametrization/Parametrization.h"
 
 #include <memory>
+#include <stdexcept>
 #include <unordered_map>
 #include <vector>
 
@@ -56,9 +57,13 @@ public:
     //!
     //! Returns number required for calculation of a specific interactiontype.
     //!
-    inline size_t RequiredRandomNumbers(InteractionType type) const noexcept
+    inline size_t RequiredRandomNumbers(InteractionType type) const
     {
-        return secondary_generator.find(type)->second->RequiredRandomNumbers();
+        auto it = secondary_generator.find(type);
+        if (it == secondary_generator.end())
+            throw std::logic_error("No secondary calculator for this "
+                                   "interaction type available.");
+        return it->second->RequiredRandomNumbers();
     }
 
     //!
diff --git a/src/PROPOSAL/detail/PROPOSAL/secondaries/SecondariesCalculator.cxx b/src/PROPOSAL/detail/PROPOSAL/secondaries/SecondariesCalculator.cxx
index 442399d..8c44143 100644
--- a/src/PROPOSAL/detail/PROPOSAL/secondaries/SecondariesCalculator.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/secondaries/SecondariesCalculator.cxx
@@ -10,7 +10,12 @@ std::vector<ParticleState> SecondariesCalculator::CalculateSecondaries(
     if (it != secondary_generator.end())
         return it->second->CalculateSecondaries(loss, comp, rnd);
     std::ostringstream s;
-    s << "No secondary calculator for interaction type ("
-        << Type_Interaction_Name_Map.find(type)->second << ") available.";
+    auto name = Type_Interaction_Name_Map.find(type);
+    s << "No secondary calculator for interaction type (";
+    if (name != Type_Interaction_Name_Map.end())
+        s << name->second;
+    else
+        s << loss.type;
+    s << ") available.";
     throw std::logic_error(s.str());
 }
-- 
2.43.0


From 407765ed7a03b2233060cfba70fc8fd52ea89fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:33 +0000
Subject: [PATCH 55/77] fix: energies of electron pairs were sampled from 1 -
 rho as if it were rho

---
 .../epairproduction/KelnerKokoulinPetrukhinEpairProduction.h  | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/PROPOSAL/PROPOSAL/secondaries/parametrization/epairproduction/KelnerKokoulinPetrukhinEpairProduction.h b/src/PROPOSAL/PROPOSAL/secondaries/parametrization/epairproduction/KelnerKokoulinPetrukhinEpairProduction.h
index f449edb..ced9c2e 100644
--- a/src/PROPOSAL/PROPOSAL/secondaries/parametrization/epairproduction/KelnerKokoulinPetrukhinEpairProduction.h
+++ b/src/PROPOSAL/PROPOSAL/secondaries/parametrization/epairproduction/KelnerKokoulinPetrukhinEpairProduction.h
@@ -53,8 +53,10 @@ namespace secondaries {
                 throw std::logic_error(ss.str());
             }
 
+            // FunctionToIntegral is a function of 1 - rho
             auto integrand = [&](double rho) {
-                return param.FunctionToIntegral(p_def, comp, energy, v, rho);
+                return param.FunctionToIntegral(
+                    p_def, comp, energy, v, 1 - rho);
             };
 
             auto rho = 0.;
-- 
2.43.0


From 3e886115c23c39c3cb769f988f25a1dd125a0309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:33 +0000
Subject: [PATCH 56/77] fix: photon energies from annihilation were not
 resolved at high energies

---
 .../annihilation/HeitlerAnnihilation.cxx      | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/annihilation/HeitlerAnnihilation.cxx b/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/annihilation/HeitlerAnnihilation.cxx
index 6b86611..db9d991 100644
--- a/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/annihilation/HeitlerAnnihilation.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/annihilation/HeitlerAnnihilation.cxx
@@ -22,16 +22,28 @@ double secondaries::HeitlerAnnihilation::CalculateRho(double energy, double rnd,
         rho_max = 0;
     } else {
         auto aux = std::sqrt((gamma - 1.) / (gamma + 1.));
-        rho_min = 0.5 * (1. - aux);
+        rho_min = 1. / ((gamma + 1.) * (1. + aux)); // 0.5 * (1. - aux)
         rho_max = 0.5 * (1. + aux);
     }
 
     double a2 = 1 / std::pow(gamma + 1, 2.);
     double a1 = 1 + 2 * gamma * a2;
 
-    auto function_to_solve = [&](double rho) { return f(rho, a1, a2, rho_min, rho_max, rnd); };
-    double precision = rho_min * energy * HALF_PRECISION;
-    return Bisection(function_to_solve, rho_min, rho_max, precision, 100).first;
+    if (gamma <= 1)
+        return 0.5; // both photons have the same energy
+
+    // rho covers several orders of magnitude at high energies
+    auto rho = [&](double t) {
+        if (t <= 0)
+            return rho_min;
+        if (t >= 1)
+            return rho_max;
+        return rho_min * std::pow(rho_max / rho_min, t);
+    };
+    auto function_to_solve = [&](double t) {
+        return f(rho(t), a1, a2, rho_min, rho_max, rnd);
+    };
+    return rho(Bisection(function_to_solve, 0, 1, COMPUTER_PRECISION, 100).first);
 }
 
 std::tuple<Cartesian3D, Cartesian3D>
-- 
2.43.0


From 51432f1de78579b14331c14168c8ce57afa9e981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:33 +0000
Subject: [PATCH 57/77] fix: muon pair production used the number of atoms
 instead of the atomic weight

---
 .../PROPOSAL/crosssection/parametrization/MupairProduction.cxx  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/MupairProduction.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/MupairProduction.cxx
index 57cacec..664a637 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/MupairProduction.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/MupairProduction.cxx
@@ -92,7 +92,7 @@ double crosssection::MupairKelnerKokoulinPetrukhin::FunctionToIntegral(
     double aux, aux1, aux2, r2, rMax, Z3, xi, beta, A_pow, r_mu;
     double phi, U, U_max, X, Y;
     double medium_charge = comp.GetNucCharge();
-    double atomic_weight = comp.GetAtomInMolecule();
+    double atomic_weight = comp.GetAtomicNum();
     // double medium_log_constant =
     // components_[component_index_]->GetLogConstant();
     double medium_log_constant = 183; // According to the paper, B is set to 183
-- 
2.43.0


From 4d64ba2480b2bc0453fcb91bab0932e70d06080e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:33 +0000
Subject: [PATCH 58/77] fix: muon pair production by taus used the mass of
 muons in the upper limit of U

---
 .../PROPOSAL/crosssection/parametrization/MupairProduction.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/MupairProduction.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/MupairProduction.cxx
index 664a637..cbf89ce 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/MupairProduction.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/MupairProduction.cxx
@@ -125,7 +125,8 @@ double crosssection::MupairKelnerKokoulinPetrukhin::FunctionToIntegral(
 
     U = aux / (1 + aux1 / aux2);
 
-    xi = v * v * (1 - rMax * rMax) / (4 * (1 - v));
+    xi = std::pow((p_def.mass * v) / (2 * MMU), 2) * (1 - rMax * rMax)
+        / (1 - v);
     aux1 = 2 * SQRTE * std::pow(MMU, 2) * medium_log_constant * Z3 * (1 + xi)
            * (1 + Y);
     aux2 = ME * energy * v * (1 - rMax * rMax);
-- 
2.43.0


From 6f8a1ccf33f1a575e54c6504a992d27a96c17e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:34 +0000
Subject: [PATCH 59/77] fix: photonuclear losses of heavy particles left less
 than their mass

---
 .../PROPOSAL/crosssection/parametrization/Photonuclear.cxx  | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Photonuclear.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Photonuclear.cxx
index 1cdca73..a14d005 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Photonuclear.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Photonuclear.cxx
@@ -80,11 +80,13 @@ crosssection::KinematicLimits crosssection::Photonuclear::GetKinematicLimits(
         auto aux = p_def.mass / comp.GetAverageNucleonWeight();
         kin_lim.v_max
             -= comp.GetAverageNucleonWeight() * (1 + aux * aux) / (2 * energy);
+    } else {
+        // the lepton keeps at least its mass
+        kin_lim.v_max -= p_def.mass / energy;
     }
-    // vMax calculated above is always smaller than 1-m/E
+    // vMax calculated above for light particles is always smaller than 1-m/E
     // in comparison, the following inequality arise
     // (M-m)^2 >= 0
-    // limits.vMax = std::min(limits.vMax, 1 - p_def.mass/energy);
     if (kin_lim.v_max < kin_lim.v_min)
         kin_lim.v_max = kin_lim.v_min;
     return kin_lim;
-- 
2.43.0


From 44e54066d8b5222d55d3995b546c67b9926d18b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:06 +0000
Subject: [PATCH 60/77] fix: inner radii of spheres and cylinders in documents
 were truncated to integers

---
 src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx | 2 +-
 src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx b/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
index 27a82ba..dd35bea 100644
--- a/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
@@ -38,7 +38,7 @@ Cylinder::Cylinder(const nlohmann::json& config)
 
 
     radius_ = config["outer_radius"].get<double>();
-    inner_radius_ = config.value("inner_radius", 0);
+    inner_radius_ = config.value("inner_radius", 0.);
     z_ = config["height"].get<double>();
 
     assert(inner_radius_>=0);
diff --git a/src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx b/src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx
index 37a9d50..8210cff 100644
--- a/src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx
@@ -33,7 +33,7 @@ Sphere::Sphere(const nlohmann::json& config)
 
     config["outer_radius"].get_to(radius_);
 
-    inner_radius_ = config.value("inner_radius", 0);
+    inner_radius_ = config.value("inner_radius", 0.);
     if(inner_radius_ < 0) throw std::logic_error("inner radius must be >= 0");
     if(radius_ < inner_radius_)
        throw std::logic_error("radius must be larger than inner radius");
-- 
2.43.0


From fb88569e0089dc808cd9d8c674a61d2ccf47fcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:06 +0000
Subject: [PATCH 61/77] fix: invalid documents of cylinders aborted or were
 accepted instead of being refused

---
 src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx b/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
index dd35bea..a29589c 100644
--- a/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
@@ -33,17 +33,19 @@ Cylinder::Cylinder(const Vector3D& position, double z, double radius, double inn
 Cylinder::Cylinder(const nlohmann::json& config)
     : Geometry(config)
 {
-    assert(config["outer_radius"].is_number());
-    assert(config["height"].is_number());
-
+    if(!config.at("outer_radius").is_number())
+        throw std::invalid_argument("Outer radius is not a number.");
+    if(!config.at("height").is_number())
+        throw std::invalid_argument("Height is not a number.");
 
     radius_ = config["outer_radius"].get<double>();
     inner_radius_ = config.value("inner_radius", 0.);
     z_ = config["height"].get<double>();
 
-    assert(inner_radius_>=0);
-    assert(radius_>inner_radius_);
-    assert(z_>0);
+    if(inner_radius_ < 0) throw std::logic_error("inner radius must be >= 0");
+    if(radius_ <= inner_radius_)
+        throw std::logic_error("radius must be larger than inner radius");
+    if(z_ <= 0) throw std::logic_error("height must be > 0");
 }
 
 bool Cylinder::compare(const Geometry& geometry) const
-- 
2.43.0


From 3beeb311878f9a9347007ef827384eb1b8d75112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:06 +0000
Subject: [PATCH 62/77] fix: geometries from documents differed from the same
 geometry built in code by the spelling of their shape

---
 src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx      | 2 ++
 src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx | 2 ++
 src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx   | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx b/src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx
index 1841028..69514e5 100644
--- a/src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx
@@ -36,6 +36,8 @@ Box::Box(const nlohmann::json& config)
     if(x_ < 0) throw std::logic_error("lenght must be > 0");
     if(y_ < 0) throw std::logic_error("width must be > 0");
     if(z_ < 0) throw std::logic_error("height must be > 0");
+
+    name_ = "Box"; // independent of the spelling in the document
 }
 
 bool Box::compare(const Geometry& geometry) const
diff --git a/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx b/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
index a29589c..e997409 100644
--- a/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
@@ -46,6 +46,8 @@ Cylinder::Cylinder(const nlohmann::json& config)
     if(radius_ <= inner_radius_)
         throw std::logic_error("radius must be larger than inner radius");
     if(z_ <= 0) throw std::logic_error("height must be > 0");
+
+    name_ = "Cylinder"; // independent of the spelling in the document
 }
 
 bool Cylinder::compare(const Geometry& geometry) const
diff --git a/src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx b/src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx
index 8210cff..830385a 100644
--- a/src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx
@@ -37,6 +37,8 @@ Sphere::Sphere(const nlohmann::json& config)
     if(inner_radius_ < 0) throw std::logic_error("inner radius must be >= 0");
     if(radius_ < inner_radius_)
        throw std::logic_error("radius must be larger than inner radius");
+
+    name_ = "Sphere"; // independent of the spelling in the document
 }
 
 bool Sphere::compare(const Geometry& geometry) const
-- 
2.43.0


From 7c56e706cf8efd4d2fd9ae5711decf81e2d37f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:06 +0000
Subject: [PATCH 63/77] fix: spline documents with fewer than two points
 crashed

---
 src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
index f883a8a..35cc308 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
@@ -48,6 +48,7 @@ Spline::Spline(const nlohmann::json& config) {
     y_ = config["y"].get<std::vector<double>>();
 
     if (x_.size() != y_.size()) throw std::invalid_argument("Spline: x and y must have same dimension");
+    if (x_.size() < 2) throw std::invalid_argument("Spline: at least two points are needed.");
 }
 
 bool Spline::operator==(const Spline& spline) const {
-- 
2.43.0


From b0273e3758887fcf5a26a70db2ac462850204ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:12 +0000
Subject: [PATCH 64/77] fix: density documents whose mass_density is not a
 number aborted

---
 src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx   | 3 ++-
 .../detail/PROPOSAL/density_distr/density_homogeneous.cxx      | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
index 6a821f8..fefa135 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
@@ -40,7 +40,8 @@ Density_distr::Density_distr(const nlohmann::json& config) {
         throw std::invalid_argument("Axis: Type of axis must be radial or cartesian");
     }
     if (config.contains("mass_density")) {
-        assert(config["mass_density"].is_number());
+        if (!config["mass_density"].is_number())
+            throw std::invalid_argument("Density_distr: mass_density is not a number");
         massDensity_ = config["mass_density"].get<double>();
     } else {
         throw std::invalid_argument("Density_distr: mass_density must be defined in json");
diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_homogeneous.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_homogeneous.cxx
index 33fa3cd..c87a663 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_homogeneous.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_homogeneous.cxx
@@ -18,7 +18,8 @@ Density_homogeneous::Density_homogeneous(const Density_homogeneous& dens_distr)
 
 Density_homogeneous::Density_homogeneous(const nlohmann::json& config) : Density_distr() {
     if (config.contains("mass_density")) {
-        assert(config["mass_density"].is_number());
+        if (!config["mass_density"].is_number())
+            throw std::invalid_argument("Density_distr: mass_density is not a number");
         massDensity_ = config["mass_density"].get<double>();
     } else {
         throw std::invalid_argument("Density_distr: mass_density must be defined in json");
-- 
2.43.0


From e1952b42be327129332d5ddd344952535511b00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:18 +0000
Subject: [PATCH 65/77] fix: copied, assigned or reloaded interpolation tables
 and 2d tables from arrays could not be stored or were stored without their
 values

---
 src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
index d0f3300..0f310e8 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
@@ -616,9 +616,7 @@ bool Interpolant::Save(std::ofstream& out, bool binary_tables)
         Logging::Get("proposal.interpolant")->error("Can not open file for writing");
         return 0;
     }
-    bool D2 = false;
-    if (function2d_ != NULL)
-        D2 = true;
+    bool D2 = !Interpolant_.empty();
 
     if (binary_tables)
     {
-- 
2.43.0


From 0e0bed4e576191f73a7a4c4b690679bcd0994ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:18 +0000
Subject: [PATCH 66/77] fix: 2d interpolation tables that are cut off in their
 last row were accepted

---
 src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
index 0f310e8..ce3cd7b 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
@@ -797,7 +797,8 @@ bool Interpolant::Load(std::ifstream& in, bool binary_tables)
                 if (!in.good())
                     return 0;
                 Interpolant_.at(i) = new Interpolant();
-                Interpolant_.at(i)->Load(in, binary_tables);
+                if (!Interpolant_.at(i)->Load(in, binary_tables))
+                    return 0;
                 Interpolant_.at(i)->self_ = false;
             }
 
@@ -851,7 +852,8 @@ bool Interpolant::Load(std::ifstream& in, bool binary_tables)
                 if (!in.good())
                     return 0;
                 Interpolant_.at(i) = new Interpolant();
-                Interpolant_.at(i)->Load(in, binary_tables);
+                if (!Interpolant_.at(i)->Load(in, binary_tables))
+                    return 0;
                 Interpolant_.at(i)->self_ = false;
             }
 
-- 
2.43.0


From 486f7e38da398a406923bf7ba15a85fe36bdd44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:39 +0000
Subject: [PATCH 67/77] fix: stored splines were rounded to six digits

---
 src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
index 35cc308..b66a782 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
@@ -116,6 +116,7 @@ std::vector<spline_container> Spline::GetSplineContainer() const {
 
 bool Spline::save(std::string path, bool binary) {
     std::stringstream sstr;
+    sstr.precision(17);
     sstr << *this;
 
     Table_write writer(path, binary);
-- 
2.43.0


From 28fcd81a1455403f2ae81d0005bc4e86b3264f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:07 +0000
Subject: [PATCH 68/77] fix: splines stored in binary were the bytes of their
 objects, reading them crashed

---
 src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx | 34 +++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
index b66a782..f78b53d 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
@@ -33,8 +33,26 @@ Spline::Spline(const Spline& spline)
 
 Spline::Spline(std::string path, bool binary) {
     Table_read reader(path, binary);
-    reader.jump(2);
 
+    if (binary) {
+        reader.read(n_subintervalls_);
+        spline_container container;
+        for (unsigned int i = 0; i < n_subintervalls_; ++i) {
+            unsigned int n_coeff = 0;
+            reader.read(container.domain.first);
+            reader.read(container.domain.second);
+            reader.read(n_coeff);
+            container.coeff.resize(n_coeff);
+            for (auto& a_i : container.coeff)
+                reader.read(a_i);
+            subintervall_.push_back(container.domain.first);
+            splines_.push_back(Polynom(container.coeff));
+        }
+        subintervall_.push_back(container.domain.second);
+        return;
+    }
+
+    reader.jump(2);
     reader.read(*this);
 }
 
@@ -115,6 +133,20 @@ std::vector<spline_container> Spline::GetSplineContainer() const {
 }
 
 bool Spline::save(std::string path, bool binary) {
+    if (binary) {
+        Table_write writer(path, binary);
+        writer.write(n_subintervalls_);
+        for (auto const& container : GetSplineContainer()) {
+            writer.write(container.domain.first);
+            writer.write(container.domain.second);
+            writer.write(static_cast<unsigned int>(container.coeff.size()));
+            for (auto a_i : container.coeff)
+                writer.write(a_i);
+        }
+        writer.close();
+        return 1;
+    }
+
     std::stringstream sstr;
     sstr.precision(17);
     sstr << *this;
-- 
2.43.0


From 3dd86a4c97c2b8a0d304b826b38683400b5b273f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:06 +0000
Subject: [PATCH 69/77] fix: interpolation of arrays and inverse interpolation
 of order one left the nodes of the table

---
 src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
index ce3cd7b..dcd728c 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
@@ -198,7 +198,7 @@ double Interpolant::InterpolateArray(double x)
     }
 
     starti_ = i + auxdir;
-    start   = i - (int)(0.5 * (romberg_ - 1 - auxdir));
+    start   = i - (int)std::floor(0.5 * (romberg_ - 1 - auxdir));
 
     if (start < 0)
     {
@@ -254,7 +254,7 @@ double Interpolant::InterpolateArray(double x1, double x2)
     }
 
     starti_ = i + auxdir;
-    start   = i - (int)(0.5 * (romberg_ - 1 - auxdir));
+    start   = i - (int)std::floor(0.5 * (romberg_ - 1 - auxdir));
 
     if (start < 0)
     {
@@ -361,7 +361,7 @@ double Interpolant::FindLimit(double y)
     }
 
     starti_ = i + auxdir;
-    start   = i - (int)(0.5 * (romberg_ - 1 - auxdir));
+    start   = i - (int)std::floor(0.5 * (romberg_ - 1 - auxdir));
 
     if (start < 0)
     {
@@ -494,7 +494,7 @@ double Interpolant::FindLimit(double x1, double y)
     }
 
     starti_ = i + auxdir;
-    start   = i - (int)(0.5 * (romberg_ - 1 - auxdir));
+    start   = i - (int)std::floor(0.5 * (romberg_ - 1 - auxdir));
 
     if (start < 0)
     {
-- 
2.43.0


From d327b0f0b9187cad815c47a07f06acebf5276155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:05 +0000
Subject: [PATCH 70/77] fix: the hash of particles ignored their hard component
 tables, so tables of cross sections of other particles were used

---
 src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx b/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx
index d6f562e..3cba1a6 100644
--- a/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx
@@ -250,6 +250,9 @@ bool ParticleDef::operator!=(const ParticleDef& def) const
 size_t ParticleDef::GetHash() const{
     size_t hash_digest = 0;
     hash_combine(hash_digest, mass, low, lifetime, charge, weak_partner);
+    for (const auto& row : hard_component_table)
+        for (auto value : row)
+            hash_combine(hash_digest, value);
     return hash_digest;
 }
 
-- 
2.43.0


From 12c0d3cc3f2aeddc4cc03ec6c6d28ba646d235a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:05 +0000
Subject: [PATCH 71/77] fix: the hash of weak interaction secondaries was made
 from the address of a string, so stored tables were never found again

---
 .../weakinteraction/WeakCooperSarkarMertsch.cxx               | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/weakinteraction/WeakCooperSarkarMertsch.cxx b/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/weakinteraction/WeakCooperSarkarMertsch.cxx
index cd53318..ea6c5cf 100644
--- a/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/weakinteraction/WeakCooperSarkarMertsch.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/weakinteraction/WeakCooperSarkarMertsch.cxx
@@ -4,13 +4,15 @@
 
 #include <cmath>
 #include <stdexcept>
+#include <string>
 
 using namespace PROPOSAL;
 
 size_t secondaries::WeakCooperSarkarMertsch::generate_hash(const ParticleDef& p,
                                                            const Medium& m) {
     size_t hash = 0;
-    hash_combine(hash, p.GetHash(), m.GetHash(), "secondaries_coopersarkarmertsch");
+    hash_combine(hash, p.GetHash(), m.GetHash(),
+                 std::string("secondaries_coopersarkarmertsch"));
     return hash;
 }
 
-- 
2.43.0


From 96d021ada6fa91569f2fda3222373d2c708b1a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:05 +0000
Subject: [PATCH 72/77] fix: the hash of exact times ignored the mass of the
 particle, so tables of other particles were used

---
 .../PROPOSAL/propagation_utility/TimeBuilder.cxx    | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/propagation_utility/TimeBuilder.cxx b/src/PROPOSAL/detail/PROPOSAL/propagation_utility/TimeBuilder.cxx
index 01e784e..1b79e67 100644
--- a/src/PROPOSAL/detail/PROPOSAL/propagation_utility/TimeBuilder.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/propagation_utility/TimeBuilder.cxx
@@ -4,11 +4,20 @@
 
 using namespace PROPOSAL;
 
+namespace {
+size_t time_hash(const Displacement& disp, double mass)
+{
+    auto hash = disp.GetHash();
+    hash_combine(hash, mass);
+    return hash;
+}
+} // namespace
+
 ExactTimeBuilder::ExactTimeBuilder(
     std::shared_ptr<Displacement> _disp, double _mass, std::false_type)
     : Time(_mass)
     , disp(_disp)
-    , hash(disp->GetHash())
+    , hash(time_hash(*disp, _mass))
     , time_integral(std::make_unique<UtilityIntegral>(
           [this](double E) { return FunctionToIntegral(E); },
           _disp->GetLowerLim(), this->GetHash()))
@@ -19,7 +28,7 @@ ExactTimeBuilder::ExactTimeBuilder(
     std::shared_ptr<Displacement> _disp, double _mass, std::true_type)
     : Time(_mass)
     , disp(_disp)
-    , hash(disp->GetHash())
+    , hash(time_hash(*disp, _mass))
     , time_integral(std::make_unique<UtilityInterpolant>(
           [this](double E) { return FunctionToIntegral(E); },
           _disp->GetLowerLim(), this->GetHash()))
-- 
2.43.0


From 0eded9d9c52a97e317c113d0f00ae11de99ed5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:05 +0000
Subject: [PATCH 73/77] fix: the hash of continuous randomization ignored its
 cross sections, so tables of other cross sections were used

---
 src/PROPOSAL/detail/PROPOSAL/propagation_utility/ContRand.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/propagation_utility/ContRand.cxx b/src/PROPOSAL/detail/PROPOSAL/propagation_utility/ContRand.cxx
index 4a37aac..55abe43 100644
--- a/src/PROPOSAL/detail/PROPOSAL/propagation_utility/ContRand.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/propagation_utility/ContRand.cxx
@@ -35,5 +35,5 @@ double ContRand::FunctionToIntegral(double energy)
 }
 
 void ContRand::CalculateHash() noexcept {
-    hash_combine(hash, disp->GetHash());
+    hash_combine(hash, disp->GetHash(), CrossSectionVector::GetHash(cross_list));
 }
\ No newline at end of file
-- 
2.43.0


From 69e0653efdd6b8b6187a5220edab57c0efff2255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:05 +0000
Subject: [PATCH 74/77] fix: the hash of interactions ignored their
 displacement, so tables of other displacements were used

---
 src/PROPOSAL/detail/PROPOSAL/propagation_utility/Interaction.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/propagation_utility/Interaction.cxx b/src/PROPOSAL/detail/PROPOSAL/propagation_utility/Interaction.cxx
index b4f3b64..5bcc4b5 100644
--- a/src/PROPOSAL/detail/PROPOSAL/propagation_utility/Interaction.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/propagation_utility/Interaction.cxx
@@ -15,6 +15,7 @@ Interaction::Interaction(
 {
     if (cross_list.size() < 1)
         throw std::invalid_argument("At least one crosssection is required.");
+    hash_combine(hash, disp->GetHash());
 }
 
 double Interaction::FunctionToIntegral(double energy) const
-- 
2.43.0


From a7fb2e5141440eb7b0ee75188a704f559cbf2eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:25 +0000
Subject: [PATCH 75/77] fix: pair production by electrons and positrons was
 integrated over the wrong asymmetries

---
 .../PROPOSAL/crosssection/parametrization/EpairProduction.cxx   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/EpairProduction.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/EpairProduction.cxx
index a8fb16c..922b272 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/EpairProduction.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/EpairProduction.cxx
@@ -490,6 +490,8 @@ double crosssection::EpairForElectronPositron::FunctionToIntegral(
     // double medium_log_constant = 183; // According to the paper, B is set to
     // 183
 
+    rho = 1 - rho; // only for integral optimization - do not forget to swap
+                   // integration limits!
     r2 = rho * rho;
     rMax = 1 - 2 * ME / (v * energy);
     Z3 = std::pow(medium_charge, -1. / 3);
-- 
2.43.0


From 4b58885317ef178bab7f45a1ab3d464864d3bc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:58 +0000
Subject: [PATCH 76/77] fix: the weak interaction counted only one nucleon per
 nucleus

---
 .../crosssection/parametrization/WeakInteraction.cxx       | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/WeakInteraction.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/WeakInteraction.cxx
index aa41e08..2cbbf73 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/WeakInteraction.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/WeakInteraction.cxx
@@ -77,9 +77,10 @@ double crosssection::WeakCooperSarkarMertsch::DifferentialCrossSection(
             log10_energy, v);
     }
 
-    auto mean_contr = (proton_contr + neutron_contr) / nuclear_number;
-    // assert(mean_contr > 0);
+    // cross section of the nucleus: every nucleon is a target
+    auto sum_contr = proton_contr + neutron_contr;
+    // assert(sum_contr > 0);
 
     // factor 1e-36: conversion from pb to cm^2
-    return NA / comp.GetAtomicNum() * 1e-36 * std::max(mean_contr, 0.);
+    return NA / nuclear_number * 1e-36 * std::max(sum_contr, 0.);
 }
-- 
2.43.0


From 387c2cfeaea811c0504d7fd5542377e22e2d9f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:58 +0000
Subject: [PATCH 77/77] fix: the LPM effect of pair production ignored how many
 atoms of each kind a molecule has

---
 .../PROPOSAL/crosssection/parametrization/EpairProduction.cxx  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/EpairProduction.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/EpairProduction.cxx
index 922b272..470be31 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/EpairProduction.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/EpairProduction.cxx
@@ -563,7 +563,8 @@ crosssection::EpairLPM::EpairLPM(
     auto components = medium.GetComponents();
 
     for (auto comp : components) {
-        sum += comp.GetNucCharge() * comp.GetNucCharge()
+        sum += comp.GetAtomInMolecule() * comp.GetNucCharge()
+            * comp.GetNucCharge()
             * std::log(3.25 * comp.GetLogConstant()
                 * std::pow(comp.GetNucCharge(), -1. / 3));
     }
-- 
2.43.0

