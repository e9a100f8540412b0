From d935d40eb4968dc79124108e2dd2a370f1fad4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:01 +0000
Subject: [PATCH 01/41] fix: beam 3-point and hexahedron 27-point integration
 tables overwrote weights and repeated points

---
 trunk/src/integration/IntBeam_Imp.hpp       | 4 ++--
 trunk/src/integration/IntHexahedron_Imp.hpp | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/trunk/src/integration/IntBeam_Imp.hpp b/trunk/src/integration/IntBeam_Imp.hpp
index 0525147..25c3913 100644
--- a/trunk/src/integration/IntBeam_Imp.hpp
+++ b/trunk/src/integration/IntBeam_Imp.hpp
@@ -52,9 +52,9 @@ namespace ENigMA
                 m_xi[0] = +0.0000000000;
                 m_wxi[0] = +0.8888888888;
                 m_xi[1] = -0.7745966692;
-                m_wxi[0] = +0.5555555555;
-                m_xi[2] = +0.7745966692;
                 m_wxi[1] = +0.5555555555;
+                m_xi[2] = +0.7745966692;
+                m_wxi[2] = +0.5555555555;
                 break;
 
             case 4:
diff --git a/trunk/src/integration/IntHexahedron_Imp.hpp b/trunk/src/integration/IntHexahedron_Imp.hpp
index 0613272..2368e84 100644
--- a/trunk/src/integration/IntHexahedron_Imp.hpp
+++ b/trunk/src/integration/IntHexahedron_Imp.hpp
@@ -144,7 +144,7 @@ namespace ENigMA
                 m_weta[6] = 0.5555555556;
                 m_wzeta[6] = 0.5555555556;
                 m_xi[7] = +0.0000000000;
-                m_eta[7] = -0.7745966692;
+                m_eta[7] = +0.7745966692;
                 m_zeta[7] = -0.7745966692;
                 m_wxi[7] = 0.8888888889;
                 m_weta[7] = 0.5555555556;
@@ -198,7 +198,7 @@ namespace ENigMA
                 m_weta[15] = 0.5555555556;
                 m_wzeta[15] = 0.5555555556;
                 m_xi[16] = +0.0000000000;
-                m_eta[16] = -0.7745966692;
+                m_eta[16] = +0.7745966692;
                 m_zeta[16] = +0.7745966692;
                 m_wxi[16] = 0.8888888889;
                 m_weta[16] = 0.5555555556;
@@ -252,7 +252,7 @@ namespace ENigMA
                 m_weta[24] = 0.5555555556;
                 m_wzeta[24] = 0.8888888889;
                 m_xi[25] = +0.0000000000;
-                m_eta[25] = -0.7745966692;
+                m_eta[25] = +0.7745966692;
                 m_zeta[25] = +0.0000000000;
                 m_wxi[25] = 0.8888888889;
                 m_weta[25] = 0.5555555556;
-- 
2.43.0


From 7b81286f31632d9ee8b8656319911c6cd28b66c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:00 +0000
Subject: [PATCH 02/41] fix: triangle and prism integration weights did not add
 up to the cell measure

---
 trunk/src/integration/IntTriangle_Imp.hpp     |  6 +-
 .../integration/IntTriangularPrism_Imp.hpp    | 74 +++++++++----------
 2 files changed, 40 insertions(+), 40 deletions(-)

diff --git a/trunk/src/integration/IntTriangle_Imp.hpp b/trunk/src/integration/IntTriangle_Imp.hpp
index 5bc02f6..f860b12 100644
--- a/trunk/src/integration/IntTriangle_Imp.hpp
+++ b/trunk/src/integration/IntTriangle_Imp.hpp
@@ -48,7 +48,7 @@ namespace ENigMA
                 const Real o1beta1[1] = { 3.33333333333333e-001 };
                 const Real o1beta2[1] = { 3.33333333333333e-001 };
                 const Real o1beta3[1] = { 3.33333333333333e-001 };
-                const Real o1wbeta[1] = { 1.0 };
+                const Real o1wbeta[1] = { 0.5 };
 
                 for (Integer k = 0; k < CIntGaussIntegration<Real>::m_integPoints; ++k)
                 {
@@ -66,7 +66,7 @@ namespace ENigMA
                 const Real o3beta1[3] = { 0.5, 0.0, 0.5 };
                 const Real o3beta2[3] = { 0.0, 0.5, 0.5 };
                 const Real o3beta3[3] = { 0.5, 0.5, 0.0 };
-                const Real o3wbeta[3] = { 1.0, 1.0, 1.0 };
+                const Real o3wbeta[3] = { 1.66666666666667e-001, 1.66666666666667e-001, 1.66666666666667e-001 };
 
                 for (Integer k = 0; k < CIntGaussIntegration<Real>::m_integPoints; ++k)
                 {
@@ -103,7 +103,7 @@ namespace ENigMA
                 const Real o7beta1[7] = { 3.33333333333333e-001, 1.01286507323457e-001, 1.01286507323457e-001, 7.97426985353088e-001, 4.70142064105115e-001, 4.70142064105115e-001, 5.97158717897699e-002 };
                 const Real o7beta2[7] = { 3.33333333333333e-001, 1.01286507323456e-001, 7.97426985353087e-001, 1.01286507323456e-001, 5.97158717897700e-002, 4.70142064105115e-001, 4.70142064105115e-001 };
                 const Real o7beta3[7] = { 3.33333333333333e-001, 7.97426985353087e-001, 1.01286507323456e-001, 1.01286507323456e-001, 4.70142064105115e-001, 5.97158717897700e-002, 4.70142064105115e-001 };
-                const Real o7wbeta[7] = { 1.12515000150000e-001, 6.29695902724135e-002, 6.29695902724135e-002, 6.29695902724135e-002, 6.61970763942530e-002, 6.61970763942530e-002, 6.61970763942530e-002 };
+                const Real o7wbeta[7] = { 1.12500000000000e-001, 6.29695902724135e-002, 6.29695902724135e-002, 6.29695902724135e-002, 6.61970763942530e-002, 6.61970763942530e-002, 6.61970763942530e-002 };
 
                 for (Integer k = 0; k < CIntGaussIntegration<Real>::m_integPoints; ++k)
                 {
diff --git a/trunk/src/integration/IntTriangularPrism_Imp.hpp b/trunk/src/integration/IntTriangularPrism_Imp.hpp
index 9f81f86..2505c9d 100644
--- a/trunk/src/integration/IntTriangularPrism_Imp.hpp
+++ b/trunk/src/integration/IntTriangularPrism_Imp.hpp
@@ -36,11 +36,11 @@ namespace ENigMA
             {
             case 1:
 
-                m_xi[0] = 0.0;
-                m_eta[0] = 0.0;
+                m_xi[0] = 1.0 / 3.0;
+                m_eta[0] = 1.0 / 3.0;
                 m_zeta[0] = 0.0;
-                m_wxi[0] = 2.0;
-                m_weta[0] = 2.0;
+                m_wxi[0] = 0.5;
+                m_weta[0] = 1.0;
                 m_wzeta[0] = 2.0;
                 break;
 
@@ -89,57 +89,57 @@ namespace ENigMA
                 m_xi[0] = 1.0 / 6.0;
                 m_eta[0] = 1.0 / 6.0;
                 m_zeta[0] = -sqrt(3.0) / sqrt(5.0);
-                m_wxi[0] = 5.0 / 18.0;
-                m_weta[0] = 5.0 / 18.0;
-                m_wzeta[0] = 5.0 / 18.0;
-                m_xi[1] = 1.0 / 3.0;
+                m_wxi[0] = 1.0 / 6.0;
+                m_weta[0] = 1.0;
+                m_wzeta[0] = 5.0 / 9.0;
+                m_xi[1] = 2.0 / 3.0;
                 m_eta[1] = 1.0 / 6.0;
                 m_zeta[1] = -sqrt(3.0) / sqrt(5.0);
-                m_wxi[1] = 5.0 / 18.0;
-                m_weta[1] = 5.0 / 18.0;
-                m_wzeta[1] = 5.0 / 18.0;
+                m_wxi[1] = 1.0 / 6.0;
+                m_weta[1] = 1.0;
+                m_wzeta[1] = 5.0 / 9.0;
                 m_xi[2] = 1.0 / 6.0;
-                m_eta[2] = 1.0 / 3.0;
+                m_eta[2] = 2.0 / 3.0;
                 m_zeta[2] = -sqrt(3.0) / sqrt(5.0);
-                m_wxi[2] = 5.0 / 18.0;
-                m_weta[2] = 5.0 / 18.0;
-                m_wzeta[2] = 5.0 / 18.0;
+                m_wxi[2] = 1.0 / 6.0;
+                m_weta[2] = 1.0;
+                m_wzeta[2] = 5.0 / 9.0;
                 m_xi[3] = 1.0 / 6.0;
                 m_eta[3] = 1.0 / 6.0;
                 m_zeta[3] = 0.0;
-                m_wxi[3] = 8.0 / 18.0;
-                m_weta[3] = 8.0 / 18.0;
-                m_wzeta[3] = 8.0 / 18.0;
-                m_xi[4] = 1.0 / 3.0;
+                m_wxi[3] = 1.0 / 6.0;
+                m_weta[3] = 1.0;
+                m_wzeta[3] = 8.0 / 9.0;
+                m_xi[4] = 2.0 / 3.0;
                 m_eta[4] = 1.0 / 6.0;
                 m_zeta[4] = 0.0;
-                m_wxi[4] = 8.0 / 18.0;
-                m_weta[4] = 8.0 / 18.0;
-                m_wzeta[4] = 8.0 / 18.0;
+                m_wxi[4] = 1.0 / 6.0;
+                m_weta[4] = 1.0;
+                m_wzeta[4] = 8.0 / 9.0;
                 m_xi[5] = 1.0 / 6.0;
-                m_eta[5] = 1.0 / 3.0;
+                m_eta[5] = 2.0 / 3.0;
                 m_zeta[5] = 0.0;
-                m_wxi[5] = 8.0 / 18.0;
-                m_weta[5] = 8.0 / 18.0;
-                m_wzeta[5] = 8.0 / 18.0;
+                m_wxi[5] = 1.0 / 6.0;
+                m_weta[5] = 1.0;
+                m_wzeta[5] = 8.0 / 9.0;
                 m_xi[6] = 1.0 / 6.0;
                 m_eta[6] = 1.0 / 6.0;
                 m_zeta[6] = +sqrt(3.0) / sqrt(5.0);
-                m_wxi[6] = 5.0 / 18.0;
-                m_weta[6] = 5.0 / 18.0;
-                m_wzeta[6] = 5.0 / 18.0;
-                m_xi[7] = 1.0 / 3.0;
+                m_wxi[6] = 1.0 / 6.0;
+                m_weta[6] = 1.0;
+                m_wzeta[6] = 5.0 / 9.0;
+                m_xi[7] = 2.0 / 3.0;
                 m_eta[7] = 1.0 / 6.0;
                 m_zeta[7] = +sqrt(3.0) / sqrt(5.0);
-                m_wxi[7] = 5.0 / 18.0;
-                m_weta[7] = 5.0 / 18.0;
-                m_wzeta[7] = 5.0 / 18.0;
+                m_wxi[7] = 1.0 / 6.0;
+                m_weta[7] = 1.0;
+                m_wzeta[7] = 5.0 / 9.0;
                 m_xi[8] = 1.0 / 6.0;
-                m_eta[8] = 1.0 / 3.0;
+                m_eta[8] = 2.0 / 3.0;
                 m_zeta[8] = +sqrt(3.0) / sqrt(5.0);
-                m_wxi[8] = 5.0 / 18.0;
-                m_weta[8] = 5.0 / 18.0;
-                m_wzeta[8] = 5.0 / 18.0;
+                m_wxi[8] = 1.0 / 6.0;
+                m_weta[8] = 1.0;
+                m_wzeta[8] = 5.0 / 9.0;
                 break;
             }
         }
-- 
2.43.0


From 1a9c6365c46633b4e257efb497a1b5e32fca1b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:46 +0000
Subject: [PATCH 03/41] fix: quadrilateral element evaluated its Jacobian at
 the mirrored integration point

---
 trunk/src/fem/FemQuadrilateral_Imp.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/trunk/src/fem/FemQuadrilateral_Imp.hpp b/trunk/src/fem/FemQuadrilateral_Imp.hpp
index 38f2eb7..ec32724 100644
--- a/trunk/src/fem/FemQuadrilateral_Imp.hpp
+++ b/trunk/src/fem/FemQuadrilateral_Imp.hpp
@@ -115,8 +115,8 @@ namespace ENigMA
 
                 J.resize(2, 2);
 
-                J << -xim * m_x1 + xim * m_x2 + xip * m_x3 - xip * m_x4, -xim * m_y1 + xim * m_y2 + xip * m_y3 - xip * m_y4,
-                    -etam * m_x1 - etap * m_x2 + etap * m_x3 + etam * m_x4, -etam * m_y1 - etap * m_y2 + etap * m_y3 + etam * m_y4;
+                J << -etam * m_x1 + etam * m_x2 + etap * m_x3 - etap * m_x4, -etam * m_y1 + etam * m_y2 + etap * m_y3 - etap * m_y4,
+                    -xim * m_x1 - xip * m_x2 + xip * m_x3 + xim * m_x4, -xim * m_y1 - xip * m_y2 + xip * m_y3 + xim * m_y4;
 
                 J *= 0.25;
 
@@ -174,15 +174,15 @@ namespace ENigMA
 
                 J.resize(2, 2);
 
-                J << -xim * m_x1 + xim * m_x2 + xip * m_x3 - xip * m_x4, -xim * m_y1 + xim * m_y2 + xip * m_y3 - xip * m_y4,
-                    -etam * m_x1 - etap * m_x2 + etap * m_x3 + etam * m_x4, -etam * m_y1 - etap * m_y2 + etap * m_y3 + etam * m_y4;
+                J << -etam * m_x1 + etam * m_x2 + etap * m_x3 - etap * m_x4, -etam * m_y1 + etam * m_y2 + etap * m_y3 - etap * m_y4,
+                    -xim * m_x1 - xip * m_x2 + xip * m_x3 + xim * m_x4, -xim * m_y1 - xip * m_y2 + xip * m_y3 + xim * m_y4;
 
                 J *= 0.25;
 
                 Real detJ = J.determinant();
 
-                G << -xim, +xim, +xip, -xip,
-                    -etam, -etap, +etap, +etam;
+                G << -etam, +etam, +etap, -etap,
+                    -xim, -xip, +xip, +xim;
 
                 G *= 0.25;
 
-- 
2.43.0


From d73a42d965cd3bd4c7359d3d2eb4f3c96ad626f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:54 +0000
Subject: [PATCH 04/41] fix: constant strain elements had an unsymmetric
 elasticity matrix and a load vector of the wrong size

---
 trunk/src/fem/structural/FemConstantStrainTetrahedron_Imp.hpp | 2 +-
 trunk/src/fem/structural/FemConstantStrainTriangle_Imp.hpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/src/fem/structural/FemConstantStrainTetrahedron_Imp.hpp b/trunk/src/fem/structural/FemConstantStrainTetrahedron_Imp.hpp
index 88893fb..119c69a 100644
--- a/trunk/src/fem/structural/FemConstantStrainTetrahedron_Imp.hpp
+++ b/trunk/src/fem/structural/FemConstantStrainTetrahedron_Imp.hpp
@@ -47,7 +47,7 @@ namespace ENigMA
 
                 Real v = CFemStructuralElement<Real>::coeffPoisson();
 
-                D << 1.0 - v, v, 0.0, 0.0, 0.0, 0.0,
+                D << 1.0 - v, v, v, 0.0, 0.0, 0.0,
                     v, 1.0 - v, v, 0.0, 0.0, 0.0,
                     v, v, 1.0 - v, 0.0, 0.0, 0.0,
                     0.0, 0.0, 0.0, 0.5 - v, 0.0, 0.0,
diff --git a/trunk/src/fem/structural/FemConstantStrainTriangle_Imp.hpp b/trunk/src/fem/structural/FemConstantStrainTriangle_Imp.hpp
index fcb6dde..c65c191 100644
--- a/trunk/src/fem/structural/FemConstantStrainTriangle_Imp.hpp
+++ b/trunk/src/fem/structural/FemConstantStrainTriangle_Imp.hpp
@@ -20,7 +20,7 @@ namespace ENigMA
             template <typename Real>
             CFemConstantStrainTriangle<Real, 3, 2, 1>::CFemConstantStrainTriangle()
             {
-                this->source.resize(3);
+                this->source.resize(6);
                 this->source.setZero();
 
                 this->m_thickness = 1.0;
-- 
2.43.0


From dd7220952cc2880b42ab78989432e606f8c60c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:59 +0000
Subject: [PATCH 05/41] fix: tetrahedral convection matrix used the velocity of
 the wrong node

---
 trunk/src/fem/flow/FemFlowTetrahedron_Imp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/src/fem/flow/FemFlowTetrahedron_Imp.hpp b/trunk/src/fem/flow/FemFlowTetrahedron_Imp.hpp
index b2a4cef..aa252ec 100644
--- a/trunk/src/fem/flow/FemFlowTetrahedron_Imp.hpp
+++ b/trunk/src/fem/flow/FemFlowTetrahedron_Imp.hpp
@@ -64,7 +64,7 @@ namespace ENigMA
                 C << (us + u[0]) * bi + (vs + v[0]) * ci + (ws + w[0]) * di, (us + u[0]) * bj + (vs + v[0]) * cj + (ws + w[0]) * dj, (us + u[0]) * bk + (vs + v[0]) * ck + (ws + w[0]) * dk, (us + u[0]) * bl + (vs + v[0]) * cl + (ws + w[0]) * dl,
                     (us + u[1]) * bi + (vs + v[1]) * ci + (ws + w[1]) * di, (us + u[1]) * bj + (vs + v[1]) * cj + (ws + w[1]) * dj, (us + u[1]) * bk + (vs + v[1]) * ck + (ws + w[1]) * dk, (us + u[1]) * bl + (vs + v[1]) * cl + (ws + w[1]) * dl,
                     (us + u[2]) * bi + (vs + v[2]) * ci + (ws + w[2]) * di, (us + u[2]) * bj + (vs + v[2]) * cj + (ws + w[2]) * dj, (us + u[2]) * bk + (vs + v[2]) * ck + (ws + w[2]) * dk, (us + u[2]) * bl + (vs + v[2]) * cl + (ws + w[2]) * dl,
-                    (us + u[3]) * bi + (vs + v[3]) * ci + (ws + w[3]) * di, (us + u[3]) * bj + (vs + v[3]) * cj + (ws + w[3]) * dj, (us + u[2]) * bk + (vs + v[3]) * ck + (ws + w[3]) * dk, (us + u[3]) * bl + (vs + v[3]) * cl + (ws + w[3]) * dl;
+                    (us + u[3]) * bi + (vs + v[3]) * ci + (ws + w[3]) * di, (us + u[3]) * bj + (vs + v[3]) * cj + (ws + w[3]) * dj, (us + u[3]) * bk + (vs + v[3]) * ck + (ws + w[3]) * dk, (us + u[3]) * bl + (vs + v[3]) * cl + (ws + w[3]) * dl;
 
                 C *= 1.0 / 120.0;
 
-- 
2.43.0


From 59df43eb48b737a609f013de32b34c388c426c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:16 +0000
Subject: [PATCH 06/41] fix: CGeoLine end point setters keep vector and cached
 measures consistent

---
 trunk/src/geometry/GeoLine_Imp.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trunk/src/geometry/GeoLine_Imp.hpp b/trunk/src/geometry/GeoLine_Imp.hpp
index 21b99b1..5dca019 100644
--- a/trunk/src/geometry/GeoLine_Imp.hpp
+++ b/trunk/src/geometry/GeoLine_Imp.hpp
@@ -43,6 +43,8 @@ namespace ENigMA
         void CGeoLine<Real>::setStartPoint(const CGeoCoordinate<Real>& aPoint1)
         {
             this->m_startPoint = aPoint1;
+            this->m_vector = m_endPoint - aPoint1;
+            CGeoLength<Real>::reset();
         }
 
         template <typename Real>
@@ -50,6 +52,7 @@ namespace ENigMA
         {
             this->m_endPoint = aPoint2;
             this->m_vector = aPoint2 - m_startPoint;
+            CGeoLength<Real>::reset();
         }
 
         template <typename Real>
-- 
2.43.0


From f76eb7c71a3307244d771ffbac0ba2cc69298ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:16 +0000
Subject: [PATCH 07/41] fix: bounding boxes of circles and spheres follow their
 centre

---
 trunk/src/geometry/GeoCircle_Imp.hpp | 4 ++--
 trunk/src/geometry/GeoSphere_Imp.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/trunk/src/geometry/GeoCircle_Imp.hpp b/trunk/src/geometry/GeoCircle_Imp.hpp
index 0668dbd..ee265f2 100644
--- a/trunk/src/geometry/GeoCircle_Imp.hpp
+++ b/trunk/src/geometry/GeoCircle_Imp.hpp
@@ -106,8 +106,8 @@ namespace ENigMA
             {
                 this->m_boundingBox.reset();
 
-                CGeoCoordinate<Real> aCoordinate1(-this->m_radius, -this->m_radius, 0.0);
-                CGeoCoordinate<Real> aCoordinate2(+this->m_radius, +this->m_radius, 0.0);
+                CGeoCoordinate<Real> aCoordinate1(this->m_center.x() - this->m_radius, this->m_center.y() - this->m_radius, this->m_center.z());
+                CGeoCoordinate<Real> aCoordinate2(this->m_center.x() + this->m_radius, this->m_center.y() + this->m_radius, this->m_center.z());
 
                 this->m_boundingBox.addCoordinate(aCoordinate1);
                 this->m_boundingBox.addCoordinate(aCoordinate2);
diff --git a/trunk/src/geometry/GeoSphere_Imp.hpp b/trunk/src/geometry/GeoSphere_Imp.hpp
index 5274631..5cbe824 100644
--- a/trunk/src/geometry/GeoSphere_Imp.hpp
+++ b/trunk/src/geometry/GeoSphere_Imp.hpp
@@ -123,8 +123,8 @@ namespace ENigMA
             {
                 this->m_boundingBox.reset();
 
-                CGeoCoordinate<Real> aCoordinate1(-m_radius, -m_radius, -m_radius);
-                CGeoCoordinate<Real> aCoordinate2(+m_radius, +m_radius, +m_radius);
+                CGeoCoordinate<Real> aCoordinate1(m_center.x() - m_radius, m_center.y() - m_radius, m_center.z() - m_radius);
+                CGeoCoordinate<Real> aCoordinate2(m_center.x() + m_radius, m_center.y() + m_radius, m_center.z() + m_radius);
 
                 this->m_boundingBox.addCoordinate(aCoordinate1);
                 this->m_boundingBox.addCoordinate(aCoordinate2);
-- 
2.43.0


From 060d7b0a6439e9c20a5563191fba82cc4b19d157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:54 +0000
Subject: [PATCH 08/41] fix: circle through three points with a horizontal or
 vertical first side

---
 trunk/src/geometry/GeoCircle_Imp.hpp | 34 +++++++++++-----------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/trunk/src/geometry/GeoCircle_Imp.hpp b/trunk/src/geometry/GeoCircle_Imp.hpp
index ee265f2..51b75d4 100644
--- a/trunk/src/geometry/GeoCircle_Imp.hpp
+++ b/trunk/src/geometry/GeoCircle_Imp.hpp
@@ -20,31 +20,23 @@ namespace ENigMA
             Real xDelta_b = aPoint3.x() - aPoint2.x();
             Real yDelta_b = aPoint3.y() - aPoint2.y();
 
-            if (std::fabs(xDelta_a) <= aTolerance * aTolerance && std::fabs(yDelta_b) <= aTolerance * aTolerance)
+            Real den = 2.0 * (xDelta_a * yDelta_b - yDelta_a * xDelta_b);
+
+            if (std::fabs(den) <= aTolerance * aTolerance)
             {
-                this->m_center.x() = 0.5 * (aPoint2.x() + aPoint3.x());
-                this->m_center.y() = 0.5 * (aPoint1.y() + aPoint2.y());
-                this->m_center.z() = aPoint1.z();
-                this->m_radius = (aPoint1 - this->m_center).norm();
+                this->m_center << 0.0, 0.0, 0.0;
+                this->m_radius = 0.0;
             }
             else
             {
-                Real aSlope = yDelta_a / xDelta_a; //
-                Real bSlope = yDelta_b / xDelta_b;
-
-                if (std::fabs(aSlope - bSlope) <= aTolerance * aTolerance)
-                {
-                    this->m_center << 0.0, 0.0, 0.0;
-                    this->m_radius = 0.0;
-                }
-                else
-                {
-                    this->m_center.x() = (aSlope * bSlope * (aPoint1.y() - aPoint3.y()) + bSlope * (aPoint1.x() + aPoint2.x()) - aSlope * (aPoint2.x() + aPoint3.x())) / (2.0 * (bSlope - aSlope));
-                    this->m_center.y() = -(m_center.x() - (aPoint1.x() + aPoint2.x()) * 0.5) / aSlope + (aPoint1.y() + aPoint2.y()) * 0.5;
-                    this->m_center.z() = aPoint1.z();
-
-                    this->m_radius = (aPoint1 - this->m_center).norm();
-                }
+                Real a2 = xDelta_a * xDelta_a + yDelta_a * yDelta_a;
+                Real b2 = xDelta_b * xDelta_b + yDelta_b * yDelta_b;
+
+                this->m_center.x() = aPoint2.x() - (yDelta_b * a2 + yDelta_a * b2) / den;
+                this->m_center.y() = aPoint2.y() + (xDelta_a * b2 + xDelta_b * a2) / den;
+                this->m_center.z() = aPoint1.z();
+
+                this->m_radius = (aPoint1 - this->m_center).norm();
             }
         }
 
-- 
2.43.0


From bb8cb58319b35257fdaf0cbaa492f04ed49b060b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:01 +0000
Subject: [PATCH 09/41] fix: centroid and bounding box of hexahedra, prisms,
 polygons and polylines were never computed

---
 trunk/src/geometry/GeoHexahedron_Imp.hpp      | 25 ++++++++++++++++---
 trunk/src/geometry/GeoPolygon_Imp.hpp         | 10 +++++++-
 trunk/src/geometry/GeoPolyline_Imp.hpp        | 10 +++++++-
 trunk/src/geometry/GeoTriangularPrism_Imp.hpp | 25 ++++++++++++++++---
 4 files changed, 62 insertions(+), 8 deletions(-)

diff --git a/trunk/src/geometry/GeoHexahedron_Imp.hpp b/trunk/src/geometry/GeoHexahedron_Imp.hpp
index 6e120c9..6552b0b 100644
--- a/trunk/src/geometry/GeoHexahedron_Imp.hpp
+++ b/trunk/src/geometry/GeoHexahedron_Imp.hpp
@@ -30,13 +30,24 @@ namespace ENigMA
         template <typename Real>
         void CGeoHexahedron<Real>::reset()
         {
-            // TODO
+            CGeoVertexList<Real>::reset();
+            CGeoVolume<Real>::reset();
         }
 
         template <typename Real>
         void CGeoHexahedron<Real>::calculateCentroid(bool bReCalculate)
         {
-            // TODO
+            if (!this->m_bCentroid || bReCalculate)
+            {
+                this->m_centroid << 0.0, 0.0, 0.0;
+
+                for (Integer i = 0; i < 8; ++i)
+                    this->m_centroid += this->m_vertices[i];
+
+                this->m_centroid /= 8.0;
+
+                this->m_bCentroid = true;
+            }
         }
 
         template <typename Real>
@@ -48,7 +59,15 @@ namespace ENigMA
         template <typename Real>
         void CGeoHexahedron<Real>::calculateBoundingBox(bool bReCalculate)
         {
-            // TODO
+            if (!this->m_bBoundingBox || bReCalculate)
+            {
+                this->m_boundingBox.reset();
+
+                for (Integer i = 0; i < 8; ++i)
+                    this->m_boundingBox.addCoordinate(this->m_vertices[i]);
+
+                this->m_bBoundingBox = true;
+            }
         }
 
         template <typename Real>
diff --git a/trunk/src/geometry/GeoPolygon_Imp.hpp b/trunk/src/geometry/GeoPolygon_Imp.hpp
index b408d1d..ffc146b 100644
--- a/trunk/src/geometry/GeoPolygon_Imp.hpp
+++ b/trunk/src/geometry/GeoPolygon_Imp.hpp
@@ -155,7 +155,15 @@ namespace ENigMA
         template <typename Real>
         void CGeoPolygon<Real>::calculateBoundingBox(bool bReCalculate)
         {
-            // TODO:
+            if (!this->m_bBoundingBox || bReCalculate)
+            {
+                this->m_boundingBox.reset();
+
+                for (Integer i = 0; i < m_polyline.nbVertices(); ++i)
+                    this->m_boundingBox.addCoordinate(m_polyline.vertex(i));
+
+                this->m_bBoundingBox = true;
+            }
         }
 
         template <typename Real>
diff --git a/trunk/src/geometry/GeoPolyline_Imp.hpp b/trunk/src/geometry/GeoPolyline_Imp.hpp
index cbd1d74..8d33442 100644
--- a/trunk/src/geometry/GeoPolyline_Imp.hpp
+++ b/trunk/src/geometry/GeoPolyline_Imp.hpp
@@ -139,7 +139,15 @@ namespace ENigMA
         template <typename Real>
         void CGeoPolyline<Real>::calculateBoundingBox(bool bReCalculate)
         {
-            // TODO:
+            if (!this->m_bBoundingBox || bReCalculate)
+            {
+                this->m_boundingBox.reset();
+
+                for (Integer i = 0; i < CGeoVertexList<Real>::nbVertices(); ++i)
+                    this->m_boundingBox.addCoordinate(CGeoVertexList<Real>::vertex(i));
+
+                this->m_bBoundingBox = true;
+            }
         }
 
         template <typename Real>
diff --git a/trunk/src/geometry/GeoTriangularPrism_Imp.hpp b/trunk/src/geometry/GeoTriangularPrism_Imp.hpp
index 7af6a73..401ac68 100644
--- a/trunk/src/geometry/GeoTriangularPrism_Imp.hpp
+++ b/trunk/src/geometry/GeoTriangularPrism_Imp.hpp
@@ -28,13 +28,24 @@ namespace ENigMA
         template <typename Real>
         void CGeoTriangularPrism<Real>::reset()
         {
-            // TODO:
+            CGeoVertexList<Real>::reset();
+            CGeoVolume<Real>::reset();
         }
 
         template <typename Real>
         void CGeoTriangularPrism<Real>::calculateCentroid(bool bReCalculate)
         {
-            // TODO
+            if (!this->m_bCentroid || bReCalculate)
+            {
+                this->m_centroid << 0.0, 0.0, 0.0;
+
+                for (Integer i = 0; i < 6; ++i)
+                    this->m_centroid += this->m_vertices[i];
+
+                this->m_centroid /= 6.0;
+
+                this->m_bCentroid = true;
+            }
         }
 
         template <typename Real>
@@ -62,7 +73,15 @@ namespace ENigMA
         template <typename Real>
         void CGeoTriangularPrism<Real>::calculateBoundingBox(bool bReCalculate)
         {
-            // TODO:
+            if (!this->m_bBoundingBox || bReCalculate)
+            {
+                this->m_boundingBox.reset();
+
+                for (Integer i = 0; i < 6; ++i)
+                    this->m_boundingBox.addCoordinate(this->m_vertices[i]);
+
+                this->m_bBoundingBox = true;
+            }
         }
     }
 }
-- 
2.43.0


From d60e20bb87a108e02861ca6c5f9d62e9f399ab82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:30 +0000
Subject: [PATCH 10/41] fix: reset and new outlines invalidate cached polygon,
 polyhedron and volume measures

---
 trunk/src/geometry/GeoPolygon_Imp.hpp    | 2 ++
 trunk/src/geometry/GeoPolyhedron_Imp.hpp | 1 +
 trunk/src/geometry/GeoVolume_Imp.hpp     | 2 ++
 3 files changed, 5 insertions(+)

diff --git a/trunk/src/geometry/GeoPolygon_Imp.hpp b/trunk/src/geometry/GeoPolygon_Imp.hpp
index ffc146b..cc4d917 100644
--- a/trunk/src/geometry/GeoPolygon_Imp.hpp
+++ b/trunk/src/geometry/GeoPolygon_Imp.hpp
@@ -28,6 +28,7 @@ namespace ENigMA
         void CGeoPolygon<Real>::reset()
         {
             m_polyline.reset();
+            CGeoArea<Real>::reset();
         }
 
         template <typename Real>
@@ -40,6 +41,7 @@ namespace ENigMA
         void CGeoPolygon<Real>::setPolyline(const CGeoPolyline<Real>& aPolyline)
         {
             m_polyline = aPolyline;
+            CGeoArea<Real>::reset();
         }
 
         template <typename Real>
diff --git a/trunk/src/geometry/GeoPolyhedron_Imp.hpp b/trunk/src/geometry/GeoPolyhedron_Imp.hpp
index c33b46f..3b70894 100644
--- a/trunk/src/geometry/GeoPolyhedron_Imp.hpp
+++ b/trunk/src/geometry/GeoPolyhedron_Imp.hpp
@@ -224,6 +224,7 @@ namespace ENigMA
         {
             m_polygons.clear();
             m_polygonIds.clear();
+            CGeoVolume<Real>::reset();
         }
 
         template <typename Real>
diff --git a/trunk/src/geometry/GeoVolume_Imp.hpp b/trunk/src/geometry/GeoVolume_Imp.hpp
index 7114d89..32060d5 100644
--- a/trunk/src/geometry/GeoVolume_Imp.hpp
+++ b/trunk/src/geometry/GeoVolume_Imp.hpp
@@ -31,6 +31,8 @@ namespace ENigMA
         template <typename Real>
         void CGeoVolume<Real>::reset()
         {
+            CGeoCentroid<Real>::reset();
+
             m_surfaceArea = 0.0;
             m_volume = 0.0;
 
-- 
2.43.0


From e725e1be7b2c1f3a5e35395dabf2b461c7e03b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:04 +0000
Subject: [PATCH 11/41] fix: cutting a polyhedron keeps the part on the far
 side of the plane

---
 trunk/src/geometry/GeoPolyhedron_Imp.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/trunk/src/geometry/GeoPolyhedron_Imp.hpp b/trunk/src/geometry/GeoPolyhedron_Imp.hpp
index 3b70894..4ac9c91 100644
--- a/trunk/src/geometry/GeoPolyhedron_Imp.hpp
+++ b/trunk/src/geometry/GeoPolyhedron_Imp.hpp
@@ -557,16 +557,18 @@ namespace ENigMA
         template <typename Real>
         CGeoPolyhedron<Real> CGeoPolyhedron<Real>::cut(CGeoPolyhedron<Real>& aNewPolyhedron, CGeoPolygon<Real>& aNewPolygon, const Integer aNewPolygonId, CGeoPlane<Real>& aPlane, const Real aTolerance)
         {
-            aNewPolyhedron = this->clip(aNewPolygon, aNewPolygonId, aPlane, aTolerance);
+            CGeoPlane<Real> aPlaneInv(aPlane);
+            aPlaneInv.invert();
+
+            aNewPolyhedron = this->clip(aNewPolygon, aNewPolygonId, aPlaneInv, aTolerance);
             return this->clip(aNewPolygon, aNewPolygonId, aPlane, aTolerance);
         }
 
         template <typename Real>
         CGeoPolyhedron<Real> CGeoPolyhedron<Real>::cut(CGeoPolyhedron<Real>& aNewPolyhedron, CGeoPolygon<Real>& aNewPolygon, const Integer aNewPolygonId, CGeoPlane<Real>& aPlane, Real volumeFractionReq, Real& volumeFractionAct, Integer& nIterations, const Integer nMaxIterations, const Real aNormalizedTolerance, const Real aTolerance)
         {
-            CGeoPlane<Real> aPlaneInv;
-            aPlaneInv.normal() = -aPlane.normal();
-            aPlaneInv.setD(aPlane.d());
+            CGeoPlane<Real> aPlaneInv(aPlane);
+            aPlaneInv.invert();
 
             aNewPolyhedron = this->clip(aNewPolygon, aNewPolygonId, aPlaneInv, 1.0 - volumeFractionReq, volumeFractionAct, nIterations, nMaxIterations, aNormalizedTolerance, aTolerance);
             return this->clip(aNewPolygon, aNewPolygonId, aPlane, volumeFractionReq, volumeFractionAct, nIterations, nMaxIterations, aNormalizedTolerance, aTolerance);
-- 
2.43.0


From a4fce44aebc13a5ae7cc32744f2c20e49bb67753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:24 +0000
Subject: [PATCH 12/41] fix: a polygon id added twice to a polyhedron is listed
 once

---
 trunk/src/geometry/GeoPolyhedron_Imp.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trunk/src/geometry/GeoPolyhedron_Imp.hpp b/trunk/src/geometry/GeoPolyhedron_Imp.hpp
index 4ac9c91..df7f2d5 100644
--- a/trunk/src/geometry/GeoPolyhedron_Imp.hpp
+++ b/trunk/src/geometry/GeoPolyhedron_Imp.hpp
@@ -243,7 +243,8 @@ namespace ENigMA
         void CGeoPolyhedron<Real>::addPolygon(const Integer aPolygonId, CGeoPolygon<Real>& aPolygon)
         {
             m_polygons[aPolygonId] = aPolygon;
-            m_polygonIds.emplace_back(aPolygonId);
+            if (!this->containsPolygon(aPolygonId))
+                m_polygonIds.emplace_back(aPolygonId);
         }
 
         template <typename Real>
-- 
2.43.0


From c80216f94dad0897f6424e5ccc72cf5e7ee1fd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:57 +0000
Subject: [PATCH 13/41] fix: plane of a triangle and normal of a circle

---
 trunk/src/geometry/GeoCircle_Imp.hpp   | 2 +-
 trunk/src/geometry/GeoTriangle_Imp.hpp | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/trunk/src/geometry/GeoCircle_Imp.hpp b/trunk/src/geometry/GeoCircle_Imp.hpp
index 51b75d4..3b6e68c 100644
--- a/trunk/src/geometry/GeoCircle_Imp.hpp
+++ b/trunk/src/geometry/GeoCircle_Imp.hpp
@@ -75,7 +75,7 @@ namespace ENigMA
         {
             if (!this->m_bNormal || bReCalculate)
             {
-                this->m_normal << 1.0, 0.0, 0.0;
+                this->m_normal << 0.0, 0.0, 1.0;
                 this->m_bNormal = true;
             }
         }
diff --git a/trunk/src/geometry/GeoTriangle_Imp.hpp b/trunk/src/geometry/GeoTriangle_Imp.hpp
index 1ca0251..6a58454 100644
--- a/trunk/src/geometry/GeoTriangle_Imp.hpp
+++ b/trunk/src/geometry/GeoTriangle_Imp.hpp
@@ -35,6 +35,8 @@ namespace ENigMA
         template <typename Real>
         CGeoPlane<Real> CGeoTriangle<Real>::getPlane()
         {
+            this->calculateNormal();
+
             Real d = this->normal().dot(this->vertex(0));
 
             CGeoPlane<Real> aPlane(this->normal(), d);
@@ -266,7 +268,7 @@ namespace ENigMA
         template <typename Real>
         bool CGeoTriangle<Real>::intersects(CGeoLine<Real>& aLine, CGeoCoordinate<Real>& aNewPoint, CGeoIntersectionType& anIntersectionType, const Real aTolerance)
         {
-            CGeoPlane<Real> aPlane(this->normal(), this->normal().dot(this->vertex(0)));
+            CGeoPlane<Real> aPlane = this->getPlane();
 
             if (aLine.intersects(aPlane, aNewPoint, anIntersectionType, aTolerance))
             {
-- 
2.43.0


From 2c0632f7b433f0ad43b9d6b731e89e944df56087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 14/41] fix: nearest point of a triangle may lie on an edge;
 default plane passes through the origin

---
 trunk/src/geometry/GeoPlane_Imp.hpp    |  1 +
 trunk/src/geometry/GeoTriangle_Imp.hpp | 10 +++++-----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/trunk/src/geometry/GeoPlane_Imp.hpp b/trunk/src/geometry/GeoPlane_Imp.hpp
index 39fda1e..f5dd20e 100644
--- a/trunk/src/geometry/GeoPlane_Imp.hpp
+++ b/trunk/src/geometry/GeoPlane_Imp.hpp
@@ -17,6 +17,7 @@ namespace ENigMA
     {
         template <typename Real>
         CGeoPlane<Real>::CGeoPlane()
+            : m_d(0.0)
         {
         }
 
diff --git a/trunk/src/geometry/GeoTriangle_Imp.hpp b/trunk/src/geometry/GeoTriangle_Imp.hpp
index 6a58454..b4e9c5e 100644
--- a/trunk/src/geometry/GeoTriangle_Imp.hpp
+++ b/trunk/src/geometry/GeoTriangle_Imp.hpp
@@ -345,14 +345,14 @@ namespace ENigMA
                 // Get shortest distance
                 for (Integer i = 0; i < 3; ++i)
                 {
-                    CGeoCoordinate<Real> aVertex = this->vertex(i);
+                    CGeoLine<Real> anEdge(this->vertex(i), this->vertex((i + 1) % 3));
+                    CGeoCoordinate<Real> anEdgePoint;
+                    Real dist;
 
-                    Real dist = (aPoint - aVertex).norm();
-
-                    if (dist < aDistance)
+                    if (anEdge.distance(aPoint, anEdgePoint, dist, aTolerance) && dist < aDistance)
                     {
                         aDistance = dist;
-                        aNewPoint = aVertex;
+                        aNewPoint = anEdgePoint;
                     }
                 }
             }
-- 
2.43.0


From 89f80c4e7aa521325fc2355d19b4ef7a5cdbd8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:50 +0000
Subject: [PATCH 15/41] fix: recalculating a composite figure recalculates its
 parts

---
 trunk/src/fvm/FvmControlVolume_Imp.hpp   | 8 ++++----
 trunk/src/geometry/GeoLineList_Imp.hpp   | 3 ++-
 trunk/src/geometry/GeoPolyhedron_Imp.hpp | 6 +++---
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/trunk/src/fvm/FvmControlVolume_Imp.hpp b/trunk/src/fvm/FvmControlVolume_Imp.hpp
index 0fab31e..3eda33c 100644
--- a/trunk/src/fvm/FvmControlVolume_Imp.hpp
+++ b/trunk/src/fvm/FvmControlVolume_Imp.hpp
@@ -232,12 +232,12 @@ namespace ENigMA
 
                 if (m_clipped)
                 {
-                    m_clippedPolyhedron.calculateSurfaceArea();
+                    m_clippedPolyhedron.calculateSurfaceArea(bReCalculate);
                     this->m_surfaceArea = m_clippedPolyhedron.surfaceArea();
                 }
                 else
                 {
-                    m_polyhedron.calculateSurfaceArea();
+                    m_polyhedron.calculateSurfaceArea(bReCalculate);
                     this->m_surfaceArea = m_polyhedron.surfaceArea();
                 }
 
@@ -256,12 +256,12 @@ namespace ENigMA
 
                 if (m_clipped)
                 {
-                    m_clippedPolyhedron.calculateCentroid();
+                    m_clippedPolyhedron.calculateCentroid(bReCalculate);
                     this->m_centroid = m_clippedPolyhedron.centroid();
                 }
                 else
                 {
-                    m_polyhedron.calculateCentroid();
+                    m_polyhedron.calculateCentroid(bReCalculate);
                     this->m_centroid = m_polyhedron.centroid();
                 }
 
diff --git a/trunk/src/geometry/GeoLineList_Imp.hpp b/trunk/src/geometry/GeoLineList_Imp.hpp
index d2d1e2e..4df7680 100644
--- a/trunk/src/geometry/GeoLineList_Imp.hpp
+++ b/trunk/src/geometry/GeoLineList_Imp.hpp
@@ -28,6 +28,7 @@ namespace ENigMA
         void CGeoLineList<Real>::reset()
         {
             m_lines.clear();
+            CGeoLength<Real>::reset();
         }
 
         template <typename Real>
@@ -57,7 +58,7 @@ namespace ENigMA
 
                 for (Integer i = 0; i < static_cast<Integer>(m_lines.size()); ++i)
                 {
-                    m_lines[i].calculateLength();
+                    m_lines[i].calculateLength(bReCalculate);
                     CGeoLength<Real>::m_length += m_lines[i].length();
                 }
 
diff --git a/trunk/src/geometry/GeoPolyhedron_Imp.hpp b/trunk/src/geometry/GeoPolyhedron_Imp.hpp
index df7f2d5..861c159 100644
--- a/trunk/src/geometry/GeoPolyhedron_Imp.hpp
+++ b/trunk/src/geometry/GeoPolyhedron_Imp.hpp
@@ -314,7 +314,7 @@ namespace ENigMA
 
                 for (auto it = m_polygons.begin(); it != m_polygons.end(); it++)
                 {
-                    it->second.calculateCentroid();
+                    it->second.calculateCentroid(bReCalculate);
                     this->m_centroid += it->second.centroid();
                 }
 
@@ -334,7 +334,7 @@ namespace ENigMA
 
                 for (auto it = m_polygons.begin(); it != m_polygons.end(); it++)
                 {
-                    it->second.calculateArea();
+                    it->second.calculateArea(bReCalculate);
                     this->m_surfaceArea += it->second.area();
                 }
 
@@ -365,7 +365,7 @@ namespace ENigMA
                         for (Integer i = 1; i < static_cast<Integer>(m_polygonIds.size()); ++i)
                         {
                             aPolygon = m_polygons[m_polygonIds[i]];
-                            aPolygon.calculateArea();
+                            aPolygon.calculateArea(bReCalculate);
 
                             if (aPolygon.polyline().nbVertices() > 0)
                                 this->m_volume += (aPolygon.polyline().vertex(0) - v0).dot(aPolygon.normal()) * aPolygon.area();
-- 
2.43.0


From 9d46a9b8f4a9fc50a2e824236cc2119a395c1ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:36 +0000
Subject: [PATCH 16/41] fix: operators look elements and rows up by index, not
 by identifier

---
 .../src/pde/bem/thermal/BemThermalOperators_Imp.hpp |  4 ++--
 trunk/src/pde/fem/flow/FemFlowOperators_Imp.hpp     |  7 ++++---
 .../src/pde/fem/generic/FemGenericOperators_Imp.hpp | 13 +++++++------
 .../src/pde/fem/thermal/FemThermalOperators_Imp.hpp | 13 +++++++------
 4 files changed, 20 insertions(+), 17 deletions(-)

diff --git a/trunk/src/pde/bem/thermal/BemThermalOperators_Imp.hpp b/trunk/src/pde/bem/thermal/BemThermalOperators_Imp.hpp
index 97da2ec..e1eacf5 100644
--- a/trunk/src/pde/bem/thermal/BemThermalOperators_Imp.hpp
+++ b/trunk/src/pde/bem/thermal/BemThermalOperators_Imp.hpp
@@ -51,7 +51,7 @@ namespace ENigMA
 
                     for (Integer eli = 0; eli < aField.mesh().nbElements(); ++eli)
                     {
-                        CMshElement<Real>& anElementi = aField.mesh().element(eli);
+                        CMshElement<Real>& anElementi = aField.mesh().element(aField.mesh().elementId(eli));
 
                         if (anElementi.elementType() != ET_TRIANGLE)
                             continue;
@@ -66,7 +66,7 @@ namespace ENigMA
 
                         for (Integer elj = 0; elj < aField.mesh().nbElements(); ++elj)
                         {
-                            CMshElement<Real>& anElementj = aField.mesh().element(elj);
+                            CMshElement<Real>& anElementj = aField.mesh().element(aField.mesh().elementId(elj));
 
                             if (anElementj.elementType() != ET_TRIANGLE)
                                 continue;
diff --git a/trunk/src/pde/fem/flow/FemFlowOperators_Imp.hpp b/trunk/src/pde/fem/flow/FemFlowOperators_Imp.hpp
index 5060b80..068ce73 100644
--- a/trunk/src/pde/fem/flow/FemFlowOperators_Imp.hpp
+++ b/trunk/src/pde/fem/flow/FemFlowOperators_Imp.hpp
@@ -37,7 +37,8 @@ namespace ENigMA
 
                     for (Integer el = 0; el < aField.mesh().nbElements(); el++)
                     {
-                        CMshElement<Real> anElement = aField.mesh().element(el);
+                        Integer anElementId = aField.mesh().elementId(el);
+                        CMshElement<Real> anElement = aField.mesh().element(anElementId);
 
                         if (anElement.elementType() == ET_BEAM && anElement.nbNodeIds() == 2)
                         {
@@ -67,7 +68,7 @@ namespace ENigMA
                                         += aTriangle.ddt(i, j);
                                 }
 
-                                aSystem.vectorB(anElement.nodeId(i)) += aTriangle.source(i);
+                                aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aTriangle.source(i);
                             }
                         }
                         else if (anElement.elementType() == ET_QUADRILATERAL && anElement.nbNodeIds() == 4)
@@ -98,7 +99,7 @@ namespace ENigMA
                                         += aTetrahedron.ddt(i, j);
                                 }
 
-                                aSystem.vectorB(anElement.nodeId(i)) += aTetrahedron.source(i);
+                                aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aTetrahedron.source(i);
                             }
                         }
                         else if (anElement.elementType() == ET_HEXAHEDRON && anElement.nbNodeIds() == 8)
diff --git a/trunk/src/pde/fem/generic/FemGenericOperators_Imp.hpp b/trunk/src/pde/fem/generic/FemGenericOperators_Imp.hpp
index 070ac9e..b93d796 100644
--- a/trunk/src/pde/fem/generic/FemGenericOperators_Imp.hpp
+++ b/trunk/src/pde/fem/generic/FemGenericOperators_Imp.hpp
@@ -40,7 +40,8 @@ namespace ENigMA
 
                     for (Integer el = 0; el < aField.mesh().nbElements(); el++)
                     {
-                        CMshElement<Real> anElement = aField.mesh().element(el);
+                        Integer anElementId = aField.mesh().elementId(el);
+                        CMshElement<Real> anElement = aField.mesh().element(anElementId);
 
                         if (anElement.elementType() == ET_BEAM && anElement.nbNodeIds() == 2)
                         {
@@ -68,7 +69,7 @@ namespace ENigMA
                                         += aBeam.ddt(i, j);
                                 }
 
-                                aSystem.vectorB(anElement.nodeId(i)) += aBeam.source(i);
+                                aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aBeam.source(i);
                             }
                         }
                         else if (anElement.elementType() == ET_TRIANGLE && anElement.nbNodeIds() == 3)
@@ -97,7 +98,7 @@ namespace ENigMA
                                         += aTriangle.ddt(i, j);
                                 }
 
-                                aSystem.vectorB(anElement.nodeId(i)) += aTriangle.source(i);
+                                aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aTriangle.source(i);
                             }
                         }
                         else if (anElement.elementType() == ET_QUADRILATERAL && anElement.nbNodeIds() == 4)
@@ -126,7 +127,7 @@ namespace ENigMA
                                         += aQuadrilateral.ddt(i, j);
                                 }
 
-                                aSystem.vectorB(anElement.nodeId(i)) += aQuadrilateral.source(i);
+                                aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aQuadrilateral.source(i);
                             }
                         }
                         else if (anElement.elementType() == ET_TETRAHEDRON && anElement.nbNodeIds() == 4)
@@ -155,7 +156,7 @@ namespace ENigMA
                                         += aTetrahedron.ddt(i, j);
                                 }
 
-                                aSystem.vectorB(anElement.nodeId(i)) += aTetrahedron.source(i);
+                                aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aTetrahedron.source(i);
                             }
                         }
                         else if (anElement.elementType() == ET_HEXAHEDRON && anElement.nbNodeIds() == 8)
@@ -184,7 +185,7 @@ namespace ENigMA
                                         += aHexahedron.ddt(i, j);
                                 }
 
-                                aSystem.vectorB(anElement.nodeId(i)) += aHexahedron.source(i);
+                                aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aHexahedron.source(i);
                             }
                         }
                     }
diff --git a/trunk/src/pde/fem/thermal/FemThermalOperators_Imp.hpp b/trunk/src/pde/fem/thermal/FemThermalOperators_Imp.hpp
index 4c2ee26..1632310 100644
--- a/trunk/src/pde/fem/thermal/FemThermalOperators_Imp.hpp
+++ b/trunk/src/pde/fem/thermal/FemThermalOperators_Imp.hpp
@@ -40,7 +40,8 @@ namespace ENigMA
 
                     for (Integer el = 0; el < aField.mesh().nbElements(); el++)
                     {
-                        CMshElement<Real> anElement = aField.mesh().element(el);
+                        Integer anElementId = aField.mesh().elementId(el);
+                        CMshElement<Real> anElement = aField.mesh().element(anElementId);
 
                         if (anElement.elementType() == ET_BEAM && anElement.nbNodeIds() == 2)
                         {
@@ -68,7 +69,7 @@ namespace ENigMA
                                         += aBeam.ddt(i, j);
                                 }
 
-                                aSystem.vectorB(anElement.nodeId(i)) += aBeam.source(i);
+                                aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aBeam.source(i);
                             }
                         }
                         else if (anElement.elementType() == ET_TRIANGLE && anElement.nbNodeIds() == 3)
@@ -97,7 +98,7 @@ namespace ENigMA
                                         += aTriangle.ddt(i, j);
                                 }
 
-                                aSystem.vectorB(anElement.nodeId(i)) += aTriangle.source(i);
+                                aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aTriangle.source(i);
                             }
                         }
                         else if (anElement.elementType() == ET_QUADRILATERAL && anElement.nbNodeIds() == 4)
@@ -126,7 +127,7 @@ namespace ENigMA
                                         += aQuadrilateral.ddt(i, j);
                                 }
 
-                                aSystem.vectorB(anElement.nodeId(i)) += aQuadrilateral.source(i);
+                                aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aQuadrilateral.source(i);
                             }
                         }
                         else if (anElement.elementType() == ET_TETRAHEDRON && anElement.nbNodeIds() == 4)
@@ -155,7 +156,7 @@ namespace ENigMA
                                         += aTetrahedron.ddt(i, j);
                                 }
 
-                                aSystem.vectorB(anElement.nodeId(i)) += aTetrahedron.source(i);
+                                aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aTetrahedron.source(i);
                             }
                         }
                         else if (anElement.elementType() == ET_HEXAHEDRON && anElement.nbNodeIds() == 8)
@@ -184,7 +185,7 @@ namespace ENigMA
                                         += aHexahedron.ddt(i, j);
                                 }
 
-                                aSystem.vectorB(anElement.nodeId(i)) += aHexahedron.source(i);
+                                aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aHexahedron.source(i);
                             }
                         }
                     }
-- 
2.43.0


From 32a9654bef33cad8a6779a1228fcddc14783d6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:07 +0000
Subject: [PATCH 17/41] fix: triangular prisms missing from the mass and source
 operators

---
 .../fem/generic/FemGenericOperators_Imp.hpp   | 53 +++++++++++++++++++
 .../fem/thermal/FemThermalOperators_Imp.hpp   | 29 ++++++++++
 2 files changed, 82 insertions(+)

diff --git a/trunk/src/pde/fem/generic/FemGenericOperators_Imp.hpp b/trunk/src/pde/fem/generic/FemGenericOperators_Imp.hpp
index b93d796..362c139 100644
--- a/trunk/src/pde/fem/generic/FemGenericOperators_Imp.hpp
+++ b/trunk/src/pde/fem/generic/FemGenericOperators_Imp.hpp
@@ -159,6 +159,35 @@ namespace ENigMA
                                 aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aTetrahedron.source(i);
                             }
                         }
+                        else if (anElement.elementType() == ET_TRIANGULAR_PRISM && anElement.nbNodeIds() == 6)
+                        {
+                            CFemTriangularPrism<Real, 6, 1, 1> aTriangularPrism;
+
+                            for (Integer i = 0; i < anElement.nbNodeIds(); ++i)
+                            {
+                                CGeoCoordinate<Real> aVertex(aField.mesh().node(anElement.nodeId(i)));
+                                aTriangularPrism.addVertex(aVertex);
+                            }
+
+                            aTriangularPrism.calculateVolume();
+
+                            aTriangularPrism.setTransient(true);
+
+                            aTriangularPrism.update();
+
+                            for (Integer i = 0; i < anElement.nbNodeIds(); ++i)
+                            {
+                                for (Integer j = 0; j < anElement.nbNodeIds(); ++j)
+                                {
+                                    aSystem.matrixA.coeffRef(
+                                        aField.mesh().nodeIndex(anElement.nodeId(i)),
+                                        aField.mesh().nodeIndex(anElement.nodeId(j)))
+                                        += aTriangularPrism.ddt(i, j);
+                                }
+
+                                aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aTriangularPrism.source(i);
+                            }
+                        }
                         else if (anElement.elementType() == ET_HEXAHEDRON && anElement.nbNodeIds() == 8)
                         {
                             CFemHexahedron<Real, 8, 1, 1> aHexahedron;
@@ -614,6 +643,30 @@ namespace ENigMA
                                 aVectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aTetrahedron.source(i);
                             }
                         }
+                        else if (anElement.elementType() == ET_TRIANGULAR_PRISM && anElement.nbNodeIds() == 6)
+                        {
+                            CFemTriangularPrism<Real, 6, 1, 1> aTriangularPrism;
+
+                            for (Integer i = 0; i < anElement.nbNodeIds(); ++i)
+                            {
+                                CGeoCoordinate<Real> aVertex(aField.mesh().node(anElement.nodeId(i)));
+                                aTriangularPrism.addVertex(aVertex);
+                            }
+
+                            aTriangularPrism.calculateVolume();
+
+                            aTriangularPrism.setTransient(false);
+
+                            aTriangularPrism.update();
+
+                            for (Integer i = 0; i < anElement.nbNodeIds(); ++i)
+                                aTriangularPrism.setSourceOnNode(i, aSource);
+
+                            for (Integer i = 0; i < anElement.nbNodeIds(); ++i)
+                            {
+                                aVectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aTriangularPrism.source(i);
+                            }
+                        }
                         else if (anElement.elementType() == ET_HEXAHEDRON && anElement.nbNodeIds() == 8)
                         {
                             CFemHexahedron<Real, 8, 1, 1> aHexahedron;
diff --git a/trunk/src/pde/fem/thermal/FemThermalOperators_Imp.hpp b/trunk/src/pde/fem/thermal/FemThermalOperators_Imp.hpp
index 1632310..a4ea120 100644
--- a/trunk/src/pde/fem/thermal/FemThermalOperators_Imp.hpp
+++ b/trunk/src/pde/fem/thermal/FemThermalOperators_Imp.hpp
@@ -159,6 +159,35 @@ namespace ENigMA
                                 aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aTetrahedron.source(i);
                             }
                         }
+                        else if (anElement.elementType() == ET_TRIANGULAR_PRISM && anElement.nbNodeIds() == 6)
+                        {
+                            CFemLinearTemperatureTriangularPrism<Real, 6, 1, 1> aTriangularPrism;
+
+                            for (Integer i = 0; i < anElement.nbNodeIds(); ++i)
+                            {
+                                CGeoCoordinate<Real> aVertex(aField.mesh().node(anElement.nodeId(i)));
+                                aTriangularPrism.addVertex(aVertex);
+                            }
+
+                            aTriangularPrism.calculateVolume();
+
+                            aTriangularPrism.setTransient(true);
+
+                            aTriangularPrism.update();
+
+                            for (Integer i = 0; i < anElement.nbNodeIds(); ++i)
+                            {
+                                for (Integer j = 0; j < anElement.nbNodeIds(); ++j)
+                                {
+                                    aSystem.matrixA.coeffRef(
+                                        aField.mesh().nodeIndex(anElement.nodeId(i)),
+                                        aField.mesh().nodeIndex(anElement.nodeId(j)))
+                                        += aTriangularPrism.ddt(i, j);
+                                }
+
+                                aSystem.vectorB(aField.mesh().nodeIndex(anElement.nodeId(i))) += aTriangularPrism.source(i);
+                            }
+                        }
                         else if (anElement.elementType() == ET_HEXAHEDRON && anElement.nbNodeIds() == 8)
                         {
                             CFemLinearTemperatureHexahedron<Real, 8, 1, 1> aHexahedron;
-- 
2.43.0


From 4180b20c71c98868715f1ede44244c9da9c59ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:34 +0000
Subject: [PATCH 18/41] fix: finite volume divergence adds the prescribed face
 flux with the right sign

---
 trunk/src/pde/fvm/flow/FvmFlowOperators_Imp.hpp       | 2 +-
 trunk/src/pde/fvm/generic/FvmGenericOperators_Imp.hpp | 2 +-
 trunk/src/pde/fvm/thermal/FvmThermalOperators_Imp.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/trunk/src/pde/fvm/flow/FvmFlowOperators_Imp.hpp b/trunk/src/pde/fvm/flow/FvmFlowOperators_Imp.hpp
index c52c828..5415076 100644
--- a/trunk/src/pde/fvm/flow/FvmFlowOperators_Imp.hpp
+++ b/trunk/src/pde/fvm/flow/FvmFlowOperators_Imp.hpp
@@ -207,7 +207,7 @@ namespace ENigMA
 
                                     if (aCondition.boundaryConditionType() == BT_GENERIC_FIXED_VALUE)
                                     {
-                                        aSystem.vectorB[el] += Af / Vp * (nf.x() + nf.y() + nf.z()) * aField.u[el] * aCondition.conditionValue(CT_GENERIC_FIXED_VALUE);
+                                        aSystem.vectorB[el] -= Af / Vp * (nf.x() + nf.y() + nf.z()) * aField.u[el] * aCondition.conditionValue(CT_GENERIC_FIXED_VALUE);
                                     }
                                 }
                             }
diff --git a/trunk/src/pde/fvm/generic/FvmGenericOperators_Imp.hpp b/trunk/src/pde/fvm/generic/FvmGenericOperators_Imp.hpp
index caa7534..97ec7d3 100644
--- a/trunk/src/pde/fvm/generic/FvmGenericOperators_Imp.hpp
+++ b/trunk/src/pde/fvm/generic/FvmGenericOperators_Imp.hpp
@@ -215,7 +215,7 @@ namespace ENigMA
 
                                     if (aCondition.boundaryConditionType() == BT_GENERIC_FIXED_VALUE)
                                     {
-                                        aSystem.vectorB[el] += Af / Vp * (nf.x() + nf.y() + nf.z()) * aCondition.conditionValue(CT_GENERIC_FIXED_VALUE);
+                                        aSystem.vectorB[el] -= Af / Vp * (nf.x() + nf.y() + nf.z()) * aCondition.conditionValue(CT_GENERIC_FIXED_VALUE);
                                     }
                                 }
                             }
diff --git a/trunk/src/pde/fvm/thermal/FvmThermalOperators_Imp.hpp b/trunk/src/pde/fvm/thermal/FvmThermalOperators_Imp.hpp
index e348b10..97e200c 100644
--- a/trunk/src/pde/fvm/thermal/FvmThermalOperators_Imp.hpp
+++ b/trunk/src/pde/fvm/thermal/FvmThermalOperators_Imp.hpp
@@ -211,7 +211,7 @@ namespace ENigMA
 
                                     if (aCondition.boundaryConditionType() == BT_GENERIC_FIXED_VALUE)
                                     {
-                                        aSystem.vectorB[el] += Af / Vp * (nf.x() + nf.y() + nf.z()) * aCondition.conditionValue(CT_GENERIC_FIXED_VALUE);
+                                        aSystem.vectorB[el] -= Af / Vp * (nf.x() + nf.y() + nf.z()) * aCondition.conditionValue(CT_GENERIC_FIXED_VALUE);
                                     }
                                 }
                             }
-- 
2.43.0


From 972b08837fb796df8f8dc1de666049f6e7a4a894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 19/41] fix: mesh element constructed from its type leaves the
 thickness undefined

---
 trunk/src/mesh/MshElement_Imp.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trunk/src/mesh/MshElement_Imp.hpp b/trunk/src/mesh/MshElement_Imp.hpp
index db91077..dfea6fc 100644
--- a/trunk/src/mesh/MshElement_Imp.hpp
+++ b/trunk/src/mesh/MshElement_Imp.hpp
@@ -32,6 +32,7 @@ namespace ENigMA
         template <typename Real>
         CMshElement<Real>::CMshElement(EElementType anElementType)
             : m_elementType(anElementType)
+            , m_thickness(1.0)
         {
         }
 
-- 
2.43.0


From 9a82e29706de58675360deac8f798189d5a354c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:43 +0000
Subject: [PATCH 20/41] fix: reading the boundary condition of an element no
 longer creates one

---
 trunk/src/pde/PdeField_Imp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/src/pde/PdeField_Imp.hpp b/trunk/src/pde/PdeField_Imp.hpp
index 8eadcdc..b7d3ec1 100644
--- a/trunk/src/pde/PdeField_Imp.hpp
+++ b/trunk/src/pde/PdeField_Imp.hpp
@@ -238,7 +238,7 @@ namespace ENigMA
         template <typename Real>
         ENigMA::pde::CPdeBoundaryCondition<Real>& CPdeField<Real>::elementBC(const Integer anElementId, const Integer anIndex)
         {
-            return m_bcElement[std::make_pair(anElementId, anIndex)];
+            return m_bcElement.at(std::make_pair(anElementId, anIndex));
         }
     }
 }
-- 
2.43.0


From 13537a4e6edb6141258bed8c3bdb3b47b0717285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:43 +0000
Subject: [PATCH 21/41] fix: a row-scaled system is not declared symmetric

---
 trunk/src/sle/SleSystem_Imp.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trunk/src/sle/SleSystem_Imp.hpp b/trunk/src/sle/SleSystem_Imp.hpp
index 32e2d23..bf2b1ea 100644
--- a/trunk/src/sle/SleSystem_Imp.hpp
+++ b/trunk/src/sle/SleSystem_Imp.hpp
@@ -187,6 +187,10 @@ namespace ENigMA
 
             aSystem.matrixType = right.matrixType;
 
+            // Scaling rows does not preserve symmetry
+            if (aSystem.matrixType == MT_SPARSE_SYMMETRIC)
+                aSystem.matrixType = MT_SPARSE;
+
             aSystem.matrixA = right.matrixA;
             for (int k = 0; k < aSystem.matrixA.outerSize(); ++k)
             {
-- 
2.43.0


From 9dead02a277ac47b986904626f33b627cda5bd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:43 +0000
Subject: [PATCH 22/41] fix: the system of a scaled field has a matrix type

---
 trunk/src/pde/PdeEquation_Imp.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trunk/src/pde/PdeEquation_Imp.hpp b/trunk/src/pde/PdeEquation_Imp.hpp
index fbce01c..1cf0619 100644
--- a/trunk/src/pde/PdeEquation_Imp.hpp
+++ b/trunk/src/pde/PdeEquation_Imp.hpp
@@ -188,6 +188,8 @@ namespace ENigMA
         {
             ENigMA::sle::CSleSystem<Real> aSystem;
 
+            aSystem.matrixType = ENigMA::sle::MT_SPARSE_SYMMETRIC;
+
             aSystem.matrixA.resize(right.u.size(), right.u.size());
             aSystem.matrixA.reserve(right.u.size());
 
-- 
2.43.0


From a863f4f0aaf6e64b0d7a93ec6ccf512dd589623c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:45 +0000
Subject: [PATCH 23/41] fix: keep mesh ids and indices consistent when entities
 are added, replaced or removed

---
 trunk/src/mesh/MshMesh_Imp.hpp | 136 ++++++++++++++++++++++++++-------
 1 file changed, 107 insertions(+), 29 deletions(-)

diff --git a/trunk/src/mesh/MshMesh_Imp.hpp b/trunk/src/mesh/MshMesh_Imp.hpp
index 49e25ca..a2824c6 100644
--- a/trunk/src/mesh/MshMesh_Imp.hpp
+++ b/trunk/src/mesh/MshMesh_Imp.hpp
@@ -104,55 +104,97 @@ namespace ENigMA
         template <typename Real>
         void CMshMesh<Real>::addNode(const Integer aNodeId, const ENigMA::mesh::CMshNode<Real>& aNode)
         {
-            m_nodes[aNodeId] = aNode;
-            m_nodeIds.emplace_back(aNodeId);
+            // An id is listed once: adding it again replaces the node
+            if (m_nodes.find(aNodeId) == m_nodes.end())
+            {
+                m_nodeIds.emplace_back(aNodeId);
+
+                m_nodeIndices[aNodeId] = m_nodeIndex;
+                m_nodeIndex++;
+            }
 
-            m_nodeIndices[aNodeId] = m_nodeIndex;
-            m_nodeIndex++;
+            m_nodes[aNodeId] = aNode;
         }
 
         template <typename Real>
         void CMshMesh<Real>::addFace(const Integer aFaceId, const ENigMA::mesh::CMshFace<Real>& aFace)
         {
-            m_faces[aFaceId] = aFace;
-            m_faceIds.emplace_back(aFaceId);
+            // An id is listed once: adding it again replaces the face
+            if (m_faces.find(aFaceId) == m_faces.end())
+            {
+                m_faceIds.emplace_back(aFaceId);
 
-            m_faceIndices[aFaceId] = m_faceIndex;
-            m_faceIndex++;
+                m_faceIndices[aFaceId] = m_faceIndex;
+                m_faceIndex++;
+            }
+
+            m_faces[aFaceId] = aFace;
         }
 
         template <typename Real>
         void CMshMesh<Real>::addElement(const Integer anElementId, const ENigMA::mesh::CMshElement<Real>& anElement)
         {
-            m_elements[anElementId] = anElement;
-            m_elementIds.emplace_back(anElementId);
+            // An id is listed once: adding it again replaces the element
+            if (m_elements.find(anElementId) == m_elements.end())
+            {
+                m_elementIds.emplace_back(anElementId);
 
-            m_elementIndices[anElementId] = m_elementIndex;
-            m_elementIndex++;
+                m_elementIndices[anElementId] = m_elementIndex;
+                m_elementIndex++;
+            }
+
+            m_elements[anElementId] = anElement;
         }
 
         template <typename Real>
         void CMshMesh<Real>::removeNode(const Integer aNodeId)
         {
+            if (m_nodes.find(aNodeId) == m_nodes.end())
+                return;
+
             m_nodes.erase(aNodeId);
             m_nodeIndices.erase(aNodeId);
             m_nodeIds.erase(std::find(m_nodeIds.begin(), m_nodeIds.end(), aNodeId));
+
+            // The nodes that followed have moved
+            for (Integer i = 0; i < static_cast<Integer>(m_nodeIds.size()); ++i)
+                m_nodeIndices[m_nodeIds.at(i)] = i;
+
+            m_nodeIndex = static_cast<Integer>(m_nodeIds.size());
         }
 
         template <typename Real>
         void CMshMesh<Real>::removeFace(const Integer aFaceId)
         {
+            if (m_faces.find(aFaceId) == m_faces.end())
+                return;
+
             m_faces.erase(aFaceId);
             m_faceIndices.erase(aFaceId);
             m_faceIds.erase(std::find(m_faceIds.begin(), m_faceIds.end(), aFaceId));
+
+            // The faces that followed have moved
+            for (Integer i = 0; i < static_cast<Integer>(m_faceIds.size()); ++i)
+                m_faceIndices[m_faceIds.at(i)] = i;
+
+            m_faceIndex = static_cast<Integer>(m_faceIds.size());
         }
 
         template <typename Real>
         void CMshMesh<Real>::removeElement(const Integer anElementId)
         {
+            if (m_elements.find(anElementId) == m_elements.end())
+                return;
+
             m_elements.erase(anElementId);
             m_elementIndices.erase(anElementId);
             m_elementIds.erase(std::find(m_elementIds.begin(), m_elementIds.end(), anElementId));
+
+            // The elements that followed have moved
+            for (Integer i = 0; i < static_cast<Integer>(m_elementIds.size()); ++i)
+                m_elementIndices[m_elementIds.at(i)] = i;
+
+            m_elementIndex = static_cast<Integer>(m_elementIds.size());
         }
 
         template <typename Real>
@@ -596,17 +638,23 @@ namespace ENigMA
             }
 
             // Delete nodes
-            for (typename std::map<Integer, bool>::const_iterator itr = bDeleteNode.begin(); itr != bDeleteNode.end(); ++itr)
+            std::vector<Integer> sRemainingIds;
+
+            for (Integer i = 0; i < static_cast<Integer>(m_nodeIds.size()); ++i)
             {
-                Integer aNodeId = itr->first;
+                Integer aNodeId = m_nodeIds.at(i);
 
-                if (itr->second)
-                    removeNode(aNodeId);
+                if (bDeleteNode.at(aNodeId))
+                    m_nodes.erase(aNodeId);
+                else
+                    sRemainingIds.emplace_back(aNodeId);
             }
 
-            removeInvalidElements();
+            m_nodeIds = sRemainingIds;
 
             rebuildIndices();
+
+            removeInvalidElements();
         }
 
         template <typename Real>
@@ -682,13 +730,21 @@ namespace ENigMA
             }
 
             // Delete elements
-            for (typename std::map<Integer, bool>::const_iterator itr = bDeleteElement.begin(); itr != bDeleteElement.end(); ++itr)
+            std::vector<Integer> sRemainingIds;
+
+            for (Integer i = 0; i < static_cast<Integer>(m_elementIds.size()); ++i)
             {
-                Integer anElementId = itr->first;
+                Integer anElementId = m_elementIds.at(i);
 
-                if (itr->second)
-                    removeElement(anElementId);
+                if (bDeleteElement.at(anElementId))
+                    m_elements.erase(anElementId);
+                else
+                    sRemainingIds.emplace_back(anElementId);
             }
+
+            m_elementIds = sRemainingIds;
+
+            rebuildIndices();
         }
 
         template <typename Real>
@@ -716,13 +772,21 @@ namespace ENigMA
             }
 
             // Delete elements
-            for (typename std::map<Integer, bool>::const_iterator itr = bDeleteElement.begin(); itr != bDeleteElement.end(); ++itr)
+            std::vector<Integer> sRemainingIds;
+
+            for (Integer i = 0; i < static_cast<Integer>(m_elementIds.size()); ++i)
             {
-                Integer anElementId = itr->first;
+                Integer anElementId = m_elementIds.at(i);
 
-                if (itr->second)
-                    removeElement(anElementId);
+                if (bDeleteElement.at(anElementId))
+                    m_elements.erase(anElementId);
+                else
+                    sRemainingIds.emplace_back(anElementId);
             }
+
+            m_elementIds = sRemainingIds;
+
+            rebuildIndices();
         }
 
         template <typename Real>
@@ -738,6 +802,8 @@ namespace ENigMA
                 m_nodeIndices[aNodeId] = i;
             }
 
+            m_nodeIndex = static_cast<Integer>(m_nodeIds.size());
+
             // Rebuild face indices
             m_faceIndices.clear();
 
@@ -748,6 +814,8 @@ namespace ENigMA
                 m_faceIndices[aFaceId] = i;
             }
 
+            m_faceIndex = static_cast<Integer>(m_faceIds.size());
+
             // Rebuild element indices
             m_elementIndices.clear();
 
@@ -757,6 +825,8 @@ namespace ENigMA
 
                 m_elementIndices[anElementId] = i;
             }
+
+            m_elementIndex = static_cast<Integer>(m_elementIds.size());
         }
 
         template <typename Real>
@@ -798,13 +868,21 @@ namespace ENigMA
             }
 
             // Delete nodes
-            for (typename std::map<Integer, bool>::const_iterator itr = bDeleteNode.begin(); itr != bDeleteNode.end(); ++itr)
+            std::vector<Integer> sRemainingIds;
+
+            for (Integer i = 0; i < static_cast<Integer>(m_nodeIds.size()); ++i)
             {
-                Integer aNodeId = itr->first;
+                Integer aNodeId = m_nodeIds.at(i);
 
-                if (itr->second)
-                    removeNode(aNodeId);
+                if (bDeleteNode.at(aNodeId))
+                    m_nodes.erase(aNodeId);
+                else
+                    sRemainingIds.emplace_back(aNodeId);
             }
+
+            m_nodeIds = sRemainingIds;
+
+            rebuildIndices();
         }
 
         template <typename Real>
-- 
2.43.0


From 0af45218c5550c3c17d40a88c95dd4fc6bb4e6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:30 +0000
Subject: [PATCH 24/41] fix: addMesh and renumber keep face references to
 elements and pairs

---
 trunk/src/mesh/MshMesh_Imp.hpp | 39 ++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/trunk/src/mesh/MshMesh_Imp.hpp b/trunk/src/mesh/MshMesh_Imp.hpp
index a2824c6..80f5b59 100644
--- a/trunk/src/mesh/MshMesh_Imp.hpp
+++ b/trunk/src/mesh/MshMesh_Imp.hpp
@@ -201,6 +201,8 @@ namespace ENigMA
         void CMshMesh<Real>::addMesh(const CMshMesh<Real>& aMesh)
         {
             mapNodeIndex sNewNodeIds;
+            mapFaceIndex sNewFaceIds;
+            mapElementIndex sNewElementIds;
 
             for (Integer i = 0; i < aMesh.nbNodes(); ++i)
             {
@@ -219,6 +221,7 @@ namespace ENigMA
 
                 Integer aNewFaceId = nextFaceId();
                 addFace(aNewFaceId, aFace);
+                sNewFaceIds[aFaceId] = aNewFaceId;
                 CMshFace<Real>& aNewFace = face(aNewFaceId);
 
                 for (Integer j = 0; j < aNewFace.nbNodeIds(); ++j)
@@ -235,6 +238,7 @@ namespace ENigMA
 
                 Integer aNewElementId = nextElementId();
                 addElement(aNewElementId, anElement);
+                sNewElementIds[anElementId] = aNewElementId;
                 CMshElement<Real>& aNewElement = element(aNewElementId);
 
                 for (Integer j = 0; j < aNewElement.nbNodeIds(); ++j)
@@ -242,7 +246,28 @@ namespace ENigMA
                     Integer aNodeId = aNewElement.nodeId(j);
                     aNewElement.setNodeId(j, sNewNodeIds.at(aNodeId));
                 }
+
+                for (Integer j = 0; j < aNewElement.nbFaceIds(); ++j)
+                {
+                    Integer aFaceId = aNewElement.faceId(j);
+
+                    if (sNewFaceIds.find(aFaceId) != sNewFaceIds.end())
+                        aNewElement.setFaceId(j, sNewFaceIds.at(aFaceId));
+                }
+            }
+
+            for (Integer i = 0; i < aMesh.nbFaces(); ++i)
+            {
+                CMshFace<Real>& aNewFace = face(sNewFaceIds.at(aMesh.faceId(i)));
+
+                if (sNewElementIds.find(aNewFace.elementId()) != sNewElementIds.end())
+                    aNewFace.setElementId(sNewElementIds.at(aNewFace.elementId()));
+
+                if (aNewFace.hasPair() && sNewFaceIds.find(aNewFace.pairFaceId()) != sNewFaceIds.end())
+                    aNewFace.setPairFaceId(sNewFaceIds.at(aNewFace.pairFaceId()));
             }
+
+            m_nbBoundaryFaces += aMesh.m_nbBoundaryFaces;
         }
 
         template <typename Real>
@@ -979,6 +1004,7 @@ namespace ENigMA
                 sNewFaces[aNewFaceId] = aFace;
             }
 
+            mapElementIndex sNewElementIds;
             mapElement sNewElements;
 
             for (Integer i = 0; i < static_cast<Integer>(m_elementIds.size()); ++i)
@@ -987,6 +1013,8 @@ namespace ENigMA
                 Integer anOldElementId = m_elementIds.at(i);
                 Integer aNewElementId = i;
 
+                sNewElementIds[anOldElementId] = aNewElementId;
+
                 CMshElement<Real>& anElement = m_elements.at(anOldElementId);
 
                 for (Integer j = 0; j < anElement.nbNodeIds(); ++j)
@@ -998,6 +1026,17 @@ namespace ENigMA
                 sNewElements[aNewElementId] = anElement;
             }
 
+            for (Integer i = 0; i < static_cast<Integer>(m_faceIds.size()); ++i)
+            {
+                CMshFace<Real>& aFace = sNewFaces.at(i);
+
+                if (sNewElementIds.find(aFace.elementId()) != sNewElementIds.end())
+                    aFace.setElementId(sNewElementIds.at(aFace.elementId()));
+
+                if (aFace.hasPair() && sNewFaceIds.find(aFace.pairFaceId()) != sNewFaceIds.end())
+                    aFace.setPairFaceId(sNewFaceIds.at(aFace.pairFaceId()));
+            }
+
             Integer n = static_cast<Integer>(m_nodeIds.size());
             m_nodeIds.clear();
             for (Integer i = 0; i < n; ++i)
-- 
2.43.0


From e4642bdbd232bf05eed5586ca1295b032fa02d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:03 +0000
Subject: [PATCH 25/41] fix: copying and resetting meshes and elements covers
 every attribute

---
 trunk/src/mesh/MshElement_Imp.hpp |  2 ++
 trunk/src/mesh/MshMesh_Imp.hpp    | 12 ++++++++++++
 2 files changed, 14 insertions(+)

diff --git a/trunk/src/mesh/MshElement_Imp.hpp b/trunk/src/mesh/MshElement_Imp.hpp
index dfea6fc..a61d0d3 100644
--- a/trunk/src/mesh/MshElement_Imp.hpp
+++ b/trunk/src/mesh/MshElement_Imp.hpp
@@ -105,7 +105,9 @@ namespace ENigMA
         void CMshElement<Real>::reset()
         {
             m_elementType = ET_NONE;
+            m_thickness = 1.0;
             m_nodeIds.clear();
+            m_faceIds.clear();
         }
 
         template <typename Real>
diff --git a/trunk/src/mesh/MshMesh_Imp.hpp b/trunk/src/mesh/MshMesh_Imp.hpp
index 80f5b59..6f936ff 100644
--- a/trunk/src/mesh/MshMesh_Imp.hpp
+++ b/trunk/src/mesh/MshMesh_Imp.hpp
@@ -60,6 +60,15 @@ namespace ENigMA
 
                 addElement(anElementId, anElement);
             }
+
+            m_nbBoundaryFaces = aMesh.m_nbBoundaryFaces;
+
+            m_dx = aMesh.m_dx;
+            m_dy = aMesh.m_dy;
+            m_dz = aMesh.m_dz;
+
+            m_faceCentroid = aMesh.m_faceCentroid;
+            m_elementCentroid = aMesh.m_elementCentroid;
         }
 
         template <typename Real>
@@ -90,6 +99,9 @@ namespace ENigMA
             m_dz = 0.0;
 
             m_nbBoundaryFaces = 0;
+
+            m_faceCentroid.clear();
+            m_elementCentroid.clear();
         }
 
         template <typename Real>
-- 
2.43.0


From c3c266fd883f108cb82388a99d6d21c05d955a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:27 +0000
Subject: [PATCH 26/41] fix: sort the element lists a mesh query intersects

---
 trunk/src/mesh/MshMeshQuery_Imp.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trunk/src/mesh/MshMeshQuery_Imp.hpp b/trunk/src/mesh/MshMeshQuery_Imp.hpp
index a548018..cd71974 100644
--- a/trunk/src/mesh/MshMeshQuery_Imp.hpp
+++ b/trunk/src/mesh/MshMeshQuery_Imp.hpp
@@ -37,6 +37,10 @@ namespace ENigMA
                         m_nodeToElement[aNodeId].emplace_back(anElementId);
                 }
             }
+
+            // The intersection of two lists requires them to be sorted
+            for (typename std::map<Integer, std::vector<Integer>>::iterator itr = m_nodeToElement.begin(); itr != m_nodeToElement.end(); ++itr)
+                std::sort(itr->second.begin(), itr->second.end());
         }
 
         template <typename Real>
-- 
2.43.0


From 790b0d21b0ff79ea9e655f14d8b3149aa0480dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:44 +0000
Subject: [PATCH 27/41] fix: invert triangular prisms and hexahedra

---
 trunk/src/mesh/MshElement_Imp.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/trunk/src/mesh/MshElement_Imp.hpp b/trunk/src/mesh/MshElement_Imp.hpp
index a61d0d3..711fa39 100644
--- a/trunk/src/mesh/MshElement_Imp.hpp
+++ b/trunk/src/mesh/MshElement_Imp.hpp
@@ -393,10 +393,20 @@ namespace ENigMA
                 m_nodeIds[2] = idAux;
                 break;
             case ET_TRIANGULAR_PRISM:
-                // TODO:
+                idAux = m_nodeIds[1];
+                m_nodeIds[1] = m_nodeIds[2];
+                m_nodeIds[2] = idAux;
+                idAux = m_nodeIds[4];
+                m_nodeIds[4] = m_nodeIds[5];
+                m_nodeIds[5] = idAux;
                 break;
             case ET_HEXAHEDRON:
-                // TODO:
+                idAux = m_nodeIds[1];
+                m_nodeIds[1] = m_nodeIds[3];
+                m_nodeIds[3] = idAux;
+                idAux = m_nodeIds[5];
+                m_nodeIds[5] = m_nodeIds[7];
+                m_nodeIds[7] = idAux;
                 break;
             case ET_POLYHEDRON:
                 // TODO:
-- 
2.43.0


From be59a5dc61d3f94519b927a250068744b1189a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:13 +0000
Subject: [PATCH 28/41] fix: list a finite volume face or cell once and keep
 indices on removal

---
 trunk/src/fvm/FvmMesh_Imp.hpp | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/trunk/src/fvm/FvmMesh_Imp.hpp b/trunk/src/fvm/FvmMesh_Imp.hpp
index 0243f84..0f1e188 100644
--- a/trunk/src/fvm/FvmMesh_Imp.hpp
+++ b/trunk/src/fvm/FvmMesh_Imp.hpp
@@ -183,11 +183,16 @@ namespace ENigMA
         template <typename Real>
         void CFvmMesh<Real>::addFace(const Integer aFaceId, const CFvmFace<Real>& aFace)
         {
-            m_faces[aFaceId] = aFace;
-            m_faceIds.emplace_back(aFaceId);
+            // An id is listed once
+            if (m_faces.find(aFaceId) == m_faces.end())
+            {
+                m_faceIds.emplace_back(aFaceId);
+
+                m_faceIndices[aFaceId] = m_faceIndex;
+                m_faceIndex++;
+            }
 
-            m_faceIndices[aFaceId] = m_faceIndex;
-            m_faceIndex++;
+            m_faces[aFaceId] = aFace;
         }
 
         template <typename Real>
@@ -200,21 +205,33 @@ namespace ENigMA
         void CFvmMesh<Real>::removeFace(const Integer aFaceId)
         {
             m_faces.erase(aFaceId);
+            m_faceIndices.erase(aFaceId);
 
             std::vector<Integer>::iterator it = std::find(m_faceIds.begin(), m_faceIds.end(), aFaceId);
 
             if (it != m_faceIds.end())
                 m_faceIds.erase(it);
+
+            // The faces that followed have moved
+            for (Integer i = 0; i < static_cast<Integer>(m_faceIds.size()); ++i)
+                m_faceIndices[m_faceIds.at(i)] = i;
+
+            m_faceIndex = static_cast<Integer>(m_faceIds.size());
         }
 
         template <typename Real>
         void CFvmMesh<Real>::addControlVolume(const Integer aControlVolumeId, const CFvmControlVolume<Real>& aControlVolume)
         {
-            m_controlVolumes[aControlVolumeId] = aControlVolume;
-            m_controlVolumeIds.emplace_back(aControlVolumeId);
+            // An id is listed once
+            if (m_controlVolumes.find(aControlVolumeId) == m_controlVolumes.end())
+            {
+                m_controlVolumeIds.emplace_back(aControlVolumeId);
 
-            m_controlVolumeIndices[aControlVolumeId] = m_controlVolumeIndex;
-            m_controlVolumeIndex++;
+                m_controlVolumeIndices[aControlVolumeId] = m_controlVolumeIndex;
+                m_controlVolumeIndex++;
+            }
+
+            m_controlVolumes[aControlVolumeId] = aControlVolume;
         }
 
         template <typename Real>
-- 
2.43.0


From e669f4902f2cf83bc17e8935aaf51e33a7991ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:13 +0000
Subject: [PATCH 29/41] fix: measures and state of control volumes and faces
 after clip, set and reset

---
 trunk/src/fvm/FvmControlVolume_Imp.hpp | 22 ++++++++++++++++++++++
 trunk/src/fvm/FvmFace_Imp.hpp          |  7 ++++++-
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/trunk/src/fvm/FvmControlVolume_Imp.hpp b/trunk/src/fvm/FvmControlVolume_Imp.hpp
index 3eda33c..8b8c16e 100644
--- a/trunk/src/fvm/FvmControlVolume_Imp.hpp
+++ b/trunk/src/fvm/FvmControlVolume_Imp.hpp
@@ -189,6 +189,18 @@ namespace ENigMA
         void CFvmControlVolume<Real>::reset()
         {
 
+            CGeoVolume<Real>::reset();
+
+            m_clipped = false;
+            m_clippedFaceId = -1;
+            m_clippedFace.reset();
+
+            m_polyhedron.reset();
+            m_clippedPolyhedron.reset();
+
+            m_controlVolumeId = 0;
+            m_originalVolume = 0.0;
+
         }
 
         template <typename Real>
@@ -221,6 +233,11 @@ namespace ENigMA
             m_clippedFace.set(aPolygon);
             m_clipped = true;
 
+            this->m_bSurfaceArea = false;
+            this->m_bVolume = false;
+            this->m_bCentroid = false;
+            this->m_bBoundingBox = false;
+
         }
 
         template <typename Real>
@@ -344,6 +361,11 @@ namespace ENigMA
 
             m_clipped = clipped;
 
+            this->m_bSurfaceArea = false;
+            this->m_bVolume = false;
+            this->m_bCentroid = false;
+            this->m_bBoundingBox = false;
+
         }
 
     }
diff --git a/trunk/src/fvm/FvmFace_Imp.hpp b/trunk/src/fvm/FvmFace_Imp.hpp
index 78a3c42..fd3f7cb 100644
--- a/trunk/src/fvm/FvmFace_Imp.hpp
+++ b/trunk/src/fvm/FvmFace_Imp.hpp
@@ -40,7 +40,7 @@ namespace ENigMA
         template <typename Real>
         void CFvmFace<Real>::set(CGeoPolygon<Real> aPolygon)
         {
-            CGeoPolygon<Real>::polyline().reset();
+            CGeoPolygon<Real>::reset();
 
             for (Integer i = 0; i < aPolygon.polyline().nbVertices(); ++i)
             {
@@ -103,7 +103,12 @@ namespace ENigMA
         template <typename Real>
         void CFvmFace<Real>::reset()
         {
+            ENigMA::mesh::CMshFace<Real>::reset();
             CGeoPolygon<Real>::reset();
+
+            m_boundaryType = BT_NONE;
+            m_controlVolumeId = 0;
+            m_neighborId = 0;
         }
 
         template <typename Real>
-- 
2.43.0


From 85b725421fb506f598699cdf2f345fba29971a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:13 +0000
Subject: [PATCH 30/41] fix: building a hash grid or a finite volume mesh
 search twice

---
 trunk/src/fvm/FvmMeshSearch_Imp.hpp    | 3 +++
 trunk/src/geometry/GeoHashGrid_Imp.hpp | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/trunk/src/fvm/FvmMeshSearch_Imp.hpp b/trunk/src/fvm/FvmMeshSearch_Imp.hpp
index db960c4..dbefd96 100644
--- a/trunk/src/fvm/FvmMeshSearch_Imp.hpp
+++ b/trunk/src/fvm/FvmMeshSearch_Imp.hpp
@@ -17,6 +17,7 @@ namespace ENigMA
 
         template <typename Real>
         CFvmMeshSearch<Real>::CFvmMeshSearch()
+            : m_mesh(nullptr)
         {
 
         }
@@ -45,6 +46,8 @@ namespace ENigMA
         template <typename Real>
         void CFvmMeshSearch<Real>::build()
         {
+            m_boundaryFaceHashGrid.reset();
+
             for (Integer i = 0; i < m_mesh->nbFaces(); ++i)
             {
                 m_mesh->face(m_mesh->faceId(i)).calculateCentroid();
diff --git a/trunk/src/geometry/GeoHashGrid_Imp.hpp b/trunk/src/geometry/GeoHashGrid_Imp.hpp
index 66d24d3..ac729c5 100644
--- a/trunk/src/geometry/GeoHashGrid_Imp.hpp
+++ b/trunk/src/geometry/GeoHashGrid_Imp.hpp
@@ -37,6 +37,7 @@ namespace ENigMA
 
             m_coordinateList.clear();
             m_coordinateListPtr.clear();
+            m_boundingBox.reset();
         }
 
         template <typename Real>
@@ -56,7 +57,7 @@ namespace ENigMA
             m_nbCellsXY = m_nbCellsX * m_nbCellsY;
             m_nbCells = m_nbCellsX * m_nbCellsY * m_nbCellsZ;
 
-            m_coordinateListPtr.resize(m_nbCells + 1);
+            m_coordinateListPtr.assign(m_nbCells + 1, 0);
 
             m_adDelta = m_boundingBox.max() - m_boundingBox.min();
 
-- 
2.43.0


From 200768e1e0ef0998557e387c5f7a4e2f58244a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:13 +0000
Subject: [PATCH 31/41] fix: normalisation and derivative of the smoothing
 kernels

---
 trunk/src/sph/SphConvex_Imp.hpp      | 8 ++++----
 trunk/src/sph/SphCubicSpline_Imp.hpp | 4 ++--
 trunk/src/sph/SphGaussian_Imp.hpp    | 6 +++---
 trunk/src/sph/SphQuintic_Imp.hpp     | 6 +++---
 trunk/src/sph/SphSpiky_Imp.hpp       | 6 +++---
 5 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/trunk/src/sph/SphConvex_Imp.hpp b/trunk/src/sph/SphConvex_Imp.hpp
index 90267ff..a4f5309 100644
--- a/trunk/src/sph/SphConvex_Imp.hpp
+++ b/trunk/src/sph/SphConvex_Imp.hpp
@@ -49,7 +49,7 @@ namespace ENigMA
                 return 0.0;
 
             if (CSphKernel<Real>::m_dim == 1)
-                CSphKernel<Real>::m_C = 5.0 / (24.0 * h);
+                CSphKernel<Real>::m_C = 5.0 / (48.0 * h);
             else if (CSphKernel<Real>::m_dim == 2)
                 CSphKernel<Real>::m_C = 15.0 / (64.0 * CSphKernel<Real>::m_pi * h * h);
             else if (CSphKernel<Real>::m_dim == 3)
@@ -70,13 +70,13 @@ namespace ENigMA
                 return CGeoVector<Real>(0, 0, 0);
 
             if (CSphKernel<Real>::m_dim == 1)
-                CSphKernel<Real>::m_C = 5.0 / (24.0 * h);
+                CSphKernel<Real>::m_C = 5.0 / (48.0 * h);
             else if (CSphKernel<Real>::m_dim == 2)
                 CSphKernel<Real>::m_C = 15.0 / (64.0 * CSphKernel<Real>::m_pi * h * h);
             else if (CSphKernel<Real>::m_dim == 3)
                 CSphKernel<Real>::m_C = 21.0 / (128.0 * CSphKernel<Real>::m_pi * h * h * h);
 
-            return -CSphKernel<Real>::m_C * (pow(2 - q, 1.5) - 3 * (2 - q) * (2 - q) * (0.5 * q + 1)) / q * r;
+            return -CSphKernel<Real>::m_C * (0.5 * pow(2 - q, 3) - 3 * (2 - q) * (2 - q) * (0.5 * q + 1)) / q * r;
         }
 
         template <typename Real>
@@ -88,7 +88,7 @@ namespace ENigMA
                 return 0.0;
 
             if (CSphKernel<Real>::m_dim == 1)
-                CSphKernel<Real>::m_C = 5.0 / (24.0 * h);
+                CSphKernel<Real>::m_C = 5.0 / (48.0 * h);
             else if (CSphKernel<Real>::m_dim == 2)
                 CSphKernel<Real>::m_C = 15.0 / (64.0 * CSphKernel<Real>::m_pi * h * h);
             else if (CSphKernel<Real>::m_dim == 3)
diff --git a/trunk/src/sph/SphCubicSpline_Imp.hpp b/trunk/src/sph/SphCubicSpline_Imp.hpp
index ca4780f..3e746e1 100644
--- a/trunk/src/sph/SphCubicSpline_Imp.hpp
+++ b/trunk/src/sph/SphCubicSpline_Imp.hpp
@@ -56,9 +56,9 @@ namespace ENigMA
                 CSphKernel<Real>::m_C = 1.0 / (CSphKernel<Real>::m_pi * h * h * h);
 
             if (q >= 0 && q < 1.0)
-                return CSphKernel<Real>::m_C * ((2 - q) * (2 - q) * (2 - q) - 4 * (1 - q) * (1 - q) * (1 - q));
+                return CSphKernel<Real>::m_C * 0.25 * ((2 - q) * (2 - q) * (2 - q) - 4 * (1 - q) * (1 - q) * (1 - q));
             else
-                return CSphKernel<Real>::m_C * (2 - q) * (2 - q) * (2 - q);
+                return CSphKernel<Real>::m_C * 0.25 * (2 - q) * (2 - q) * (2 - q);
         }
 
         template <typename Real>
diff --git a/trunk/src/sph/SphGaussian_Imp.hpp b/trunk/src/sph/SphGaussian_Imp.hpp
index 4f0d1b3..0dbbaee 100644
--- a/trunk/src/sph/SphGaussian_Imp.hpp
+++ b/trunk/src/sph/SphGaussian_Imp.hpp
@@ -53,7 +53,7 @@ namespace ENigMA
             else if (CSphKernel<Real>::m_dim == 2)
                 CSphKernel<Real>::m_C = 1.0 / (CSphKernel<Real>::m_pi * h * h);
             else if (CSphKernel<Real>::m_dim == 3)
-                CSphKernel<Real>::m_C = 1.0 / (CSphKernel<Real>::m_pi * CSphKernel<Real>::m_pi * CSphKernel<Real>::m_pi * h * h * h);
+                CSphKernel<Real>::m_C = 1.0 / (CSphKernel<Real>::m_pi * sqrt(CSphKernel<Real>::m_pi) * h * h * h);
 
             return CSphKernel<Real>::m_C * exp(-q * q);
         }
@@ -74,7 +74,7 @@ namespace ENigMA
             else if (CSphKernel<Real>::m_dim == 2)
                 CSphKernel<Real>::m_C = 1.0 / (CSphKernel<Real>::m_pi * h * h);
             else if (CSphKernel<Real>::m_dim == 3)
-                CSphKernel<Real>::m_C = 1.0 / (CSphKernel<Real>::m_pi * CSphKernel<Real>::m_pi * CSphKernel<Real>::m_pi * h * h * h);
+                CSphKernel<Real>::m_C = 1.0 / (CSphKernel<Real>::m_pi * sqrt(CSphKernel<Real>::m_pi) * h * h * h);
 
             return CSphKernel<Real>::m_C * 2 * exp(-q * q) * r;
         }
@@ -92,7 +92,7 @@ namespace ENigMA
             else if (CSphKernel<Real>::m_dim == 2)
                 CSphKernel<Real>::m_C = 1.0 / (CSphKernel<Real>::m_pi * h * h);
             else if (CSphKernel<Real>::m_dim == 3)
-                CSphKernel<Real>::m_C = 1.0 / (CSphKernel<Real>::m_pi * CSphKernel<Real>::m_pi * CSphKernel<Real>::m_pi * h * h * h);
+                CSphKernel<Real>::m_C = 1.0 / (CSphKernel<Real>::m_pi * sqrt(CSphKernel<Real>::m_pi) * h * h * h);
 
             Real w = exp(-q * q);
             Real dw = -2.0 * q * w;
diff --git a/trunk/src/sph/SphQuintic_Imp.hpp b/trunk/src/sph/SphQuintic_Imp.hpp
index 7fd6c46..39986c4 100644
--- a/trunk/src/sph/SphQuintic_Imp.hpp
+++ b/trunk/src/sph/SphQuintic_Imp.hpp
@@ -49,7 +49,7 @@ namespace ENigMA
                 return 0.0;
 
             if (CSphKernel<Real>::m_dim == 1)
-                CSphKernel<Real>::m_C = 3.0 / (2.0 * h);
+                CSphKernel<Real>::m_C = 3.0 / (4.0 * h);
             else if (CSphKernel<Real>::m_dim == 2)
                 CSphKernel<Real>::m_C = 7.0 / (4.0 * CSphKernel<Real>::m_pi * h * h);
             else if (CSphKernel<Real>::m_dim == 3)
@@ -70,7 +70,7 @@ namespace ENigMA
                 return CGeoVector<Real>(0, 0, 0);
 
             if (CSphKernel<Real>::m_dim == 1)
-                CSphKernel<Real>::m_C = 3.0 / (2.0 * h);
+                CSphKernel<Real>::m_C = 3.0 / (4.0 * h);
             else if (CSphKernel<Real>::m_dim == 2)
                 CSphKernel<Real>::m_C = 7.0 / (4.0 * CSphKernel<Real>::m_pi * h * h);
             else if (CSphKernel<Real>::m_dim == 3)
@@ -88,7 +88,7 @@ namespace ENigMA
                 return 0.0;
 
             if (CSphKernel<Real>::m_dim == 1)
-                CSphKernel<Real>::m_C = 3.0 / (2.0 * h);
+                CSphKernel<Real>::m_C = 3.0 / (4.0 * h);
             else if (CSphKernel<Real>::m_dim == 2)
                 CSphKernel<Real>::m_C = 7.0 / (4.0 * CSphKernel<Real>::m_pi * h * h);
             else if (CSphKernel<Real>::m_dim == 3)
diff --git a/trunk/src/sph/SphSpiky_Imp.hpp b/trunk/src/sph/SphSpiky_Imp.hpp
index 68d2f09..013ab9f 100644
--- a/trunk/src/sph/SphSpiky_Imp.hpp
+++ b/trunk/src/sph/SphSpiky_Imp.hpp
@@ -53,7 +53,7 @@ namespace ENigMA
                 return 0.0;
 
             if (CSphKernel<Real>::m_dim == 1)
-                CSphKernel<Real>::m_C = 4.0 / h;
+                CSphKernel<Real>::m_C = 2.0 / h;
             else if (CSphKernel<Real>::m_dim == 2)
                 CSphKernel<Real>::m_C = 10.0 / (CSphKernel<Real>::m_pi * h * h);
             else if (CSphKernel<Real>::m_dim == 3)
@@ -75,7 +75,7 @@ namespace ENigMA
                 return CGeoVector<Real>(0, 0, 0);
 
             if (CSphKernel<Real>::m_dim == 1)
-                CSphKernel<Real>::m_C = 4.0 / h;
+                CSphKernel<Real>::m_C = 2.0 / h;
             else if (CSphKernel<Real>::m_dim == 2)
                 CSphKernel<Real>::m_C = 10.0 / (CSphKernel<Real>::m_pi * h * h);
             else if (CSphKernel<Real>::m_dim == 3)
@@ -94,7 +94,7 @@ namespace ENigMA
                 return 0.0;
 
             if (CSphKernel<Real>::m_dim == 1)
-                CSphKernel<Real>::m_C = 4.0 / h;
+                CSphKernel<Real>::m_C = 2.0 / h;
             else if (CSphKernel<Real>::m_dim == 2)
                 CSphKernel<Real>::m_C = 10.0 / (CSphKernel<Real>::m_pi * h * h);
             else if (CSphKernel<Real>::m_dim == 3)
-- 
2.43.0


From 46cf50fc584c19800c0ebd7172799877528d0d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:13 +0000
Subject: [PATCH 32/41] fix: particles move with their y and z velocity along y
 and z

---
 trunk/src/solvers/SphParticles_Imp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/src/solvers/SphParticles_Imp.hpp b/trunk/src/solvers/SphParticles_Imp.hpp
index c99bfaf..cc0b862 100644
--- a/trunk/src/solvers/SphParticles_Imp.hpp
+++ b/trunk/src/solvers/SphParticles_Imp.hpp
@@ -124,8 +124,8 @@ namespace ENigMA
                 CMshNode<Real>& aNode1 = aField.mesh().node(aNodeId1);
 
                 aNode1.x() += m_particles[i].velocity.x() * m_dt;
-                aNode1.y() += m_particles[i].velocity.z() * m_dt;
-                aNode1.z() += m_particles[i].velocity.y() * m_dt;
+                aNode1.y() += m_particles[i].velocity.y() * m_dt;
+                aNode1.z() += m_particles[i].velocity.z() * m_dt;
 
                 if (m_bCyclic)
                 {
-- 
2.43.0


From 724c6380b2ced2738fe7861f7d29a0c68d92f00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:56 +0000
Subject: [PATCH 33/41] fix: sign of the series of three-dimensional transient
 conduction

---
 trunk/src/analytical/AnaTemperature_Imp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/src/analytical/AnaTemperature_Imp.hpp b/trunk/src/analytical/AnaTemperature_Imp.hpp
index bfdb1f6..aaa6c44 100644
--- a/trunk/src/analytical/AnaTemperature_Imp.hpp
+++ b/trunk/src/analytical/AnaTemperature_Imp.hpp
@@ -190,7 +190,7 @@ namespace ENigMA
                     {
                         Real lambda = alpha * pi * pi * ((2 * p + 1) * (2 * p + 1) + (2 * q + 1) * (2 * q + 1) + (2 * r + 1) * (2 * r + 1));
 
-                        T += 64.0 / (pi * pi * pi) * pow(-1.0, p + q) / ((2 * p + 1) * (2 * q + 1) * (2 * r + 1)) * cos((2 * p + 1) * pi * x) * cos((2 * q + 1) * pi * y) * cos((2 * r + 1) * pi * z) * exp(-lambda * t);
+                        T += 64.0 / (pi * pi * pi) * pow(-1.0, p + q + r) / ((2 * p + 1) * (2 * q + 1) * (2 * r + 1)) * cos((2 * p + 1) * pi * x) * cos((2 * q + 1) * pi * y) * cos((2 * r + 1) * pi * z) * exp(-lambda * t);
                     }
                 }
             }
-- 
2.43.0


From 0a66c0d3e20b9538471f8b1add6ea2c33f583931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:57 +0000
Subject: [PATCH 34/41] fix: constant functions of a variable and iteration
 count of brent

---
 trunk/src/analytical/AnaFunction_Imp.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/trunk/src/analytical/AnaFunction_Imp.hpp b/trunk/src/analytical/AnaFunction_Imp.hpp
index f4c375f..7fa1d2d 100644
--- a/trunk/src/analytical/AnaFunction_Imp.hpp
+++ b/trunk/src/analytical/AnaFunction_Imp.hpp
@@ -71,6 +71,9 @@ namespace ENigMA
         template <typename Real>
         Real CAnaFunction<Real>::evaluate(const std::string& aVariable, Real& aValue)
         {
+            if (m_constant)
+                return m_value;
+
             exprtk::expression<Real> expression;
             exprtk::parser<Real> parser;
 
@@ -88,6 +91,9 @@ namespace ENigMA
         template <typename Real>
         Real CAnaFunction<Real>::evaluate(const std::string& aVariable1, Real& aValue1, const std::string& aVariable2, Real& aValue2)
         {
+            if (m_constant)
+                return m_value;
+
             exprtk::expression<Real> expression;
             exprtk::parser<Real> parser;
 
@@ -156,6 +162,8 @@ namespace ENigMA
             Real fc = 0.0;
 
             // if f(a) f(b) >= 0 then error-exit
+            nIterations = 0;
+
             if (fa * fb >= 0)
             {
                 if (fa < fb)
-- 
2.43.0


From b3c44a9437f3b7056c254c069849ed649d4800ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:34 +0000
Subject: [PATCH 35/41] fix: temperature solver averages properties per face
 and conducts through boundary faces in full

---
 trunk/src/solvers/FvmTemperatureSolver_Imp.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/trunk/src/solvers/FvmTemperatureSolver_Imp.hpp b/trunk/src/solvers/FvmTemperatureSolver_Imp.hpp
index 807ec14..804384c 100644
--- a/trunk/src/solvers/FvmTemperatureSolver_Imp.hpp
+++ b/trunk/src/solvers/FvmTemperatureSolver_Imp.hpp
@@ -96,15 +96,14 @@ namespace ENigMA
 
                 Integer anIndexP = CFvmPisoSolver<Real>::m_mapIdToIndex.at(aControlVolumeId);
 
-                Real dens = CFvmPisoSolver<Real>::m_dens.at(aControlVolumeId);
-                Real visc = CFvmPisoSolver<Real>::m_visc.at(aControlVolumeId);
-                Real thcond = m_thcond.at(aControlVolumeId);
-                Real spheat = m_spheat.at(aControlVolumeId);
-
                 for (Integer j = 0; j < CFvmPisoSolver<Real>::m_fvmMesh.controlVolume(aControlVolumeId).nbFaces(); ++j)
                 {
                     Integer aFaceId = CFvmPisoSolver<Real>::m_fvmMesh.controlVolume(aControlVolumeId).faceId(j);
 
+                    Real dens = CFvmPisoSolver<Real>::m_dens.at(aControlVolumeId);
+                    Real thcond = m_thcond.at(aControlVolumeId);
+                    Real spheat = m_spheat.at(aControlVolumeId);
+
                     Real area = CFvmPisoSolver<Real>::m_fvmMesh.controlVolume(aControlVolumeId).faceArea(aFaceId);
                     Real dist = CFvmPisoSolver<Real>::m_fvmMesh.controlVolume(aControlVolumeId).faceDist(aFaceId).norm();
 
@@ -156,7 +155,7 @@ namespace ENigMA
 
                         // Conduction
                         A.coeffRef(anIndexP, anIndexP) += thcond * area / dist;
-                        b[anIndexP] += thcond * area / dist / volume * m_Tf.at(aFaceId);
+                        b[anIndexP] += thcond * area / dist * m_Tf.at(aFaceId);
 
                         // Convection
                         Real xsi;
@@ -173,8 +172,10 @@ namespace ENigMA
                 if (CFvmPisoSolver<Real>::m_dt > 0)
                 {
                     // Unsteady term - Euler
-                    A.coeffRef(anIndexP, anIndexP) += volume * spheat * dens / CFvmPisoSolver<Real>::m_dt;
-                    b[anIndexP] += volume * spheat * dens / CFvmPisoSolver<Real>::m_dt * m_T0.at(aControlVolumeId);
+                    Real heatCapacity = volume * m_spheat.at(aControlVolumeId) * CFvmPisoSolver<Real>::m_dens.at(aControlVolumeId);
+
+                    A.coeffRef(anIndexP, anIndexP) += heatCapacity / CFvmPisoSolver<Real>::m_dt;
+                    b[anIndexP] += heatCapacity / CFvmPisoSolver<Real>::m_dt * m_T0.at(aControlVolumeId);
                 }
             }
 
-- 
2.43.0


From d3ea1b0b49330901a99f6fb7e362377e4f929b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:31 +0000
Subject: [PATCH 36/41] fix: momentum predictor pressure gradient, boundary
 convection and matrix row of the neighbour velocities

---
 trunk/src/solvers/FvmPisoSolver_Imp.hpp | 30 +++++++++++++++----------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/trunk/src/solvers/FvmPisoSolver_Imp.hpp b/trunk/src/solvers/FvmPisoSolver_Imp.hpp
index c50501b..b97fca9 100644
--- a/trunk/src/solvers/FvmPisoSolver_Imp.hpp
+++ b/trunk/src/solvers/FvmPisoSolver_Imp.hpp
@@ -294,9 +294,9 @@ namespace ENigMA
                         bw[anIndexP] += visc * m_wf[aFaceId] * area / dist / volume;
 
                         // Convection
-                        bu[anIndexP] += -dens * m_uf[aFaceId] * area * flux * aNormal.x() / volume;
-                        bv[anIndexP] += -dens * m_vf[aFaceId] * area * flux * aNormal.y() / volume;
-                        bw[anIndexP] += -dens * m_wf[aFaceId] * area * flux * aNormal.z() / volume;
+                        bu[anIndexP] += -dens * m_uf[aFaceId] * flux / volume;
+                        bv[anIndexP] += -dens * m_vf[aFaceId] * flux / volume;
+                        bw[anIndexP] += -dens * m_wf[aFaceId] * flux / volume;
                     }
                 }
 
@@ -308,9 +308,9 @@ namespace ENigMA
                 // Source - pressure
                 CGeoVector<Real> gradp = this->gradient(m_p, m_pf, aControlVolumeId);
 
-                bu[anIndexP] += gradp.x();
-                bv[anIndexP] += gradp.y();
-                bw[anIndexP] += gradp.z();
+                bu[anIndexP] -= gradp.x();
+                bv[anIndexP] -= gradp.y();
+                bw[anIndexP] -= gradp.z();
 
                 if (m_dt > 0.0)
                 {
@@ -339,20 +339,26 @@ namespace ENigMA
 
                 CGeoVector<Real> gradp = this->gradient(m_p, m_pf, aControlVolumeId);
 
-                m_Hu[aControlVolumeId] = bu[k] - gradp.x();
-                m_Hv[aControlVolumeId] = bv[k] - gradp.y();
-                m_Hw[aControlVolumeId] = bw[k] - gradp.z();
+                m_Hu[aControlVolumeId] = bu[k] + gradp.x();
+                m_Hv[aControlVolumeId] = bv[k] + gradp.y();
+                m_Hw[aControlVolumeId] = bw[k] + gradp.z();
+            }
+
+            for (int k = 0; k < A.outerSize(); ++k)
+            {
 
                 for (typename Eigen::SparseMatrix<Real>::InnerIterator it(A, k); it; ++it)
                 {
 
+                    Integer aControlVolumeId = m_mapIndexToId.at(it.row());
+
                     if (it.row() == it.col())
                         m_ap[aControlVolumeId] = it.value();
                     else
                     {
-                        m_Hu.at(aControlVolumeId) += -it.value() * u[k];
-                        m_Hv.at(aControlVolumeId) += -it.value() * v[k];
-                        m_Hw.at(aControlVolumeId) += -it.value() * w[k];
+                        m_Hu.at(aControlVolumeId) += -it.value() * u[it.col()];
+                        m_Hv.at(aControlVolumeId) += -it.value() * v[it.col()];
+                        m_Hw.at(aControlVolumeId) += -it.value() * w[it.col()];
                     }
                 }
             }
-- 
2.43.0


From 8338f22295383dbbd21883ab84fb77f4e061473d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:31 +0000
Subject: [PATCH 37/41] fix: boundary face fluxes are outward like interior
 ones

---
 trunk/src/solvers/FvmPisoSolver_Imp.hpp | 26 ++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/trunk/src/solvers/FvmPisoSolver_Imp.hpp b/trunk/src/solvers/FvmPisoSolver_Imp.hpp
index b97fca9..0cee965 100644
--- a/trunk/src/solvers/FvmPisoSolver_Imp.hpp
+++ b/trunk/src/solvers/FvmPisoSolver_Imp.hpp
@@ -451,9 +451,9 @@ namespace ENigMA
 
                             // specified flux
                             // pressure gradient = 0
-                            b[anIndexP] -= m_flux.at(aFaceId);
+                            m_flux[aFaceId] = (m_uf[aFaceId] * aNormal.x() + m_vf[aFaceId] * aNormal.y() + m_wf[aFaceId] * aNormal.z()) * area;
 
-                            m_flux[aFaceId] = -(m_uf[aFaceId] * aNormal.x() + m_vf[aFaceId] * aNormal.y() + m_wf[aFaceId] * aNormal.z()) * area;
+                            b[anIndexP] += m_flux.at(aFaceId);
                         }
                         else if (m_fvmMesh.face(aFaceId).boundaryType() == BT_INLET_PRESSURE)
                         {
@@ -464,13 +464,13 @@ namespace ENigMA
                             A.coeffRef(anIndexP, anIndexP) += -1.0 / (apj * dist) * area;
                             b[anIndexP] += -1.0 / (apj * dist) * area * m_pf.at(aFaceId);
 
-                            m_flux[aFaceId] = -Hf / apj * area;
+                            m_flux[aFaceId] = Hf / apj * area;
 
-                            b[anIndexP] -= m_flux.at(aFaceId);
+                            b[anIndexP] += m_flux.at(aFaceId);
 
-                            m_uf[aFaceId] = -m_flux[aFaceId] / area * aNormal.x();
-                            m_vf[aFaceId] = -m_flux[aFaceId] / area * aNormal.y();
-                            m_wf[aFaceId] = -m_flux[aFaceId] / area * aNormal.z();
+                            m_uf[aFaceId] = m_flux[aFaceId] / area * aNormal.x();
+                            m_vf[aFaceId] = m_flux[aFaceId] / area * aNormal.y();
+                            m_wf[aFaceId] = m_flux[aFaceId] / area * aNormal.z();
                         }
                         else if (m_fvmMesh.face(aFaceId).boundaryType() == BT_OUTLET)
                         {
@@ -480,13 +480,13 @@ namespace ENigMA
 
                             A.coeffRef(anIndexP, anIndexP) += -1.0 / (apj * dist) * area;
 
-                            m_flux[aFaceId] = -Hf / apj * area;
+                            m_flux[aFaceId] = Hf / apj * area;
 
-                            b[anIndexP] -= m_flux.at(aFaceId);
+                            b[anIndexP] += m_flux.at(aFaceId);
 
-                            m_uf[aFaceId] = -m_flux[aFaceId] / area * aNormal.x();
-                            m_vf[aFaceId] = -m_flux[aFaceId] / area * aNormal.y();
-                            m_wf[aFaceId] = -m_flux[aFaceId] / area * aNormal.z();
+                            m_uf[aFaceId] = m_flux[aFaceId] / area * aNormal.x();
+                            m_vf[aFaceId] = m_flux[aFaceId] / area * aNormal.y();
+                            m_wf[aFaceId] = m_flux[aFaceId] / area * aNormal.z();
                         }
                     }
                 }
@@ -563,7 +563,7 @@ namespace ENigMA
                         else if (m_fvmMesh.face(aFaceId).boundaryType() == BT_INLET_PRESSURE)
                         {
 
-                            m_flux[aFaceId] += area / (apj * dist) * (m_pf[aFaceId] - m_p.at(aControlVolumeId));
+                            m_flux[aFaceId] -= area / (apj * dist) * (m_pf[aFaceId] - m_p.at(aControlVolumeId));
                         }
                         else if (m_fvmMesh.face(aFaceId).boundaryType() == BT_OUTLET)
                         {
-- 
2.43.0


From aa0a206ba7700ea335a51d8f98ef9036df9dc998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:53 +0000
Subject: [PATCH 38/41] fix: keep the pressure level a boundary prescribes

---
 trunk/src/solvers/FvmPisoSolver_Imp.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/trunk/src/solvers/FvmPisoSolver_Imp.hpp b/trunk/src/solvers/FvmPisoSolver_Imp.hpp
index 0cee965..214fd3c 100644
--- a/trunk/src/solvers/FvmPisoSolver_Imp.hpp
+++ b/trunk/src/solvers/FvmPisoSolver_Imp.hpp
@@ -597,6 +597,15 @@ namespace ENigMA
         void CFvmPisoSolver<Real>::correctPressureField()
         {
 
+            // The pressure level is given when a boundary prescribes it
+            for (Integer i = 0; i < m_fvmMesh.nbFaces(); ++i)
+            {
+                Integer aFaceId = m_fvmMesh.faceId(i);
+
+                if (m_fvmMesh.face(aFaceId).boundaryType() == BT_INLET_PRESSURE || m_fvmMesh.face(aFaceId).boundaryType() == BT_OUTLET)
+                    return;
+            }
+
             Real p_min = std::numeric_limits<Real>::max();
 
             for (Integer i = 0; i < m_fvmMesh.nbControlVolumes(); ++i)
-- 
2.43.0


From 4a95668464d94dd3b8465460a4b7b97e35c998de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:24 +0000
Subject: [PATCH 39/41] fix: overlapping segments that share an end meet at
 that end

---
 trunk/src/geometry/GeoLine_Imp.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/trunk/src/geometry/GeoLine_Imp.hpp b/trunk/src/geometry/GeoLine_Imp.hpp
index 5dca019..0adfeea 100644
--- a/trunk/src/geometry/GeoLine_Imp.hpp
+++ b/trunk/src/geometry/GeoLine_Imp.hpp
@@ -269,6 +269,9 @@ namespace ENigMA
                 {
                     aPoint = this->m_startPoint;
 
+                    if (d2 <= aTolerance)
+                        aPoint = this->m_endPoint;
+
                     if (+db.dot(da) >= aTolerance * aTolerance)
                     {
                         anIntersectionType = IT_INTERNAL;
@@ -276,9 +279,6 @@ namespace ENigMA
                     }
                     else
                     {
-                        if (d2 <= aTolerance)
-                            aPoint = this->m_endPoint;
-
                         anIntersectionType = IT_VERTEX;
                         return true;
                     }
@@ -288,6 +288,9 @@ namespace ENigMA
                 {
                     aPoint = this->m_startPoint;
 
+                    if (d4 <= aTolerance)
+                        aPoint = this->m_endPoint;
+
                     if (-db.dot(da) >= aTolerance * aTolerance)
                     {
                         anIntersectionType = IT_INTERNAL;
@@ -295,9 +298,6 @@ namespace ENigMA
                     }
                     else
                     {
-                        if (d4 <= aTolerance)
-                            aPoint = this->m_endPoint;
-
                         anIntersectionType = IT_VERTEX;
                         return true;
                     }
-- 
2.43.0


From f0afdbc7a175cd1b89055fec81d17a7d9bc2d3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:24 +0000
Subject: [PATCH 40/41] fix: a triangle contains its sides, and points on a
 side are on an edge

---
 trunk/src/geometry/GeoTriangle_Imp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/src/geometry/GeoTriangle_Imp.hpp b/trunk/src/geometry/GeoTriangle_Imp.hpp
index b4e9c5e..288f571 100644
--- a/trunk/src/geometry/GeoTriangle_Imp.hpp
+++ b/trunk/src/geometry/GeoTriangle_Imp.hpp
@@ -309,7 +309,7 @@ namespace ENigMA
 
                 s[k] = (this->m_vertices[(k + 1) % 3] - this->m_vertices[(k + 0) % 3]).cross(v).dot(this->normal());
 
-                if (s[k] <= -aTolerance)
+                if (s[k] < -aTolerance)
                     return false;
 
                 if (s[k] < smin)
@@ -319,7 +319,7 @@ namespace ENigMA
                 }
             }
 
-            if (std::fabs(s[(w + 0) % 3] - (s[(w + 1) % 3] + s[(w + 2) % 3])) < aTolerance)
+            if (std::fabs(s[w]) <= aTolerance)
                 anIntersectionType = IT_EDGE;
             else
                 anIntersectionType = IT_INTERNAL;
-- 
2.43.0


From 2e988c2926ad2a28c862fbc6fe9be16e7ccbe5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:34 +0000
Subject: [PATCH 41/41] fix: coplanar triangles of opposite orientation are
 compared in their plane

---
 trunk/src/geometry/GeoTriangle_Imp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/src/geometry/GeoTriangle_Imp.hpp b/trunk/src/geometry/GeoTriangle_Imp.hpp
index 288f571..d45708a 100644
--- a/trunk/src/geometry/GeoTriangle_Imp.hpp
+++ b/trunk/src/geometry/GeoTriangle_Imp.hpp
@@ -157,7 +157,7 @@ namespace ENigMA
 
             Real c = this->normal().cross(aTriangle.normal()).norm();
 
-            if (c <= aTolerance && std::fabs(d1 - d2) <= aTolerance)
+            if (c <= aTolerance && std::fabs(s1[0]) <= aTolerance)
             {
                 // Triangles are co-planar
                 for (Integer k = 0; k < 3; ++k)
-- 
2.43.0

