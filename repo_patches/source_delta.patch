From 42214e5d8964e9d537f53af215ea3b43ee14a013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:38 +0000
Subject: [PATCH 01/25] fix: keep free-segment vertices of the last sweep line
 sorted

---
 include/hrm/datastructure/FreeSpace-inl.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/hrm/datastructure/FreeSpace-inl.h b/include/hrm/datastructure/FreeSpace-inl.h
index 819790a..9cefbff 100644
--- a/include/hrm/datastructure/FreeSpace-inl.h
+++ b/include/hrm/datastructure/FreeSpace-inl.h
@@ -133,7 +133,7 @@ void FreeSpaceComputator<RobotType, ObjectType>::enhanceFreeSegment() {
     FreeSegment2D enhanced = segment_;
 
     // Add new vertices within on sweep line
-    for (size_t i = 0; i < segment_.ty.size() - 1; ++i) {
+    for (size_t i = 0; i + 1 < segment_.ty.size(); ++i) {
         for (size_t j1 = 0; j1 < segment_.xM[i].size(); ++j1) {
             for (size_t j2 = 0; j2 < segment_.xM[i + 1].size(); ++j2) {
                 if (enhanced.xM[i][j1] < enhanced.xL[i + 1][j2] &&
@@ -161,7 +161,10 @@ void FreeSpaceComputator<RobotType, ObjectType>::enhanceFreeSegment() {
                 }
             }
         }
+    }
 
+    // Sort vertices on every sweep line
+    for (size_t i = 0; i < enhanced.ty.size(); ++i) {
         sort(enhanced.xL[i].begin(), enhanced.xL[i].end(),
              [](double a, double b) { return a < b; });
         sort(enhanced.xU[i].begin(), enhanced.xU[i].end(),
-- 
2.43.0


From 48750e84b1b4bb4969c67b8da3f467d21143b7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:38 +0000
Subject: [PATCH 02/25] fix: use the full extent of the line crossings with a
 C-space boundary

---
 src/datastructure/FreeSpace2D.cpp | 23 +++++++++++++----------
 src/datastructure/FreeSpace3D.cpp | 24 ++++++++++++++++--------
 src/geometry/LineIntersection.cpp |  8 --------
 src/planners/HRM2D.cpp            |  7 +++++--
 src/planners/HRM3D.cpp            | 31 +++++++++++++------------------
 5 files changed, 47 insertions(+), 46 deletions(-)

diff --git a/src/datastructure/FreeSpace2D.cpp b/src/datastructure/FreeSpace2D.cpp
index 0a5e643..96eda9a 100644
--- a/src/datastructure/FreeSpace2D.cpp
+++ b/src/datastructure/FreeSpace2D.cpp
@@ -3,6 +3,8 @@
 #include "hrm/datastructure/FreeSpace2D.h"
 #include "hrm/geometry/LineIntersection.h"
 
+#include <algorithm>
+
 hrm::FreeSpace2D::FreeSpace2D(const MultiBodyTree2D& robot,
                               const std::vector<SuperEllipse>& arena,
                               const std::vector<SuperEllipse>& obstacle)
@@ -22,12 +24,12 @@ void hrm::FreeSpace2D::computeIntersectionInterval(
                 intersect_.arenaLow.at(i).at(j) = lowBound_;
                 intersect_.arenaUpp.at(i).at(j) = upBound_;
             } else {
-                intersect_.arenaLow.at(i).at(j) = std::fmin(
-                    lowBound_,
-                    std::fmin(intersectPointArena[0], intersectPointArena[1]));
-                intersect_.arenaUpp.at(i).at(j) = std::fmax(
-                    upBound_,
-                    std::fmax(intersectPointArena[0], intersectPointArena[1]));
+                const auto range = std::minmax_element(
+                    intersectPointArena.begin(), intersectPointArena.end());
+                intersect_.arenaLow.at(i).at(j) =
+                    std::fmin(lowBound_, *range.first);
+                intersect_.arenaUpp.at(i).at(j) =
+                    std::fmax(upBound_, *range.second);
             }
         }
 
@@ -40,10 +42,11 @@ void hrm::FreeSpace2D::computeIntersectionInterval(
                 intersect_.obstacleLow.at(i).at(j) = NAN;
                 intersect_.obstacleUpp.at(i).at(j) = NAN;
             } else {
-                intersect_.obstacleLow.at(i).at(j) = std::fmin(
-                    intersectPointObstacle[0], intersectPointObstacle[1]);
-                intersect_.obstacleUpp.at(i).at(j) = std::fmax(
-                    intersectPointObstacle[0], intersectPointObstacle[1]);
+                const auto range =
+                    std::minmax_element(intersectPointObstacle.begin(),
+                                        intersectPointObstacle.end());
+                intersect_.obstacleLow.at(i).at(j) = *range.first;
+                intersect_.obstacleUpp.at(i).at(j) = *range.second;
             }
         }
     }
diff --git a/src/datastructure/FreeSpace3D.cpp b/src/datastructure/FreeSpace3D.cpp
index 7d6e8e9..b624023 100644
--- a/src/datastructure/FreeSpace3D.cpp
+++ b/src/datastructure/FreeSpace3D.cpp
@@ -3,6 +3,8 @@
 #include "hrm/datastructure/FreeSpace3D.h"
 #include "hrm/geometry/LineIntersection.h"
 
+#include <algorithm>
+
 hrm::FreeSpace3D::FreeSpace3D(const MultiBodyTree3D& robot,
                               const std::vector<SuperQuadrics>& arena,
                               const std::vector<SuperQuadrics>& obstacle)
@@ -28,6 +30,10 @@ void hrm::FreeSpace3D::computeCSpaceBoundaryMesh(const BoundaryInfo& bound) {
 
 void hrm::FreeSpace3D::computeIntersectionInterval(
     const std::vector<std::vector<Coordinate>>& tLine) {
+    const auto isLower = [](const Point3D& a, const Point3D& b) {
+        return a(2) < b(2);
+    };
+
     for (auto i = 0; i < tLine.at(1).size(); ++i) {
         // Find intersections along each sweep line
         Line3D lineZ(6);
@@ -41,12 +47,13 @@ void hrm::FreeSpace3D::computeIntersectionInterval(
                 intersect_.arenaLow.at(i).at(j) = lowBound_;
                 intersect_.arenaUpp.at(i).at(j) = upBound_;
             } else {
+                const auto range = std::minmax_element(
+                    intersectPointArena.begin(), intersectPointArena.end(),
+                    isLower);
                 intersect_.arenaLow.at(i).at(j) =
-                    std::fmin(lowBound_, std::fmin(intersectPointArena[0](2),
-                                                   intersectPointArena[1](2)));
+                    std::fmin(lowBound_, (*range.first)(2));
                 intersect_.arenaUpp.at(i).at(j) =
-                    std::fmax(upBound_, std::fmax(intersectPointArena[0](2),
-                                                  intersectPointArena[1](2)));
+                    std::fmax(upBound_, (*range.second)(2));
             }
         }
 
@@ -58,10 +65,11 @@ void hrm::FreeSpace3D::computeIntersectionInterval(
                 intersect_.obstacleLow.at(i).at(j) = NAN;
                 intersect_.obstacleUpp.at(i).at(j) = NAN;
             } else {
-                intersect_.obstacleLow.at(i).at(j) = std::fmin(
-                    intersectPointObstacle[0](2), intersectPointObstacle[1](2));
-                intersect_.obstacleUpp.at(i).at(j) = std::fmax(
-                    intersectPointObstacle[0](2), intersectPointObstacle[1](2));
+                const auto range = std::minmax_element(
+                    intersectPointObstacle.begin(),
+                    intersectPointObstacle.end(), isLower);
+                intersect_.obstacleLow.at(i).at(j) = (*range.first)(2);
+                intersect_.obstacleUpp.at(i).at(j) = (*range.second)(2);
             }
         }
     }
diff --git a/src/geometry/LineIntersection.cpp b/src/geometry/LineIntersection.cpp
index 0af8445..7af611f 100644
--- a/src/geometry/LineIntersection.cpp
+++ b/src/geometry/LineIntersection.cpp
@@ -44,10 +44,6 @@ std::vector<Eigen::Vector3d> hrm::intersectLineMesh3D(const Line3D& line,
         if (hasIntersect) {
             points.push_back(pt);
         }
-
-        if (points.size() == 2) {
-            break;
-        }
     }
 
     return points;
@@ -114,10 +110,6 @@ std::vector<Eigen::Vector3d> hrm::intersectVerticalLineMesh3D(
         if (hasIntersect) {
             points.push_back(pt);
         }
-
-        if (points.size() == 2) {
-            break;
-        }
     }
 
     return points;
diff --git a/src/planners/HRM2D.cpp b/src/planners/HRM2D.cpp
index f1b2f23..c12ce42 100644
--- a/src/planners/HRM2D.cpp
+++ b/src/planners/HRM2D.cpp
@@ -3,6 +3,8 @@
 #include "hrm/planners/HRM2D.h"
 #include "hrm/geometry/LineIntersection.h"
 
+#include <algorithm>
+
 hrm::planners::HRM2D::HRM2D(const MultiBodyTree2D& robot,
                             const std::vector<SuperEllipse>& arena,
                             const std::vector<SuperEllipse>& obs,
@@ -271,8 +273,9 @@ bool hrm::planners::HRM2D::isPtInCFree(const Index bdIdx,
         auto intersectObs = intersectHorizontalLinePolygon2D(v[1], bound);
 
         if (!intersectObs.empty()) {
-            if (v[0] > std::fmin(intersectObs[0], intersectObs[1]) &&
-                v[0] < std::fmax(intersectObs[0], intersectObs[1])) {
+            const auto range = std::minmax_element(intersectObs.begin(),
+                                                   intersectObs.end());
+            if (v[0] > *range.first && v[0] < *range.second) {
                 return false;
             }
         }
diff --git a/src/planners/HRM3D.cpp b/src/planners/HRM3D.cpp
index d5295b1..ba24364 100644
--- a/src/planners/HRM3D.cpp
+++ b/src/planners/HRM3D.cpp
@@ -337,18 +337,13 @@ bool hrm::planners::HRM3D::isSameSliceTransitionFree(
             bool isIntersect = false;
             const auto intersectObs = intersectLineMesh3D(line_, obs);
 
-            // Check line segments overlapping
-            if (!intersectObs.empty()) {
-                // Dot product between vectors (t1->intersect) and
-                // (t2->intersect)
-                const auto s0 =
-                    (intersectObs[0] - t1_).dot(intersectObs[0] - t2_);
-                const auto s1 =
-                    (intersectObs[1] - t1_).dot(intersectObs[1] - t2_);
-
-                // Intersect within segment (t1, t2) iff dot product
-                // less than 0
-                isIntersect = ((s0 < 0) || (s1 < 0));
+            // Check line segments overlapping: intersect within segment (t1,
+            // t2) iff dot product between vectors (t1->intersect) and
+            // (t2->intersect) is less than 0
+            for (const auto& point : intersectObs) {
+                if ((point - t1_).dot(point - t2_) < 0) {
+                    isIntersect = true;
+                }
             }
 
             return isIntersect;
@@ -402,17 +397,17 @@ bool hrm::planners::HRM3D::isPtInCFree(const Index bdIdx,
             : lineZ_(std::move(lineZ)), v_(std::move(v)) {}
 
         bool operator()(const MeshMatrix& bound) {
-            bool isIntersect = false;
+            bool isAbove = false;
+            bool isBelow = false;
             const auto intersectObs =
                 intersectVerticalLineMesh3D(lineZ_, bound);
 
-            if (!intersectObs.empty()) {
-                isIntersect =
-                    v_[2] > std::fmin(intersectObs[0][2], intersectObs[1][2]) &&
-                    v_[2] < std::fmax(intersectObs[0][2], intersectObs[1][2]);
+            for (const auto& point : intersectObs) {
+                isAbove = isAbove || v_[2] > point[2];
+                isBelow = isBelow || v_[2] < point[2];
             }
 
-            return isIntersect;
+            return isAbove && isBelow;
         }
 
         Line3D lineZ_;
-- 
2.43.0


From 6919bc6f9c57bd3b51dc26e6b3534cb6c3abf6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 03/25] fix: compute each C-slice with the robot at the
 orientation of the slice

---
 include/hrm/planners/HRM2D.h   |  4 ++++
 include/hrm/planners/HRM2DKC.h |  4 ++++
 src/planners/HRM2D.cpp         |  5 +++++
 src/planners/HRM2DKC.cpp       | 12 ++++++++----
 src/planners/HRM3D.cpp         |  1 +
 5 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/include/hrm/planners/HRM2D.h b/include/hrm/planners/HRM2D.h
index 331837d..3590738 100644
--- a/include/hrm/planners/HRM2D.h
+++ b/include/hrm/planners/HRM2D.h
@@ -63,6 +63,10 @@ class HRM2D : public HighwayRoadMap<MultiBodyTree2D, SuperEllipse> {
 
     virtual void setTransform(const std::vector<Coordinate>& v) override;
 
+    /** \brief Update the robot in the free space computator to the current
+     * transformation */
+    virtual void setFreeSpaceRobot();
+
     /** \brief Compute Tightly-Fitted Ellipse (TFE) to enclose robot parts when
      * rotating around its center
      * \param thetaA Start heading angle of the robot
diff --git a/include/hrm/planners/HRM2DKC.h b/include/hrm/planners/HRM2DKC.h
index 454af82..f01f647 100644
--- a/include/hrm/planners/HRM2DKC.h
+++ b/include/hrm/planners/HRM2DKC.h
@@ -27,6 +27,10 @@ class HRM2DKC : public HRM2D {
   private:
     void connectMultiSlice() override;
 
+    /** \brief Update the robot in the free space computator to the inflated
+     * robot with the current transformation */
+    void setFreeSpaceRobot() override;
+
     /** \brief Add a middle vertex between two vertices for edge connection
      * \param vtx1 Start vertex
      * \param vtx2 Goal vertex
diff --git a/src/planners/HRM2D.cpp b/src/planners/HRM2D.cpp
index c12ce42..ff4469a 100644
--- a/src/planners/HRM2D.cpp
+++ b/src/planners/HRM2D.cpp
@@ -26,6 +26,7 @@ void hrm::planners::HRM2D::constructOneSlice(const Index sliceIdx) {
     // Generate new C-slice
     if (!isRefine_) {
         // Generate Minkowski operation boundaries
+        setFreeSpaceRobot();
         freeSpacePtr_->computeCSpaceBoundary();
         sliceBound_ = freeSpacePtr_->getCSpaceBoundary();
         sliceBoundAll_.push_back(sliceBound_);
@@ -352,6 +353,10 @@ void hrm::planners::HRM2D::setTransform(const std::vector<Coordinate>& v) {
     robot_.robotTF(g);
 }
 
+void hrm::planners::HRM2D::setFreeSpaceRobot() {
+    freeSpacePtr_->setRobot(robot_);
+}
+
 void hrm::planners::HRM2D::computeTFE(const double thetaA, const double thetaB,
                                       std::vector<SuperEllipse>& tfe) {
     tfe.clear();
diff --git a/src/planners/HRM2DKC.cpp b/src/planners/HRM2DKC.cpp
index e5d331f..bdc3920 100644
--- a/src/planners/HRM2DKC.cpp
+++ b/src/planners/HRM2DKC.cpp
@@ -7,6 +7,14 @@ hrm::planners::HRM2DKC::HRM2DKC(const MultiBodyTree2D& robot,
                                 const std::vector<SuperEllipse>& obs,
                                 const PlanningRequest& req)
     : HRM2D(robot, arena, obs, req) {
+    setFreeSpaceRobot();
+    freeSpacePtr_->setup(param_.numLineY, param_.boundaryLimits[0],
+                         param_.boundaryLimits[1]);
+}
+
+hrm::planners::HRM2DKC::~HRM2DKC() = default;
+
+void hrm::planners::HRM2DKC::setFreeSpaceRobot() {
     // Enlarge the robot
     SuperEllipse baseInflated = robot_.getBase();
     baseInflated.setSemiAxis(
@@ -16,12 +24,8 @@ hrm::planners::HRM2DKC::HRM2DKC(const MultiBodyTree2D& robot,
 
     // Update robot in the free space computator
     freeSpacePtr_->setRobot(robot_infla);
-    freeSpacePtr_->setup(param_.numLineY, param_.boundaryLimits[0],
-                         param_.boundaryLimits[1]);
 }
 
-hrm::planners::HRM2DKC::~HRM2DKC() = default;
-
 void hrm::planners::HRM2DKC::connectMultiSlice() {
     Index n = res_.graphStructure.vertex.size();
     Index n11;
diff --git a/src/planners/HRM3D.cpp b/src/planners/HRM3D.cpp
index ba24364..9568acd 100644
--- a/src/planners/HRM3D.cpp
+++ b/src/planners/HRM3D.cpp
@@ -33,6 +33,7 @@ void hrm::planners::HRM3D::constructOneSlice(const Index sliceIdx) {
     // Add new C-slice
     if (!isRefine_) {
         // Generate Minkowski operation boundaries
+        freeSpacePtr_->setRobot(robot_);
         freeSpacePtr_->computeCSpaceBoundary();
         sliceBound_ = freeSpacePtr_->getCSpaceBoundary();
         sliceBoundAll_.push_back(sliceBound_);
-- 
2.43.0


From 8ce5c3ece13bb31413cc3b53e098adf59a63d222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:58 +0000
Subject: [PATCH 04/25] fix: sweep the refined roadmap with the slice's own
 boundary and line number

---
 include/hrm/datastructure/FreeSpace.h   | 6 ++++++
 include/hrm/datastructure/FreeSpace3D.h | 6 ++++++
 src/planners/HRM2D.cpp                  | 6 ++++++
 src/planners/HRM3D.cpp                  | 7 +++++++
 4 files changed, 25 insertions(+)

diff --git a/include/hrm/datastructure/FreeSpace.h b/include/hrm/datastructure/FreeSpace.h
index 66a5509..75e300c 100644
--- a/include/hrm/datastructure/FreeSpace.h
+++ b/include/hrm/datastructure/FreeSpace.h
@@ -69,6 +69,12 @@ class FreeSpaceComputator {
      * \return BoundaryInfo */
     const BoundaryInfo& getCSpaceBoundary() const { return cSpaceBoundary_; }
 
+    /** \brief Set previously computed C-space boundary
+     * \param bound C-arena/C-obstacle boundary points */
+    void setCSpaceBoundary(const BoundaryInfo& bound) {
+        cSpaceBoundary_ = bound;
+    }
+
     /** \brief Get intervals for line-obstacle/arena intersections
      * \return IntersectionInterval */
     const IntersectionInterval& getIntersectionInterval() const {
diff --git a/include/hrm/datastructure/FreeSpace3D.h b/include/hrm/datastructure/FreeSpace3D.h
index 2e02437..e643022 100644
--- a/include/hrm/datastructure/FreeSpace3D.h
+++ b/include/hrm/datastructure/FreeSpace3D.h
@@ -45,6 +45,12 @@ class FreeSpace3D : public FreeSpaceComputator<MultiBodyTree3D, SuperQuadrics> {
         return cSpaceBoundaryMesh_;
     }
 
+    /** \brief Set previously computed C-free boundary as mesh
+     * \param boundMesh C-arena/C-obstacle boundary as mesh */
+    void setCSpaceBoundaryMesh(const BoundaryMesh& boundMesh) {
+        cSpaceBoundaryMesh_ = boundMesh;
+    }
+
     void computeIntersectionInterval(
         const std::vector<std::vector<Coordinate>>& tLine) override;
 
diff --git a/src/planners/HRM2D.cpp b/src/planners/HRM2D.cpp
index ff4469a..c600d2a 100644
--- a/src/planners/HRM2D.cpp
+++ b/src/planners/HRM2D.cpp
@@ -32,6 +32,10 @@ void hrm::planners::HRM2D::constructOneSlice(const Index sliceIdx) {
         sliceBoundAll_.push_back(sliceBound_);
     } else {
         sliceBound_ = sliceBoundAll_.at(sliceIdx);
+
+        // Update to the refined number of sweep lines
+        freeSpacePtr_->setup(param_.numLineY, param_.boundaryLimits[0],
+                             param_.boundaryLimits[1]);
     }
 
     // Sweep-line process to generate collision free line segments
@@ -63,6 +67,8 @@ void hrm::planners::HRM2D::sweepLineProcess() {
         ty[i] = param_.boundaryLimits[2] + static_cast<double>(i) * dy;
     }
 
+    freeSpacePtr_->setCSpaceBoundary(sliceBound_);
+
     // Find intersecting points to C-obstacles for each raster scan line
     std::vector<std::vector<Coordinate>> tLine{ty};
     freeSpacePtr_->computeIntersectionInterval(tLine);
diff --git a/src/planners/HRM3D.cpp b/src/planners/HRM3D.cpp
index 9568acd..2debad2 100644
--- a/src/planners/HRM3D.cpp
+++ b/src/planners/HRM3D.cpp
@@ -45,6 +45,10 @@ void hrm::planners::HRM3D::constructOneSlice(const Index sliceIdx) {
     } else {
         sliceBound_ = sliceBoundAll_.at(sliceIdx);
         sliceBoundMesh_ = sliceBoundMeshAll_.at(sliceIdx);
+
+        // Update to the refined number of sweep lines
+        freeSpacePtr_->setup(param_.numLineY, param_.boundaryLimits[4],
+                             param_.boundaryLimits[5]);
     }
 
     // Sweep-line process to generate collision free line segments
@@ -73,6 +77,9 @@ void hrm::planners::HRM3D::sweepLineProcess() {
         ty[i] = param_.boundaryLimits[2] + static_cast<double>(i) * dy;
     }
 
+    freeSpacePtr_->setCSpaceBoundary(sliceBound_);
+    freeSpacePtr_->setCSpaceBoundaryMesh(sliceBoundMesh_);
+
     // Find intersections along each sweep line
     freeSegOneSlice_.tx.clear();
     freeSegOneSlice_.freeSegmentYZ.clear();
-- 
2.43.0


From 1e3232fb785d142ef9bd54df0ef72e73f8b0066b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:44 +0000
Subject: [PATCH 05/25] fix: confine free segments to both the C-arena and the
 sweep limits

---
 src/datastructure/FreeSpace2D.cpp | 10 ++++++----
 src/datastructure/FreeSpace3D.cpp | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/datastructure/FreeSpace2D.cpp b/src/datastructure/FreeSpace2D.cpp
index 96eda9a..c072b6d 100644
--- a/src/datastructure/FreeSpace2D.cpp
+++ b/src/datastructure/FreeSpace2D.cpp
@@ -4,6 +4,7 @@
 #include "hrm/geometry/LineIntersection.h"
 
 #include <algorithm>
+#include <cmath>
 
 hrm::FreeSpace2D::FreeSpace2D(const MultiBodyTree2D& robot,
                               const std::vector<SuperEllipse>& arena,
@@ -21,15 +22,16 @@ void hrm::FreeSpace2D::computeIntersectionInterval(
             const auto intersectPointArena = intersectHorizontalLinePolygon2D(
                 tLine.at(0).at(i), cSpaceBoundary_.arena.at(j));
             if (intersectPointArena.empty()) {
-                intersect_.arenaLow.at(i).at(j) = lowBound_;
-                intersect_.arenaUpp.at(i).at(j) = upBound_;
+                // Sweep line outside C-arena: no free segment
+                intersect_.arenaLow.at(i).at(j) = INFINITY;
+                intersect_.arenaUpp.at(i).at(j) = -INFINITY;
             } else {
                 const auto range = std::minmax_element(
                     intersectPointArena.begin(), intersectPointArena.end());
                 intersect_.arenaLow.at(i).at(j) =
-                    std::fmin(lowBound_, *range.first);
+                    std::fmax(lowBound_, *range.first);
                 intersect_.arenaUpp.at(i).at(j) =
-                    std::fmax(upBound_, *range.second);
+                    std::fmin(upBound_, *range.second);
             }
         }
 
diff --git a/src/datastructure/FreeSpace3D.cpp b/src/datastructure/FreeSpace3D.cpp
index b624023..b90268b 100644
--- a/src/datastructure/FreeSpace3D.cpp
+++ b/src/datastructure/FreeSpace3D.cpp
@@ -4,6 +4,7 @@
 #include "hrm/geometry/LineIntersection.h"
 
 #include <algorithm>
+#include <cmath>
 
 hrm::FreeSpace3D::FreeSpace3D(const MultiBodyTree3D& robot,
                               const std::vector<SuperQuadrics>& arena,
@@ -44,16 +45,17 @@ void hrm::FreeSpace3D::computeIntersectionInterval(
                 lineZ, cSpaceBoundaryMesh_.arena.at(j));
 
             if (intersectPointArena.empty()) {
-                intersect_.arenaLow.at(i).at(j) = lowBound_;
-                intersect_.arenaUpp.at(i).at(j) = upBound_;
+                // Sweep line outside C-arena: no free segment
+                intersect_.arenaLow.at(i).at(j) = INFINITY;
+                intersect_.arenaUpp.at(i).at(j) = -INFINITY;
             } else {
                 const auto range = std::minmax_element(
                     intersectPointArena.begin(), intersectPointArena.end(),
                     isLower);
                 intersect_.arenaLow.at(i).at(j) =
-                    std::fmin(lowBound_, (*range.first)(2));
+                    std::fmax(lowBound_, (*range.first)(2));
                 intersect_.arenaUpp.at(i).at(j) =
-                    std::fmax(upBound_, (*range.second)(2));
+                    std::fmin(upBound_, (*range.second)(2));
             }
         }
 
-- 
2.43.0


From 9c94272cdd0e700ef2a1e0661811cfabbb29331c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 06/25] fix: report the cost of the path found and drop ids of
 earlier attempts

---
 include/hrm/planners/HighwayRoadMap-inl.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/hrm/planners/HighwayRoadMap-inl.h b/include/hrm/planners/HighwayRoadMap-inl.h
index a14b876..910138b 100644
--- a/include/hrm/planners/HighwayRoadMap-inl.h
+++ b/include/hrm/planners/HighwayRoadMap-inl.h
@@ -148,15 +148,13 @@ void HighwayRoadMap<RobotType, ObjectType>::search() {
             } catch (AStarFoundGoal found) {
                 // Record path and cost
                 num = 0;
-                res_.solutionPath.cost = 0.0;
+                res_.solutionPath.cost = d[idxG];
+                res_.solutionPath.PathId.clear();
                 res_.solutionPath.PathId.push_back(int(idxG));
                 while (res_.solutionPath.PathId[num] != int(idxS) &&
                        num <= num_vtx) {
                     res_.solutionPath.PathId.push_back(
                         int(p[size_t(res_.solutionPath.PathId[num])]));
-                    res_.solutionPath.cost +=
-                        res_.graphStructure
-                            .weight[size_t(res_.solutionPath.PathId[num])];
                     num++;
                 }
                 std::reverse(std::begin(res_.solutionPath.PathId),
-- 
2.43.0


From edcbe34705877d695c6f6374e7a66625b8af1fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:08 +0000
Subject: [PATCH 07/25] fix: interpolate the 3D solution path when planning,
 also for zero-length paths

---
 include/hrm/planners/HRM3D.h |  2 +-
 src/planners/HRM3D.cpp       | 13 ++++++++-----
 src/util/InterpolateSE3.cpp  |  2 +-
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/hrm/planners/HRM3D.h b/include/hrm/planners/HRM3D.h
index fca0225..429f20a 100644
--- a/include/hrm/planners/HRM3D.h
+++ b/include/hrm/planners/HRM3D.h
@@ -28,7 +28,7 @@ class HRM3D : public HighwayRoadMap<MultiBodyTree3D, SuperQuadrics> {
 
     /** \brief Get the resulting solved path and the interpolated one */
     std::vector<std::vector<Coordinate>> getInterpolatedSolutionPath(
-        const Index num);
+        const unsigned int num) override;
 
     /** \brief Get free line segment at one specific C-slice
      * \param bd Pointer to Minkowski boundaries
diff --git a/src/planners/HRM3D.cpp b/src/planners/HRM3D.cpp
index 2debad2..4f61a79 100644
--- a/src/planners/HRM3D.cpp
+++ b/src/planners/HRM3D.cpp
@@ -278,7 +278,7 @@ void hrm::planners::HRM3D::connectExistSlice(const Index sliceId) {
 }
 
 std::vector<std::vector<hrm::Coordinate>>
-hrm::planners::HRM3D::getInterpolatedSolutionPath(const Index num) {
+hrm::planners::HRM3D::getInterpolatedSolutionPath(const unsigned int num) {
     std::vector<std::vector<Coordinate>> pathInterp;
 
     // Compute distance per step
@@ -289,10 +289,13 @@ hrm::planners::HRM3D::getInterpolatedSolutionPath(const Index num) {
 
     // Iteratively store interpolated poses along the solved path
     for (size_t i = 0; i < res_.solutionPath.solvedPath.size() - 1; ++i) {
-        const auto numStep = static_cast<int>(
-            vectorEuclidean(res_.solutionPath.solvedPath.at(i),
-                            res_.solutionPath.solvedPath.at(i + 1)) /
-            distanceStep);
+        Index numStep = 0;
+        if (distanceStep > 0.0) {
+            numStep = static_cast<Index>(
+                vectorEuclidean(res_.solutionPath.solvedPath.at(i),
+                                res_.solutionPath.solvedPath.at(i + 1)) /
+                distanceStep);
+        }
 
         std::vector<std::vector<Coordinate>> stepInterp =
             interpolateCompoundSE3Rn(res_.solutionPath.solvedPath.at(i),
diff --git a/src/util/InterpolateSE3.cpp b/src/util/InterpolateSE3.cpp
index 8b9410d..f9ab158 100644
--- a/src/util/InterpolateSE3.cpp
+++ b/src/util/InterpolateSE3.cpp
@@ -34,7 +34,7 @@ std::vector<std::vector<hrm::Coordinate>> hrm::interpolateCompoundSE3Rn(
     std::vector<std::vector<Coordinate>> vInterp;
 
     if (numStep == 0) {
-        vInterp = std::vector<std::vector<Coordinate>>({vStart, vEnd});
+        return std::vector<std::vector<Coordinate>>({vStart, vEnd});
     }
 
     if (vStart.size() == 7) {
-- 
2.43.0


From 62e6f986f483ee70b2e6bb95f6e475e5a442635e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:24 +0000
Subject: [PATCH 08/25] fix: connect a 2D roadmap of exactly two slices without
 reading out of range

---
 src/planners/HRM2D.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/planners/HRM2D.cpp b/src/planners/HRM2D.cpp
index c600d2a..a2b82e9 100644
--- a/src/planners/HRM2D.cpp
+++ b/src/planners/HRM2D.cpp
@@ -120,8 +120,13 @@ void hrm::planners::HRM2D::connectMultiSlice() {
         startIdCur = vertexIdx_.at(i).startId;
         endIdCur = vertexIdx_.at(i).slice;
 
+        // Two C-slices only have one connection
+        if (i == 1 && vertexIdx_.size() == 2) {
+            break;
+        }
+
         // Find the nearest C-slice
-        if (i == param_.numSlice - 1 && param_.numSlice != 2) {
+        if (i == vertexIdx_.size() - 1) {
             j = 0;
         } else {
             j = i + 1;
-- 
2.43.0


From 2d49c91f7978f419692db3617bc1bec265e65eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:44 +0000
Subject: [PATCH 09/25] fix: only return nearest neighbours that belong to the
 searched slice

---
 src/planners/HRM2D.cpp | 12 ++++++++++--
 src/planners/HRM3D.cpp |  7 ++++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/planners/HRM2D.cpp b/src/planners/HRM2D.cpp
index a2b82e9..8b36398 100644
--- a/src/planners/HRM2D.cpp
+++ b/src/planners/HRM2D.cpp
@@ -299,6 +299,10 @@ bool hrm::planners::HRM2D::isPtInCFree(const Index bdIdx,
 std::vector<hrm::planners::Vertex>
 hrm::planners::HRM2D::getNearestNeighborsOnGraph(
     const std::vector<Coordinate>& vertex, const Index k, const double radius) {
+    if (res_.graphStructure.vertex.empty()) {
+        return {};
+    }
+
     // Find the closest roadmap vertex
     double minEuclideanDist = INFINITY;
     double minAngleDist = INFINITY;
@@ -333,8 +337,7 @@ hrm::planners::HRM2D::getNearestNeighborsOnGraph(
     // line gaps) at each C-slice
     for (double angCur : angList) {
         Vertex idxSlice = 0;
-        minEuclideanDist =
-            vectorEuclidean(vertex, res_.graphStructure.vertex[0]);
+        minEuclideanDist = INFINITY;
         for (size_t i = 0; i < res_.graphStructure.vertex.size(); ++i) {
             euclideanDist =
                 vectorEuclidean(vertex, res_.graphStructure.vertex[i]);
@@ -346,6 +349,11 @@ hrm::planners::HRM2D::getNearestNeighborsOnGraph(
             }
         }
 
+        // No vertex in the C-slice
+        if (minEuclideanDist == INFINITY) {
+            continue;
+        }
+
         if (std::abs(vertex[1] - res_.graphStructure.vertex[idxSlice][1]) <
             radius * (param_.boundaryLimits[1] - param_.boundaryLimits[0]) /
                 static_cast<double>(param_.numLineY)) {
diff --git a/src/planners/HRM3D.cpp b/src/planners/HRM3D.cpp
index 4f61a79..67b578d 100644
--- a/src/planners/HRM3D.cpp
+++ b/src/planners/HRM3D.cpp
@@ -456,7 +456,7 @@ hrm::planners::HRM3D::getNearestNeighborsOnGraph(
     std::vector<Vertex> idx;
 
     Eigen::Quaterniond queryQuat(vertex[3], vertex[4], vertex[5], vertex[6]);
-    Eigen::Quaterniond minQuat;
+    Eigen::Quaterniond minQuat = q_[0];
 
     // Find the closest C-slice
     minQuatDist = queryQuat.angularDistance(q_[0]);
@@ -500,6 +500,11 @@ hrm::planners::HRM3D::getNearestNeighborsOnGraph(
             }
         }
 
+        // No vertex in the C-slice
+        if (minEuclideanDist == INFINITY) {
+            continue;
+        }
+
         if (std::abs(vertex[0] - res_.graphStructure.vertex[idxSlice][0]) <
                 radius * (param_.boundaryLimits[1] - param_.boundaryLimits[0]) /
                     static_cast<double>(param_.numLineX) &&
-- 
2.43.0


From 066831fb6c38d3d60de15ea4268afb2a67e31a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 10/25] fix: use the gradient of the scaled superellipse for 2D
 Minkowski boundaries

---
 src/geometry/SuperEllipse.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geometry/SuperEllipse.cpp b/src/geometry/SuperEllipse.cpp
index 38cd234..af6272b 100644
--- a/src/geometry/SuperEllipse.cpp
+++ b/src/geometry/SuperEllipse.cpp
@@ -88,9 +88,9 @@ hrm::BoundaryPoints hrm::SuperEllipse::getMinkSum2D(const SuperEllipse &shapeB,
     for (auto i = 0; i < int(num_); i++) {
         the(0, i) = 2 * i * PI / (static_cast<double>(num_) - 1);
         gradPhi(0, i) =
-            2 / eps1 * exponentialFunction(the(0, i), 2 - eps1, false);
+            2 / (a1 * eps1) * exponentialFunction(the(0, i), 2 - eps1, false);
         gradPhi(1, i) =
-            2 / eps1 * exponentialFunction(the(0, i), 2 - eps1, true);
+            2 / (b1 * eps1) * exponentialFunction(the(0, i), 2 - eps1, true);
     }
     xMinkowski =
         getOriginShape() +
-- 
2.43.0


From 95827ceea0c13b2ed6e066a72a3b2c8aecce745c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:39 +0000
Subject: [PATCH 11/25] fix: recover the orientation of the enclosing ellipse
 and ellipsoid

---
 src/geometry/TightFitEllipsoid.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/geometry/TightFitEllipsoid.cpp b/src/geometry/TightFitEllipsoid.cpp
index 9f1fe89..10126cd 100644
--- a/src/geometry/TightFitEllipsoid.cpp
+++ b/src/geometry/TightFitEllipsoid.cpp
@@ -34,7 +34,7 @@ hrm::SuperEllipse hrm::getMVCE2D(const std::vector<double>& a,
     const Eigen::Matrix2d C =
         T * svd.matrixU() * diagC * svd.matrixU().transpose() * T;
     svd.compute(C);
-    const double angleC = acos(svd.matrixU()(0, 0));
+    const double angleC = atan2(svd.matrixU()(1, 0), svd.matrixU()(0, 0));
     const Eigen::Array2d c = svd.singularValues().array().pow(-0.5);
 
     return SuperEllipse({c(0), c(1)}, 1, {0, 0}, angleC, num);
@@ -74,7 +74,12 @@ hrm::SuperQuadrics hrm::getMVCE3D(const std::vector<double>& a,
     const Eigen::Matrix3d C =
         T * svd.matrixU() * diagC * svd.matrixU().transpose() * T;
     svd.compute(C);
-    const Eigen::Quaterniond quatC(svd.matrixU());
+    // The singular vectors might form a reflection, turn them into a rotation
+    Eigen::Matrix3d Rc = svd.matrixU();
+    if (Rc.determinant() < 0.0) {
+        Rc.col(2) *= -1.0;
+    }
+    const Eigen::Quaterniond quatC(Rc);
     const Eigen::Array3d c = svd.singularValues().array().pow(-0.5);
 
     return SuperQuadrics({c(0), c(1), c(2)}, {1, 1}, {0, 0, 0}, quatC, num);
-- 
2.43.0


From a8566bee0d6bdae3a3b2ca79c7b8c3253111a829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:25 +0000
Subject: [PATCH 12/25] fix: detect segment-polygon crossings through a polygon
 vertex

---
 src/geometry/LineIntersection.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/geometry/LineIntersection.cpp b/src/geometry/LineIntersection.cpp
index 7af611f..391f4d3 100644
--- a/src/geometry/LineIntersection.cpp
+++ b/src/geometry/LineIntersection.cpp
@@ -170,6 +170,8 @@ bool hrm::isIntersectSegPolygon2D(
     double px2 = seg.second.at(0);
     double py2 = seg.second.at(1);
 
+    const double tol = 1e-9;
+
     Eigen::Matrix2d A;
     A(0, 0) = px2 - px1;
     A(1, 0) = py2 - py1;
@@ -191,12 +193,20 @@ bool hrm::isIntersectSegPolygon2D(
         A(0, 1) = x1 - x2;
         A(1, 1) = y1 - y2;
 
+        // Skip edges that are parallel to the segment
+        if (std::fabs(A.determinant()) <=
+            tol * A.col(0).norm() * A.col(1).norm()) {
+            continue;
+        }
+
         b(0) = x1 - px1;
         b(1) = y1 - py1;
 
         Eigen::Vector2d sol = A.colPivHouseholderQr().solve(b);
 
-        if ((sol(0) > 0 && sol(0) < 1) && (sol(1) > 0 && sol(1) < 1)) {
+        // A crossing through a vertex belongs to both adjacent edges
+        if ((sol(0) > 0 && sol(0) < 1) &&
+            (sol(1) >= -tol && sol(1) <= 1 + tol)) {
             return true;
         }
     }
-- 
2.43.0


From 3e9759916a9087e01d264be36aa81410dc8a9cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:49 +0000
Subject: [PATCH 13/25] fix: return exactly one root per degree of the
 polynomial

---
 src/util/EllipsoidSeparation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/EllipsoidSeparation.cpp b/src/util/EllipsoidSeparation.cpp
index 8e44f78..2afd040 100644
--- a/src/util/EllipsoidSeparation.cpp
+++ b/src/util/EllipsoidSeparation.cpp
@@ -190,7 +190,7 @@ bool hrm::isEllipseSeparated(const SuperEllipse& ellipsoidA,
 std::vector<std::complex<double>> hrm::getRootsPolynomial(
     const std::vector<double>& coeffs) {
     const auto matsz = static_cast<Eigen::Index>(coeffs.size() - 1);
-    std::vector<std::complex<double>> vret(matsz);
+    std::vector<std::complex<double>> vret;
     Eigen::MatrixXd companionMatrix = Eigen::MatrixXd::Zero(matsz, matsz);
 
     // Construct the companion matrix
-- 
2.43.0


From a75af4b39e1ac3ee746d1f4d507220f9a986c646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:07 +0000
Subject: [PATCH 14/25] fix: report paths and roadmap of the latest OMPL
 planning run only

---
 .../planners/ompl_interface/OMPLInterface-inl.h    |  4 ++++
 src/planners/ompl_interface/OMPL2D.cpp             | 14 +++++++-------
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/hrm/planners/ompl_interface/OMPLInterface-inl.h b/include/hrm/planners/ompl_interface/OMPLInterface-inl.h
index 15fba8f..9991b22 100644
--- a/include/hrm/planners/ompl_interface/OMPLInterface-inl.h
+++ b/include/hrm/planners/ompl_interface/OMPLInterface-inl.h
@@ -48,6 +48,8 @@ void OMPLInterface<RobotType, ObjectType>::setup(
         [this](const ob::State *state) { return isStateValid(state); });
     ss_->getSpaceInformation()->setStateValidityCheckingResolution(
         STATE_VALIDITY_RESOLUTION);
+    objRobot_.clear();
+    objObs_.clear();
     setCollisionObject();
 
     // Set planner and sampler
@@ -62,6 +64,8 @@ bool OMPLInterface<RobotType, ObjectType>::plan(
     const std::vector<Coordinate> &start, const std::vector<Coordinate> &goal,
     const double maxTimeInSec) {
     isSolved_ = false;
+    path_.clear();
+    path_interp_.clear();
     if (!ss_) {
         return isSolved_;
     }
diff --git a/src/planners/ompl_interface/OMPL2D.cpp b/src/planners/ompl_interface/OMPL2D.cpp
index b4a8cf1..0a4f22d 100644
--- a/src/planners/ompl_interface/OMPL2D.cpp
+++ b/src/planners/ompl_interface/OMPL2D.cpp
@@ -21,14 +21,14 @@ void hrm::planners::ompl_interface::OMPL2D::getSolution() {
         ss_->simplifySolution();
         auto path = ss_->getSolutionPath();
         lengthPath_ = ss_->getSolutionPath().getStates().size();
+        for (auto *state : path.getStates()) {
+            path_.push_back(setVectorFromState(state));
+        }
 
         // Save interpolated path
         path.interpolate(INTERPOLATION_NUMBER);
         for (auto *state : path.getStates()) {
-            path_.push_back(
-                {state->as<ob::SE2StateSpace::StateType>()->getX(),
-                 state->as<ob::SE2StateSpace::StateType>()->getY(),
-                 state->as<ob::SE2StateSpace::StateType>()->getYaw()});
+            path_interp_.push_back(setVectorFromState(state));
         }
     }
 
@@ -45,7 +45,7 @@ void hrm::planners::ompl_interface::OMPL2D::getSolution() {
     // Save vertices and edges
     const ob::State *state;
     vertex_.clear();
-    for (auto i = 0; i < numValidStates_; ++i) {
+    for (unsigned int i = 0; i < numGraphVertex_; ++i) {
         state = pd.getVertex(i).getState()->as<ob::State>();
         vertex_.push_back(
             {state->as<ob::SE2StateSpace::StateType>()->getX(),
@@ -53,9 +53,9 @@ void hrm::planners::ompl_interface::OMPL2D::getSolution() {
              state->as<ob::SE2StateSpace::StateType>()->getYaw()});
     }
 
-    std::vector<std::vector<unsigned int>> edgeInfo(numValidStates_);
+    std::vector<std::vector<unsigned int>> edgeInfo(numGraphVertex_);
     edge_.clear();
-    for (auto i = 0; i < numValidStates_; i++) {
+    for (unsigned int i = 0; i < numGraphVertex_; i++) {
         pd.getEdges(i, edgeInfo[i]);
         for (auto edgeI : edgeInfo[i]) {
             edge_.emplace_back(std::make_pair(i, edgeI));
-- 
2.43.0


From 5c50c0e0e0bd6fcf6cffa862e51325e016619f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:03 +0000
Subject: [PATCH 15/25] fix: no undefined headings or sweep lines when only one
 is requested

---
 src/planners/HRM2D.cpp | 11 ++++++++---
 src/planners/HRM3D.cpp | 14 ++++++++++----
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/planners/HRM2D.cpp b/src/planners/HRM2D.cpp
index 8b36398..1957bc1 100644
--- a/src/planners/HRM2D.cpp
+++ b/src/planners/HRM2D.cpp
@@ -51,7 +51,10 @@ void hrm::planners::HRM2D::constructOneSlice(const Index sliceIdx) {
 /** \brief Setup rotation angles: angle range [-PI, PI]. If the heading
  * exists, no addition and record the index */
 void hrm::planners::HRM2D::sampleOrientations() {
-    const double dr = 2 * PI / (static_cast<double>(param_.numSlice) - 1);
+    const double dr =
+        param_.numSlice > 1
+            ? 2 * PI / (static_cast<double>(param_.numSlice) - 1)
+            : 0.0;
     for (size_t i = 0; i < param_.numSlice; ++i) {
         headings_.push_back(-PI + dr * static_cast<double>(i));
     }
@@ -61,8 +64,10 @@ void hrm::planners::HRM2D::sweepLineProcess() {
     // Compute vector of y-coordinates
     std::vector<Coordinate> ty(param_.numLineY);
     const Coordinate dy =
-        (param_.boundaryLimits[3] - param_.boundaryLimits[2]) /
-        (static_cast<double>(param_.numLineY) - 1);
+        param_.numLineY > 1
+            ? (param_.boundaryLimits[3] - param_.boundaryLimits[2]) /
+                  (static_cast<double>(param_.numLineY) - 1)
+            : 0.0;
     for (size_t i = 0; i < param_.numLineY; ++i) {
         ty[i] = param_.boundaryLimits[2] + static_cast<double>(i) * dy;
     }
diff --git a/src/planners/HRM3D.cpp b/src/planners/HRM3D.cpp
index 67b578d..68252dc 100644
--- a/src/planners/HRM3D.cpp
+++ b/src/planners/HRM3D.cpp
@@ -68,10 +68,16 @@ void hrm::planners::HRM3D::sampleOrientations() {
 void hrm::planners::HRM3D::sweepLineProcess() {
     // x- and y-coordinates of sweep lines
     std::vector<Coordinate> ty(param_.numLineY);
-    const double dx = (param_.boundaryLimits[1] - param_.boundaryLimits[0]) /
-                      static_cast<double>(param_.numLineX - 1);
-    const double dy = (param_.boundaryLimits[3] - param_.boundaryLimits[2]) /
-                      static_cast<double>(param_.numLineY - 1);
+    const double dx =
+        param_.numLineX > 1
+            ? (param_.boundaryLimits[1] - param_.boundaryLimits[0]) /
+                  static_cast<double>(param_.numLineX - 1)
+            : 0.0;
+    const double dy =
+        param_.numLineY > 1
+            ? (param_.boundaryLimits[3] - param_.boundaryLimits[2]) /
+                  static_cast<double>(param_.numLineY - 1)
+            : 0.0;
 
     for (size_t i = 0; i < param_.numLineY; ++i) {
         ty[i] = param_.boundaryLimits[2] + static_cast<double>(i) * dy;
-- 
2.43.0


From 98ae417fedcdcfe2ca0285094e69b59280bb3292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:22 +0000
Subject: [PATCH 16/25] fix: keep the joint angles of each slice when refining
 a Prob-HRM roadmap

---
 include/hrm/planners/ProbHRM3D.h | 3 +++
 src/planners/ProbHRM3D.cpp       | 7 ++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/hrm/planners/ProbHRM3D.h b/include/hrm/planners/ProbHRM3D.h
index 8c3ec93..03b1d35 100644
--- a/include/hrm/planners/ProbHRM3D.h
+++ b/include/hrm/planners/ProbHRM3D.h
@@ -57,6 +57,9 @@ class ProbHRM3D : public HRM3D {
     /** \brief Name of URDF file */
     std::string urdfFile_;
 
+    /** \brief Current configuration of the robot */
+    std::vector<Coordinate> config_;
+
     /** \brief Limit of joint angles */
     const double maxJointAngle_ = HALF_PI;
 };
diff --git a/src/planners/ProbHRM3D.cpp b/src/planners/ProbHRM3D.cpp
index 4067c4f..f690911 100644
--- a/src/planners/ProbHRM3D.cpp
+++ b/src/planners/ProbHRM3D.cpp
@@ -165,7 +165,7 @@ void hrm::planners::ProbHRM3D::connectMultiSlice() {
 void hrm::planners::ProbHRM3D::generateVertices(const Coordinate tx,
                                                 const FreeSegment2D& freeSeg) {
     numVertex_.plane.clear();
-    std::vector<Coordinate> vertex(v_.back().size());
+    std::vector<Coordinate> vertex(config_.size());
 
     for (size_t i = 0; i < freeSeg.ty.size(); ++i) {
         numVertex_.plane.push_back(res_.graphStructure.vertex.size());
@@ -181,8 +181,8 @@ void hrm::planners::ProbHRM3D::generateVertices(const Coordinate tx,
             vertex.at(6) = robot_.getBase().getQuaternion().z();
 
             // Configuration of joints
-            for (size_t m = 7; m < v_.back().size(); ++m) {
-                vertex.at(m) = v_.back().at(m);
+            for (size_t m = 7; m < config_.size(); ++m) {
+                vertex.at(m) = config_.at(m);
             }
 
             // Construct a std::vector of vertex
@@ -210,6 +210,7 @@ void hrm::planners::ProbHRM3D::setTransform(const std::vector<Coordinate>& V) {
     }
 
     robot_.robotTF(urdfFile_, g, jointConfig);
+    config_ = V;
 }
 
 // Construct Tight-Fitted Ellipsoid (TFE) for articulated body
-- 
2.43.0


From 7bfc8a27d0c667b91568ca1116ee4e0051371dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:36 +0000
Subject: [PATCH 17/25] fix: mesh each C-space boundary with its own number of
 surface points

---
 src/datastructure/FreeSpace3D.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/datastructure/FreeSpace3D.cpp b/src/datastructure/FreeSpace3D.cpp
index b90268b..5af55c0 100644
--- a/src/datastructure/FreeSpace3D.cpp
+++ b/src/datastructure/FreeSpace3D.cpp
@@ -15,17 +15,23 @@ hrm::FreeSpace3D::FreeSpace3D(const MultiBodyTree3D& robot,
 hrm::FreeSpace3D::~FreeSpace3D() = default;
 
 void hrm::FreeSpace3D::computeCSpaceBoundaryMesh(const BoundaryInfo& bound) {
+    // Number of points per surface parameter, differs between bodies
+    const auto numParam = [](const BoundaryPoints& surf) {
+        return static_cast<Index>(
+            std::lround(std::sqrt(static_cast<double>(surf.cols()))));
+    };
+
     // Generate mesh for the boundaries
     cSpaceBoundaryMesh_.arena.resize(bound.arena.size());
     cSpaceBoundaryMesh_.obstacle.resize(bound.obstacle.size());
 
     for (size_t i = 0; i < bound.arena.size(); ++i) {
         cSpaceBoundaryMesh_.arena.at(i) = getMeshFromParamSurface(
-            bound.arena.at(i), arena_.at(0).getNumParam());
+            bound.arena.at(i), numParam(bound.arena.at(i)));
     }
     for (size_t i = 0; i < bound.obstacle.size(); ++i) {
         cSpaceBoundaryMesh_.obstacle.at(i) = getMeshFromParamSurface(
-            bound.obstacle.at(i), obstacle_.at(0).getNumParam());
+            bound.obstacle.at(i), numParam(bound.obstacle.at(i)));
     }
 }
 
-- 
2.43.0


From 8ea8776ff30eb2d21a7edf8aa60bfddabc59841c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:11 +0000
Subject: [PATCH 18/25] fix: fit link ellipses to the turn the links make
 between slices

---
 src/planners/HRM2D.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/planners/HRM2D.cpp b/src/planners/HRM2D.cpp
index 1957bc1..bd3cbb0 100644
--- a/src/planners/HRM2D.cpp
+++ b/src/planners/HRM2D.cpp
@@ -393,13 +393,12 @@ void hrm::planners::HRM2D::computeTFE(const double thetaA, const double thetaB,
     for (size_t i = 0; i < robot_.getNumLinks(); ++i) {
         Eigen::Rotation2Dd rotLink(
             Eigen::Matrix2d(robot_.getTF().at(i).topLeftCorner(2, 2)));
-        Eigen::Rotation2Dd rotA(Eigen::Rotation2Dd(thetaA).toRotationMatrix() *
-                                rotLink);
-        Eigen::Rotation2Dd rotB(Eigen::Rotation2Dd(thetaB).toRotationMatrix() *
-                                rotLink);
 
+        // Not wrapped, so that the link turns in the same way as the base
+        const double thetaLink = rotLink.angle();
         tfe.push_back(getTFE2D(
-            robot_.getLinks().at(i).getSemiAxis(), rotA.angle(), rotB.angle(),
+            robot_.getLinks().at(i).getSemiAxis(), thetaA + thetaLink,
+            thetaB + thetaLink,
             uint(param_.numPoint), robot_.getLinks().at(i).getNum()));
     }
 }
-- 
2.43.0


From 101c4cc57d230dd7e2f4fde2ee146f8273ff1fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:59 +0000
Subject: [PATCH 19/25] fix: time each Prob-HRM iteration from its own start

ProbHRM3D::plan() reset its stopwatch only before the graph search, so from
the second iteration on the previous search (and refinement) time was added
to buildTime again, and the planner gave up before its time limit.
---
 src/planners/ProbHRM3D.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/planners/ProbHRM3D.cpp b/src/planners/ProbHRM3D.cpp
index f690911..51b6d7e 100644
--- a/src/planners/ProbHRM3D.cpp
+++ b/src/planners/ProbHRM3D.cpp
@@ -16,10 +16,11 @@ hrm::planners::ProbHRM3D::ProbHRM3D(const MultiBodyTree3D& robot,
 hrm::planners::ProbHRM3D::~ProbHRM3D() = default;
 
 void hrm::planners::ProbHRM3D::plan(const double timeLim) {
-    auto start = Clock::now();
     param_.numSlice = 0;
 
     do {
+        auto start = Clock::now();
+
         // Randomly generate rotations and joint angles
         sampleOrientations();
 
-- 
2.43.0


From a5d5cba06b6b4f012aa0aba053f83af6d9e01ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:59 +0000
Subject: [PATCH 20/25] fix: do not refine the Prob-HRM roadmap once solved or
 out of time

The refinement at every 60th slice was started even when the search had just
succeeded or the time limit had been reached, which at least doubled the
planning time and could replace the solution found within the limit.
---
 src/planners/ProbHRM3D.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/planners/ProbHRM3D.cpp b/src/planners/ProbHRM3D.cpp
index 51b6d7e..daca492 100644
--- a/src/planners/ProbHRM3D.cpp
+++ b/src/planners/ProbHRM3D.cpp
@@ -51,7 +51,8 @@ void hrm::planners::ProbHRM3D::plan(const double timeLim) {
             res_.planningTime.buildTime + res_.planningTime.searchTime;
 
         // Double the number of sweep lines for every 10 iterations
-        if (param_.numSlice % 60 == 0 &&
+        if (!res_.solved && res_.planningTime.totalTime < timeLim &&
+            param_.numSlice % 60 == 0 &&
             vertexIdxAll_.size() < param_.numPoint) {
             refineExistRoadmap(timeLim);
         }
-- 
2.43.0


From 092f03b3bd187394592f416ee064f6ba80dc0a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:28 +0000
Subject: [PATCH 21/25] fix: report the length of the OMPL path that is
 returned

In 3D the length was taken before simplifySolution(), so it did not match the
path returned (the 2D planner does update it), and it survived from an earlier
run when the latest one failed.
---
 include/hrm/planners/ompl_interface/OMPLInterface-inl.h | 1 +
 src/planners/ompl_interface/OMPL3D.cpp                  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/hrm/planners/ompl_interface/OMPLInterface-inl.h b/include/hrm/planners/ompl_interface/OMPLInterface-inl.h
index 9991b22..1d0b654 100644
--- a/include/hrm/planners/ompl_interface/OMPLInterface-inl.h
+++ b/include/hrm/planners/ompl_interface/OMPLInterface-inl.h
@@ -64,6 +64,7 @@ bool OMPLInterface<RobotType, ObjectType>::plan(
     const std::vector<Coordinate> &start, const std::vector<Coordinate> &goal,
     const double maxTimeInSec) {
     isSolved_ = false;
+    lengthPath_ = 0;
     path_.clear();
     path_interp_.clear();
     if (!ss_) {
diff --git a/src/planners/ompl_interface/OMPL3D.cpp b/src/planners/ompl_interface/OMPL3D.cpp
index cc6d399..745df4a 100644
--- a/src/planners/ompl_interface/OMPL3D.cpp
+++ b/src/planners/ompl_interface/OMPL3D.cpp
@@ -23,6 +23,7 @@ void hrm::planners::ompl_interface::OMPL3D::getSolution() {
             // Get solution path
             ss_->simplifySolution();
             auto path = ss_->getSolutionPath();
+            lengthPath_ = path.getStates().size();
             for (auto *state : path.getStates()) {
                 path_.push_back(setVectorFromState(state));
             }
-- 
2.43.0


From d0377f2021128824349cbbfeba233d21c4e4db60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:18 +0000
Subject: [PATCH 22/25] fix: do not bridge the first 3D C-slice with itself

HRM3D::connectMultiSlice() paired slice 0 with itself: besides self-loops it
added edges within that slice that were only validated at sampled points,
bypassing the exact check isSameSliceTransitionFree().
---
 src/planners/HRM3D.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/planners/HRM3D.cpp b/src/planners/HRM3D.cpp
index 68252dc..6620838 100644
--- a/src/planners/HRM3D.cpp
+++ b/src/planners/HRM3D.cpp
@@ -174,7 +174,8 @@ void hrm::planners::HRM3D::connectMultiSlice() {
         return;
     }
 
-    for (size_t i = 0; i < vertexIdx_.size(); ++i) {
+    // Each C-slice is connected with the nearest one before it
+    for (size_t i = 1; i < vertexIdx_.size(); ++i) {
         // Find the nearest C-slices
         double minDist = INFINITY;
         int minIdx = 0;
-- 
2.43.0


From 5c8deaa9a5514ab16e9a42777b5f95593a36ae30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:05 +0000
Subject: [PATCH 23/25] fix: plotting short OMPL paths does not step by zero

---
 demo/python/plot_results_ompl_3D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demo/python/plot_results_ompl_3D.py b/demo/python/plot_results_ompl_3D.py
index 1b37165..83fa226 100644
--- a/demo/python/plot_results_ompl_3D.py
+++ b/demo/python/plot_results_ompl_3D.py
@@ -69,7 +69,7 @@ def plot_results_ompl_3d(is_plot_graph=False):
                   'gray', linewidth=2)
 
         # Robot following the path
-        for i in range(0, len(path), int(len(path)/10.0)):
+        for i in range(0, len(path), max(1, int(len(path)/10.0))):
             plot_robot_pose(robot, path[i, :], robot_urdf, ax)
 
     # Plot graph and sweep line in one layer
-- 
2.43.0


From ebaae039ddfdf2b93f3057af1a2b2b671030d9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:28 +0000
Subject: [PATCH 24/25] fix: skip lines without numbers when reading CSV files

A blank line gave an empty record, whose missing first fields were then
read by the loaders of scene files.
---
 src/util/Parse2dCsvFile.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util/Parse2dCsvFile.cpp b/src/util/Parse2dCsvFile.cpp
index f910e75..10f1fc5 100644
--- a/src/util/Parse2dCsvFile.cpp
+++ b/src/util/Parse2dCsvFile.cpp
@@ -30,7 +30,10 @@ std::vector<std::vector<double>> hrm::parse2DCsvFile(
                 }
             }
 
-            data.push_back(record);
+            // Skip lines without any number
+            if (!record.empty()) {
+                data.push_back(record);
+            }
         }
     }
 
-- 
2.43.0


From ff710f4b06e637a7f02c0138a91eb5c9322fce67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:47 +0000
Subject: [PATCH 25/25] fix: collision mesh of a planar superellipse has its
 own exponent

The exponents of the planar section and of the thickness were swapped, so
that the mesh was nearly a box whatever the exponent of the shape.
---
 src/util/EllipsoidSQCollisionFCL.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/EllipsoidSQCollisionFCL.cpp b/src/util/EllipsoidSQCollisionFCL.cpp
index 8c9e94b..4d860c6 100644
--- a/src/util/EllipsoidSQCollisionFCL.cpp
+++ b/src/util/EllipsoidSQCollisionFCL.cpp
@@ -86,7 +86,7 @@ fcl::CollisionObject<double> hrm::setCollisionObjectFromSQ(
     // Mesh model
     const SuperQuadrics objAux(
         {object.getSemiAxis().at(0), object.getSemiAxis().at(1), 0.1},
-        {object.getEpsilon(), 0.1}, {0.0, 0.0, 0.0},
+        {0.1, object.getEpsilon()}, {0.0, 0.0, 0.0},
         Eigen::Quaterniond::Identity(), 10);
     const Mesh objMesh = getMeshFromSQ(objAux);
     auto modelPtr = std::make_shared<fcl::BVHModel<fcl::OBBRSS<double>>>();
-- 
2.43.0

