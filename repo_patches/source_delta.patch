From 256c21743ef745576130be426d639f37de10e935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:54 +0000
Subject: [PATCH 01/44] fix: keep cell information finite and positive
 semi-definite when points coincide

---
 src/ndt_model.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/ndt_model.cpp b/src/ndt_model.cpp
index e1f9b7c..4a9cac6 100644
--- a/src/ndt_model.cpp
+++ b/src/ndt_model.cpp
@@ -30,6 +30,7 @@
 #include <Eigen/Eigen>
 #include <Eigen/Eigenvalues>
 
+#include <algorithm>
 #include <cmath>
 #include <ndt_2d/conversions.hpp>
 #include <ndt_2d/ndt_model.hpp>
@@ -37,6 +38,9 @@
 namespace ndt_2d
 {
 
+// Spread (in square meters) below which all points of a cell are considered the same
+static const double MIN_VARIANCE = 1e-8;
+
 Cell::Cell()
 : valid(false),
   n(0),
@@ -85,14 +89,20 @@ void Cell::compute()
   Eigen::Vector2d eigenvalues = solver.eigenvalues().real();
   double small = eigenvalues(0), large = eigenvalues(1);
   if (small > large) std::swap(small, large);
-  if (small < 0.001 * large)
+  if (large < MIN_VARIANCE)
+  {
+    // All points coincide, there is no spread to invert
+    information = Eigen::Matrix2d::Identity() / MIN_VARIANCE;
+  }
+  else if (small < 0.001 * large)
   {
-    // Special case
+    // Special case (rounding must not make the smaller eigen value negative)
+    double offset = std::min(small, 0.0);
     double determinant = (0.001 * large) * large;
-    information(0, 0) = covariance(1, 1) / determinant;
+    information(0, 0) = (covariance(1, 1) - offset) / determinant;
     information(0, 1) = -covariance(1, 0) / determinant;
     information(1, 0) = -covariance(0, 1) / determinant;
-    information(1, 1) = covariance(0, 0) / determinant;
+    information(1, 1) = (covariance(0, 0) - offset) / determinant;
   }
   else
   {
@@ -112,7 +122,7 @@ double Cell::score(const Eigen::Vector2d & point)
 
   const auto q = point - mean;
   const double exponent = -0.5 * q.transpose() * information * q;
-  return std::exp(exponent);
+  return std::exp(std::min(exponent, 0.0));
 }
 
 NDT::NDT(double cell_size, double size_x, double size_y, double origin_x, double origin_y)
-- 
2.43.0


From 76a0f2e5eafd7420e72ee62184937b68b5b9e26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:47 +0000
Subject: [PATCH 02/44] fix: ignore points too far from the NDT for an integer
 cell index

---
 src/ndt_model.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ndt_model.cpp b/src/ndt_model.cpp
index 4a9cac6..354506e 100644
--- a/src/ndt_model.cpp
+++ b/src/ndt_model.cpp
@@ -217,13 +217,16 @@ int NDT::getIndex(double x, double y)
     return -1;
   }
 
-  unsigned int grid_x = (x - origin_x_) / cell_size_;
-  unsigned int grid_y = (y - origin_y_) / cell_size_;
-  if (grid_x >= size_x_ || grid_y >= size_y_)
+  // Compare before converting, far away points do not fit an integer
+  const double cell_x = (x - origin_x_) / cell_size_;
+  const double cell_y = (y - origin_y_) / cell_size_;
+  if (!(cell_x < size_x_ && cell_y < size_y_))
   {
     return -1;
   }
 
+  unsigned int grid_x = cell_x;
+  unsigned int grid_y = cell_y;
   return (grid_y * size_x_) + grid_x;
 }
 
-- 
2.43.0


From c0a1f16423f2c4fce2393162e501bb0d21d2a04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:59 +0000
Subject: [PATCH 03/44] fix: weight constraint errors with the upper Cholesky
 factor of the information

---
 src/ceres_solver.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ceres_solver.cpp b/src/ceres_solver.cpp
index f819d77..ad2d42a 100644
--- a/src/ceres_solver.cpp
+++ b/src/ceres_solver.cpp
@@ -129,7 +129,9 @@ ceres::ResidualBlockId CeresSolver::addConstraint(const ConstraintPtr & constrai
   auto begin_node = nodes_.find(begin->getId());
   auto end_node = nodes_.find(end->getId());
 
-  const Eigen::Matrix3d sqrt_information = constraint->information.llt().matrixL();
+  // Squared norm of (sqrt_information * error) has to be error' * information * error,
+  // so this needs to be the upper factor: information = L * L'
+  const Eigen::Matrix3d sqrt_information = constraint->information.llt().matrixU();
 
   ceres::CostFunction * cost_function =
     PoseGraph2dErrorTerm::Create(constraint->transform(0),
-- 
2.43.0


From b4a884fcb96677ed09a86945472b503eec05d802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:26 +0000
Subject: [PATCH 04/44] fix: do not abort when the first scan has no constraint
 to optimize

---
 src/ceres_solver.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ceres_solver.cpp b/src/ceres_solver.cpp
index ad2d42a..26bdc8b 100644
--- a/src/ceres_solver.cpp
+++ b/src/ceres_solver.cpp
@@ -85,11 +85,14 @@ bool CeresSolver::optimize(const std::vector<ConstraintPtr> & constraints,
   }
   num_constraints_ = n;
 
-  // Make first node fixed
+  // Make first node fixed (it is only part of the problem if it has constraints)
   auto first_node_ = nodes_.find(scans[0]->getId());
-  problem_->SetParameterBlockConstant(&first_node_->second(0));
-  problem_->SetParameterBlockConstant(&first_node_->second(1));
-  problem_->SetParameterBlockConstant(&first_node_->second(2));
+  if (problem_->HasParameterBlock(&first_node_->second(0)))
+  {
+    problem_->SetParameterBlockConstant(&first_node_->second(0));
+    problem_->SetParameterBlockConstant(&first_node_->second(1));
+    problem_->SetParameterBlockConstant(&first_node_->second(2));
+  }
 
   // Run the solver
   ceres::Solver::Summary summary;
-- 
2.43.0


From 26fdf901b9bb28529e977573479ebf02bc99ca7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:24 +0000
Subject: [PATCH 05/44] fix: use bins of equal size on both sides of zero in
 the KD-tree

---
 include/ndt_2d/kd_tree.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/ndt_2d/kd_tree.hpp b/include/ndt_2d/kd_tree.hpp
index 0012054..2e0f64e 100644
--- a/include/ndt_2d/kd_tree.hpp
+++ b/include/ndt_2d/kd_tree.hpp
@@ -30,6 +30,7 @@
 #define NDT_2D__KD_TREE_HPP_
 
 #include <Eigen/Core>
+#include <cmath>
 #include <memory>
 #include <vector>
 #include <utility>
@@ -96,10 +97,11 @@ public:
    */
   void insert(Eigen::Vector3d & cont_key, T & value)
   {
+    // Round down, so that bins next to zero are no larger than the others
     int key[3];
-    key[0] = static_cast<int>(cont_key(0) / cell_size_(0));
-    key[1] = static_cast<int>(cont_key(1) / cell_size_(1));
-    key[2] = static_cast<int>(cont_key(2) / cell_size_(2));
+    key[0] = static_cast<int>(std::floor(cont_key(0) / cell_size_(0)));
+    key[1] = static_cast<int>(std::floor(cont_key(1) / cell_size_(1)));
+    key[2] = static_cast<int>(std::floor(cont_key(2) / cell_size_(2)));
 
     if (nodes_.empty())
     {
-- 
2.43.0


From cbc7f4000c7db4aa9827c82d8b5ebcb7200c3b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:47 +0000
Subject: [PATCH 06/44] fix: do not accumulate the heading covariance of the
 particle filter

---
 src/particle_filter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/particle_filter.cpp b/src/particle_filter.cpp
index eefcdc7..e30be3f 100644
--- a/src/particle_filter.cpp
+++ b/src/particle_filter.cpp
@@ -210,6 +210,7 @@ void ParticleFilter::updateStatistics()
   }
 
   // Compute covariance for theta
+  cov_(2, 2) = 0.0;
   for (size_t i = 0; i < particles_.size(); ++i)
   {
     double d = angles::shortest_angular_distance(particles_[i](2), mean_(2));
-- 
2.43.0


From 8b82a05506534990124909ed442567810195e028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:47 +0000
Subject: [PATCH 07/44] fix: make particle weights uniform when resampling

---
 src/particle_filter.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/particle_filter.cpp b/src/particle_filter.cpp
index e30be3f..2260b5e 100644
--- a/src/particle_filter.cpp
+++ b/src/particle_filter.cpp
@@ -99,9 +99,6 @@ void ParticleFilter::resample(const double kld_err, const double kld_z)
   std::vector<Particle> resampled;
   resampled.reserve(max_particles_);
 
-  std::vector<double> resampled_weights;
-  resampled_weights.reserve(max_particles_);
-
   // This will be the crazy equation from Probabilistic Robotics
   size_t Mx = max_particles_;
 
@@ -111,7 +108,6 @@ void ParticleFilter::resample(const double kld_err, const double kld_z)
     size_t p = d(gen_);
     kd_tree_.insert(particles_[p], weights_[p]);
     resampled.push_back(particles_[p]);
-    resampled_weights.push_back(weights_[p]);
 
     // Recompute crazy equation
     size_t k = kd_tree_.getLeafCount();
@@ -130,8 +126,9 @@ void ParticleFilter::resample(const double kld_err, const double kld_z)
     }
   }
 
+  // Particles were drawn in proportion to their weights, so they now all weigh the same
   particles_ = resampled;
-  weights_ = resampled_weights;
+  weights_.assign(particles_.size(), 1.0 / particles_.size());
 
   updateStatistics();
 }
-- 
2.43.0


From acc05095cc8739c02f3818995d44cf1c41cc22e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:55 +0000
Subject: [PATCH 08/44] fix: size the scan matcher map correctly when all scans
 have negative coordinates

---
 src/scan_matcher_ndt.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scan_matcher_ndt.cpp b/src/scan_matcher_ndt.cpp
index daa1413..7f12c3e 100644
--- a/src/scan_matcher_ndt.cpp
+++ b/src/scan_matcher_ndt.cpp
@@ -51,9 +51,9 @@ void ScanMatcherNDT::addScans(const std::vector<ScanPtr>::const_iterator& begin,
 {
   // Compute bounding box required
   double min_x_ = std::numeric_limits<double>::max();
-  double max_x_ = std::numeric_limits<double>::min();
+  double max_x_ = std::numeric_limits<double>::lowest();
   double min_y_ = std::numeric_limits<double>::max();
-  double max_y_ = std::numeric_limits<double>::min();
+  double max_y_ = std::numeric_limits<double>::lowest();
   for (auto scan = begin; scan != end; ++scan)
   {
     Pose2d pose = (*scan)->getPose();
-- 
2.43.0


From a64929add2cc9cb998e96bf9fb99385779649286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:55 +0000
Subject: [PATCH 09/44] fix: do not build a scan matcher map without scans

---
 src/scan_matcher_ndt.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/scan_matcher_ndt.cpp b/src/scan_matcher_ndt.cpp
index 7f12c3e..8176e3f 100644
--- a/src/scan_matcher_ndt.cpp
+++ b/src/scan_matcher_ndt.cpp
@@ -49,6 +49,13 @@ void ScanMatcherNDT::initialize(const std::string & name, rclcpp::Node * node, d
 void ScanMatcherNDT::addScans(const std::vector<ScanPtr>::const_iterator& begin,
                               const std::vector<ScanPtr>::const_iterator& end)
 {
+  // No scans, no map
+  if (begin == end)
+  {
+    reset();
+    return;
+  }
+
   // Compute bounding box required
   double min_x_ = std::numeric_limits<double>::max();
   double max_x_ = std::numeric_limits<double>::lowest();
-- 
2.43.0


From 8dc43fd804c7bd3f967816f75e5564c3cfa75827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:55 +0000
Subject: [PATCH 10/44] fix: subtract the squared mean in the scan matching
 covariance

---
 src/scan_matcher_ndt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scan_matcher_ndt.cpp b/src/scan_matcher_ndt.cpp
index 8176e3f..eb72690 100644
--- a/src/scan_matcher_ndt.cpp
+++ b/src/scan_matcher_ndt.cpp
@@ -150,7 +150,7 @@ double ScanMatcherNDT::matchScan(const ScanPtr & scan, Pose2d & pose,
   }
 
   // Compute covariance
-  covariance = (1 / s) * k + (1 / (s * s) * u * u.transpose());
+  covariance = (1 / s) * k - (1 / (s * s) * u * u.transpose());
 
   return best_score / scan_points_to_use;
 }
-- 
2.43.0


From c0c9ee66c18a9024b6d9ce91885e0ad2b4e78df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:55 +0000
Subject: [PATCH 11/44] fix: keep scan match score and covariance finite
 without overlap or points

---
 src/scan_matcher_ndt.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/scan_matcher_ndt.cpp b/src/scan_matcher_ndt.cpp
index eb72690..9177cd2 100644
--- a/src/scan_matcher_ndt.cpp
+++ b/src/scan_matcher_ndt.cpp
@@ -26,6 +26,7 @@
  * THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
  */
 
+#include <cmath>
 #include <ndt_2d/conversions.hpp>
 #include <ndt_2d/scan_matcher_ndt.hpp>
 
@@ -83,6 +84,11 @@ void ScanMatcherNDT::addScans(const std::vector<ScanPtr>::const_iterator& begin,
 double ScanMatcherNDT::matchScan(const ScanPtr & scan, Pose2d & pose,
                                  Eigen::Matrix3d & covariance) const
 {
+  // Without any support, every correction in the search window is as good as any other
+  covariance = Eigen::Vector3d(linear_size_ * linear_size_ / 3.0,
+                               linear_size_ * linear_size_ / 3.0,
+                               angular_size_ * angular_size_ / 3.0).asDiagonal();
+
   // Scans must be added first
   if (!ndt_) return 0.0;
 
@@ -100,6 +106,7 @@ double ScanMatcherNDT::matchScan(const ScanPtr & scan, Pose2d & pose,
 
   // Subsample the scan
   size_t scan_points_to_use = std::min(laser_max_beams_, points.size());
+  if (scan_points_to_use == 0) return 0.0;
   double scan_step = static_cast<double>(points.size()) / scan_points_to_use;
 
   std::vector<Point> points_outer;
@@ -149,8 +156,12 @@ double ScanMatcherNDT::matchScan(const ScanPtr & scan, Pose2d & pose,
     }
   }
 
-  // Compute covariance
-  covariance = (1 / s) * k - (1 / (s * s) * u * u.transpose());
+  // Compute covariance, unless there is too little support to divide by
+  if (std::isnormal(s))
+  {
+    const Eigen::Vector3d mean = u / s;
+    covariance = k / s - mean * mean.transpose();
+  }
 
   return best_score / scan_points_to_use;
 }
@@ -170,6 +181,7 @@ double ScanMatcherNDT::scorePoints(const std::vector<Point> & points, const Pose
 
   // Subsample the scan
   size_t scan_points_to_use = std::min(laser_max_beams_, points.size());
+  if (scan_points_to_use == 0) return 0.0;
   double scan_step = static_cast<double>(points.size()) / scan_points_to_use;
 
   double score = 0.0;
-- 
2.43.0


From 61459ff0e7bd9357b60f77d013de7347db5612e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:28 +0000
Subject: [PATCH 12/44] fix: keep particle weights finite when no particle has
 any support

---
 src/particle_filter.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/particle_filter.cpp b/src/particle_filter.cpp
index 2260b5e..9bc2862 100644
--- a/src/particle_filter.cpp
+++ b/src/particle_filter.cpp
@@ -27,6 +27,7 @@
  */
 
 #include <angles/angles.h>
+#include <cmath>
 #include <random>
 #include <ndt_2d/particle_filter.hpp>
 
@@ -165,9 +166,17 @@ void ParticleFilter::updateStatistics()
   {
     sum_weight += w;
   }
-  for (auto & w : weights_)
+  if (std::isnormal(sum_weight))
+  {
+    for (auto & w : weights_)
+    {
+      w /= sum_weight;
+    }
+  }
+  else
   {
-    w /= sum_weight;
+    // The measurement supports none of the particles, so it cannot tell them apart
+    weights_.assign(weights_.size(), 1.0 / weights_.size());
   }
 
   // Temporary mean and correlation
-- 
2.43.0


From 0be2633d516e5453a41753bbc53659853aa56499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:44 +0000
Subject: [PATCH 13/44] fix: size the occupancy map to the current poses and
 points of all scans

---
 include/ndt_2d/occupancy_grid.hpp |  3 +--
 src/occupancy_grid.cpp            | 24 +++++++++++++-----------
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/include/ndt_2d/occupancy_grid.hpp b/include/ndt_2d/occupancy_grid.hpp
index 1439e61..8a53302 100644
--- a/include/ndt_2d/occupancy_grid.hpp
+++ b/include/ndt_2d/occupancy_grid.hpp
@@ -60,9 +60,8 @@ private:
 
   double resolution_;
   double occ_thresh_;
-  // Bounds are recalculated when scan vector increases in size
+  // Bounds of all scan poses and points (and the origin), recalculated for each message
   double min_x_, max_x_, min_y_, max_y_;
-  size_t num_scans_;
 };
 
 typedef std::shared_ptr<OccupancyGrid> OccupancyGridPtr;
diff --git a/src/occupancy_grid.cpp b/src/occupancy_grid.cpp
index d9257e6..1e2cbb8 100644
--- a/src/occupancy_grid.cpp
+++ b/src/occupancy_grid.cpp
@@ -39,19 +39,15 @@ OccupancyGrid::OccupancyGrid(const double resolution, const double occ_thresh)
   min_x_(0),
   max_x_(0),
   min_y_(0),
-  max_y_(0),
-  num_scans_(0)
+  max_y_(0)
 {
 }
 
 void OccupancyGrid::getMsg(std::vector<ndt_2d::ScanPtr> & scans,
                            nav_msgs::msg::OccupancyGrid & grid)
 {
-  // Update size of the occupancy grid, if needed
-  if (scans.size() != num_scans_)
-  {
-    updateBounds(scans);
-  }
+  // Update size of the occupancy grid - poses may change even when no scan is added
+  updateBounds(scans);
 
   // Pad the map just a bit
   double pad = 5 * resolution_;
@@ -153,17 +149,23 @@ void OccupancyGrid::getMsg(std::vector<ndt_2d::ScanPtr> & scans,
 
 void OccupancyGrid::updateBounds(std::vector<ndt_2d::ScanPtr>& scans)
 {
-  size_t start_idx = num_scans_;
-  num_scans_ = scans.size();
+  min_x_ = max_x_ = 0;
+  min_y_ = max_y_ = 0;
 
-  // Iterate through new scans
-  for (size_t i = start_idx; i < num_scans_; ++i)
+  // Iterate through scans
+  for (size_t i = 0; i < scans.size(); ++i)
   {
     double x = scans[i]->getPose().x;
     double y = scans[i]->getPose().y;
     double cos_th = cos(scans[i]->getPose().theta);
     double sin_th = sin(scans[i]->getPose().theta);
 
+    // The pose itself is the start of every ray
+    min_x_ = std::min(x, min_x_);
+    max_x_ = std::max(x, max_x_);
+    min_y_ = std::min(y, min_y_);
+    max_y_ = std::max(y, max_y_);
+
     // Iterate through points in the scan
     for (auto & point : scans[i]->getPoints())
     {
-- 
2.43.0


From d1834c54ec115c6550bef467a563aa385432e611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:18 +0000
Subject: [PATCH 14/44] fix: trace occupancy rays to the cell of their endpoint

---
 src/occupancy_grid.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/occupancy_grid.cpp b/src/occupancy_grid.cpp
index 1e2cbb8..948a7b8 100644
--- a/src/occupancy_grid.cpp
+++ b/src/occupancy_grid.cpp
@@ -104,7 +104,9 @@ void OccupancyGrid::getMsg(std::vector<ndt_2d::ScanPtr> & scans,
           break;
         }
         ++empty[index];
-        if (2 * error >= dy)
+        // Both steps have to be decided on the same error
+        const int error2 = 2 * error;
+        if (error2 >= dy)
         {
           if (x == end_x)
           {
@@ -114,7 +116,7 @@ void OccupancyGrid::getMsg(std::vector<ndt_2d::ScanPtr> & scans,
           error = error + dy;
           x += sx;
         }
-        if (2 * error <= dx)
+        if (error2 <= dx)
         {
           if (y == end_y)
           {
-- 
2.43.0


From ac0372c18588c8741aa2b5e199c0b1bb88b12fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:09 +0000
Subject: [PATCH 15/44] fix: search nearby scans within the distance, not its
 square root

---
 src/graph.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph.cpp b/src/graph.cpp
index 96b724f..3f8962e 100644
--- a/src/graph.cpp
+++ b/src/graph.cpp
@@ -178,7 +178,8 @@ std::vector<size_t> Graph::findNearest(const ScanPtr & scan, double dist, int li
   const double query[2] = {pose.x, pose.y};
   std::vector<std::pair<unsigned, double>> matches;
   nanoflann::SearchParams params;
-  tree.radiusSearch(query, dist, matches, params);
+  // The L2 metric of nanoflann is the squared distance
+  tree.radiusSearch(query, dist * dist, matches, params);
 
   std::vector<size_t> indicies;
   for (size_t i = 0; i < matches.size(); ++i)
-- 
2.43.0


From 0a5715b6077b50d934b9fa9d719f964548f714a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:09 +0000
Subject: [PATCH 16/44] fix: do not search beyond the last scan of the graph

---
 src/graph.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/graph.cpp b/src/graph.cpp
index 3f8962e..793e9e7 100644
--- a/src/graph.cpp
+++ b/src/graph.cpp
@@ -26,6 +26,7 @@
  * THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
  */
 
+#include <algorithm>
 #include <iostream>
 #include <ndt_2d/graph.hpp>
 #include <ndt_2d/msg/scan.hpp>
@@ -168,7 +169,11 @@ std::vector<size_t> Graph::findNearest(const ScanPtr & scan, double dist, int li
 {
   // Build a KD-tree from scratch each time - no sense with bookkeeping to use dynamic
   // tree, since it rebuilds index from scratch: https://github.com/jlblancoc/nanoflann/issues/90
-  size_t limit = (limit_scan_index > 0) ? limit_scan_index : scans.size();
+  size_t limit = scans.size();
+  if (limit_scan_index > 0)
+  {
+    limit = std::min(limit, static_cast<size_t>(limit_scan_index));
+  }
   GraphAdapter adapter(this, limit, use_barycenter_);
   kd_tree_t tree(2 /* dimension */, adapter, 5 /* leaf size */);
   tree.buildIndex();
-- 
2.43.0


From 7db074f09576f61e47960d074d332c800de662f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:57 +0000
Subject: [PATCH 17/44] fix: project every beam of an inverted laser, moved by
 the time of the beam

---
 src/ndt_mapper.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 711f683..d4e658c 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -407,7 +407,7 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
   // Using this scan, convert ROS msg into ndt_2d style scan
   if (laser_inverted_)
   {
-    for (size_t i = msg->ranges.size() - 1; i > 0; --i)
+    for (size_t i = msg->ranges.size(); i-- > 0; )
     {
       // Filter out NANs and scans beyond max range
       if (std::isnan(msg->ranges[i]) || msg->ranges[i] > range_max_) continue;
@@ -419,11 +419,10 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
       Point point(cos_lt * lp.x - sin_lt * lp.y + laser_transform_.x,
                   sin_lt * lp.x + cos_lt * lp.y + laser_transform_.y);
       // Apply laser movement
-      double cos_tt = cos(translation.theta - (trans_per_meas.theta * i));
-      double sin_tt = sin(translation.theta - (trans_per_meas.theta * i));
-      Point translated(
-        cos_tt * point.x - sin_tt * point.y +(translation.x - (trans_per_meas.x * i)),
-        sin_tt * point.x + cos_tt * point.y + (translation.y - (trans_per_meas.y * i)));
+      double cos_tt = cos(trans_per_meas.theta * i);
+      double sin_tt = sin(trans_per_meas.theta * i);
+      Point translated(cos_tt * point.x - sin_tt * point.y + (trans_per_meas.x * i),
+                       sin_tt * point.x + cos_tt * point.y + (trans_per_meas.y * i));
       // Add point to scan
       points.push_back(translated);
     }
-- 
2.43.0


From 00c06c04ae6f6191bfd9116ab63716b8c85315bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:08 +0000
Subject: [PATCH 18/44] fix: discard infinite laser measurements

---
 src/ndt_mapper.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index d4e658c..5592dfd 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -409,8 +409,8 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
   {
     for (size_t i = msg->ranges.size(); i-- > 0; )
     {
-      // Filter out NANs and scans beyond max range
-      if (std::isnan(msg->ranges[i]) || msg->ranges[i] > range_max_) continue;
+      // Filter out NANs, infinities and scans beyond max range
+      if (!std::isfinite(msg->ranges[i]) || msg->ranges[i] > range_max_) continue;
       // Project point in laser frame
       double angle = -(msg->angle_min + i * msg->angle_increment);
       Point lp(cos(angle) * msg->ranges[i],
@@ -431,8 +431,8 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
   {
     for (size_t i = 0; i < msg->ranges.size(); ++i)
     {
-      // Filter out NANs and scans beyond max range
-      if (std::isnan(msg->ranges[i]) || msg->ranges[i] > range_max_) continue;
+      // Filter out NANs, infinities and scans beyond max range
+      if (!std::isfinite(msg->ranges[i]) || msg->ranges[i] > range_max_) continue;
       // Project point in laser frame
       double angle = (msg->angle_min + i * msg->angle_increment);
       Point lp(cos(angle) * msg->ranges[i],
-- 
2.43.0


From 726423a3256280b23ddc8e7693ef4a429171edcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:20 +0000
Subject: [PATCH 19/44] fix: compensate motion during a scan in the robot frame

---
 src/ndt_mapper.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 5592dfd..116fcc8 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -383,10 +383,14 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
   }
 
   // Determine movement between start and end of laser scan
-  Pose2d translation = fromMsg(end_odom_pose_tf);
-  translation.x -= odom_pose.x;
-  translation.y -= odom_pose.y;
-  translation.theta -= odom_pose.theta;
+  Pose2d end_odom_pose = fromMsg(end_odom_pose_tf);
+  double scan_dx = end_odom_pose.x - odom_pose.x;
+  double scan_dy = end_odom_pose.y - odom_pose.y;
+  // Points are in the robot frame at the start of the laser scan, so the movement has to be too
+  Pose2d translation;
+  translation.x = cos(odom_pose.theta) * scan_dx + sin(odom_pose.theta) * scan_dy;
+  translation.y = -sin(odom_pose.theta) * scan_dx + cos(odom_pose.theta) * scan_dy;
+  translation.theta = angles::shortest_angular_distance(odom_pose.theta, end_odom_pose.theta);
 
   // Now scale it by number of measurements
   Pose2d trans_per_meas;
-- 
2.43.0


From ba658a280b4925065c8f1978edcb32b96d25eaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:29 +0000
Subject: [PATCH 20/44] fix: spread the motion during a scan over the intervals
 between beams

---
 src/ndt_mapper.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 116fcc8..91f7d6b 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -363,11 +363,12 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
     robot_pose.theta = angles::normalize_angle(prev_robot_pose_.theta + dth);
   }
 
-  // Now determine robot pose at end of laser scan
+  // Now determine robot pose at end of laser scan (the time of the last measurement)
+  size_t last_meas = msg->ranges.empty() ? 0 : msg->ranges.size() - 1;
   geometry_msgs::msg::PoseStamped end_odom_pose_tf;
   end_odom_pose_tf.header.stamp = rclcpp::Time(msg->header.stamp) +
     rclcpp::Duration::from_seconds(
-      static_cast<double>(msg->ranges.size() - 1) * static_cast<double>(msg->time_increment));
+      static_cast<double>(last_meas) * static_cast<double>(msg->time_increment));
   end_odom_pose_tf.header.frame_id = robot_frame_;
   end_odom_pose_tf.pose.orientation.w = 1.0;
   try
@@ -392,11 +393,14 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
   translation.y = -sin(odom_pose.theta) * scan_dx + cos(odom_pose.theta) * scan_dy;
   translation.theta = angles::shortest_angular_distance(odom_pose.theta, end_odom_pose.theta);
 
-  // Now scale it by number of measurements
+  // Now scale it by number of intervals between measurements
   Pose2d trans_per_meas;
-  trans_per_meas.x = translation.x / msg->ranges.size();
-  trans_per_meas.y = translation.y / msg->ranges.size();
-  trans_per_meas.theta = translation.theta / msg->ranges.size();
+  if (last_meas > 0)
+  {
+    trans_per_meas.x = translation.x / last_meas;
+    trans_per_meas.y = translation.y / last_meas;
+    trans_per_meas.theta = translation.theta / last_meas;
+  }
 
   // Need to convert the scan into an ndt_2d style
   ScanPtr scan = std::make_shared<Scan>(graph_->scans.size());
-- 
2.43.0


From e3206025443d07a3898f2cf41609cb0f18a05ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:42 +0000
Subject: [PATCH 21/44] fix: treat only lasers that are upside down as inverted

---
 src/ndt_mapper.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 91f7d6b..35e4974 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -275,8 +275,9 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
       // Determine pose of laser relative to base
       auto t = tf2_buffer_->lookupTransform(robot_frame_, msg->header.frame_id, tf2::TimePointZero);
       laser_transform_ = fromMsg(t);
-      if (std::fabs(t.transform.rotation.x) > 0.02 ||
-          std::fabs(t.transform.rotation.y) > 0.02)
+      // Laser is inverted when its Z axis points down
+      if (std::hypot(t.transform.rotation.x, t.transform.rotation.y) >
+          std::hypot(t.transform.rotation.z, t.transform.rotation.w))
       {
         RCLCPP_WARN(logger_, "Treating laser as inverted");
         laser_inverted_ = true;
-- 
2.43.0


From 204f59906b6db3cc83bc875be9fbbb078c34c364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:34 +0000
Subject: [PATCH 22/44] fix: keep information finite when the covariance is
 singular

---
 src/constraint.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/constraint.cpp b/src/constraint.cpp
index cffa41a..9ceb10c 100644
--- a/src/constraint.cpp
+++ b/src/constraint.cpp
@@ -50,6 +50,11 @@ ConstraintPtr makeConstraint(const ScanPtr & from,
   constraint->transform(2) = to->getPose().theta - from->getPose().theta;
   // Create information matrix
   constraint->information = covariance.inverse();
+  if (!constraint->information.allFinite())
+  {
+    // Covariance is singular, limit how certain we can be
+    constraint->information = (covariance + 1e-6 * Eigen::Matrix3d::Identity()).inverse();
+  }
   // Default is not switchable
   constraint->switchable = false;
   return constraint;
-- 
2.43.0


From 6e9259bf4c563b69d74cf84f51ca6c25931d08eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:34 +0000
Subject: [PATCH 23/44] fix: match against the configured number of latest
 scans

---
 src/ndt_mapper.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 35e4974..c523715 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -509,14 +509,15 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
     if (!graph_->scans.empty())
     {
       // Determine rolling window
-      size_t start = (graph_->scans.size() <= rolling_depth_) ? 0 : graph_->scans.size() - 10;
+      size_t start = (graph_->scans.size() <= rolling_depth_) ? 0 :
+                     graph_->scans.size() - rolling_depth_;
       auto rolling = graph_->scans.begin() + start;
 
       // Create scan matcher with rolling window scans
       local_scan_matcher_->reset();
       local_scan_matcher_->addScans(rolling, graph_->scans.end());
 
-      // Local consistency - match new scan against last 10 scans
+      // Local consistency - match new scan against rolling window
       Pose2d correction;
       Eigen::Matrix3d covariance;
       double uncorrected_score = local_scan_matcher_->scoreScan(scan);
-- 
2.43.0


From 0fb41594b5e506c938b61a1228388e15b7e4e1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:34 +0000
Subject: [PATCH 24/44] fix: accept initial poses whenever the particle filter
 is used

---
 src/ndt_mapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index c523715..70a951d 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -187,7 +187,7 @@ void Mapper::configure(const std::shared_ptr<srv::Configure::Request> request,
 
 void Mapper::poseCallback(const geometry_msgs::msg::PoseWithCovarianceStamped::ConstSharedPtr& msg)
 {
-  if (enable_mapping_ && prev_odom_pose_is_initialized_)
+  if (enable_mapping_ && !use_particle_filter_ && prev_odom_pose_is_initialized_)
   {
     RCLCPP_WARN(logger_, "Ignoring initial pose, already mapping");
     return;
-- 
2.43.0


From 1cd3f9f9218996474a1f3bef8f3812fa64195751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:34 +0000
Subject: [PATCH 25/44] fix: no loop closures when the particle filter is used

---
 src/ndt_mapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 70a951d..54a56d3 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -582,7 +582,7 @@ void Mapper::loopClosureThread()
     std::this_thread::sleep_for(std::chrono::seconds(1));
 
     // Only do loop closure if we are mapping
-    if (!enable_mapping_)
+    if (!enable_mapping_ || use_particle_filter_)
     {
       continue;
     }
-- 
2.43.0


From 1e241dbe6d9127e7e978358f0ea430c110855293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:49 +0000
Subject: [PATCH 26/44] fix: a global search limit of zero means no loop
 closures

---
 src/ndt_mapper.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 54a56d3..92ced70 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -628,6 +628,8 @@ void Mapper::loopClosureThread()
         size_t num_scans_to_check = global_search_limit_;
         for (auto i : scans)
         {
+          if (num_scans_to_check == 0) break;
+
           // Lock graph to access scans
           std::unique_lock<std::mutex> lock(graph_mutex_);
           const auto candidate = graph_->scans[i];
@@ -676,7 +678,7 @@ void Mapper::loopClosureThread()
                                  candidate->getId(), scan->getId(), score);
           }
 
-          if (--num_scans_to_check == 0) break;
+          --num_scans_to_check;
         }
       }
     }
-- 
2.43.0


From e5e0f3b949acd1fcb3bf21f06a332429431a1635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:49 +0000
Subject: [PATCH 27/44] fix: no loop closure before the global scan matcher
 exists

---
 src/ndt_mapper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 92ced70..831f4da 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -581,8 +581,8 @@ void Mapper::loopClosureThread()
   {
     std::this_thread::sleep_for(std::chrono::seconds(1));
 
-    // Only do loop closure if we are mapping
-    if (!enable_mapping_ || use_particle_filter_)
+    // Only do loop closure if we are mapping, and have had a laser scan to set up the matcher
+    if (!enable_mapping_ || use_particle_filter_ || !global_scan_matcher_)
     {
       continue;
     }
-- 
2.43.0


From 2ec452095a72f41f6e89bb813a9e1d0db1e58ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:49 +0000
Subject: [PATCH 28/44] fix: failing to save or load a map does not bring down
 the node

---
 src/ndt_mapper.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 831f4da..d949fb3 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -173,7 +173,15 @@ void Mapper::configure(const std::shared_ptr<srv::Configure::Request> request,
   {
     RCLCPP_INFO(logger_, "Loading map from %s", request->filename.c_str());
     std::lock_guard<std::mutex> lock(graph_mutex_);
-    graph_ = std::make_shared<Graph>(use_barycenter_, request->filename);
+    try
+    {
+      graph_ = std::make_shared<Graph>(use_barycenter_, request->filename);
+    }
+    catch (const std::exception & ex)
+    {
+      RCLCPP_ERROR(logger_, "Could not load map: %s", ex.what());
+      return;
+    }
     map_update_available_ = true;
     prev_odom_pose_is_initialized_ = false;
   }
@@ -181,7 +189,14 @@ void Mapper::configure(const std::shared_ptr<srv::Configure::Request> request,
   {
     RCLCPP_INFO(logger_, "Saving map to %s", request->filename.c_str());
     std::lock_guard<std::mutex> lock(graph_mutex_);
-    graph_->save(request->filename);
+    try
+    {
+      graph_->save(request->filename);
+    }
+    catch (const std::exception & ex)
+    {
+      RCLCPP_ERROR(logger_, "Could not save map: %s", ex.what());
+    }
   }
 }
 
-- 
2.43.0


From 1e1ed95d50d0de5c4744be594c98a6d237f7569c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:08 +0000
Subject: [PATCH 29/44] fix: localize against the whole map after mapping is
 disabled

---
 include/ndt_2d/ndt_mapper.hpp |  5 +++++
 src/ndt_mapper.cpp            | 19 ++++++++++++++++++-
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/include/ndt_2d/ndt_mapper.hpp b/include/ndt_2d/ndt_mapper.hpp
index 9fe6ae4..7767160 100644
--- a/include/ndt_2d/ndt_mapper.hpp
+++ b/include/ndt_2d/ndt_mapper.hpp
@@ -68,6 +68,9 @@ protected:
   /** @brief ROS callback for new laser scan */
   void laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& msg);
 
+  /** @brief Build the global scan matcher from all scans, lock its mutex before */
+  void buildGlobalScanMatcher();
+
   // Thread for doing global loop closure
   void loopClosureThread();
   size_t global_scans_processed_;
@@ -100,6 +103,8 @@ protected:
   // Scan matchers
   // Used for loop closure when mapping, and localization
   ScanMatcherPtr global_scan_matcher_;
+  // Held by loop closure while it uses the matcher, lock before graph_mutex_
+  std::mutex global_scan_matcher_mutex_;
   // Used for odometric correction when mapping
   ScanMatcherPtr local_scan_matcher_;
   pluginlib::ClassLoader<ScanMatcher> scan_matcher_loader_;
diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index d949fb3..3405eb3 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -164,7 +164,11 @@ void Mapper::configure(const std::shared_ptr<srv::Configure::Request> request,
   else if (request->action & srv::Configure::Request::DISABLE_MAPPING)
   {
     RCLCPP_INFO(logger_, "Disabling mapping");
+    // Wait for loop closure, which stops when no longer mapping
+    std::lock_guard<std::mutex> matcher_lock(global_scan_matcher_mutex_);
+    std::lock_guard<std::mutex> lock(graph_mutex_);
     enable_mapping_ = false;
+    buildGlobalScanMatcher();
     // Need to be relocalized before mapping can continue
     prev_odom_pose_is_initialized_ = false;
   }
@@ -315,7 +319,7 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
       global_scan_matcher_ = scan_matcher_loader_.createSharedInstance(scan_matcher_type_);
       global_scan_matcher_->initialize("global_scan_matcher", this, range_max_);
       // Note: no need to lock graph here, since this thread is the only one that adds scans
-      global_scan_matcher_->addScans(graph_->scans.begin(), graph_->scans.end());
+      buildGlobalScanMatcher();
     }
     else
     {
@@ -590,6 +594,14 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
   }
 }
 
+void Mapper::buildGlobalScanMatcher()
+{
+  // Without a matcher, the first laser scan will build it
+  if (!global_scan_matcher_) return;
+  global_scan_matcher_->reset();
+  global_scan_matcher_->addScans(graph_->scans.begin(), graph_->scans.end());
+}
+
 void Mapper::loopClosureThread()
 {
   while (rclcpp::ok())
@@ -627,6 +639,10 @@ void Mapper::loopClosureThread()
       // We have new scans to process
       for (; global_scans_processed_ < num_scans; ++global_scans_processed_)
       {
+        // The matcher is ours for this scan, unless mapping was disabled
+        std::lock_guard<std::mutex> matcher_lock(global_scan_matcher_mutex_);
+        if (!enable_mapping_) break;
+
         // Determine where rolling window starts
         size_t rolling = global_scans_processed_ - rolling_depth_;
 
@@ -703,6 +719,7 @@ void Mapper::loopClosureThread()
     {
       RCLCPP_INFO(logger_, "Optimizing pose graph");
       std::lock_guard<std::mutex> lock(graph_mutex_);
+      if (!enable_mapping_) continue;
       solver_->optimize(graph_->constraints, graph_->scans);
       optimization_last_ = graph_->scans.size();
       map_update_available_ = true;
-- 
2.43.0


From 0799d682b4843acba362d18aef76391f6fb678ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:33 +0000
Subject: [PATCH 30/44] fix: loading a map resets everything derived from the
 previous one

---
 src/ndt_mapper.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 3405eb3..305d5e6 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -176,6 +176,8 @@ void Mapper::configure(const std::shared_ptr<srv::Configure::Request> request,
   if (request->action & srv::Configure::Request::LOAD_FROM_FILE)
   {
     RCLCPP_INFO(logger_, "Loading map from %s", request->filename.c_str());
+    // Wait for loop closure, which must not add to the new map what it found in the old one
+    std::lock_guard<std::mutex> matcher_lock(global_scan_matcher_mutex_);
     std::lock_guard<std::mutex> lock(graph_mutex_);
     try
     {
@@ -186,6 +188,17 @@ void Mapper::configure(const std::shared_ptr<srv::Configure::Request> request,
       RCLCPP_ERROR(logger_, "Could not load map: %s", ex.what());
       return;
     }
+    // Nothing known about the previous map applies to this one
+    solver_ = std::make_shared<CeresSolver>();
+    global_scans_processed_ = 0;
+    optimization_last_ = 0;
+    typical_matcher_response_ = -0.5;
+    buildGlobalScanMatcher();
+    {
+      std::lock_guard<std::mutex> pose_lock(prev_pose_mutex_);
+      prev_odom_pose_ = Pose2d();
+      prev_robot_pose_ = Pose2d();
+    }
     map_update_available_ = true;
     prev_odom_pose_is_initialized_ = false;
   }
@@ -616,8 +629,10 @@ void Mapper::loopClosureThread()
 
     // Determine number of scans (under lock)
     size_t num_scans;
+    GraphPtr graph;
     {
       std::lock_guard<std::mutex> lock(graph_mutex_);
+      graph = graph_;
       num_scans = graph_->scans.size();
     }
 
@@ -637,11 +652,11 @@ void Mapper::loopClosureThread()
     if (num_scans > global_scans_processed_)
     {
       // We have new scans to process
-      for (; global_scans_processed_ < num_scans; ++global_scans_processed_)
+      while (global_scans_processed_ < num_scans)
       {
-        // The matcher is ours for this scan, unless mapping was disabled
+        // The matcher is ours for this scan, unless mapping was disabled or a map loaded
         std::lock_guard<std::mutex> matcher_lock(global_scan_matcher_mutex_);
-        if (!enable_mapping_) break;
+        if (!enable_mapping_ || graph_ != graph) break;
 
         // Determine where rolling window starts
         size_t rolling = global_scans_processed_ - rolling_depth_;
@@ -711,6 +726,7 @@ void Mapper::loopClosureThread()
 
           --num_scans_to_check;
         }
+        ++global_scans_processed_;
       }
     }
 
@@ -719,7 +735,7 @@ void Mapper::loopClosureThread()
     {
       RCLCPP_INFO(logger_, "Optimizing pose graph");
       std::lock_guard<std::mutex> lock(graph_mutex_);
-      if (!enable_mapping_) continue;
+      if (!enable_mapping_ || graph_ != graph) continue;
       solver_->optimize(graph_->constraints, graph_->scans);
       optimization_last_ = graph_->scans.size();
       map_update_available_ = true;
-- 
2.43.0


From ed7cedb83bc1c1b4ce6b776f4eae53d57337de5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:29 +0000
Subject: [PATCH 31/44] fix: disabling mapping stops loop closure at the scan
 it is at

---
 include/ndt_2d/ndt_mapper.hpp | 3 ++-
 src/ndt_mapper.cpp            | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ndt_2d/ndt_mapper.hpp b/include/ndt_2d/ndt_mapper.hpp
index 7767160..ad28200 100644
--- a/include/ndt_2d/ndt_mapper.hpp
+++ b/include/ndt_2d/ndt_mapper.hpp
@@ -32,6 +32,7 @@
 #include <tf2_ros/buffer.h>
 #include <tf2_ros/transform_listener.h>
 #include <tf2_ros/transform_broadcaster.h>
+#include <atomic>
 #include <memory>
 #include <mutex>
 #include <string>
@@ -126,7 +127,7 @@ protected:
   // Map data
   GraphPtr graph_;
   std::mutex graph_mutex_;
-  bool enable_mapping_;
+  std::atomic<bool> enable_mapping_;
   std::mutex prev_pose_mutex_;
   // The previous odom_frame_->robot_frame_
   Pose2d prev_odom_pose_;
diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 305d5e6..1495611 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -164,10 +164,10 @@ void Mapper::configure(const std::shared_ptr<srv::Configure::Request> request,
   else if (request->action & srv::Configure::Request::DISABLE_MAPPING)
   {
     RCLCPP_INFO(logger_, "Disabling mapping");
+    enable_mapping_ = false;
     // Wait for loop closure, which stops when no longer mapping
     std::lock_guard<std::mutex> matcher_lock(global_scan_matcher_mutex_);
     std::lock_guard<std::mutex> lock(graph_mutex_);
-    enable_mapping_ = false;
     buildGlobalScanMatcher();
     // Need to be relocalized before mapping can continue
     prev_odom_pose_is_initialized_ = false;
-- 
2.43.0


From 1a1ebaba3d761d104eed1ba7b5d724c29ed6d456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:47 +0000
Subject: [PATCH 32/44] fix: publish the map after an initial pose was added to
 it

---
 src/ndt_mapper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 1495611..a6cc23a 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -285,6 +285,7 @@ void Mapper::poseCallback(const geometry_msgs::msg::PoseWithCovarianceStamped::C
     covariance(2, 2) = msg->pose.covariance[35];
     ConstraintPtr constraint = makeConstraint(graph_->scans[nearest[0]], scan, covariance);
     graph_->constraints.push_back(constraint);
+    map_update_available_ = true;
   }
 
   // Localize robot
-- 
2.43.0


From b031f220b3f52ac5fbc976937a797ca9af4674e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:56 +0000
Subject: [PATCH 33/44] fix: make flags shared between threads atomic

---
 include/ndt_2d/ndt_mapper.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ndt_2d/ndt_mapper.hpp b/include/ndt_2d/ndt_mapper.hpp
index ad28200..e0861e5 100644
--- a/include/ndt_2d/ndt_mapper.hpp
+++ b/include/ndt_2d/ndt_mapper.hpp
@@ -79,7 +79,7 @@ protected:
 
   // Thread for publishing map and transforms
   void mapPublishThread();
-  bool map_update_available_;
+  std::atomic<bool> map_update_available_;
   std::unique_ptr<std::thread> map_publish_thread_;
 
   // Mapping parameters
@@ -110,7 +110,7 @@ protected:
   ScanMatcherPtr local_scan_matcher_;
   pluginlib::ClassLoader<ScanMatcher> scan_matcher_loader_;
   std::string scan_matcher_type_;
-  double typical_matcher_response_;
+  std::atomic<double> typical_matcher_response_;
 
   // ROS 2 interfaces
   rclcpp::Logger logger_;
-- 
2.43.0


From 99f8134ed0f1b323222e10551d52ceccba34b9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:19 +0000
Subject: [PATCH 34/44] fix: create the global scan matcher under its lock

---
 src/ndt_mapper.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index a6cc23a..8272410 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -327,6 +327,7 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
     laser_frame_ = msg->header.frame_id;
 
     // range_max_ must be set before building the global scan matcher NDT
+    std::lock_guard<std::mutex> matcher_lock(global_scan_matcher_mutex_);
     if (use_particle_filter_ || !enable_mapping_)
     {
       // When localizing, global scan matcher uses ALL scans
@@ -623,7 +624,7 @@ void Mapper::loopClosureThread()
     std::this_thread::sleep_for(std::chrono::seconds(1));
 
     // Only do loop closure if we are mapping, and have had a laser scan to set up the matcher
-    if (!enable_mapping_ || use_particle_filter_ || !global_scan_matcher_)
+    if (!enable_mapping_ || use_particle_filter_)
     {
       continue;
     }
@@ -632,6 +633,8 @@ void Mapper::loopClosureThread()
     size_t num_scans;
     GraphPtr graph;
     {
+      std::lock_guard<std::mutex> matcher_lock(global_scan_matcher_mutex_);
+      if (!global_scan_matcher_) continue;
       std::lock_guard<std::mutex> lock(graph_mutex_);
       graph = graph_;
       num_scans = graph_->scans.size();
-- 
2.43.0


From 2a9f44b955ec0b524c43b966790b4b9ffe865622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:45 +0000
Subject: [PATCH 35/44] fix: make the progress of loop closure, which loading
 resets, atomic

---
 include/ndt_2d/ndt_mapper.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ndt_2d/ndt_mapper.hpp b/include/ndt_2d/ndt_mapper.hpp
index e0861e5..17ba084 100644
--- a/include/ndt_2d/ndt_mapper.hpp
+++ b/include/ndt_2d/ndt_mapper.hpp
@@ -74,7 +74,7 @@ protected:
 
   // Thread for doing global loop closure
   void loopClosureThread();
-  size_t global_scans_processed_;
+  std::atomic<size_t> global_scans_processed_;
   std::unique_ptr<std::thread> loop_closure_thread_;
 
   // Thread for publishing map and transforms
@@ -92,7 +92,8 @@ protected:
   double global_search_size_;
   size_t global_search_limit_;
   // How many nodes need to be added between optimization
-  size_t optimization_node_limit_, optimization_last_;
+  size_t optimization_node_limit_;
+  std::atomic<size_t> optimization_last_;
   double transform_timeout_;
   double range_max_;
 
-- 
2.43.0


From 3c506ca355aae7333a3ae4780621835b7638a5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:45 +0000
Subject: [PATCH 36/44] fix: move scans of loop closures under the lock of the
 graph

---
 src/ndt_mapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 8272410..2a6a5f5 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -710,6 +710,7 @@ void Mapper::loopClosureThread()
                                  candidate->getId(), scan->getId(), score);
 
             // Correct pose
+            lock.lock();  // lock before changing the graph
             correction.x += scan->getPose().x;
             correction.y += scan->getPose().y;
             correction.theta += scan->getPose().theta;
@@ -718,7 +719,6 @@ void Mapper::loopClosureThread()
             // Add constraint to the graph
             ConstraintPtr constraint = makeConstraint(candidate, scan, covariance);
             constraint->switchable = true;
-            lock.lock();  // lock before adding constraint
             graph_->constraints.push_back(constraint);
             map_update_available_ = true;
           }
-- 
2.43.0


From 014afb302790155d10d735ca2354fd1225523914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:45 +0000
Subject: [PATCH 37/44] fix: match new scans under the lock of the graph they
 are added to

---
 src/ndt_mapper.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 2a6a5f5..1123bef 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -536,6 +536,9 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
   }
   else if (enable_mapping_)
   {
+    // Loop closure must not move scans between matching against them and adding the new one
+    std::lock_guard<std::mutex> graph_lock(graph_mutex_);
+
     RCLCPP_INFO(logger_, "Adding scan %lu to map", graph_->scans.size());
     RCLCPP_INFO(logger_, "Odom pose: %f, %f, %f", odom_pose.x, odom_pose.y, odom_pose.theta);
 
@@ -568,7 +571,6 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
 
       // Add odom constraint to the graph
       ConstraintPtr constraint = makeConstraint(graph_->scans.back(), scan, covariance);
-      std::lock_guard<std::mutex> lock(graph_mutex_);
       graph_->constraints.push_back(constraint);
     }
 
@@ -576,10 +578,7 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
                 scan->getPose().x, scan->getPose().y, scan->getPose().theta);
 
     // Append new scan to our graph
-    {
-      std::lock_guard<std::mutex> lock(graph_mutex_);
-      graph_->scans.push_back(scan);
-    }
+    graph_->scans.push_back(scan);
 
     // Update previous pose tracking (under lock)
     std::lock_guard<std::mutex> lock(prev_pose_mutex_);
-- 
2.43.0


From 2c35074d949704ed0fbe894ca2482a23ada1c25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:45 +0000
Subject: [PATCH 38/44] fix: lock the pose estimate when setting the initial
 pose

---
 src/ndt_mapper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 1123bef..fe09487 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -289,6 +289,7 @@ void Mapper::poseCallback(const geometry_msgs::msg::PoseWithCovarianceStamped::C
   }
 
   // Localize robot
+  std::lock_guard<std::mutex> lock(prev_pose_mutex_);
   prev_robot_pose_ = fromMsg(msg->pose.pose);
   prev_odom_pose_ = fromMsg(odom_to_robot);
   prev_odom_pose_is_initialized_ = true;
-- 
2.43.0


From 365be8ec3c3e32a96251736637b40cba41b932b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:45 +0000
Subject: [PATCH 39/44] fix: lock the graph to see whether there is a map to
 publish a transform for

---
 src/ndt_mapper.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index fe09487..7688976 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -777,7 +777,10 @@ void Mapper::mapPublishThread()
     }
 
     // Publish TF
-    if (!graph_->scans.empty())
+    std::unique_lock<std::mutex> graph_lock(graph_mutex_);
+    bool have_map = !graph_->scans.empty();
+    graph_lock.unlock();
+    if (have_map)
     {
       // Lock previous poses before accessing
       std::unique_lock<std::mutex> lock(prev_pose_mutex_);
-- 
2.43.0


From 3bbcf231d0388c80db6aeb465c12c51ffff2f3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:39 +0000
Subject: [PATCH 40/44] fix: end the threads of a mapper that is destroyed
 while ROS is running

Unloading the component from its container called the destructor, which
waited for threads that only end when ROS is shut down.
---
 include/ndt_2d/ndt_mapper.hpp |  3 +++
 src/ndt_mapper.cpp            | 10 ++++++----
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/ndt_2d/ndt_mapper.hpp b/include/ndt_2d/ndt_mapper.hpp
index 17ba084..9cc1b8e 100644
--- a/include/ndt_2d/ndt_mapper.hpp
+++ b/include/ndt_2d/ndt_mapper.hpp
@@ -82,6 +82,9 @@ protected:
   std::atomic<bool> map_update_available_;
   std::unique_ptr<std::thread> map_publish_thread_;
 
+  // Set by the destructor, to end the threads
+  std::atomic<bool> shutdown_;
+
   // Mapping parameters
   double map_resolution_;
   double minimum_travel_distance_, minimum_travel_rotation_;
diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 7688976..b5dd058 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -49,6 +49,7 @@ Mapper::Mapper(const rclcpp::NodeOptions & options)
 : rclcpp::Node("ndt_2d_mapper", options),
   global_scans_processed_(0),
   map_update_available_(false),
+  shutdown_(false),
   laser_inverted_(false),
   optimization_last_(0),
   scan_matcher_loader_("ndt_2d", "ndt_2d::ScanMatcher"),
@@ -144,7 +145,8 @@ Mapper::Mapper(const rclcpp::NodeOptions & options)
 
 Mapper::~Mapper()
 {
-  // Shut down threads
+  // Shut down threads, ROS may still be running if this is an unloaded component
+  shutdown_ = true;
   map_publish_thread_->join();
   loop_closure_thread_->join();
   // Clean these up to avoid pluginlib errors
@@ -619,7 +621,7 @@ void Mapper::buildGlobalScanMatcher()
 
 void Mapper::loopClosureThread()
 {
-  while (rclcpp::ok())
+  while (rclcpp::ok() && !shutdown_)
   {
     std::this_thread::sleep_for(std::chrono::seconds(1));
 
@@ -660,7 +662,7 @@ void Mapper::loopClosureThread()
       {
         // The matcher is ours for this scan, unless mapping was disabled or a map loaded
         std::lock_guard<std::mutex> matcher_lock(global_scan_matcher_mutex_);
-        if (!enable_mapping_ || graph_ != graph) break;
+        if (shutdown_ || !enable_mapping_ || graph_ != graph) break;
 
         // Determine where rolling window starts
         size_t rolling = global_scans_processed_ - rolling_depth_;
@@ -749,7 +751,7 @@ void Mapper::loopClosureThread()
 
 void Mapper::mapPublishThread()
 {
-  while (rclcpp::ok())
+  while (rclcpp::ok() && !shutdown_)
   {
     if (map_update_available_)
     {
-- 
2.43.0


From bdf39c7520fbbff1ac9eb21494bbb462883d4d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:30 +0000
Subject: [PATCH 41/44] fix: release the problem of a solver that is no longer
 used

Every map that was loaded, and every mapper that was unloaded, left its
optimization problem behind.
---
 include/ndt_2d/ceres_solver.hpp | 3 ++-
 src/ceres_solver.cpp            | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/ndt_2d/ceres_solver.hpp b/include/ndt_2d/ceres_solver.hpp
index 5d87545..895a24f 100644
--- a/include/ndt_2d/ceres_solver.hpp
+++ b/include/ndt_2d/ceres_solver.hpp
@@ -31,6 +31,7 @@
 
 #include <Eigen/Core>
 #include <ceres/ceres.h>
+#include <memory>
 #include <unordered_map>
 #include <vector>
 #include <ndt_2d/graph.hpp>
@@ -59,7 +60,7 @@ private:
                                        std::vector<ScanPtr> & scans);
 
   // Incrementally build the problem to avoid large initialization time
-  ceres::Problem * problem_;
+  std::unique_ptr<ceres::Problem> problem_;
   ceres::Solver::Options options_;
 
   // Duplicate each node/scan pose so that failed optimizations don't break our map
diff --git a/src/ceres_solver.cpp b/src/ceres_solver.cpp
index 26bdc8b..3d28326 100644
--- a/src/ceres_solver.cpp
+++ b/src/ceres_solver.cpp
@@ -39,7 +39,7 @@ CeresSolver::CeresSolver()
   options_.max_num_iterations = 100;
   options_.linear_solver_type = ceres::SPARSE_NORMAL_CHOLESKY;
 
-  problem_ = new ceres::Problem();
+  problem_ = std::make_unique<ceres::Problem>();
 }
 
 void CeresSolver::setVerbose(bool verbose)
@@ -96,7 +96,7 @@ bool CeresSolver::optimize(const std::vector<ConstraintPtr> & constraints,
 
   // Run the solver
   ceres::Solver::Summary summary;
-  ceres::Solve(options_, problem_, &summary);
+  ceres::Solve(options_, problem_.get(), &summary);
 
   if (!summary.IsSolutionUsable())
   {
-- 
2.43.0


From ee9935529faf57d189a1e1b0f8543188b3910592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:10 +0000
Subject: [PATCH 42/44] fix: do not load maps with constraints of scans they do
 not have

---
 src/ndt_mapper.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index b5dd058..bca7f72 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -45,6 +45,20 @@
 namespace ndt_2d
 {
 
+// Loads a graph, throws if it has constraints of scans that it does not have
+static GraphPtr loadGraph(bool use_barycenter, const std::string & filename)
+{
+  GraphPtr graph = std::make_shared<Graph>(use_barycenter, filename);
+  for (auto & constraint : graph->constraints)
+  {
+    if (constraint->begin >= graph->scans.size() || constraint->end >= graph->scans.size())
+    {
+      throw std::runtime_error("constraint of a scan that is not in the map");
+    }
+  }
+  return graph;
+}
+
 Mapper::Mapper(const rclcpp::NodeOptions & options)
 : rclcpp::Node("ndt_2d_mapper", options),
   global_scans_processed_(0),
@@ -111,7 +125,7 @@ Mapper::Mapper(const rclcpp::NodeOptions & options)
   }
   else
   {
-    graph_ = std::make_shared<Graph>(use_barycenter_, map_file);
+    graph_ = loadGraph(use_barycenter_, map_file);
     prev_odom_pose_is_initialized_ = false;
     map_update_available_ = true;
   }
@@ -183,7 +197,7 @@ void Mapper::configure(const std::shared_ptr<srv::Configure::Request> request,
     std::lock_guard<std::mutex> lock(graph_mutex_);
     try
     {
-      graph_ = std::make_shared<Graph>(use_barycenter_, request->filename);
+      graph_ = loadGraph(use_barycenter_, request->filename);
     }
     catch (const std::exception & ex)
     {
-- 
2.43.0


From 1c86111823d85fde8d80ee21a361b600aa611201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:10 +0000
Subject: [PATCH 43/44] fix: ignore malformed laser scans and initial poses

---
 src/ndt_mapper.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index bca7f72..82b6e8c 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -247,6 +247,22 @@ void Mapper::poseCallback(const geometry_msgs::msg::PoseWithCovarianceStamped::C
     return;
   }
 
+  const auto & position = msg->pose.pose.position;
+  const auto & orientation = msg->pose.pose.orientation;
+  bool valid = std::isfinite(position.x) && std::isfinite(position.y) &&
+    std::isfinite(orientation.x) && std::isfinite(orientation.y) &&
+    std::isfinite(orientation.z) && std::isfinite(orientation.w);
+  for (size_t i : {0, 7, 35})
+  {
+    const double variance = msg->pose.covariance[i];
+    valid = valid && (!use_particle_filter_ || (std::isfinite(variance) && variance >= 0));
+  }
+  if (!valid)
+  {
+    RCLCPP_ERROR(logger_, "Ignoring malformed initial pose");
+    return;
+  }
+
   // Find transform from odom to robot frames
   geometry_msgs::msg::TransformStamped odom_to_robot;
   try
@@ -316,6 +332,14 @@ void Mapper::poseCallback(const geometry_msgs::msg::PoseWithCovarianceStamped::C
 
 void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& msg)
 {
+  // Points of a malformed message would be nowhere
+  if (!std::isfinite(msg->angle_min) || !std::isfinite(msg->angle_increment) ||
+      !std::isfinite(msg->time_increment) || (range_max_ < 0 && !std::isfinite(msg->range_max)))
+  {
+    RCLCPP_ERROR(logger_, "Ignoring malformed laser scan");
+    return;
+  }
+
   // Save data from laser scan message
   if (range_max_ < 0) range_max_ = msg->range_max;
   if (laser_frame_ == "")
-- 
2.43.0


From d44caf39b94617c3965162f65338c5553b967919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:10 +0000
Subject: [PATCH 44/44] fix: discard ranges below the minimum of the laser

---
 src/ndt_mapper.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 82b6e8c..92c9da9 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -493,8 +493,9 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
   {
     for (size_t i = msg->ranges.size(); i-- > 0; )
     {
-      // Filter out NANs, infinities and scans beyond max range
-      if (!std::isfinite(msg->ranges[i]) || msg->ranges[i] > range_max_) continue;
+      // Filter out NANs, infinities and scans below min or beyond max range
+      if (!std::isfinite(msg->ranges[i]) ||
+          msg->ranges[i] < msg->range_min || msg->ranges[i] > range_max_) continue;
       // Project point in laser frame
       double angle = -(msg->angle_min + i * msg->angle_increment);
       Point lp(cos(angle) * msg->ranges[i],
@@ -515,8 +516,9 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
   {
     for (size_t i = 0; i < msg->ranges.size(); ++i)
     {
-      // Filter out NANs, infinities and scans beyond max range
-      if (!std::isfinite(msg->ranges[i]) || msg->ranges[i] > range_max_) continue;
+      // Filter out NANs, infinities and scans below min or beyond max range
+      if (!std::isfinite(msg->ranges[i]) ||
+          msg->ranges[i] < msg->range_min || msg->ranges[i] > range_max_) continue;
       // Project point in laser frame
       double angle = (msg->angle_min + i * msg->angle_increment);
       Point lp(cos(angle) * msg->ranges[i],
-- 
2.43.0

