From ab46259a63794134e6398166efbffc773b0c041b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:22 +0000
Subject: [PATCH 01/36] fix: SEK3::inverse keeps the dimension of the pose

---
 src/math/se_k_3.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/math/se_k_3.cpp b/src/math/se_k_3.cpp
index 891492c..a21718b 100644
--- a/src/math/se_k_3.cpp
+++ b/src/math/se_k_3.cpp
@@ -62,10 +62,13 @@ SEK3 SEK3::operator*(const SEK3& X) {
 
 // methods
 SEK3 SEK3::inverse() {
-  SEK3 Y;
-  Y.set_R(this->get_R().transpose());
-  Y.set_p(-this->get_R().transpose() * this->get_p());
-  Y.set_v(-this->get_R().transpose() * this->get_v());
+  SEK3 Y(X_);
+  const Eigen::Matrix3d Rt = X_.block<3, 3>(0, 0).transpose();
+  Y.set_R(Rt);
+  // Every attached vector (position, velocity, ...) maps to -R^T * x.
+  for (int i = 3; i < X_.cols(); ++i) {
+    Y.X_.block<3, 1>(0, i) = -Rt * X_.block<3, 1>(0, i);
+  }
   Y.set_K(this->get_K());
   return Y;
 }
-- 
2.43.0


From 51d183984769aae27f5c33a8e8e8336522d41e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:41 +0000
Subject: [PATCH 02/36] fix: bias columns of the transition matrix at vanishing
 rotation rate (integer division made them zero)

---
 src/filter/inekf/propagation/imu_propagation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filter/inekf/propagation/imu_propagation.cpp b/src/filter/inekf/propagation/imu_propagation.cpp
index abb038c..3f36ee7 100644
--- a/src/filter/inekf/propagation/imu_propagation.cpp
+++ b/src/filter/inekf/propagation/imu_propagation.cpp
@@ -307,8 +307,8 @@ Eigen::MatrixXd ImuPropagation::StateTransitionMatrix(const Eigen::Vector3d& w,
   /// TODO: Get better approximation using taylor series when theta < tol
   const double tol = 1e-6;
   if (theta < tol) {
-    Phi25L = (1 / 2) * ax * dt2;
-    Phi35L = (1 / 6) * ax * dt3;
+    Phi25L = (1.0 / 2.0) * ax * dt2;
+    Phi35L = (1.0 / 6.0) * ax * dt3;
   }
 
   // Fill out analytical state transition matrices
-- 
2.43.0


From e40ac13aab956bf09d01ee158a4b354539d8a8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:31 +0000
Subject: [PATCH 03/36] fix: left-invariant observations map the covariance
 from the right- to the left-invariant error (the condition was inverted)

---
 src/filter/inekf/inekf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter/inekf/inekf.cpp b/src/filter/inekf/inekf.cpp
index 8e50d9f..fbf4f72 100644
--- a/src/filter/inekf/inekf.cpp
+++ b/src/filter/inekf/inekf.cpp
@@ -122,7 +122,7 @@ void CorrectLeftInvariant(const Eigen::MatrixXd& Z, const Eigen::MatrixXd& H,
   }
 
   // Map from right invariant to left invariant error temporarily
-  if (error_type == ErrorType::LeftInvariant) {
+  if (error_type == ErrorType::RightInvariant) {
     Eigen::MatrixXd AdjInv = Eigen::MatrixXd::Identity(dimP, dimP);
     AdjInv.block(0, 0, dimP - dimTheta, dimP - dimTheta)
         = lie_group::Adjoint_SEK3(state.get_Xinv());
-- 
2.43.0


From 50dd6d24d51bcff934077e63ec34703e4b879fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:32 +0000
Subject: [PATCH 04/36] fix: velocity correction never consumes a measurement
 newer than the last propagation

---
 src/filter/inekf/correction/velocity_correction.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/filter/inekf/correction/velocity_correction.cpp b/src/filter/inekf/correction/velocity_correction.cpp
index 5e7f3f3..37ca88e 100644
--- a/src/filter/inekf/correction/velocity_correction.cpp
+++ b/src/filter/inekf/correction/velocity_correction.cpp
@@ -105,10 +105,13 @@ bool VelocityCorrection::Correct(RobotState& state) {
         return false;
       }
       measured_velocity = sensor_data_buffer_ptr_->front();
+      t_diff = measured_velocity->get_time() - state.get_propagate_time();
+      if (t_diff >= 0) {
+        sensor_data_buffer_mutex_ptr_->unlock();
+        return false;
+      }
       sensor_data_buffer_ptr_->pop();
       sensor_data_buffer_mutex_ptr_->unlock();
-
-      t_diff = measured_velocity->get_time() - state.get_propagate_time();
     }
   }
 
-- 
2.43.0


From a2f2932368575691609f69c73f1e9cd23e1bd205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:32 +0000
Subject: [PATCH 05/36] fix: velocity initialisation uses the sensor rotation
 and scale

---
 src/filter/inekf/correction/velocity_correction.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/filter/inekf/correction/velocity_correction.cpp b/src/filter/inekf/correction/velocity_correction.cpp
index 37ca88e..1c2b18b 100644
--- a/src/filter/inekf/correction/velocity_correction.cpp
+++ b/src/filter/inekf/correction/velocity_correction.cpp
@@ -168,8 +168,9 @@ bool VelocityCorrection::initialize(RobotState& state) {
   sensor_data_buffer_ptr_->pop();
   sensor_data_buffer_mutex_ptr_.get()->unlock();
 
-  // Apply the rotation to map the body velocity to the world frame
-  state.set_velocity(state.get_rotation() * measured_velocity->get_velocity());
+  // Rotate the velocity from sensor frame to body frame, then to world frame
+  state.set_velocity(state.get_rotation() * R_vel2body_ * velocity_scale_
+                     * measured_velocity->get_velocity());
   state.set_time(measured_velocity->get_time());
   return true;
 }
-- 
2.43.0


From 03f9ed034cdec84e95efb9aaf4f8b2527622121e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:33 +0000
Subject: [PATCH 06/36] fix: legged correction really skips measurements that
 are too new

---
 src/filter/inekf/correction/legged_kinematics_correction.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/filter/inekf/correction/legged_kinematics_correction.cpp b/src/filter/inekf/correction/legged_kinematics_correction.cpp
index 053f3d1..ae7ed26 100644
--- a/src/filter/inekf/correction/legged_kinematics_correction.cpp
+++ b/src/filter/inekf/correction/legged_kinematics_correction.cpp
@@ -82,7 +82,8 @@ bool LeggedKinematicsCorrection::Correct(RobotState& state) {
 
       t_diff = kinematics_measurement->get_time() - state.get_propagate_time();
     }
-  } else if (t_diff > t_diff_thres_) {
+  }
+  if (t_diff > t_diff_thres_) {
     std::cerr
         << std::setprecision(20)
         << "Measurement received in the velocity correction is way faster than "
@@ -92,6 +93,7 @@ bool LeggedKinematicsCorrection::Correct(RobotState& state) {
         << ", this measurement time: " << kinematics_measurement->get_time()
         << ", time diff: " << t_diff << ", set threshold: " << t_diff_thres_
         << std::endl;
+    return false;
   }
 
   state.set_time(kinematics_measurement->get_time());
-- 
2.43.0


From 082a1ddf1ac8ac29f9d10c3836aeb5dab8587668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:41 +0000
Subject: [PATCH 07/36] fix: inserting a contact keeps the process noise of the
 contacts already tracked

---
 src/state/robot_state.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/state/robot_state.cpp b/src/state/robot_state.cpp
index 88c203c..7f555d1 100644
--- a/src/state/robot_state.cpp
+++ b/src/state/robot_state.cpp
@@ -148,12 +148,13 @@ int RobotState::add_aug_state(const Eigen::Vector3d& aug,
   int dimTheta = this->dimTheta();
   Eigen::MatrixXd Qc_aug = Eigen::MatrixXd::Zero(dimQc + 3, dimQc + 3);
 
-  Qc_aug.topLeftCorner(this->dimX(), this->dimX())
-      = this->Qc_.topLeftCorner(this->dimX(), this->dimX());
-  Qc_aug.bottomLeftCorner(dimTheta, this->dimX())
-      = this->Qc_.bottomLeftCorner(dimTheta, this->dimX());
-  Qc_aug.topRightCorner(this->dimX(), dimTheta)
-      = this->Qc_.topRightCorner(this->dimX(), dimTheta);
+  int dimPose = dimQc - dimTheta;
+  Qc_aug.topLeftCorner(dimPose, dimPose)
+      = this->Qc_.topLeftCorner(dimPose, dimPose);
+  Qc_aug.bottomLeftCorner(dimTheta, dimPose)
+      = this->Qc_.bottomLeftCorner(dimTheta, dimPose);
+  Qc_aug.topRightCorner(dimPose, dimTheta)
+      = this->Qc_.topRightCorner(dimPose, dimTheta);
   Qc_aug.bottomRightCorner(dimTheta, dimTheta)
       = this->Qc_.bottomRightCorner(dimTheta, dimTheta);
   Qc_aug.block<3, 3>(dimQc - dimTheta, dimQc - dimTheta) = noise_cov;
-- 
2.43.0


From 264ebafc78edfde7d333599d7d649139a6d6aad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:48 +0000
Subject: [PATCH 08/36] fix: a default-constructed legged measurement has zero
 joint rates instead of none

---
 src/kinematics/mini_cheetah_kinematics.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kinematics/mini_cheetah_kinematics.cpp b/src/kinematics/mini_cheetah_kinematics.cpp
index 85b9fca..84962bf 100644
--- a/src/kinematics/mini_cheetah_kinematics.cpp
+++ b/src/kinematics/mini_cheetah_kinematics.cpp
@@ -26,6 +26,7 @@ MiniCheetahKinematics::MiniCheetahKinematics() {
   jacobians_.setConstant(3, NLEG * NAPL, 0);
   contacts_.setConstant(NLEG, 1, 0);
   encoders_.setConstant(NLEG * NAPL, 1, 0);
+  d_encoders_.setConstant(NLEG * NAPL, 1, 0);
 }
 
 MiniCheetahKinematics::MiniCheetahKinematics(
-- 
2.43.0


From 925648e47cf39471f7dcbdb2b71fef1716e201a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:01 +0000
Subject: [PATCH 09/36] fix: legged measurements built from data report their
 type

---
 src/measurement/legged_kinematics.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/measurement/legged_kinematics.cpp b/src/measurement/legged_kinematics.cpp
index 9c78471..8959660 100644
--- a/src/measurement/legged_kinematics.cpp
+++ b/src/measurement/legged_kinematics.cpp
@@ -21,7 +21,10 @@ LeggedKinematicsMeasurement::LeggedKinematicsMeasurement(
     const Eigen::Matrix<double, Eigen::Dynamic, 1>& encoders,
     const Eigen::Matrix<double, Eigen::Dynamic, 1>& d_encoders,
     const Eigen::Matrix<bool, Eigen::Dynamic, 1>& contacts)
-    : encoders_(encoders), d_encoders_(d_encoders), contacts_(contacts) {}
+    : Measurement(LEGGED_KINEMATICS),
+      contacts_(contacts),
+      encoders_(encoders),
+      d_encoders_(d_encoders) {}
 
 void LeggedKinematicsMeasurement::set_contact(
     const Eigen::Matrix<bool, Eigen::Dynamic, 1>& contacts) {
-- 
2.43.0


From 586f4b4c88668d4174f4fb286b59d609710b05da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:01 +0000
Subject: [PATCH 10/36] fix: quaternion validation rejects NaN

---
 include/drift/measurement/impl/imu_impl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/drift/measurement/impl/imu_impl.cpp b/include/drift/measurement/impl/imu_impl.cpp
index 9aff3b7..86b7d16 100644
--- a/include/drift/measurement/impl/imu_impl.cpp
+++ b/include/drift/measurement/impl/imu_impl.cpp
@@ -69,7 +69,7 @@ template<typename T>
 void ImuMeasurement<T>::validate_quat(T w, T x, T y, T z) {
   double tol = 1e-5;
   T q_mag = w * w + x * x + y * y + z * z;
-  if (std::abs(q_mag - 1) >= tol) {
+  if (!(std::abs(q_mag - 1) < tol)) {
     throw std::invalid_argument("Quaternion arguments must be normalized");
   }
 }
-- 
2.43.0


From f2bec68d766e96927f69d4689a3b3030b3bd54ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:21 +0000
Subject: [PATCH 11/36] fix: gyro filter without a running thread can be
 destroyed

---
 src/imu_filter/imu_ang_vel_ekf.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index c749132..6b9b9b9 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -325,7 +325,9 @@ ImuAngVelEKF::ImuAngVelEKF(const std::string& yaml_filepath)
 // IMU filter destructor
 ImuAngVelEKF::~ImuAngVelEKF() {
   stop_thread_ = true;
-  imu_filter_thread_.join();
+  if (imu_filter_thread_.joinable()) {
+    imu_filter_thread_.join();
+  }
   imu_propagate_input_outfile_.close();
   imu_propagate_outfile_.close();
   imu_ang_vel_outfile_.close();
-- 
2.43.0


From b5e78d66cbb169853bbe00b0275e455fbf0aedfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:21 +0000
Subject: [PATCH 12/36] fix: multi IMU gyro filter also fuses the first
 registered IMU

---
 src/imu_filter/imu_ang_vel_ekf.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index 6b9b9b9..58d6764 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -351,11 +351,10 @@ void ImuAngVelEKF::add_imu_correction(
     // For single imu version:
     imu_data_buffer_ptr_ = imu_data_buffer_ptr;
     imu_data_buffer_mutex_ptr_ = imu_data_buffer_mutex_ptr;
-  } else {
-    // For all other versions:
-    imu_data_buffer_ptrs_.push_back(imu_data_buffer_ptr);
-    imu_data_buffer_mutex_ptrs_.push_back(imu_data_buffer_mutex_ptr);
   }
+  // For the multi imu version (it uses every imu, including the first one):
+  imu_data_buffer_ptrs_.push_back(imu_data_buffer_ptr);
+  imu_data_buffer_mutex_ptrs_.push_back(imu_data_buffer_mutex_ptr);
 }
 
 void ImuAngVelEKF::add_ang_vel_correction(
-- 
2.43.0


From dbaa23e8bdfc15a2708935c50a63e54e42679a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:21 +0000
Subject: [PATCH 13/36] fix: single IMU gyro filter neither stalls on a stale
 measurement nor without gyro propagation

---
 src/imu_filter/imu_ang_vel_ekf.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index 58d6764..9351608 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -558,11 +558,19 @@ void ImuAngVelEKF::SingleImuCorrection() {
   /// TODO: double check if we need absolute here?
   // if (last_propagate_time_ == -1
   // || last_propagate_time_ - imu_measurement->get_time() <= t_thres_) {
-  if (last_propagate_time_ - imu_measurement->get_time() <= t_thres_
-      && last_propagate_time_ >= imu_measurement->get_time()) {
+  // There is no propagation time to compare with in the random walk version.
+  bool has_propagate_time = propagation_method_ == GYRO;
+  if (!has_propagate_time
+      || last_propagate_time_ >= imu_measurement->get_time()) {
     imu_data_buffer_ptr_.get()->pop();
     imu_data_buffer_mutex_ptr_.get()->unlock();
 
+    // Drop the measurement if it is too old. It must not block the queue.
+    if (has_propagate_time
+        && last_propagate_time_ - imu_measurement->get_time() > t_thres_) {
+      return;
+    }
+
     auto fused_ang_imu = AngVelFilterCorrectIMU(imu_measurement);
     filtered_imu_data_buffer_mutex_ptr_.get()->lock();
     filtered_imu_data_buffer_ptr_->push(fused_ang_imu);
-- 
2.43.0


From 2248cb9fbc1e1401a5c5e7121fc03c935fae9295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:36 +0000
Subject: [PATCH 14/36] fix: multi IMU gyro filter does not repeat an earlier
 message for a stale measurement

---
 src/imu_filter/imu_ang_vel_ekf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index 9351608..1efef9d 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -582,10 +582,10 @@ void ImuAngVelEKF::SingleImuCorrection() {
 
 void ImuAngVelEKF::MultiImuCorrection() {
   ImuMeasurementPtr imu_measurement = nullptr;
-  ImuMeasurementPtr fused_ang_imu = nullptr;
 
   // Bias corrected IMU measurements
   for (int i = 0; i < imu_data_buffer_mutex_ptrs_.size(); i++) {
+    ImuMeasurementPtr fused_ang_imu = nullptr;
     imu_data_buffer_mutex_ptrs_[i].get()->lock();
     if (imu_data_buffer_ptrs_[i]->empty()) {
       imu_data_buffer_mutex_ptrs_[i].get()->unlock();
-- 
2.43.0


From e1c851ea9b1c46cb0342c62937946d30e26299db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:33 +0000
Subject: [PATCH 15/36] fix: gyro filter constructed with its queues reads the
 bias sample count

---
 src/imu_filter/imu_ang_vel_ekf.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index 1efef9d..c237e13 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -65,6 +65,10 @@ ImuAngVelEKF::ImuAngVelEKF(
           ? config_["settings"]["correction_method"].as<int>()
           : 0);
 
+  init_bias_size_ = config_["settings"]["init_bias_size"]
+                        ? config_["settings"]["init_bias_size"].as<int>()
+                        : 250;
+
   // Set the initial bias
   static_bias_initialization_
       = config_["settings"]["static_bias_initialization"]
-- 
2.43.0


From 09469d6ee8e6d468cbe1729e126a7f4a583abf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:33 +0000
Subject: [PATCH 16/36] fix: static gyro filter initialisation without samples
 neither divides by zero nor dereferences a missing queue

---
 src/imu_filter/imu_ang_vel_ekf.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index c237e13..744f23d 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -475,7 +475,11 @@ void ImuAngVelEKF::InitializeFilter() {
 
   // std::cout << "bias_init set to " << static_bias_initialization_ <<
   // std::endl;
-  if (bias_init_vec_.size() < init_bias_size_ && static_bias_initialization_) {
+
+  // Without a correction imu there are no samples to average
+  bool has_imu_correction = imu_data_buffer_ptr_ != nullptr;
+  if (has_imu_correction && bias_init_vec_.size() < init_bias_size_
+      && static_bias_initialization_) {
     imu_data_buffer_mutex_ptr_.get()->lock();
     if (imu_data_buffer_ptr_->empty()) {
       imu_data_buffer_mutex_ptr_.get()->unlock();
@@ -504,7 +508,9 @@ void ImuAngVelEKF::InitializeFilter() {
     for (int i = 0; i < bias_init_vec_.size(); ++i) {
       avg = (avg + bias_init_vec_[i]).eval();
     }
-    avg = (avg / bias_init_vec_.size()).eval();
+    if (!bias_init_vec_.empty()) {
+      avg = (avg / bias_init_vec_.size()).eval();
+    }
     std::cout << "Biases in the gyro filter are initialized to: "
               << avg.transpose() << std::endl;
 
-- 
2.43.0


From 58edf60f8e1168200a2331d6d4ec1a14ecd4870a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:33 +0000
Subject: [PATCH 17/36] fix: clearing the gyro filter handles every sensor
 combination and empties all its queues

---
 src/imu_filter/imu_ang_vel_ekf.cpp | 38 +++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index 744f23d..ed4de3d 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -888,18 +888,40 @@ ImuAngVelEKF::get_filtered_imu_data_buffer_and_mutex_ptr() {
 
 void ImuAngVelEKF::clear() {
   // Clear Imu data buffer
-  imu_data_buffer_mutex_ptr_.get()->lock();
-  while (!imu_data_buffer_ptr_->empty()) {
-    imu_data_buffer_ptr_->pop();
+  if (imu_data_buffer_ptr_) {
+    imu_data_buffer_mutex_ptr_.get()->lock();
+    while (!imu_data_buffer_ptr_->empty()) {
+      imu_data_buffer_ptr_->pop();
+    }
+    imu_data_buffer_mutex_ptr_.get()->unlock();
+  }
+
+  // Clear the data buffers of the multi imu version
+  for (int i = 0; i < imu_data_buffer_mutex_ptrs_.size(); i++) {
+    imu_data_buffer_mutex_ptrs_[i].get()->lock();
+    while (!imu_data_buffer_ptrs_[i]->empty()) {
+      imu_data_buffer_ptrs_[i]->pop();
+    }
+    imu_data_buffer_mutex_ptrs_[i].get()->unlock();
+  }
+
+  // Clear gyro propagation data buffer
+  if (gyro_prop_data_buffer_ptr_) {
+    gyro_prop_data_buffer_mutex_ptr_.get()->lock();
+    while (!gyro_prop_data_buffer_ptr_->empty()) {
+      gyro_prop_data_buffer_ptr_->pop();
+    }
+    gyro_prop_data_buffer_mutex_ptr_.get()->unlock();
   }
-  imu_data_buffer_mutex_ptr_.get()->unlock();
 
   // Clear angular velocity data buffer
-  ang_vel_data_buffer_mutex_ptr_.get()->lock();
-  while (!ang_vel_data_buffer_ptr_->empty()) {
-    ang_vel_data_buffer_ptr_->pop();
+  if (ang_vel_data_buffer_ptr_) {
+    ang_vel_data_buffer_mutex_ptr_.get()->lock();
+    while (!ang_vel_data_buffer_ptr_->empty()) {
+      ang_vel_data_buffer_ptr_->pop();
+    }
+    ang_vel_data_buffer_mutex_ptr_.get()->unlock();
   }
-  ang_vel_data_buffer_mutex_ptr_.get()->unlock();
 
   // Clear filtered_imu_data_buffer
   filtered_imu_data_buffer_mutex_ptr_.get()->lock();
-- 
2.43.0


From 77b0dca67008c2a069e2d529f8edf80d57fce852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:11 +0000
Subject: [PATCH 18/36] fix: keep the configured bias priors when no samples
 are requested for static initialization

With init_bias_size 0 (the default) the empty sample set was averaged,
which made both IMU biases NaN.
---
 src/filter/inekf/propagation/imu_propagation.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/filter/inekf/propagation/imu_propagation.cpp b/src/filter/inekf/propagation/imu_propagation.cpp
index 3f36ee7..26885cf 100644
--- a/src/filter/inekf/propagation/imu_propagation.cpp
+++ b/src/filter/inekf/propagation/imu_propagation.cpp
@@ -422,7 +422,7 @@ void ImuPropagation::InitImuBias() {
   }
 
   // Initialize bias based on imu orientation and static assumption
-  if (bias_init_vec_.size() < init_bias_size_) {
+  if (static_cast<int>(bias_init_vec_.size()) < init_bias_size_) {
     sensor_data_buffer_mutex_ptr_.get()->lock();
     if (sensor_data_buffer_ptr_->empty()) {
       sensor_data_buffer_mutex_ptr_.get()->unlock();
@@ -460,6 +460,9 @@ void ImuPropagation::InitImuBias() {
 
     // Set this measurement to be the previous measurement
     prev_imu_measurement_ = imu_measurement;
+  } else if (bias_init_vec_.empty()) {
+    // No data is requested for the initialization: keep the priors
+    bias_initialized_ = true;
   } else {
     // Compute average bias of stored data
     Eigen::Matrix<double, 6, 1> avg = Eigen::Matrix<double, 6, 1>::Zero();
-- 
2.43.0


From 7b36b4be4187b0cd10ae3de81e8a9f75f71a05a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:16 +0000
Subject: [PATCH 19/36] fix: initialise the body angular velocity in the body
 frame and without bias

The raw IMU-frame rate was stored, so with a rotated IMU or a gyroscope
bias the legged correction derived a wrong initial velocity from it.
---
 src/filter/inekf/propagation/imu_propagation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filter/inekf/propagation/imu_propagation.cpp b/src/filter/inekf/propagation/imu_propagation.cpp
index 26885cf..8dc1a52 100644
--- a/src/filter/inekf/propagation/imu_propagation.cpp
+++ b/src/filter/inekf/propagation/imu_propagation.cpp
@@ -512,7 +512,8 @@ bool ImuPropagation::set_initial_state(RobotState& state) {
 
   state.set_rotation(R0);
   state.set_position(p0);
-  state.set_body_angular_velocity(imu_measurement->get_angular_velocity());
+  state.set_body_angular_velocity(
+      R_imu2body_ * imu_measurement->get_angular_velocity() - bg0_);
 
   // Set the initial bias
   state.set_gyroscope_bias(bg0_);
-- 
2.43.0


From d2fbcd737cf06c80b36469ab41d5d8e5cbdaab80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:08 +0000
Subject: [PATCH 20/36] fix: never pop a measurement that was removed by a
 concurrent clear in the gyro filter

The combined and the body-rate correction peeked at the first measurement
and popped it in a later critical section. A clear() from another thread
in between made them pop an empty queue or discard an unused measurement.
---
 src/imu_filter/imu_ang_vel_ekf.cpp | 36 +++++++++++++++++-------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index ed4de3d..0c89558 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -621,6 +621,19 @@ void ImuAngVelEKF::MultiImuCorrection() {
   }
 }
 
+// Remove a measurement that was peeked at earlier. The buffer may have been
+// cleared in the meantime, so make sure it is still the first one.
+template <typename QueuePtr, typename MeasurementPtr>
+static void PopIfFront(const QueuePtr& buffer_ptr,
+                       const std::shared_ptr<std::mutex>& buffer_mutex_ptr,
+                       const MeasurementPtr& measurement) {
+  buffer_mutex_ptr.get()->lock();
+  if (!buffer_ptr->empty() && buffer_ptr->front() == measurement) {
+    buffer_ptr->pop();
+  }
+  buffer_mutex_ptr.get()->unlock();
+}
+
 void ImuAngVelEKF::SingleImuAngVelCorrection() {
   ImuMeasurementPtr imu_measurement = nullptr;
   AngularVelocityMeasurementPtr ang_vel_measurement = nullptr;
@@ -665,16 +678,14 @@ void ImuAngVelEKF::SingleImuAngVelCorrection() {
       filtered_imu_data_buffer_mutex_ptr_.get()->unlock();
     }
 
-    imu_data_buffer_mutex_ptr_.get()->lock();
-    imu_data_buffer_ptr_.get()->pop();
-    imu_data_buffer_mutex_ptr_.get()->unlock();
+    PopIfFront(imu_data_buffer_ptr_, imu_data_buffer_mutex_ptr_,
+               imu_measurement);
     return;
   }
 
   if (ang_vel_measurement && !latest_imu_measurement_) {
-    ang_vel_data_buffer_mutex_ptr_.get()->lock();
-    ang_vel_data_buffer_ptr_.get()->pop();
-    ang_vel_data_buffer_mutex_ptr_.get()->unlock();
+    PopIfFront(ang_vel_data_buffer_ptr_, ang_vel_data_buffer_mutex_ptr_,
+               ang_vel_measurement);
     return;
   }
 
@@ -689,9 +700,8 @@ void ImuAngVelEKF::SingleImuAngVelCorrection() {
       filtered_imu_data_buffer_mutex_ptr_.get()->unlock();
     }
 
-    ang_vel_data_buffer_mutex_ptr_.get()->lock();
-    ang_vel_data_buffer_ptr_->pop();
-    ang_vel_data_buffer_mutex_ptr_.get()->unlock();
+    PopIfFront(ang_vel_data_buffer_ptr_, ang_vel_data_buffer_mutex_ptr_,
+               ang_vel_measurement);
     return;
   }
 }
@@ -706,13 +716,11 @@ void ImuAngVelEKF::AngVelCorrection() {
 
   AngularVelocityMeasurementPtr ang_vel_measurement
       = ang_vel_data_buffer_ptr_->front();
+  ang_vel_data_buffer_ptr_->pop();
   ang_vel_data_buffer_mutex_ptr_.get()->unlock();
 
 
   if (ang_vel_measurement && !latest_imu_measurement_) {
-    ang_vel_data_buffer_mutex_ptr_.get()->lock();
-    ang_vel_data_buffer_ptr_->pop();
-    ang_vel_data_buffer_mutex_ptr_.get()->unlock();
     return;
   }
 
@@ -723,10 +731,6 @@ void ImuAngVelEKF::AngVelCorrection() {
     filtered_imu_data_buffer_mutex_ptr_.get()->lock();
     filtered_imu_data_buffer_ptr_->push(fused_ang_imu);
     filtered_imu_data_buffer_mutex_ptr_.get()->unlock();
-
-    ang_vel_data_buffer_mutex_ptr_.get()->lock();
-    ang_vel_data_buffer_ptr_->pop();
-    ang_vel_data_buffer_mutex_ptr_.get()->unlock();
     return;
   }
 }
-- 
2.43.0


From fc013af2c3e0f140a06d46feea1ed42b12d93a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:08 +0000
Subject: [PATCH 21/36] fix: check for available sensor data under the lock
 during initialization

std::queue::empty() was called without the mutex while the producers push
into the same queue.
---
 src/filter/inekf/correction/legged_kinematics_correction.cpp | 3 ++-
 src/filter/inekf/correction/velocity_correction.cpp          | 3 ++-
 src/filter/inekf/propagation/imu_propagation.cpp             | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/filter/inekf/correction/legged_kinematics_correction.cpp b/src/filter/inekf/correction/legged_kinematics_correction.cpp
index ae7ed26..136feea 100644
--- a/src/filter/inekf/correction/legged_kinematics_correction.cpp
+++ b/src/filter/inekf/correction/legged_kinematics_correction.cpp
@@ -261,12 +261,13 @@ bool LeggedKinematicsCorrection::initialize(RobotState& state) {
 
   // Get measurement from sensor data buffer
   // Do not initialize if the buffer is emptys
+  sensor_data_buffer_mutex_ptr_.get()->lock();
   while (sensor_data_buffer_ptr_->empty()) {
     // std::cout << "Waiting for leg encoder data..." << std::endl;
+    sensor_data_buffer_mutex_ptr_.get()->unlock();
     return false;
   }
 
-  sensor_data_buffer_mutex_ptr_.get()->lock();
   // Get the lates measurement
   while (sensor_data_buffer_ptr_->size() > 1) {
     // std::cout << "Discarding old sensor data..." << std::endl;
diff --git a/src/filter/inekf/correction/velocity_correction.cpp b/src/filter/inekf/correction/velocity_correction.cpp
index 1c2b18b..0011c0b 100644
--- a/src/filter/inekf/correction/velocity_correction.cpp
+++ b/src/filter/inekf/correction/velocity_correction.cpp
@@ -153,12 +153,13 @@ bool VelocityCorrection::initialize(RobotState& state) {
 
   // Get measurement from sensor data buffer
   // Do not initialize if the buffer is emptys
+  sensor_data_buffer_mutex_ptr_.get()->lock();
   while (sensor_data_buffer_ptr_->empty()) {
     // std::cout << "Waiting for velocity related encoder data..." << std::endl;
+    sensor_data_buffer_mutex_ptr_.get()->unlock();
     return false;
   }
 
-  sensor_data_buffer_mutex_ptr_.get()->lock();
   // Get the latest measurement
   while (sensor_data_buffer_ptr_->size() > 1) {
     // std::cout << "Discarding old sensor data..." << std::endl;
diff --git a/src/filter/inekf/propagation/imu_propagation.cpp b/src/filter/inekf/propagation/imu_propagation.cpp
index 8dc1a52..e8fe243 100644
--- a/src/filter/inekf/propagation/imu_propagation.cpp
+++ b/src/filter/inekf/propagation/imu_propagation.cpp
@@ -493,10 +493,11 @@ const bool ImuPropagation::get_bias_initialized() const {
 // IMU propagation initialization for robot state
 bool ImuPropagation::set_initial_state(RobotState& state) {
   // Do not initialize if the buffer is emptys
+  sensor_data_buffer_mutex_ptr_.get()->lock();
   if (sensor_data_buffer_ptr_->empty()) {
+    sensor_data_buffer_mutex_ptr_.get()->unlock();
     return false;
   }
-  sensor_data_buffer_mutex_ptr_.get()->lock();
   const ImuMeasurementPtr imu_measurement = sensor_data_buffer_ptr_->front();
   sensor_data_buffer_ptr_->pop();
   sensor_data_buffer_mutex_ptr_.get()->unlock();
-- 
2.43.0


From f267f01a946d255b55c1cb92cc300193daf3ec71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:55 +0000
Subject: [PATCH 22/36] fix: address the IMU bias covariance correctly when the
 state is augmented

The bias blocks come after the augmented states in the covariance, so with
a contact in the state the fixed indices hit the contact instead.
---
 src/state/robot_state.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/state/robot_state.cpp b/src/state/robot_state.cpp
index 7f555d1..5837689 100644
--- a/src/state/robot_state.cpp
+++ b/src/state/robot_state.cpp
@@ -120,10 +120,12 @@ const Eigen::Matrix3d RobotState::get_position_covariance() const {
   return P_.block<3, 3>(6, 6);
 }
 const Eigen::Matrix3d RobotState::get_gyroscope_bias_covariance() const {
-  return P_.block<3, 3>(9, 9);
+  const int start = this->dimP() - this->dimTheta();
+  return P_.block<3, 3>(start, start);
 }
 const Eigen::Matrix3d RobotState::get_accelerometer_bias_covariance() const {
-  return P_.block<3, 3>(12, 12);
+  const int start = this->dimP() - this->dimTheta() + 3;
+  return P_.block<3, 3>(start, start);
 }
 
 const double RobotState::get_time() const { return t_; }
@@ -314,10 +316,12 @@ void RobotState::set_position_covariance(const Eigen::Matrix3d& cov) {
   P_.block<3, 3>(6, 6) = cov;
 }
 void RobotState::set_gyroscope_bias_covariance(const Eigen::Matrix3d& cov) {
-  P_.block<3, 3>(9, 9) = cov;
+  const int start = this->dimP() - this->dimTheta();
+  P_.block<3, 3>(start, start) = cov;
 }
 void RobotState::set_accelerometer_bias_covariance(const Eigen::Matrix3d& cov) {
-  P_.block<3, 3>(12, 12) = cov;
+  const int start = this->dimP() - this->dimTheta() + 3;
+  P_.block<3, 3>(start, start) = cov;
 }
 void RobotState::set_time(const double t) { t_ = t; }
 
-- 
2.43.0


From 163bb1c2b2ece2f9a6026e21984827cff4d1018c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:55 +0000
Subject: [PATCH 23/36] fix: address augmented biases by the index of their
 augmented state

get_aug_bias ignored the index and del_aug_bias removed a misaligned block.
---
 src/state/robot_state.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/state/robot_state.cpp b/src/state/robot_state.cpp
index 5837689..7182508 100644
--- a/src/state/robot_state.cpp
+++ b/src/state/robot_state.cpp
@@ -295,15 +295,15 @@ void RobotState::add_aug_bias(const Eigen::Vector3d& baug) {
 
 
 void RobotState::del_aug_bias(int matrix_idx) {
-  int start = matrix_idx - 5 + 6;
+  int start = 6 + 3 * (matrix_idx - 5);
   Theta_.block(start, 0, Theta_.rows() - start - 3, 1)
-      = Theta_.block(start + 3, 0, Theta_.rows() - start - 3, 1);
+      = Theta_.block(start + 3, 0, Theta_.rows() - start - 3, 1).eval();
   Theta_.conservativeResize(Theta_.rows() - 3);
 }
 
 
 const Eigen::Vector3d RobotState::get_aug_bias(int matrix_idx) {
-  return Theta_.block<3, 1>(Theta_.rows() - 3, 0);
+  return Theta_.block<3, 1>(6 + 3 * (matrix_idx - 5), 0);
 }
 
 void RobotState::set_rotation_covariance(const Eigen::Matrix3d& cov) {
-- 
2.43.0


From 0dbb7cc707a4dfe55334ecd30773a0ef067934bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:55 +0000
Subject: [PATCH 24/36] fix: allow removing augmented states that no correction
 tracks

States constructed from a matrix with augmented columns have no column id
pointers, so removing one of them dereferenced a null pointer.
---
 src/state/robot_state.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/state/robot_state.cpp b/src/state/robot_state.cpp
index 7182508..1a9744b 100644
--- a/src/state/robot_state.cpp
+++ b/src/state/robot_state.cpp
@@ -178,7 +178,9 @@ void RobotState::del_aug_state(int matrix_idx) {
   int dimX = this->dimX();
   for (int i = matrix_idx; i < dimX - 1; i++) {
     column_id_to_corr_map_[i] = column_id_to_corr_map_[i + 1];
-    *(column_id_to_corr_map_[i]) -= 1;
+    if (column_id_to_corr_map_[i]) {
+      *(column_id_to_corr_map_[i]) -= 1;
+    }
   }
   column_id_to_corr_map_.pop_back();
   RemoveRowAndColumn(X_, matrix_idx, 1);
-- 
2.43.0


From d950d081f52e7fc586d7b1a159ab1b8d45c6c7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:03 +0000
Subject: [PATCH 25/36] fix: give new and cleared robot states defined times,
 rates and flags

The times and the body rate of a new state were uninitialised, and clear()
kept the times, the slip flag and the bias flag of the previous run.
---
 include/drift/state/robot_state.h | 7 ++++---
 src/state/robot_state.cpp         | 4 ++++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/drift/state/robot_state.h b/include/drift/state/robot_state.h
index ad6c237..90b5d5f 100644
--- a/include/drift/state/robot_state.h
+++ b/include/drift/state/robot_state.h
@@ -637,10 +637,11 @@ class RobotState {
                                  // corresponding
                                  // correction map's value
 
-  double t_;                     // The latest time when the state X_ is updated
-  double t_prop_;         // The latest time when the state X_ is propagated
+  double t_ = 0;                 // The latest time when the state X_ is updated
+  double t_prop_ = 0;     // The latest time when the state X_ is propagated
   Eigen::MatrixXd Qc_;    // Continuous noise covariance matrix
-  Eigen::Vector3d body_ang_vel_;    // Latest angular velocity
+  Eigen::Vector3d body_ang_vel_
+      = Eigen::Vector3d::Zero();    // Latest angular velocity
   bool enable_imu_bias_update_ = false;
   int slip_flag_ = 0;               // 0: no slip, 1: slip;
 };
diff --git a/src/state/robot_state.cpp b/src/state/robot_state.cpp
index 1a9744b..bddd7e8 100644
--- a/src/state/robot_state.cpp
+++ b/src/state/robot_state.cpp
@@ -429,6 +429,10 @@ void RobotState::clear() {
   column_id_to_corr_map_
       = std::vector<std::shared_ptr<int>>(this->dimX(), nullptr);
   body_ang_vel_ = Eigen::Vector3d::Zero();
+  t_ = 0;
+  t_prop_ = 0;
+  enable_imu_bias_update_ = false;
+  slip_flag_ = 0;
 }
 
 void RobotState::set_slip_flag(int slip_flag) { slip_flag_ = slip_flag; }
-- 
2.43.0


From d3160500c2b4c37a00111965d7f478756b2841cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:43 +0000
Subject: [PATCH 26/36] fix: start the wheel odometry clock at a zero time
 stamp too

---
 baselines/include/wheel_odometry/wheel_odometry.h | 1 +
 baselines/src/wheel_odometry/wheel_odometry.cpp   | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/baselines/include/wheel_odometry/wheel_odometry.h b/baselines/include/wheel_odometry/wheel_odometry.h
index c65fe46..aa1a29d 100644
--- a/baselines/include/wheel_odometry/wheel_odometry.h
+++ b/baselines/include/wheel_odometry/wheel_odometry.h
@@ -50,6 +50,7 @@ class WheelOdometry {
 
   RobotState state_;
 
+  bool started_ = false;    // Set by the first pair of measurements
   double prev_t_ = 0.0;
   double last_pub_t_ = 0.0;
 
diff --git a/baselines/src/wheel_odometry/wheel_odometry.cpp b/baselines/src/wheel_odometry/wheel_odometry.cpp
index a6b0bfa..10f91fc 100644
--- a/baselines/src/wheel_odometry/wheel_odometry.cpp
+++ b/baselines/src/wheel_odometry/wheel_odometry.cpp
@@ -85,7 +85,8 @@ void WheelOdometry::RunOnce() {
     // Get the time stamp of the measurement
     double t = vel_measurement->get_time();
 
-    if (prev_t_ == 0) {
+    if (!started_) {
+      started_ = true;
       prev_t_ = t;
       state_.set_time(t);
       return;
-- 
2.43.0


From cd724baadd4602c0b0ef162821abc705f50e909f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:43 +0000
Subject: [PATCH 27/36] fix: read the contact noise under the name the
 configuration files use

---
 .../inekf/correction/legged_kinematics_correction.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/filter/inekf/correction/legged_kinematics_correction.cpp b/src/filter/inekf/correction/legged_kinematics_correction.cpp
index 136feea..3a8980f 100644
--- a/src/filter/inekf/correction/legged_kinematics_correction.cpp
+++ b/src/filter/inekf/correction/legged_kinematics_correction.cpp
@@ -26,10 +26,13 @@ LeggedKinematicsCorrection::LeggedKinematicsCorrection(
             ? config_["noises"]["kinematics_additive_std"].as<double>()
             : 0.05;
 
-  double contact_noise_std
-      = config_["noises"]["contact_noise_std"]
-            ? config_["noises"]["contact_noise_std"].as<double>()
-            : 0.1;
+  // The configuration files name this noise "contact_std"
+  double contact_noise_std = 0.1;
+  if (config_["noises"]["contact_std"]) {
+    contact_noise_std = config_["noises"]["contact_std"].as<double>();
+  } else if (config_["noises"]["contact_noise_std"]) {
+    contact_noise_std = config_["noises"]["contact_noise_std"].as<double>();
+  }
   contact_noise_cov_ = contact_noise_std * contact_noise_std
                        * Eigen::Matrix<double, 3, 3>::Identity();
 
-- 
2.43.0


From cab5c7a8ca0d6c6a71063950907bf48ccca6f093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:44 +0000
Subject: [PATCH 28/36] fix: a default constructed estimator has no pose logger

---
 include/drift/estimator/inekf_estimator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/drift/estimator/inekf_estimator.h b/include/drift/estimator/inekf_estimator.h
index 192804c..e453a1c 100644
--- a/include/drift/estimator/inekf_estimator.h
+++ b/include/drift/estimator/inekf_estimator.h
@@ -292,7 +292,7 @@ class InekfEstimator {
   std::shared_ptr<std::mutex>
       robot_state_queue_mutex_ptr_;    // Mutex of the robot
                                        // state queue
-  bool enable_pose_logger_;            // Boolean value indicating whether
+  bool enable_pose_logger_ = false;    // Boolean value indicating whether
                                        // the filter should log the pose
   std::ofstream outfile_;              // Output file stream for pose logger
   std::ofstream vel_outfile_;          // Output file stream for velocity logger
-- 
2.43.0


From c12ad4a819fb274a3c2b52a40039d64de7c78f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:44 +0000
Subject: [PATCH 29/36] fix: only strip a suffix of the log file name, not of
 its directory

---
 baselines/src/wheel_odometry/wheel_odometry.cpp | 3 ++-
 src/estimator/inekf_estimator.cpp               | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/baselines/src/wheel_odometry/wheel_odometry.cpp b/baselines/src/wheel_odometry/wheel_odometry.cpp
index 10f91fc..2e79796 100644
--- a/baselines/src/wheel_odometry/wheel_odometry.cpp
+++ b/baselines/src/wheel_odometry/wheel_odometry.cpp
@@ -40,7 +40,8 @@ WheelOdometry::WheelOdometry(VelocityQueuePtr vel_queue,
     // This is helpful to make new file names when InekfEstimator::clear() is
     // called
     std::string::size_type pos = pose_log_file_.find_last_of(".");
-    if (pos != std::string::npos)
+    if (pos != std::string::npos
+        && pose_log_file_.find('/', pos) == std::string::npos)
       pose_log_file_.erase(pos, pose_log_file_.length());
 
     // Define logger settings
diff --git a/src/estimator/inekf_estimator.cpp b/src/estimator/inekf_estimator.cpp
index 9dad73d..cefac31 100644
--- a/src/estimator/inekf_estimator.cpp
+++ b/src/estimator/inekf_estimator.cpp
@@ -50,12 +50,14 @@ InekfEstimator::InekfEstimator(ErrorType error_type, std::string config_file)
     // This is helpful to make new file names when InekfEstimator::clear() is
     // called
     std::string::size_type pos = pose_log_file_.find_last_of(".");
-    if (pos != std::string::npos)
+    if (pos != std::string::npos
+        && pose_log_file_.find('/', pos) == std::string::npos)
       pose_log_file_.erase(pos, pose_log_file_.length());
 
 
     std::string::size_type v_pos = vel_log_file_.find_last_of(".");
-    if (v_pos != std::string::npos)
+    if (v_pos != std::string::npos
+        && vel_log_file_.find('/', v_pos) == std::string::npos)
       vel_log_file_.erase(v_pos, vel_log_file_.length());
 
     // Define logger settings
-- 
2.43.0


From 45bf4214a94ab6fe83389e56fea22e7cf88f0d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:44 +0000
Subject: [PATCH 30/36] fix: write the queued states before the pose logger
 stops

---
 src/estimator/inekf_estimator.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/estimator/inekf_estimator.cpp b/src/estimator/inekf_estimator.cpp
index cefac31..c606698 100644
--- a/src/estimator/inekf_estimator.cpp
+++ b/src/estimator/inekf_estimator.cpp
@@ -134,11 +134,17 @@ void InekfEstimator::StartLoggingThread() {
 
 void InekfEstimator::PoseLoggingThread() {
   // logger, tum style
-  while (stop_signal_ == false) {
+  while (true) {
+    // Write everything that was queued before stopping
+    bool stop = stop_signal_;
+
     // Get new pose data for logger
     robot_state_log_queue_mutex_.lock();
     if (robot_state_log_queue_ptr_.get()->empty()) {
       robot_state_log_queue_mutex_.unlock();
+      if (stop) {
+        return;
+      }
       continue;
     }
 
-- 
2.43.0


From 71ad5bec6b96c1819f79fc90f1633493cb8c07b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:44 +0000
Subject: [PATCH 31/36] fix: do not replace the log files while the pose logger
 writes

---
 include/drift/estimator/inekf_estimator.h | 2 ++
 src/estimator/inekf_estimator.cpp         | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/include/drift/estimator/inekf_estimator.h b/include/drift/estimator/inekf_estimator.h
index e453a1c..3eb059c 100644
--- a/include/drift/estimator/inekf_estimator.h
+++ b/include/drift/estimator/inekf_estimator.h
@@ -301,6 +301,8 @@ class InekfEstimator {
   double pose_log_rate_;               // Pose logger rate
   double last_pub_t_ = 0.0;            // Last published time for pose logger
   std::thread pose_logging_thread_;    // Pose logging thread
+  std::mutex log_file_mutex_;          // Mutex of the log files, locked before
+                                       // the mutex of the log queue
   std::mutex
       robot_state_log_queue_mutex_;    // Mutex of the robot state log queue
   RobotStateQueuePtr robot_state_log_queue_ptr_;    // Pointer to the robot
diff --git a/src/estimator/inekf_estimator.cpp b/src/estimator/inekf_estimator.cpp
index c606698..e68bf1b 100644
--- a/src/estimator/inekf_estimator.cpp
+++ b/src/estimator/inekf_estimator.cpp
@@ -139,9 +139,11 @@ void InekfEstimator::PoseLoggingThread() {
     bool stop = stop_signal_;
 
     // Get new pose data for logger
+    log_file_mutex_.lock();
     robot_state_log_queue_mutex_.lock();
     if (robot_state_log_queue_ptr_.get()->empty()) {
       robot_state_log_queue_mutex_.unlock();
+      log_file_mutex_.unlock();
       if (stop) {
         return;
       }
@@ -179,6 +181,7 @@ void InekfEstimator::PoseLoggingThread() {
                         << std::flush;
       last_pub_t_ = state_log_ptr->get_time();
     }
+    log_file_mutex_.unlock();
   }
 }
 
@@ -320,6 +323,7 @@ void InekfEstimator::clear() {
   enabled_ = false;
 
   // Clear current log queue and open a new file for logging
+  log_file_mutex_.lock();
   robot_state_log_queue_mutex_.lock();
   while (!robot_state_log_queue_ptr_.get()->empty()) {
     robot_state_log_queue_ptr_.get()->pop();
@@ -339,6 +343,7 @@ void InekfEstimator::clear() {
                            + std::to_string(++init_count_) + ".txt");
     vel_body_outfile_.precision(dbl::max_digits10);
   }
+  log_file_mutex_.unlock();
 }
 
 void InekfEstimator::SlipEstimatorStep() {
-- 
2.43.0


From 83bcd912690f4e6379c82548a4690f9f4700a613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:44 +0000
Subject: [PATCH 32/36] fix: restart the pose logger clock when the filter is
 cleared

---
 src/estimator/inekf_estimator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/estimator/inekf_estimator.cpp b/src/estimator/inekf_estimator.cpp
index e68bf1b..93a1374 100644
--- a/src/estimator/inekf_estimator.cpp
+++ b/src/estimator/inekf_estimator.cpp
@@ -342,6 +342,7 @@ void InekfEstimator::clear() {
     vel_body_outfile_.open(vel_log_file_ + "_body_frame_"
                            + std::to_string(++init_count_) + ".txt");
     vel_body_outfile_.precision(dbl::max_digits10);
+    last_pub_t_ = 0.0;
   }
   log_file_mutex_.unlock();
 }
-- 
2.43.0


From 1e8493828a01405874e7b0cfee723242af4a2ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:01 +0000
Subject: [PATCH 33/36] fix: keep the mounting transform of every odometry
 source

---
 ROS/drift/include/communication/ros_subscriber.h |  3 ++-
 ROS/drift/src/communication/ros_subscriber.cpp   | 13 ++++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/ROS/drift/include/communication/ros_subscriber.h b/ROS/drift/include/communication/ros_subscriber.h
index a55a18a..b521c00 100644
--- a/ROS/drift/include/communication/ros_subscriber.h
+++ b/ROS/drift/include/communication/ros_subscriber.h
@@ -420,7 +420,8 @@ class ROSSubscriber {
   std::vector<std::shared_ptr<std::mutex>> mutex_list_;    // List of mutexes
   std::unordered_map<int, OdomMeasurementPtr>
       prev_odom_map_;                   // odom_src_id -> prev_odom_measurement
-  Eigen::Matrix4d odom_src_to_body_;    // Camera to body transformation matrix
+  std::unordered_map<int, Eigen::Matrix4d>
+      odom_src_to_body_map_;    // odom_src_id -> source to body transformation
 
 
   bool thread_started_;    // Flag of the thread started, true for started,
diff --git a/ROS/drift/src/communication/ros_subscriber.cpp b/ROS/drift/src/communication/ros_subscriber.cpp
index 180d861..03ec408 100644
--- a/ROS/drift/src/communication/ros_subscriber.cpp
+++ b/ROS/drift/src/communication/ros_subscriber.cpp
@@ -249,14 +249,15 @@ VelocityQueuePair ROSSubscriber::AddOdom2VelocityCallback(
   mutex_list_.emplace_back(new std::mutex);
 
   // Calculate the transformation from odometry source to body
-  odom_src_to_body_ = Eigen::Matrix4d::Identity();
+  Eigen::Matrix4d odom_src_to_body = Eigen::Matrix4d::Identity();
   Eigen::Quaternion<double> orientation_quat(
       rotation_odomsrc2body[0], rotation_odomsrc2body[1],
       rotation_odomsrc2body[2], rotation_odomsrc2body[3]);
-  odom_src_to_body_.block<3, 3>(0, 0) = orientation_quat.toRotationMatrix();
-  odom_src_to_body_.block<3, 1>(0, 3) = Eigen::Vector3d(
+  odom_src_to_body.block<3, 3>(0, 0) = orientation_quat.toRotationMatrix();
+  odom_src_to_body.block<3, 1>(0, 3) = Eigen::Vector3d(
       {translation_odomsrc2body[0], translation_odomsrc2body[1],
        translation_odomsrc2body[2]});
+  odom_src_to_body_map_[odom_src_id_] = odom_src_to_body;
 
   // Create a new pair of Odometry queue and its mutex in case we have multiple
   // odometry sources
@@ -659,9 +660,11 @@ void ROSSubscriber::Odom2VelocityCallback(
   // Set current odometry as previous odometry
   prev_odom_map_[odom_src_id] = odom_ptr;
 
-  Eigen::Matrix4d transformation = odom_src_to_body_.inverse()
+  const Eigen::Matrix4d& odom_src_to_body
+      = odom_src_to_body_map_.at(odom_src_id);
+  Eigen::Matrix4d transformation = odom_src_to_body.inverse()
                                    * prev_transformation.inverse()
-                                   * curr_transformation * odom_src_to_body_;
+                                   * curr_transformation * odom_src_to_body;
   Eigen::Matrix4d twist_se3 = transformation.log();
 
   std::shared_ptr<VelocityMeasurement<double>> vel_measurement(
-- 
2.43.0


From 72846a8532d1446f12d44f909541511f71960289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:01 +0000
Subject: [PATCH 34/36] fix: do not compute odometry velocities from repeated
 time stamps

---
 ROS/drift/src/communication/ros_subscriber.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ROS/drift/src/communication/ros_subscriber.cpp b/ROS/drift/src/communication/ros_subscriber.cpp
index 03ec408..8e25bdc 100644
--- a/ROS/drift/src/communication/ros_subscriber.cpp
+++ b/ROS/drift/src/communication/ros_subscriber.cpp
@@ -660,6 +660,11 @@ void ROSSubscriber::Odom2VelocityCallback(
   // Set current odometry as previous odometry
   prev_odom_map_[odom_src_id] = odom_ptr;
 
+  // There is no velocity without progress in time
+  if (time_diff <= 0) {
+    return;
+  }
+
   const Eigen::Matrix4d& odom_src_to_body
       = odom_src_to_body_map_.at(odom_src_id);
   Eigen::Matrix4d transformation = odom_src_to_body.inverse()
-- 
2.43.0


From 3623477713f65923e971a958cf9d26fa4a41dd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:25 +0000
Subject: [PATCH 35/36] fix: look at the published state queue under its lock

---
 ROS/drift/src/communication/ros_publisher.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ROS/drift/src/communication/ros_publisher.cpp b/ROS/drift/src/communication/ros_publisher.cpp
index 27c6530..e4bd489 100644
--- a/ROS/drift/src/communication/ros_publisher.cpp
+++ b/ROS/drift/src/communication/ros_publisher.cpp
@@ -94,12 +94,12 @@ void ROSPublisher::StartPublishingThread() {
 
 // Publishes pose
 void ROSPublisher::PosePublish() {
+  // Get the first pose
+  robot_state_queue_mutex_.get()->lock();
   if (robot_state_queue_ptr_->empty()) {
+    robot_state_queue_mutex_.get()->unlock();
     return;
   }
-
-  // Get the first pose
-  robot_state_queue_mutex_.get()->lock();
   const std::shared_ptr<RobotState> state_ptr = robot_state_queue_ptr_->front();
   robot_state_queue_ptr_->pop();
   robot_state_queue_mutex_.get()->unlock();
-- 
2.43.0


From bee89b3743be8cbd1c22ee80aef1944eeb51abd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:25 +0000
Subject: [PATCH 36/36] fix: publish the covariance of the position and
 rotation with a pose

---
 ROS/drift/src/communication/ros_publisher.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ROS/drift/src/communication/ros_publisher.cpp b/ROS/drift/src/communication/ros_publisher.cpp
index e4bd489..ddf11b4 100644
--- a/ROS/drift/src/communication/ros_publisher.cpp
+++ b/ROS/drift/src/communication/ros_publisher.cpp
@@ -130,10 +130,12 @@ void ROSPublisher::PosePublish() {
   auto& cov = state.get_P();
   // Get the 6x6 covariance matrix in the following order:
   // (x, y, z, rotation about X axis, rotation about Y axis, rotation
-  // about Z axis)
+  // about Z axis). The state covariance is ordered (rotation, velocity,
+  // position, ...)
+  const std::array<int, 6> cov_idx = {6, 7, 8, 0, 1, 2};
   for (int i = 0; i < 6; i++) {
     for (int j = 0; j < 6; j++) {
-      pose_msg.pose.covariance[i * 6 + j] = cov(i, j);
+      pose_msg.pose.covariance[i * 6 + j] = cov(cov_idx[i], cov_idx[j]);
     }
   }
 
-- 
2.43.0

