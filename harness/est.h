// Helpers to drive estimator::InekfEstimator through its public interface only.
#pragma once
#include "corr.h"
using estimator::InekfEstimator;
enum CorrKind { kNone, kVel, kLeg, kVelLeg, kLegVel };
struct EstConf { Yaml est, prop, vel, leg; EstConf() { est.flag("logger", "enable_pose_logger", false); } };
struct Est {
  IMUQueuePtr iq = make_shared<IMUQueue>(); VelocityQueuePtr vq = make_shared<VelocityQueue>(); LeggedKinQueuePtr lq = make_shared<LeggedKinQueue>(); Mut im = mut(), vm = mut(), lm = mut(); shared_ptr<InekfEstimator> e; int kind;
  Est(const EstConf& c, ErrorType et, int kind_) : kind(kind_) {
    e = make_shared<InekfEstimator>(et, c.est.write()); e->add_imu_propagation(iq, im, c.prop.write());
    if (kind == kVel || kind == kVelLeg) e->add_velocity_correction(vq, vm, c.vel.write());
    if (kind == kLeg || kind == kVelLeg || kind == kLegVel) e->add_legged_kinematics_correction(lq, lm, c.leg.write());
    if (kind == kLegVel) e->add_velocity_correction(vq, vm, c.vel.write());
  }
  bool hasVel() const { return kind == kVel || kind >= kVelLeg; }
  bool hasLeg() const { return kind >= kLeg; }
  int published() const { return (int)e->get_robot_state_queue_ptr()->size(); }
  shared_ptr<RobotState> take() { auto q = e->get_robot_state_queue_ptr(); check(!q->empty(), "a state is published"); if (q->empty()) sx::stop("nothing published"); auto s = q->front(); q->pop(); return s; }
};
// the observable part of two states agrees
inline void sameState(const RobotState& a, const RobotState& b, const string& what, bool withP = true) {
  meq(a.get_X(), b.get_X(), what + " (mean)"); meq(a.get_theta(), b.get_theta(), what + " (biases)"); if (withP) meq(a.get_P(), b.get_P(), what + " (covariance)"); meq(a.get_continuous_noise_covariance(), b.get_continuous_noise_covariance(), what + " (process noise)");
  check_eq(a.get_time(), b.get_time(), what + " (time)"); check_eq(a.get_propagate_time(), b.get_propagate_time(), what + " (propagation time)"); check(a.get_slip_flag() == b.get_slip_flag(), what + " (slip flag)"); check(a.get_enable_imu_bias_update() == b.get_enable_imu_bias_update(), what + " (bias flag)"); meq(a.get_body_angular_velocity(), b.get_body_angular_velocity(), what + " (body rate)");
}
