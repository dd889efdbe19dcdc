// @bound every configuration in which one key (or no key) is given an arbitrary value and all others are left out, and the full combination for the initial covariance; one initialisation, one propagation and one correction on an arbitrary state; both error types
// @bound noise levels in [0.05,2], priors and mounting offsets in [-1,1], any mounting rotation, thresholds in [0,1], measurement times in [8,12]
// @assume inverses by contract; the gyro filter's own noises, priors, thresholds and defaults are decided by C17 and C18, the logger's by C30
#include "est.h"
static M3 eye2(const double& s) { return I3() * (s * s); }
// the documented defaults, written out
static Yaml propDefaults() { Yaml y; y.flag("settings", "static_bias_initialization", true).num("settings", "init_bias_size", 0).flag("settings", "use_imu_ori_to_init", false).flag("settings", "enable_imu_bias_update", false).put("settings", "rotation_imu2body", string("[1, 0, 0, 0]")).put("settings", "translation_imu2body", string("[0, 0, 0]")).put("priors", "gyroscope_bias", string("[0, 0, 0]")).put("priors", "accelerometer_bias", string("[0, 0, 0]")); for (const char* k : {"gyroscope_std", "accelerometer_std", "gyroscope_bias_std", "accelerometer_bias_std"}) y.put("noises", k, string("0.1")); return y; }
static Yaml velDefaults() { Yaml y; y.put("settings", "correction_time_threshold", string("0.3")).put("settings", "rotation_vel2body", string("[1, 0, 0, 0]")).put("settings", "velocity_scale", string("1.0")).put("noises", "velocity_std", string("0.1")); return y; }
static Yaml legDefaults() { Yaml y; y.put("settings", "correction_time_threshold", string("0.3")).put("noises", "encoder_std", string("0.01")).put("noises", "kinematics_additive_std", string("0.05")).put("noises", "contact_std", string("0.1")); return y; }
// state.*_std_value
SX_HARNESS(c27_initial_covariance) {
  EstConf c; double var[3] = {0.03, 0.01, 0.00001}; const char* key[3] = {"rotation_std_value", "velocity_std_value", "position_std_value"}; for (int i = 0; i < 3; i++) if (choose(key[i], 2)) { double s = sym(key[i], 0.05, 2); var[i] = s * s; c.est.put("state", key[i], s); }
  double gb(0.1), ab(0.1); if (choose("bias_noise", 2)) { gb = sym("gb", 0.05, 2); ab = sym("ab", 0.05, 2); c.prop.put("noises", "gyroscope_bias_std", gb).put("noises", "accelerometer_bias_std", ab); }
  Est E(c, etOf(choose("error", 2)), choose("velocity", 2) ? kVel : kNone); E.iq->push(imu(sym("t", 1, 9), vec("w"), vec("a"))); if (E.hasVel()) E.vq->push(vel(double(0.5), vec("v"))); E.e->InitState(); check(E.e->is_enabled(), "enabled after initialisation"); RobotState s = E.e->get_state();
  MX P = MX::Identity(15, 15); for (int i = 0; i < 3; i++) P.block(3 * i, 3 * i, 3, 3) = I3() * var[i]; P.block(9, 9, 3, 3) = eye2(gb); P.block(12, 12, 3, 3) = eye2(ab); meq(s.get_P(), P, "the initial covariance is made of the configured or default variances"); auto q = E.take(); meq(q->get_P(), P, "the published initial covariance");
}
// inertial noises: closed form of one step at rest from a certain state
SX_HARNESS(c27_inertial_noise) {
  const char* key[4] = {"gyroscope_std", "accelerometer_std", "gyroscope_bias_std", "accelerometer_bias_std"}; int g = choose("given", 5); double v[4]; Yaml y; y.flag("settings", "enable_imu_bias_update", true); for (int i = 0; i < 4; i++) { v[i] = 0.1; if (i == g) { v[i] = sym(key[i], 0.05, 2); y.put("noises", key[i], v[i]); } }
  MX X = poseX(rotz("R"), vec("v"), vec("p")); RobotState s = stateOf(X, VX::Zero(6), MX::Zero(15, 15), true, 10); Prop p(y, ErrorType::LeftInvariant); V3 o = V3::Zero(); p.prime(imu(double(10), o, o)); double dt = sym("dt", 0.01, 0.5); s.set_propagate_time(double(10) - dt); check(p.step(s, imu(double(10.1), o, o)), "a sample is used");
  MX F = MX::Identity(15, 15); F.block(6, 3, 3, 3) = I3() * dt; F.block(0, 9, 3, 3) = I3() * -dt; F.block(3, 12, 3, 3) = I3() * -dt; F.block(6, 12, 3, 3) = I3() * (double(-0.5) * dt * dt); MX Q = MX::Zero(15, 15); Q.block(0, 0, 3, 3) = eye2(v[0]); Q.block(3, 3, 3, 3) = eye2(v[1]); Q.block(9, 9, 3, 3) = eye2(v[2]); Q.block(12, 12, 3, 3) = eye2(v[3]);
  MX T = F * Q; MX E = T * F.transpose(); E = E * dt; meq(s.get_P(), E, "the process noise is made of the configured or default deviations");
}
// one key given, the others left out: the same as writing out the documented defaults
SX_HARNESS(c27_propagation_defaults) {
  int k = choose("given", 11); Yaml A, B = propDefaults(); auto both = [&](auto f) { f(A); f(B); }; V3 v = vec("val", -1, 1); double s = sym("std", 0.05, 2); Quat q = quat("mount"); bool bias = k == 3;
  switch (k) {
    case 1: both([&](Yaml& y) { y.flag("settings", "static_bias_initialization", false); }); break;
    case 2: both([&](Yaml& y) { y.num("settings", "init_bias_size", 1); }); break;
    case 3: both([&](Yaml& y) { y.flag("settings", "enable_imu_bias_update", true); }); break;
    case 4: both([&](Yaml& y) { y.put("settings", "rotation_imu2body", q); }); break;
    case 5: both([&](Yaml& y) { y.put("settings", "translation_imu2body", v); }); break;
    case 6: both([&](Yaml& y) { y.put("priors", "gyroscope_bias", v); }); break;
    case 7: both([&](Yaml& y) { y.put("priors", "accelerometer_bias", v); }); break;
    case 8: both([&](Yaml& y) { y.flag("settings", "use_imu_ori_to_init", true); }); break;
    case 9: both([&](Yaml& y) { y.put("noises", "gyroscope_std", s); }); break;
    case 10: both([&](Yaml& y) { y.put("noises", "accelerometer_std", s); }); break;
  }
  ErrorType et = etOf(choose("error", 2)); Prop a(A, et), b(B, et); ImuP first = imu(double(9), vec("w0"), vec("a0")); Quat o = quat("ori"); first->set_quaternion(o.w, o.x, o.y, o.z); ImuP second = imu(double(9.5), vec("w1"), vec("a1")); second->set_quaternion(o.w, o.x, o.y, o.z); RobotState x, y; Prop* P[2] = {&a, &b}; RobotState* S[2] = {&x, &y};
  for (int i = 0; i < 2; i++) { P[i]->q->push(first); P[i]->q->push(second); P[i]->p->InitImuBias(); P[i]->p->InitImuBias(); check(P[i]->p->get_bias_initialized(), "two samples are enough for the bias initialisation"); check((int)P[i]->q->size() == (k == 2 ? 1 : 2), "the bias initialisation uses init_bias_size samples (default none)"); check(P[i]->p->set_initial_state(*S[i]), "initialisation from a queued sample"); while (!P[i]->q->empty()) P[i]->q->pop(); }
  sameState(x, y, "initialisation with a key left out equals the documented default");
  if (k == 0) { meq(x.get_theta(), VX(VX::Zero(6)), "zero bias by default"); meq(x.get_rotation(), I3(), "identity attitude by default"); V3 w0 = vec("w0"); meq(x.get_body_angular_velocity(), w0, "identity mounting by default"); check(!x.get_enable_imu_bias_update(), "bias estimation is off by default"); }
  if (k == 6) meq(x.get_gyroscope_bias(), v, "the gyroscope prior is used"); if (k == 7) meq(x.get_accelerometer_bias(), v, "the accelerometer prior is used"); if (k == 3) check(x.get_enable_imu_bias_update(), "bias estimation is switched on by its key");
  if (k == 1) return;
  MX X = poseX(rotz("R"), vec("v"), vec("p")); V3 w(double(0), double(0), sym("wz", 0.5, 1)), acc = vec("acc"); if (k == 4) w = rotOf(q).transpose() * w; VX th = VX::Zero(6); double dt(0.1);
  x = stateOf(X, th, eyen(15), bias, double(9.9)); y = x; ImuP m = imu(double(10), w, acc), last = imu(double(10.1), w, acc); for (int i = 0; i < 2; i++) { P[i]->prime(m); S[i]->set_propagate_time(double(9.9)); check(P[i]->step(*S[i], last), "a sample is used"); }
  sameState(x, y, "propagation with a key left out equals the documented default");
}
SX_HARNESS(c27_velocity_defaults) {
  int k = choose("given", 5); Yaml A, B = velDefaults(); double s = sym("val", 0.05, 2), thr(0.3), std_(0.1), sc(1); Quat q = quat("mount"); M3 Rm = I3(); auto put = [&](const char* sec, const char* key, auto v) { A.put(sec, key, v); B.put(sec, key, v); };
  if (k == 1) { thr = sym("thr", 0, 1); put("settings", "correction_time_threshold", thr); } if (k == 2) { put("settings", "rotation_vel2body", q); Rm = rotOf(q); } if (k == 3) { put("settings", "velocity_scale", s); sc = s; } if (k == 4) { put("noises", "velocity_std", s); std_ = s; }
  ErrorType et = ErrorType::RightInvariant; bool bias = choose("bias_update", 2); MX X = poseX(rotz("R"), vec("v"), vec("p")); double pv = sym("pv", 0.1, 2); MX P = MX::Zero(15, 15); for (int i = 0; i < 15; i++) P(i, i) = 1; P.block(3, 3, 3, 3) = I3() * pv; V3 m = vec("m"); double t = sym("t", 8, 12, 0, 2e9); bool used = false; RobotState s2[2];
  for (int i = 0; i < 2; i++) {
    RobotState x = stateOf(X, VX::Zero(6), P, bias, 10); VelC c(i ? B : A, et); c.q->push(vel(t, m)); bool u = c.c->Correct(x); if (i) check(u == used, "the time threshold left out equals the documented default"); used = u; s2[i] = x;
    if (u) { check(lt(t, double(10)), "only a measurement before the propagation time is used"); check(ge(t, double(10) - thr), "only a measurement within the threshold is used"); } else { check(Or(ge(t, double(10)), lt(t, double(10) - thr)), "a measurement within the threshold is used"); check(c.q->empty() == bool(t < 10), "a waiting measurement stays"); }
  }
  sameState(s2[0], s2[1], "a velocity correction with a key left out equals the documented default"); if (!used) return;
  double g = pv / (pv + std_ * std_); M3 R = X.block(0, 0, 3, 3); V3 v = X.block(0, 3, 3, 1), z = R * (Rm * (m * sc)); V3 e = v + (z - v) * g; meq(s2[0].get_velocity(), e, "the configured scale, mounting and noise determine the update");
}
SX_HARNESS(c27_legged_defaults) {
  int k = choose("given", 5); Yaml A, B = legDefaults(); double s = sym("val", 0.05, 2), thr(0.3), enc(0.01), kin(0.05), con(0.1); auto put = [&](const char* sec, const char* key, auto v) { A.put(sec, key, v); B.put(sec, key, v); };
  if (k == 1) { thr = sym("thr", 0, 1); put("settings", "correction_time_threshold", thr); } if (k == 2) { put("noises", "encoder_std", s); enc = s; } if (k == 3) { put("noises", "kinematics_additive_std", s); kin = s; } if (k == 4) { put("noises", "contact_std", s); con = s; }
  ErrorType et = etOf(choose("error", 2)); MX X = poseX(rotz("R"), V3::Zero(), V3::Zero()); double pp = sym("pp", 0.1, 2); MX P = MX::Zero(15, 15); P.block(6, 6, 3, 3) = I3() * pp; MX pos = mat("k", 3, 1); double j = sym("j", 0.1, 2); MX jac = I3() * j; double t = sym("t", 8, 12, 0, 2e9); bool used = false; RobotState s2[2];
  for (int i = 0; i < 2; i++) {
    RobotState x = stateOf(X, VX::Zero(6), P, false, 10); LegC c(i ? B : A, et); c.q->push(legs(t, pos, jac, {1})); bool u = c.c->Correct(x); if (i) check(u == used, "the time threshold left out equals the documented default"); used = u; s2[i] = x; check(c.q->empty(), "the measurement is consumed");
    if (u) { check(le(t, double(10) + thr), "only a measurement within the threshold is used"); check(ge(t, double(10) - thr), "only a measurement within the threshold is used"); } else check(Or(gt(t, double(10) + thr), lt(t, double(10) - thr)), "a measurement within the threshold is used");
  }
  sameState(s2[0], s2[1], "a contact correction with a key left out equals the documented default"); if (!used) return;
  RobotState& x = s2[0]; check(x.dimX() == 6, "the contact is tracked"); meq(x.get_continuous_noise_covariance().block(9, 9, 3, 3), eye2(con), "the contact noise is the configured or default one"); MX v = I3() * (pp + j * j * enc * enc + kin * kin); meq(x.get_aug_cov(5), v, "the contact uncertainty uses the configured encoder and kinematics noise");
}
