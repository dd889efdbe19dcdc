// @bound one measurement; mounting rotation any unit quaternion, scale in [0.1,3], velocity std in [0.1,2], measured velocity in [-2,2]
// @bound attitude: rotation about the vertical (covariance: any unit quaternion in the initialisation); symmetric prior covariance with entries in [-2,2], 0..1 contacts
// @bound mean: priors without attitude/velocity coupling, or one isotropic attitude/velocity coupling with an attitude step of at least 1e-8 rad; covariance: innovation zero
// @assume the innovation covariance is invertible (its inverse is taken by contract)
// @shards c08_linear 2
// @shards c08_cov 2
#include "corr.h"
struct Set { Yaml y; M3 Rm; double scale, sv; };
static Set settings() {
  Set c; Quat q = quat("mount"); c.Rm = rotOf(q); c.scale = sym("scale", 0.1, 3); c.sv = sym("sv", 0.1, 2);
  c.y.put("settings", "rotation_vel2body", q).put("settings", "velocity_scale", c.scale).put("noises", "velocity_std", c.sv); return c;
}
// the update is linear when neither the attitude nor its coupling is uncertain
SX_HARNESS(c08_linear) {
  bool bias = choose("bias_update", 2); ErrorType et = etOf(choose("error", 2)); bool right = et == ErrorType::RightInvariant; int naug = choose("aug", 2), n = 15 + 3 * naug;
  vector<V3> d; V3 o(0, 0, 0); for (int i = 0; i < naug; i++) d.push_back(right ? vec("d") : o);
  MX X = poseX(rotz("R"), right ? vec("v") : o, right ? vec("p") : o, d); VX th = vecn("th", 6); MX P = symm("P", n); for (int i = 0; i < 3; i++) for (int j = 0; j < n; j++) { P(i, j) = 0; P(j, i) = 0; }
  Set c = settings(); V3 m = vec("m"); double t = sym("t", 9.71, 9.99); RobotState s = stateOf(X, th, P, bias, 10); VelC k(c.y, et); k.q->push(vel(t, m));
  check(k.c->Correct(s), "a timely velocity measurement is applied"); check(k.q->empty(), "the applied measurement is removed"); check_eq(s.get_time(), t, "the state carries the time of the measurement"); check_eq(s.get_propagate_time(), double(10), "a correction keeps the propagation time");
  M3 R = X.block(0, 0, 3, 3); V3 v = X.block(0, 3, 3, 1); M3 B = R * c.Rm; M3 Bs = B * c.scale; V3 z = Bs * m; VX Z = z - v;
  Upd u = update(true, et, X, th, P, Z, velObs(n), velNoise(R, c.sv), bias, false);
  meq(s.get_X(), u.X, "velocity correction: mean"); meq(s.get_theta(), u.th, "velocity correction: biases"); meq(s.get_P(), u.P, "velocity correction: covariance");
}
// general covariance, zero innovation
SX_HARNESS(c08_cov) {
  bool bias = choose("bias_update", 2); ErrorType et = etOf(choose("error", 2)); int naug = choose("aug", 2), n = 15 + 3 * naug;
  vector<V3> d; for (int i = 0; i < naug; i++) d.push_back(vec("d"));
  Set c; c.sv = sym("sv", 0.1, 2); c.y.put("noises", "velocity_std", c.sv); MX X = poseX(rotz("R"), V3::Zero(), vec("p"), d); VX th = vecn("th", 6); MX P = symm("P", n);
  RobotState s = stateOf(X, th, P, bias, 10); VelC k(c.y, et); k.q->push(vel(double(9.9), V3(V3::Zero()))); check(k.c->Correct(s), "a timely velocity measurement is applied");
  M3 R = X.block(0, 0, 3, 3); VX Z = VX::Zero(3); Upd u = update(true, et, X, th, P, Z, velObs(n), velNoise(R, c.sv), bias, false);
  meq(s.get_P(), u.P, "velocity correction: covariance of the update that observes the world velocity"); meq(s.get_X(), X, "a confirmed velocity leaves the mean unchanged");
}
SX_HARNESS(c08_attitude) {
  bool bias = choose("bias_update", 2); int n = 15; MX X = poseX(rotz("R"), V3::Zero(), vec("p")); VX th = vecn("th", 6); Set c = settings(); V3 m = vec("m");
  MX P = MX::Zero(n, n); double cc = sym("c", 0.1, 1), pv = sym("pv", 0.1, 2); for (int i = 0; i < n; i++) P(i, i) = 1; P.block(0, 3, 3, 3) = I3() * cc; P.block(3, 0, 3, 3) = I3() * cc; P.block(3, 3, 3, 3) = I3() * pv;
  M3 R = X.block(0, 0, 3, 3); M3 B = R * c.Rm; M3 Bs = B * c.scale; V3 z = Bs * m; double g = cc / (pv + c.sv * c.sv); V3 w = z * g; turns(w, double(1));
  RobotState s = stateOf(X, th, P, bias, 10); VelC k(c.y, ErrorType::RightInvariant); k.q->push(vel(double(9.9), m)); check(k.c->Correct(s), "a timely velocity measurement is applied");
  // isotropic: every block moves along the innovation
  M3 E = gammaRef(w, 0), J = gammaRef(w, 1); V3 dv = J * (z * (pv / (pv + c.sv * c.sv))), p = X.block(0, 4, 3, 1); V3 pn = E * p; MX Y = X; Y.block(0, 0, 3, 3) = M3(E * R); Y.block(0, 3, 3, 1) = dv; Y.block(0, 4, 3, 1) = pn;
  meq(s.get_X(), Y, "velocity correction: the attitude moves by the exponential of gain times innovation");
}
SX_HARNESS(c08_initialize) {
  ErrorType et = etOf(choose("error", 2)); Set c = settings(); MX X = poseX(rot("R"), vec("v"), vec("p"), {vec("d")}); VX th = vecn("th", 6); int k = choose("queued", 4); RobotState s = stateOf(X, th, eyen(18), true, 10); VelC f(c.y, et);
  V3 m; double t = 0; for (int i = 0; i < k; i++) { m = vec("m" + std::to_string(i)); t = sym("t" + std::to_string(i), 0, 20); f.q->push(vel(t, m)); }
  bool ok = f.c->initialize(s); check(ok == (k > 0), "initialisation succeeds exactly when a measurement is queued"); MX Y = X; check(f.q->empty(), "initialisation consumes the queue");
  if (k) { M3 R = X.block(0, 0, 3, 3); M3 B = R * c.Rm; M3 Bs = B * c.scale; V3 v = Bs * m; Y.block(0, 3, 3, 1) = v; }
  meq(s.get_X(), Y, "initial velocity is the newest measurement, scaled and rotated to the world"); check_eq(s.get_time(), k ? t : double(10), "initialisation sets the time of the measurement used"); meq(s.get_theta(), th, "initialisation keeps the biases"); meq(s.get_P(), eyen(18), "initialisation keeps the covariance");
}
