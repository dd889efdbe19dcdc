// @bound one propagation, one velocity and one contact correction on an arbitrary state with 0..2 augmented columns, arbitrary biases and arbitrary bias covariance and bias/pose cross-correlation (repeated use follows by induction: every operation starts from an arbitrary state); both error types; 1..2 tracked legs
// @bound attitude uncertainty: none, or isotropically coupled with the observed quantity (attitude step at least 0.01 rad); bias/observation correlation isotropic or arbitrary; rotation per step at least 0.01 rad (or exactly zero rate)
// @assume inverses by contract
#include "corr.h"
static MX bottom(const MX& P, const string& nm) { int n = P.rows(), m = n - 6; MX Q = P; MX C = mat(nm + "c", 6, m); MX D = symm(nm + "d", 6); Q.block(m, 0, 6, m) = C; Q.block(0, m, m, 6) = C.transpose(); Q.block(m, m, 6, 6) = D; return Q; }
static void samePose(RobotState& a, RobotState& b, const string& w) {
  int n = a.dimP(), m = n - 6; meq(a.get_X(), b.get_X(), w + " (mean)"); check(a.dimP() == b.dimP(), "same dimensions"); MX A = a.get_P().block(0, 0, m, m), B = b.get_P().block(0, 0, m, m); meq(A, B, w + " (pose covariance)"); check_eq(a.get_time(), b.get_time(), w + " (time)");
}
SX_HARNESS(c26_propagate) {
  ErrorType et = etOf(choose("error", 2)); int aug = choose("aug", 3); bool still = choose("zero_rate", 2); vector<V3> d; for (int i = 0; i < aug; i++) d.push_back(vec("d" + std::to_string(i)));
  MX X = poseX(rotz("R"), vec("v"), vec("p"), d); VX th = vecn("th", 6, -0.3, 0.3); int n = 15 + 3 * aug; MX P0 = symm("P", n); RobotState a = stateOf(X, th, bottom(P0, "A"), false, 10), b = stateOf(X, th, bottom(P0, "B"), false, 10);
  V3 w = still ? V3(V3::Zero()) : vec("w"), acc = vec("acc"); double dt = sym("dt", 0.01, 0.2); if (!still) turns(w, dt); V3 raw = w + th.head(3);
  for (int i = 0; i < 2; i++) {
    Yaml y; y.flag("settings", "enable_imu_bias_update", false).put("noises", "gyroscope_bias_std", sym(i ? "gbB" : "gbA", 0.1, 1)).put("noises", "accelerometer_bias_std", sym(i ? "abB" : "abA", 0.1, 1)); RobotState& s = i ? b : a;
    Prop p(y, et); p.prime(imu(double(10), raw, acc)); s.set_propagate_time(double(10) - dt); check(p.step(s, imu(double(10.1), V3(double(0), double(0), double(0)), acc)), "a sample is used"); meq(s.get_theta(), th, "propagation keeps the biases when bias estimation is disabled");
  }
  samePose(a, b, "propagation ignores bias uncertainty, its noise and its correlation when bias estimation is disabled");
}
// pose covariance without attitude uncertainty, everything else arbitrary
static MX noAttitude(const string& nm, int n) { MX P = symm(nm, n); for (int i = 0; i < 3; i++) for (int j = 0; j < n; j++) { P(i, j) = 0; P(j, i) = 0; } return P; }
SX_HARNESS(c26_velocity_off) {
  ErrorType et = etOf(choose("error", 2)); bool right = et == ErrorType::RightInvariant; int aug = choose("aug", 2), n = 15 + 3 * aug; V3 o(0, 0, 0); vector<V3> d; for (int i = 0; i < aug; i++) d.push_back(right ? vec("d") : o);
  MX X = poseX(rotz("R"), right ? vec("v") : o, right ? vec("p") : o, d); VX th = vecn("th", 6); MX P0 = noAttitude("P", n); V3 m = vec("m"); RobotState s[2];
  for (int i = 0; i < 2; i++) { s[i] = stateOf(X, th, bottom(P0, i ? "B" : "A"), false, 10); VelC k(Yaml(), et); k.q->push(vel(double(9.9), m)); check(k.c->Correct(s[i]), "a timely measurement is used"); meq(s[i].get_theta(), th, "a velocity correction keeps the biases when bias estimation is disabled"); }
  samePose(s[0], s[1], "a velocity correction ignores bias uncertainty and correlation when bias estimation is disabled");
}
static MX isotropic(int n, int row, const double& c, const double& q) { MX P = MX::Zero(n, n); for (int i = 0; i < n; i++) P(i, i) = 1; P.block(0, row, 3, 3) = I3() * c; P.block(row, 0, 3, 3) = I3() * c; P.block(row, row, 3, 3) = I3() * q; return P; }
SX_HARNESS(c26_velocity_off_attitude) {
  int n = 15; MX X = poseX(rotz("R"), V3::Zero(), vec("p")); VX th = vecn("th", 6); V3 m = vec("m"); double c = sym("c", 0.1, 1), pv = sym("pv", 0.1, 2); MX P0 = isotropic(n, 3, c, pv); V3 z = M3(X.block(0, 0, 3, 3)) * m; turns(V3(z * (c / (pv + double(0.01)))), double(1)); RobotState s[2];
  for (int i = 0; i < 2; i++) { s[i] = stateOf(X, th, bottom(P0, i ? "B" : "A"), false, 10); VelC k(Yaml(), ErrorType::RightInvariant); k.q->push(vel(double(9.9), m)); check(k.c->Correct(s[i]), "a timely measurement is used"); meq(s[i].get_theta(), th, "a velocity correction keeps the biases when bias estimation is disabled"); }
  samePose(s[0], s[1], "a velocity correction ignores bias uncertainty and correlation when bias estimation is disabled");
}
SX_HARNESS(c26_legs_off) {
  ErrorType et = etOf(choose("error", 2)); bool right = et == ErrorType::RightInvariant; int L = 1 + choose("legs", 2), n = 15; V3 o(0, 0, 0);
  MX X = poseX(rotz("R"), right ? vec("v") : o, right ? vec("p") : o); VX th = vecn("th", 6); MX first = right ? mat("f", 3, L) : MX::Zero(3, L), pos = mat("k", 3, L), jac = MX::Zero(3, 3 * L); RobotState s[2]; bool drop = choose("drop_last", 2); vector<int> on(L, 1), end = on; if (drop) end[L - 1] = 0;
  for (int i = 0; i < 2; i++) {
    RobotState x = stateOf(X, th, eyen(n), false, 10); LegC k(Yaml(), et); k.q->push(legs(double(10), first, jac, on)); check(k.c->Correct(x), "contacts are made"); meq(x.get_theta(), th, "making contact keeps the biases when bias estimation is disabled"); MX P0 = noAttitude("P", x.dimP()); x.set_P(bottom(P0, i ? "B" : "A")); MX Y = x.get_X(); x.set_X(Y);
    k.q->push(legs(double(10), pos, jac, end)); check(k.c->Correct(x), "a timely measurement is used"); meq(x.get_theta(), th, "a contact correction keeps the biases when bias estimation is disabled"); s[i] = x;
  }
  samePose(s[0], s[1], "a contact correction ignores bias uncertainty and correlation when bias estimation is disabled");
}
SX_HARNESS(c26_new_contact_off) {
  ErrorType et = etOf(choose("error", 2)); MX X = poseX(rotz("R"), vec("v"), vec("p")); VX th = vecn("th", 6); MX P0 = symm("P", 15), pos = mat("k", 3, 1), jac = mat("j", 3, 3); RobotState s[2];
  for (int i = 0; i < 2; i++) { s[i] = stateOf(X, th, bottom(P0, i ? "B" : "A"), false, 10); LegC k(Yaml(), et); k.q->push(legs(double(10), pos, jac, {1})); check(k.c->Correct(s[i]), "contacts are made"); meq(s[i].get_theta(), th, "making contact keeps the biases when bias estimation is disabled"); }
  samePose(s[0], s[1], "a new contact ignores bias uncertainty and correlation when bias estimation is disabled");
}
// with bias estimation: exactly the yaw gyroscope bias stays
SX_HARNESS(c26_on) {
  bool leg = choose("leg", 2); V3 m = vec("m", 0.1, 2); double cg = sym("cg", 0.1, 1), ca = sym("ca", 0.1, 1), q = sym("q", 0.1, 2), sd = sym("sd", 0.1, 1); VX th = vecn("th", 6); MX X = poseX(I3(), V3::Zero(), V3::Zero()); double S; RobotState s; V3 z;
  if (!leg) { MX P = isotropic(15, 3, double(0), q); P.block(9, 3, 3, 3) = I3() * cg; P.block(3, 9, 3, 3) = I3() * cg; P.block(12, 3, 3, 3) = I3() * ca; P.block(3, 12, 3, 3) = I3() * ca; s = stateOf(X, th, P, true, 10); Yaml y; y.put("noises", "velocity_std", sd); VelC k(y, ErrorType::RightInvariant); k.q->push(vel(double(9.9), m)); check(k.c->Correct(s), "a timely measurement is used"); z = m; S = q + sd * sd; }
  else {
    s = stateOf(X, th, eyen(15), true, 10); Yaml y; y.put("noises", "kinematics_additive_std", sd); LegC k(y, ErrorType::RightInvariant); MX jac = MX::Zero(3, 3); k.q->push(legs(double(10), MX::Zero(3, 1), jac, {1})); check(k.c->Correct(s), "contact is made"); MX P = isotropic(18, 9, double(0), q); P.block(6, 6, 3, 3) = M3::Zero();
    P.block(12, 9, 3, 3) = I3() * cg; P.block(9, 12, 3, 3) = I3() * cg; P.block(15, 9, 3, 3) = I3() * ca; P.block(9, 15, 3, 3) = I3() * ca; s.set_P(P); s.set_theta(th); MX pos(3, 1); pos.col(0) = m; k.q->push(legs(double(10), pos, jac, {1})); check(k.c->Correct(s), "a timely measurement is used"); z = m; S = q + sd * sd;
  }
  VX e = th; for (int i = 0; i < 3; i++) { if (i != 2) e(i) = th(i) + cg * z(i) / S; e(3 + i) = th(3 + i) + ca * z(i) / S; } VX got = s.get_theta(); meq(got, e, "with bias estimation every bias but the yaw gyroscope bias follows the innovation");
  check_eq(got(2), th(2), "the yaw gyroscope bias is left unchanged");
  for (int i = 0; i < 6; i++) if (i != 2) check(gt(got(i), th(i)), "with bias estimation the correlated biases change");
}
