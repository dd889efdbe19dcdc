// @bound pairs of filters in corresponding states: mean X with 0..1 contacts; corrections and contact bookkeeping: left-invariant covariance P symmetric with entries in [-2,2] (for corrections the observed vectors and the attitude are uncoupled, or coupled isotropically), right-invariant covariance Ad(X) P Ad(X)^T
// @bound propagation: one uncertain block (attitude, velocity, position, contact) or one process noise at a time, pose block of the covariance, at zero rate (at other rates only the means are compared: C04 decides the transition matrix, its conjugacy and the covariance against one reference for both error types)
// @bound attitude rotation about the vertical ; the posterior attitude step is at least 1e-8 rad or exactly zero
// @bound gauge: any translation and any rotation about the vertical; innovation covariance isotropic for the rotation gauge (its inverse is taken by contract)
// @assume the innovation covariance is invertible
// @shards c06_propagation 4
// @shards c06_velocity 2
// @shards c06_legged 4
#include "corr.h"
static void related(const RobotState& l, const RobotState& r, const string& what) {
  MX Xl = l.get_X(), Xr = r.get_X(); lem(Xl, Xr, what + ": both error types give the same mean");
  meq(l.get_theta(), r.get_theta(), what + ": both error types give the same biases");
  meq(l.get_P(), congr(liftAdj(adjRef(invRef(Xr)), 6), r.get_P()), what + ": the covariances correspond through the adjoint of the mean");
}
SX_HARNESS(c06_propagation) {
  bool bias = choose("bias_update", 2), zero = choose("zero_rate", 2); int naug = 1, m = 9 + 3 * naug, n = m + 6, blk = zero ? choose("uncertain", 6) : 0;
  double dt = sym("dt", 0.001, 0.5); V3 w = zero ? V3(V3::Zero()) : vec("rate", -4, 4), a = vec("force", -10, 10); if (!zero) turns(w, dt);
  vector<V3> d; if (naug) d.push_back(vec("d")); MX X = poseX(rotz("R"), vec("v"), vec("p"), d); VX th = vecn("th", 6);
  // left covariance: one uncertain vector, or process noise only
  MX Pl = MX::Zero(n, n); if (blk < 4) Pl.block(3 * blk, 3 * blk, 3, 3) = I3() * sym("P", 0, 2);
  Yaml y; y.flag("settings", "enable_imu_bias_update", bias); y.put("noises", "gyroscope_std", blk == 4 ? sym("sg", 0, 2) : double(0)); y.put("noises", "accelerometer_std", blk == 5 ? sym("sa", 0, 2) : double(0)); y.put("noises", "gyroscope_bias_std", double(0)); y.put("noises", "accelerometer_bias_std", double(0));
  V3 g = w + V3(th(0), th(1), th(2)), f = a + V3(th(3), th(4), th(5)); double t0 = 10; double sc = blk == 5 ? sym("sc", 0, 2) : double(0);
  shared_ptr<RobotState> out[2];
  for (int e = 0; e < 2; e++) {
    Prop p(y, etOf(e)); p.prime(imu(t0 + dt, g, f));
    RobotState s(MX(X.block(0, 0, 5, 5))); if (naug) s.add_aug_state(d[0], M3(I3()), M3(I3() * sc), make_shared<int>(0));
    s.set_theta(th); s.set_P(e ? congr(liftAdj(adjRef(X), 6), Pl) : Pl); s.set_propagate_time(t0); s.set_time(t0);
    check(p.step(s, imu(t0 + dt + double(1), g, f)), "Propagate reports success when a sample is available"); out[e] = make_shared<RobotState>(s);
  }
  lem(out[0]->get_X(), out[1]->get_X(), "propagation: both error types give the same mean");
  if (!zero) return;   // at other rates C04 decides both covariances against the same reference
  meq(out[1]->get_P().block(0, 0, m, m), congr(adjRef(out[1]->get_X()), out[0]->get_P().block(0, 0, m, m)), "propagation: the covariances correspond through the adjoint of the mean");
}
// left covariance for which the observed vectors carry no attitude information
static MX leftPrior(int n, const vector<int>& observed) {
  MX P = symm("P", n); P.block(0, 0, 3, 3) = MX::Zero(3, 3);
  for (int o : observed) { P.block(0, o, 3, 3) = MX::Zero(3, 3); P.block(o, 0, 3, 3) = MX::Zero(3, 3); }
  return P;
}
SX_HARNESS(c06_velocity) {
  bool bias = choose("bias_update", 2); int att = choose("attitude_moves", 2); int n = 18;
  MX X = poseX(rotz("R"), vec("v"), vec("p"), {vec("d")}); VX th = vecn("th", 6); MX P = leftPrior(n, {3}); double c = sym("c", 0.1, 1), pv = sym("pv", 0.1, 2);
  if (att) { P.block(0, 3, 3, 3) = I3() * c; P.block(3, 0, 3, 3) = I3() * c; P.block(3, 3, 3, 3) = I3() * pv; }
  Yaml y; double sv = sym("sv", 0.1, 2); y.put("noises", "velocity_std", sv); V3 mv = vec("mv");
  // the right-invariant velocity/attitude coupling is then c plus a term of v; with v = 0 the step is c z / (pv + sv^2)
  if (att) { X(0, 3) = 0; X(1, 3) = 0; X(2, 3) = 0; M3 R = X.block(0, 0, 3, 3); V3 w = R * mv * (c / (pv + sv * sv)); turns(w, double(1)); }
  RobotState l = stateOf(X, th, P, bias, 10), r = stateOf(X, th, congr(liftAdj(adjRef(X), 6), P), bias, 10);
  for (int e = 0; e < 2; e++) { VelC k(y, etOf(e)); k.q->push(vel(double(9.9), mv)); check(k.c->Correct(e ? r : l), "a timely velocity measurement is applied"); }
  related(l, r, "velocity correction");
}
// tracked leg 0, untracked leg 1: correction, insertion and removal
SX_HARNESS(c06_legged) {
  bool bias = choose("bias_update", 2); int mode = choose("event", 3);   // 0 correct the tracked leg, 1 insert a second leg, 2 remove the tracked leg
  MX X = poseX(rotz("R"), vec("v"), vec("p"));
  VX th = vecn("th", 6); Yaml y; y.put("noises", "encoder_std", sym("se", 0.1, 1)); y.put("noises", "kinematics_additive_std", sym("sk", 0.1, 1));
  MX pos0 = mat("a", 3, 2), pos = mat("b", 3, 2), jac = MX::Zero(3, 6); for (int i = 0; i < 2; i++) jac.block(0, 3 * i, 3, 3) = I3() * sym("J" + std::to_string(i), -2, 2);
  RobotState s[2]; vector<shared_ptr<LegC>> c;
  for (int e = 0; e < 2; e++) {
    s[e] = stateOf(X, th, eyen(15), bias, 10); c.push_back(make_shared<LegC>(y, etOf(e)));
    c[e]->q->push(legs(double(9.9), pos0, jac, {1, 0})); check(c[e]->c->Correct(s[e]), "a timely legged measurement is applied");
  }
  MX Y = s[0].get_X(); lem(Y, s[1].get_X(), "contact insertion: both error types give the same mean");
  // arbitrary corresponding covariances at this point
  MX P = mode == 0 ? leftPrior(18, {6, 9}) : symm("P", 18);
  s[0].set_P(P); s[1].set_P(congr(liftAdj(adjRef(Y), 6), P));
  for (int e = 0; e < 2; e++) { c[e]->q->push(legs(double(9.95), pos, jac, mode == 0 ? vector<int>{1, 0} : mode == 1 ? vector<int>{0, 1} : vector<int>{0, 0})); check(c[e]->c->Correct(s[e]), "a timely legged measurement is applied"); }
  related(s[0], s[1], mode == 0 ? "legged correction" : mode == 1 ? "contact exchange" : "contact removal");
}
// world-frame gauge: X -> G X
static MX gauge(const M3& Rz, const V3& t, const MX& X) { MX G = MX::Identity(X.rows(), X.cols()); G.block(0, 0, 3, 3) = Rz; MX Y = G * X; for (int i = 4; i < X.cols(); i++) { V3 c = Y.block(0, i, 3, 1); V3 d = c + t; Y.block(0, i, 3, 1) = d; } return Y; }
static MX gaugeAdj(const M3& Rz, const V3& t, int k) { MX A = MX::Zero(3 * k, 3 * k); for (int i = 0; i < k; i++) A.block(3 * i, 3 * i, 3, 3) = Rz; M3 T = sk(t) * Rz; for (int i = 2; i < k; i++) A.block(3 * i, 0, 3, 3) = T; return liftAdj(A, 6); }
static void smallCoupling(MX& P, int rows) { for (int i = 0; i < 3; i++) for (int j = 3; j < rows; j++) { P(i, j) = 0; P(j, i) = 0; } }   // no attitude information in the observed vector
SX_HARNESS(c06_gauge_propagation) {
  ErrorType et = etOf(choose("error", 2)); bool bias = choose("bias_update", 2), turn = choose("rotate", 2); double dt = sym("dt", 0.001, 0.5); V3 w = vec("rate", -4, 4), a = vec("force", -10, 10); turns(w, dt);
  M3 Rz = turn ? rotz("G") : I3(); V3 t = turn ? V3(V3::Zero()) : vec("t"); MX X = poseX(turn ? rotz("R") : rot("R"), vec("v"), vec("p")); MX GX = gauge(Rz, t, X); int n = 15, blk = choose("uncertain", 4);
  MX P = MX::Zero(n, n); if (blk < 3) P.block(3 * blk, 3 * blk, 3, 3) = I3() * sym("P", 0, 2);
  Yaml y; y.flag("settings", "enable_imu_bias_update", bias); y.put("noises", "gyroscope_std", blk == 3 ? sym("sg", 0, 2) : double(0)); y.put("noises", "accelerometer_std", blk == 3 ? sym("sa", 0, 2) : double(0)); y.put("noises", "gyroscope_bias_std", double(0)); y.put("noises", "accelerometer_bias_std", double(0));
  MX A = et == ErrorType::RightInvariant ? gaugeAdj(Rz, t, 3) : eyen(n); shared_ptr<RobotState> out[2];
  for (int k = 0; k < 2; k++) { Prop p(y, et); p.prime(imu(double(10) + dt, w, a)); RobotState s = stateOf(k ? GX : X, VX::Zero(6), k ? congr(A, P) : P, bias, 10); check(p.step(s, imu(double(12), w, a)), "Propagate reports success when a sample is available"); out[k] = make_shared<RobotState>(s); }
  lem(out[1]->get_X(), gauge(Rz, t, out[0]->get_X()), "propagation commutes with translations and rotations about the vertical");
  meq(out[1]->get_P().block(0, 0, 9, 9), congr(A, out[0]->get_P()).block(0, 0, 9, 9), "propagated covariance commutes with translations and rotations about the vertical");
}
SX_HARNESS(c06_gauge_correction) {
  ErrorType et = etOf(choose("error", 2)); bool bias = choose("bias_update", 2); bool right = et == ErrorType::RightInvariant; bool turn = choose("rotate", 2);
  M3 Rz = turn ? rotz("G") : I3(); V3 t = vec("t"); MX X = poseX(turn ? I3() : rotz("R"), vec("v"), vec("p"), {vec("d")}); MX GX = gauge(Rz, t, X); int n = 18; VX th = vecn("th", 6);
  MX P = symm("P", n); smallCoupling(P, 6); if (turn) { double s = sym("Piso", 0.5, 2); P.block(3, 3, 3, 3) = I3() * s; }
  MX A = gaugeAdj(Rz, t, 4), GP = congr(A, P); V3 mv = vec("mv"); Yaml y; y.put("noises", "velocity_std", sym("sv", 0.1, 2));
  RobotState s[2] = {stateOf(X, th, right ? P : congr(liftAdj(adjRef(invRef(X)), 6), P), bias, 10), stateOf(GX, th, right ? GP : congr(liftAdj(adjRef(invRef(GX)), 6), GP), bias, 10)};
  for (int k = 0; k < 2; k++) { VelC c(y, et); c.q->push(vel(double(9.9), mv)); check(c.c->Correct(s[k]), "a timely velocity measurement is applied"); }
  lem(s[1].get_X(), gauge(Rz, t, s[0].get_X()), "a velocity correction commutes with translations and rotations about the vertical"); meq(s[1].get_theta(), s[0].get_theta(), "a velocity correction commutes with the gauge (biases)");
  if (right) meq(s[1].get_P(), congr(A, s[0].get_P()), "corrected covariance commutes with translations and rotations about the vertical");
}
