// @bound time step in [0.001, 0.5] s; body rate after mounting rotation and bias removal: norm * dt >= 1e-8 rad with components in [-4,4] rad/s, or exactly zero; all attitudes as unit quaternions
// @bound IMU-to-body rotation: every such quaternion; lever arm, biases, velocity, position in [-2,2], specific forces in [-10,10] (raw samples are obtained from them by the inverse mounting transform, which is a bijection); 0..2 augmented vectors; sequences of up to 3 samples
// @assume g = (0,0,-9.80) as documented; rates with 0 < |w dt| < 1e-8 rad are covered by C01 for the integrals Gamma_m
#include "prop.h"
struct In { Yaml y; M3 Rib; V3 t, bg, ba; };
static In config(bool full) {
  In c; Quat q = full ? quatAny("imu2body") : Quat{1, 0, 0, 0}; c.Rib = full ? rotOf(q) : I3();
  c.t = full ? vec("lever", -1, 1) : V3(V3::Zero()); c.bg = vec("bg", -0.5, 0.5); c.ba = vec("ba", -1, 1);
  if (full) { c.y.put("settings", "rotation_imu2body", q); c.y.put("settings", "translation_imu2body", c.t); }
  c.y.flag("settings", "enable_imu_bias_update", choose("bias_update", 2));
  return c;
}
static MX pose(int naug) { vector<V3> a; for (int i = 0; i < naug; i++) a.push_back(vec("d" + std::to_string(i))); return poseX(rot("R"), vec("v"), vec("p"), a); }
// raw samples whose bias- and mounting-corrected values are w and a: every sample is of this form
static V3 gyroFor(const V3& w, const V3& bg, const M3& Rib) { return V3(Rib.transpose() * (w + bg)); }
static V3 accFor(const V3& a, const V3& w, const V3& t, const V3& ba, const M3& Rib) { return V3(Rib.transpose() * (a + ba + crs(w, crs(w, t)))); }
SX_HARNESS(c03_mean) {
  bool zero = choose("zero_rate", 2); int naug = choose("aug", 2) * 2;
  In c = config(true); ErrorType et = etOf(choose("error", 2));
  double t0 = sym("t0", 0, 100), dt = sym("dt", 0.001, 0.5);
  V3 w = zero ? V3(V3::Zero()) : vec("rate", -4, 4), a = vec("force", -10, 10); if (!zero) turns(w, dt);
  V3 gyro = gyroFor(w, c.bg, c.Rib), acc = accFor(a, w, c.t, c.ba, c.Rib);
  Prop P(c.y, et);
  P.prime(imu(t0 + dt, gyro, acc));
  MX X = pose(naug); RobotState s(X);
  VX th(6); th << c.bg(0), c.bg(1), c.bg(2), c.ba(0), c.ba(1), c.ba(2);
  s.set_theta(th); s.set_time(t0 - sym("late", 0, 1)); s.set_propagate_time(t0);
  bool ok = P.step(s, imu(t0 + dt + sym("dt2", 0.001, 0.5), vec("gyro2"), vec("acc2")));
  check(ok, "Propagate reports success when a sample is available");
  meq(s.get_X(), meanRef(X, w, a, dt, zero), "mean after one inertial sample is the exact strapdown solution");
  meq(s.get_theta(), th, "propagation leaves the biases unchanged");
  ceq(s.get_time(), t0 + dt, "state time is the time of the sample used"); ceq(s.get_propagate_time(), t0 + dt, "last propagation time is the time of the sample used");
  check(P.q->empty(), "one sample is consumed per propagation");
}
SX_HARNESS(c03_empty) {
  In c = config(false); ErrorType et = etOf(choose("error", 2));
  Prop P(c.y, et); VX th = vecn("th", 6); V3 w = vec("rate"), a = vec("force"), g1 = w + V3(th(0), th(1), th(2)), a1 = a + V3(th(3), th(4), th(5));
  double t0 = sym("t0", 0, 100), dt = sym("dt", 0.001, 0.5);
  P.prime(imu(t0 + dt, g1, a1));
  MX X = pose(1); RobotState s(X); s.set_theta(th); MX Pm = mat("P", 18, 18); s.set_P(Pm);
  double st = sym("st", 0, 100); s.set_time(st); s.set_propagate_time(t0);
  check(!P.p->Propagate(s), "Propagate reports failure on an empty queue");
  meq(s.get_X(), X, "a propagation without data leaves the mean unchanged"); meq(s.get_P(), Pm, "a propagation without data leaves the covariance unchanged");
  meq(s.get_theta(), th, "a propagation without data leaves the biases unchanged");
  ceq(s.get_time(), st, "a propagation without data leaves the time unchanged"); ceq(s.get_propagate_time(), t0, "a propagation without data leaves the propagation time unchanged");
  // the pending sample is not lost
  turns(w, dt);
  check(P.step(s, imu(t0 + double(2) * dt, vec("g2"), vec("a2"))), "Propagate reports success when a sample is available");
  meq(s.get_X(), meanRef(X, w, a, dt, false), "the sample pending before an empty call is used afterwards");
}
// three samples in sequence: each is used once, in order, over its own interval
SX_HARNESS(c03_sequence) {
  In c; c.bg = vec("bg", -0.5, 0.5); c.ba = vec("ba", -1, 1); ErrorType et = etOf(choose("error", 2)); c.y.flag("settings", "enable_imu_bias_update", choose("bias_update", 2));
  Prop P(c.y, et);
  double t0 = sym("t0", 0, 100), d[3]; ImuP m[4]; V3 g[3], a[3]; double t = t0;
  for (int i = 0; i < 3; i++) {
    d[i] = sym("dt" + std::to_string(i), 0.001, 0.5); t = t + d[i]; V3 w = vec("rate" + std::to_string(i)); g[i] = w + c.bg; a[i] = vec("force" + std::to_string(i), -10, 10) + c.ba; turns(w, d[i]); m[i] = imu(t, g[i], a[i]);
  }
  m[3] = imu(t + double(0.01), V3(1, 2, 3), V3(1, 2, 3));
  P.prime(m[0]); for (int i = 1; i < 4; i++) P.q->push(m[i]);
  MX X = poseX(I3(), vec("v"), vec("p")); RobotState s(X); VX th(6); th << c.bg(0), c.bg(1), c.bg(2), c.ba(0), c.ba(1), c.ba(2); s.set_theta(th); s.set_propagate_time(t0); s.set_time(t0);
  MX R = X; t = t0;
  for (int i = 0; i < 3; i++) {
    MX before = s.get_X();
    check(P.p->Propagate(s), "Propagate reports success when a sample is available");
    t = t + d[i];
    meq(s.get_X(), meanRef(before, V3(g[i] - c.bg), V3(a[i] - c.ba), d[i], false), "samples are used once each, in order, over their own interval");
    ceq(s.get_propagate_time(), t, "last propagation time follows the samples");
  }
  check(!P.p->Propagate(s), "the last sample waits for a newer one");
}
