// @bound time step in [0.001, 0.5] s (and exactly 0); body rate: norm * dt >= 1e-4 rad with components in [-4,4], exactly zero, or norm < 1e-6 rad/s; body force components in [-10,10]
// @bound attitudes: unit quaternions; velocity, position, contact positions in [-2,2]; 0..1 contacts (thorough: 2); symmetric covariance with arbitrary entries in [-2,2]
// @bound noise standard deviations in [0,2]; contact process noise any symmetric matrix with entries in [-2,2]
// @assume mounting rotation, lever arm and biases enter the covariance only through the corrected rate and force, which C03 decides; they are the identity/zero here except for the biases
// @thorough c04_full_two_contacts
// @shards c04_full 4
// @shards c04_right_transition 4
// @shards c04_full_two_contacts 4
#include "prop.h"
typedef std::function<MX(const MX&)> Step;
struct Cfg { Yaml y; double sg, sa, sbg, sba; bool bias; };
static Cfg cfg(bool noise, bool bias) {
  Cfg c; c.bias = bias; c.y.flag("settings", "enable_imu_bias_update", bias);
  c.sg = noise ? sym("sg", 0, 2) : double(0); c.sa = noise ? sym("sa", 0, 2) : double(0); c.sbg = noise ? sym("sbg", 0, 2) : double(0); c.sba = noise ? sym("sba", 0, 2) : double(0);
  c.y.put("noises", "gyroscope_std", c.sg); c.y.put("noises", "accelerometer_std", c.sa); c.y.put("noises", "gyroscope_bias_std", c.sbg); c.y.put("noises", "accelerometer_bias_std", c.sba);
  return c;
}
struct World { MX X; V3 w, a; VX th; vector<MX> Na; };
static RobotState build(const World& W, const MX& P) {
  RobotState s(MX(W.X.block(0, 0, 5, 5)));
  for (int i = 5; i < W.X.cols(); i++) { V3 d = W.X.block(0, i, 3, 1); s.add_aug_state(d, M3(I3()), W.Na.empty() ? M3(M3::Zero()) : M3(W.Na[i - 5]), make_shared<int>(0)); }
  s.set_theta(W.th); s.set_P(P); return s;
}
// covariance after one step of length dt
static MX after(const Cfg& c, ErrorType et, const World& W, const double& dt, const MX& P, MX* mean = nullptr) {
  Prop p(c.y, et); V3 g = W.w + V3(W.th(0), W.th(1), W.th(2)), f = W.a + V3(W.th(3), W.th(4), W.th(5));
  double t0 = 10; p.prime(imu(t0 + dt, g, f));
  RobotState s = build(W, P); s.set_time(t0); s.set_propagate_time(t0);
  check(p.step(s, imu(t0 + dt + double(1), g, f)), "Propagate reports success when a sample is available");
  check(s.get_P().rows() == P.rows() && s.get_P().cols() == P.cols(), "propagation keeps the covariance size");
  if (mean) *mean = s.get_X();
  return s.get_P();
}
// transition matrix of one noise-free step, read from the covariance: the bias columns of Phi P Phi^T are those of Phi P
static MX phi(ErrorType et, const World& W, const double& dt, MX* mean = nullptr) {
  Cfg c = cfg(false, true); int n = 3 * (W.X.cols() - 2) + 6, m = n - 6; MX Phi(n, n);
  for (int k = 0; k < n; k += 6) {
    MX P = MX::Zero(n, n); int r = std::min(6, (k < m ? m : n) - k); if (k < m && k + r > m) r = m - k;
    for (int i = 0; i < r; i++) { P(k + i, m + i) = 1; P(m + i, k + i) = 1; }
    MX col = after(c, et, W, dt, P, mean).block(0, m, n, 6); Phi.block(0, k, n, r) = col.block(0, 0, n, r);
    if (k < m && k + r == m) k = m - 6;
  }
  return Phi;
}
// error dynamics matrix of the left-invariant error
static MX dynamics(const World& W) {
  int m = 3 * (W.X.cols() - 2), n = m + 6; MX A = MX::Zero(n, n);
  for (int i = 0; i < m; i += 3) A.block(i, i, 3, 3) = -sk(W.w);
  A.block(3, 0, 3, 3) = -sk(W.a); A.block(6, 3, 3, 3) = I3(); A.block(0, m, 3, 3) = -I3(); A.block(3, m + 3, 3, 3) = -I3();
  return A;
}
static World world(int rate, const double& dt, int naug, bool move) {
  World W; W.w = rate == 0 ? V3(V3::Zero()) : rate == 1 ? vec("rate", -4, 4) : vec("rate", -1e-7, 1e-7); W.a = vec("force", -10, 10);
  if (rate == 1) turns(W.w, dt, 1e-4); if (rate == 2) { using std::sqrt; assume(ge(sqrt(dot(W.w, W.w)) * dt, double(1e-9))); }
  vector<V3> d; for (int i = 0; i < naug; i++) d.push_back(vec("d" + std::to_string(i)));
  W.X = move ? poseX(rot("R"), vec("v"), vec("p"), d) : poseX(I3(), V3::Zero(), V3::Zero(), d); W.th = move ? vecn("th", 6) : VX(VX::Zero(6));
  return W;
}
SX_HARNESS(c04_left_transition) {
  double dt = sym("dt", 0.001, 0.5); World W = world(1, dt, 1, false); int n = 18;
  MX Phi = phi(ErrorType::LeftInvariant, W, dt), A = dynamics(W), d(n, n), rhs = A * Phi;
  vector<double> D = sx::jac([&](const double& x) { MX F = phi(ErrorType::LeftInvariant, W, x); vector<double> r; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r.push_back(F(i, j)); return r; }, dt);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) d(i, j) = D[i * n + j];
  meq(d, rhs, "the left-invariant transition matrix solves the linearised error dynamics");
  meq(phi(ErrorType::LeftInvariant, W, double(0)), eyen(n), "the transition matrix of an empty interval is the identity");
}
SX_HARNESS(c04_left_small_rate) {
  double dt = sym("dt", 0.01, 0.5); World W = world(choose("rate", 2) * 2, dt, 1, false); bool zero = true; for (int i = 0; i < 3; i++) if (!(W.w(i) == double(0))) zero = false;
  MX Phi = phi(ErrorType::LeftInvariant, W, dt);
  // at zero rate the dynamics matrix is nilpotent: Phi = I + A dt + A^2 dt^2/2 + A^3 dt^3/6
  World Z = W; Z.w = V3::Zero(); MX A = dynamics(Z) * dt, R = eyen(18); MX A2 = A * A, A3 = A2 * A; R = R + A + A2 * double(0.5) + A3 * (double(1) / double(6));
  if (zero) meq(Phi, R, "the left-invariant transition matrix at zero rate is exact");
  else for (int r : {3, 6}) for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double e = Phi(r + i, 12 + j) - R(r + i, 12 + j); check(And(le(e, double(1e-5)), ge(e, double(-1e-5))), "gyroscope-bias columns at vanishing rate approach those at zero rate"); }
}
SX_HARNESS(c04_right_transition) {
  int rate = choose("rate", 2); double dt = sym("dt", 0.001, 0.5); World W = world(rate, dt, 1, true); MX X1;
  MX Pl = phi(ErrorType::LeftInvariant, W, dt), Pr = phi(ErrorType::RightInvariant, W, dt, &X1);
  MX A0 = liftAdj(adjRef(W.X), 6), A1 = liftAdj(adjRef(X1), 6);
  MX lhs = Pr * A0, rhs = A1 * Pl;
  meq(lhs, rhs, "left- and right-invariant transition matrices are conjugate through the adjoint");
}
static void full(int naug) {
  bool bias = choose("bias_update", 2); ErrorType et = etOf(choose("error", 2)); int rate = choose("rate", 2);
  Cfg c = cfg(true, bias); double dt = sym("dt", 0.001, 0.5); World W = world(rate, dt, naug, true);
  int m = 3 * (naug + 3), n = m + 6; MX P(n, n), Q = MX::Zero(n, n);
  for (int i = 0; i < n; i++) for (int j = i; j < n; j++) { double v = sym("P" + std::to_string(i) + "_" + std::to_string(j), -2, 2); P(i, j) = v; P(j, i) = v; }
  for (int k = 0; k < naug; k++) { MX N(3, 3); for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) { double v = sym("N" + std::to_string(k) + std::to_string(i) + std::to_string(j), -2, 2); N(i, j) = v; N(j, i) = v; } W.Na.push_back(N); Q.block(9 + 3 * k, 9 + 3 * k, 3, 3) = N; }
  Q.block(0, 0, 3, 3) = I3() * sq(c.sg); Q.block(3, 3, 3, 3) = I3() * sq(c.sa);
  if (bias) { Q.block(m, m, 3, 3) = I3() * sq(c.sbg); Q.block(m + 3, m + 3, 3, 3) = I3() * sq(c.sba); }
  World Z = W; Z.Na.clear(); MX Phi = phi(et, Z, dt);
  MX got = after(c, et, W, dt, P);
  MX G = et == ErrorType::RightInvariant ? liftAdj(adjRef(W.X), 6) : eyen(n);
  if (bias) {
    MX PG = Phi * G, T = Phi * P; MX want = T * Phi.transpose(); MX q = PG * Q; want = want + (q * PG.transpose()) * dt;
    meq(got, want, "covariance after a step is Phi P Phi^T + Phi G Qc (Phi G)^T dt");
  } else {
    MX F = Phi; F.block(0, m, n, 6) = MX::Zero(n, 6);   // no bias, no coupling to it
    MX PG = F * G, T = F * P; MX want = T * F.transpose(); MX q = PG * Q; want = want + (q * PG.transpose()) * dt;
    meq(got.block(0, 0, m, m), want.block(0, 0, m, m), "covariance after a step without bias estimation is that of the pose alone");
    meq(got.block(0, m, m, 6), MX::Zero(m, 6), "without bias estimation pose and bias stay uncorrelated");
    meq(got.block(m, 0, 6, m), MX::Zero(6, m), "without bias estimation pose and bias stay uncorrelated");
  }
}
SX_HARNESS(c04_full) { full(choose("aug", 2)); }
SX_HARNESS(c04_full_two_contacts) { full(2); }
