// @bound symmetry and size: arbitrary symmetric covariances with entries in [-2,2] (corrections: diagonal at least 0.1), 0..1 contacts, one operation, and a sequence of propagations, contact insertion, exchanges and removal in which the covariance is replaced by an arbitrary symmetric one after every operation
// @bound attitude: rotation about the vertical; rates zero or at least 1e-8 rad per step; corrections with zero innovation, or with any innovation when the attitude is certain
// @bound semidefiniteness: two uncertain 3-vectors with isotropic covariance blocks (any semidefinite 2x2 pattern with entries in [0,2]), attitude identity; decided through the principal minors of the result
// @assume for arbitrary covariances semidefiniteness follows from the congruence forms that C04, C05, C08, C12 and C13 decide entry by entry
// @assume the innovation covariance is invertible (its inverse is taken by contract)
// @shards c07_symmetry_propagation 2
// @shards c07_symmetry_legged 4
// @shards c07_sequence 4
#include "corr.h"
static void symmetric(const RobotState& s, const string& what) {
  int n = 3 * s.dimX() + s.dimTheta() - 6; MX P = s.get_P(), Q = s.get_continuous_noise_covariance();
  check(P.rows() == n && P.cols() == n && s.dimP() == n, "covariance size follows the state: " + what); check(Q.rows() == n && Q.cols() == n && s.dimQc() == n, "process-noise size follows the state: " + what);
  check(s.get_X().rows() == s.get_X().cols() && s.get_X().cols() == s.dimX(), "the state stays square: " + what);
  if (P.rows() != P.cols()) sx::stop("size");
  sx::lemma_mode(true); for (int i = 0; i < P.rows(); i++) for (int j = 0; j < i; j++) check_eq(P(i, j), P(j, i), "covariance stays symmetric: " + what); sx::lemma_mode(false);
  for (int i = 0; i < Q.rows(); i++) for (int j = 0; j < i; j++) check_eq(Q(i, j), Q(j, i), "process noise stays symmetric: " + what);
}
// intermediate symmetric matrices of the textbook update: proved first, so that the library's own nodes are known to be symmetric
static void hint(ErrorType et, const MX& X, const VX& th, const MX& P, const VX& Z, const MX& H, const MX& N, bool bias) {
  Upd u = update(true, et, X, th, P, Z, H, N, bias, false); sx::lemma_mode(true); for (const MX* M : {&u.prior, &u.post}) for (int i = 0; i < M->rows(); i++) for (int j = 0; j < i; j++) check_eq((*M)(i, j), (*M)(j, i), "the update keeps symmetry in the frame of the observation"); sx::lemma_mode(false);
}
static Yaml noisy(bool bias) { Yaml y; y.flag("settings", "enable_imu_bias_update", bias); for (const char* k : {"gyroscope_std", "accelerometer_std", "gyroscope_bias_std", "accelerometer_bias_std"}) y.put("noises", k, sym(k, 0, 2)); for (const char* k : {"velocity_std", "encoder_std", "kinematics_additive_std", "contact_noise_std"}) y.put("noises", k, sym(k, 0.1, 1)); return y; }
static RobotState start(const MX& X, const VX& th, const MX& P, bool bias, const MX* N = nullptr) {
  RobotState s(MX(X.block(0, 0, 5, 5))); for (int i = 5; i < X.cols(); i++) { V3 d = X.block(0, i, 3, 1); s.add_aug_state(d, M3(I3()), N ? M3(*N) : M3(M3::Zero()), make_shared<int>(0)); }
  s.set_theta(th); s.set_P(P); s.set_enable_imu_bias_update(bias); s.set_time(10); s.set_propagate_time(10); return s;
}
SX_HARNESS(c07_symmetry_propagation) {
  ErrorType et = etOf(choose("error", 2)); bool bias = choose("bias_update", 2), zero = choose("zero_rate", 2); int naug = choose("aug", 2), n = 15 + 3 * naug; double dt = sym("dt", 0.001, 0.5); V3 w = zero ? V3(V3::Zero()) : vec("rate", -4, 4), a = vec("force", -10, 10); if (!zero) turns(w, dt);
  vector<V3> d; for (int i = 0; i < naug; i++) d.push_back(vec("d")); MX N = symm("N", 3), X = poseX(rotz("R"), vec("v"), vec("p"), d), P = symm("P", n); RobotState s = start(X, VX::Zero(6), P, bias, &N); Prop p(noisy(bias), et); p.prime(imu(double(10) + dt, w, a));
  check(p.step(s, imu(double(12), w, a)), "Propagate reports success when a sample is available"); symmetric(s, "propagation");
}
static void velocityCase(bool innov) {
  ErrorType et = etOf(choose("error", 2)); bool right = et == ErrorType::RightInvariant, bias = choose("bias_update", 2); int naug = choose("aug", 2), n = 15 + 3 * naug; V3 o(0, 0, 0);
  vector<V3> d; for (int i = 0; i < naug; i++) d.push_back(vec("d")); MX X = poseX(rotz("R"), innov && right ? vec("v") : o, vec("p"), d), P = symm("P", n); if (innov) { if (!right) X.block(0, 3, 3, 2) = MX::Zero(3, 2); for (int i = 0; i < 3; i++) for (int j = 0; j < n; j++) { P(i, j) = 0; P(j, i) = 0; } }
  RobotState s = start(X, vecn("th", 6), P, bias); VelC k(noisy(bias), et); k.q->push(vel(double(9.9), innov ? vec("m") : o)); check(k.c->Correct(s), "a timely velocity measurement is applied"); if (!innov) hint(et, X, VX::Zero(6), P, VX::Zero(3), velObs(n), velNoise(X.block(0, 0, 3, 3), sym("velocity_std", 0.1, 1)), bias); symmetric(s, "velocity correction");
}
SX_HARNESS(c07_symmetry_velocity) { velocityCase(false); }
SX_HARNESS(c07_symmetry_velocity_innovation) { velocityCase(true); }
// insertion of a contact, its confirmation together with another insertion, and removal, each from an arbitrary covariance
SX_HARNESS(c07_symmetry_legged) {
  ErrorType et = etOf(choose("error", 2)); bool bias = choose("bias_update", 2); int mode = choose("event", 4); LegC f(noisy(bias), et); MX pos = mat("k", 3, 3), jac = MX::Zero(3, 9); for (int i = 0; i < 3; i++) jac.block(0, 3 * i, 3, 3) = mode < 2 ? mat("J" + std::to_string(i), 3, 3) : MX(I3() * sym("J" + std::to_string(i), -2, 2));
  RobotState s = start(poseX(rotz("R"), vec("v"), vec("p")), vecn("th", 6), mode == 0 ? symm("P", 15) : eyen(15), bias); auto go = [&](const vector<int>& c, const string& w, int confirmed = -1) {
    MX X = s.get_X(), P = s.get_P(); f.q->push(legs(double(9.9), pos, jac, c)); check(f.c->Correct(s), "a timely legged measurement is applied");
    if (confirmed >= 0) { VX Z; MX H, N; stack(X, {confirmed}, pos, jac, sym("encoder_std", 0.1, 1), sym("kinematics_additive_std", 0.1, 1), Z, H, N); hint(et, X, VX::Zero(6), P, VX::Zero(3), H, N, bias); }
    symmetric(s, w);
  };
  go(mode == 3 ? vector<int>{1, 1, 0} : vector<int>{1, 0, 0}, "contact insertion"); if (mode == 0) return;
  int n = s.dimP(); s.set_P(symm("P", n));
  if (mode == 1) go({0, 0, 0}, "contact removal"); else if (mode == 2) go({1, 1, 0}, "contact correction and insertion", 0); else go({0, 1, 1}, "contact correction, removal and insertion", 1);
}
// all operations in a row; between them the covariance is replaced by an arbitrary symmetric one
SX_HARNESS(c07_sequence) {
  ErrorType et = etOf(choose("error", 2)); bool bias = choose("bias_update", 2); Yaml y = noisy(bias); double dt = sym("dt", 0.01, 0.05, 0.001, 0.05); V3 o(0, 0, 0), a = vec("force", -2, 2); Prop p(y, et); VelC k(y, et); LegC f(y, et); RobotState s = start(poseX(I3(), o, o), VX::Zero(6), symm("P", 15), bias); int c = 0;
  auto fresh = [&]() { s.set_P(symm("P" + std::to_string(c++) + "_", s.dimP())); };
  p.prime(imu(double(10) + dt, o, a)); check(p.step(s, imu(double(10) + dt * double(2), o, a)), "Propagate reports success when a sample is available"); symmetric(s, "sequence, propagation"); fresh();
  MX pos = mat("k", 3, 2), jac = MX::Zero(3, 6); f.q->push(legs(double(10), pos, jac, {1, 0})); check(f.c->Correct(s), "a timely legged measurement is applied"); symmetric(s, "sequence, insertion"); fresh();
  check(p.step(s, imu(double(10) + dt * double(3), o, a)), "Propagate reports success when a sample is available"); symmetric(s, "sequence, propagation with a contact"); fresh();
  f.q->push(legs(double(10), pos, jac, {0, 1})); check(f.c->Correct(s), "a timely legged measurement is applied"); symmetric(s, "sequence, exchange"); fresh();
  check(p.step(s, imu(double(10) + dt * double(4), o, a)), "Propagate reports success when a sample is available"); symmetric(s, "sequence, propagation with another contact"); fresh();
  f.q->push(legs(double(10), pos, jac, {1, 0})); check(f.c->Correct(s), "a timely legged measurement is applied"); symmetric(s, "sequence, exchange back"); fresh(); f.q->push(legs(double(10), pos, jac, {0, 0})); check(f.c->Correct(s), "a timely legged measurement is applied"); symmetric(s, "sequence, removal");
}
// ---- semidefiniteness on two uncertain blocks
struct Two { double a, b, c; };
static MX twoBlocks(int n, int i, int j, Two& t) { t.a = sym("Pa", 0, 2); t.c = sym("Pc", 0, 2); t.b = sym("Pb", -2, 2); assume(le(t.b * t.b, t.a * t.c)); MX P = MX::Zero(n, n); P.block(3 * i, 3 * i, 3, 3) = I3() * t.a; P.block(3 * j, 3 * j, 3, 3) = I3() * t.c; P.block(3 * i, 3 * j, 3, 3) = I3() * t.b; P.block(3 * j, 3 * i, 3, 3) = I3() * t.b; return P; }
static void semidefinite(const RobotState& s, const string& what, int from = 0) {
  MX P = s.get_P(); int n = P.rows(), m = n - 6;
  for (int i = 0; i < m; i += 3) check(ge(P(i, i), double(0)), "variances stay non-negative: " + what);
  for (int i = 0; i < m; i += 3) for (int j = i + 3; j < m; j += 3) check(ge(P(i, i) * P(j, j), P(i, j) * P(i, j)), "covariances stay bounded by the variances: " + what);
}
SX_HARNESS(c07_definite_propagation) {
  ErrorType et = etOf(choose("error", 2)); int pair = choose("pair", 3); double dt = sym("dt", 0.01, 0.5); V3 o(0, 0, 0); Two t; int I[3] = {1, 1, 2}, J[3] = {2, 3, 3}; MX P = twoBlocks(18, I[pair], J[pair], t); RobotState s = start(poseX(I3(), o, o, {o}), VX::Zero(6), P, false); Yaml y; double sa = sym("sa", 0, 2); y.put("noises", "gyroscope_std", double(0)).put("noises", "accelerometer_std", sa); Prop p(y, et); p.prime(imu(double(10) + dt, o, V3(0, 0, 9.8)));
  check(p.step(s, imu(double(12), o, o)), "Propagate reports success when a sample is available"); semidefinite(s, "propagation");
}
SX_HARNESS(c07_definite_velocity) {
  ErrorType et = etOf(choose("error", 2)); int other = choose("other", 3); V3 o(0, 0, 0); Two t; int J[3] = {0, 2, 3}; MX P = twoBlocks(18, std::min(1, J[other]), std::max(1, J[other]), t); RobotState s = start(poseX(I3(), o, o, {o}), VX::Zero(6), P, false); Yaml y; y.put("noises", "velocity_std", sym("sv", 0.1, 2)); VelC k(y, et);
  k.q->push(vel(double(9.9), o)); check(k.c->Correct(s), "a timely velocity measurement is applied"); semidefinite(s, "velocity correction");
}
SX_HARNESS(c07_definite_legged) {
  ErrorType et = etOf(choose("error", 2)); int ev = choose("event", 2), other = choose("pair", 3); V3 o(0, 0, 0); Two t; Yaml y; y.put("noises", "encoder_std", double(0)).put("noises", "kinematics_additive_std", sym("sk", 0.1, 2)); LegC f(y, et); RobotState s = start(poseX(I3(), o, o), VX::Zero(6), eyen(15), false); MX pos = MX::Zero(3, 2), jac = MX::Zero(3, 6);
  if (ev) { f.q->push(legs(double(9.9), pos, jac, {1, 0})); check(f.c->Correct(s), "a timely legged measurement is applied"); int I[3] = {0, 1, 2}, J[3] = {3, 3, 3}; s.set_P(twoBlocks(18, I[other], J[other], t)); f.q->push(legs(double(9.9), pos, jac, {1, 0})); }
  else { int I[3] = {0, 1, 0}, J[3] = {2, 2, 1}; s.set_P(twoBlocks(15, I[other], J[other], t)); f.q->push(legs(double(9.9), pos, jac, {1, 0})); }
  check(f.c->Correct(s), "a timely legged measurement is applied"); semidefinite(s, ev ? "contact correction" : "contact insertion");
}
