// @bound observations of 3 rows (thorough: 6) with arbitrary H, symmetric N and symmetric prior P (entries in [-2,2]), 0..1 contact columns
// @bound the attitude part of the update (Exp, covariance mapped back at the updated state) for attitude innovations of at least 1e-8 rad, with prior and noise coupling attitude to every other block
// @bound attitude: rotation about the vertical (thorough: every unit quaternion); velocity, position, contacts in [-2,2]
// @assume the innovation covariance H P H^T + N is invertible (its inverse is taken by contract)
// @shards c05_cov 4
// @shards c05_linear 2
// @shards c05_attitude 4
// @thorough c05_cov_six_rows
// @thorough c05_attitude_full_rotation
#include "corr.h"
static void call(bool right, const VX& Z, const MX& H, const MX& N, RobotState& s, ErrorType et) { MX z = Z; if (right) filter::inekf::CorrectRightInvariant(z, H, N, s, et); else filter::inekf::CorrectLeftInvariant(z, H, N, s, et); }
static void covCase(int rows, int naug, bool map, bool full) {
  bool right = choose("right_observation", 2), bias = choose("bias_update", 2); ErrorType et = right != map ? ErrorType::RightInvariant : ErrorType::LeftInvariant;
  vector<V3> d; for (int i = 0; i < naug; i++) d.push_back(vec("d")); MX X = poseX(full ? rot("R") : rotz("R"), vec("v"), vec("p"), d); VX th = vecn("th", 6); int n = 15 + 3 * naug;
  MX P = symm("P", n), H = mat("H", rows, n), N = symm("N", rows); VX Z = VX::Zero(rows);
  RobotState s(X); s.set_theta(th); s.set_P(P); s.set_enable_imu_bias_update(bias); call(right, Z, H, N, s, et);
  Upd u = update(right, et, X, th, P, Z, H, N, bias, false);
  meq(s.get_P(), u.P, "posterior covariance is the Joseph form of the optimal update"); meq(s.get_X(), X, "a zero innovation leaves the mean unchanged"); meq(s.get_theta(), th, "a zero innovation leaves the biases unchanged");
}
SX_HARNESS(c05_cov) { int map = choose("other_error", 2); covCase(3, map ? 0 : choose("aug", 2), map, false); }
SX_HARNESS(c05_cov_six_rows) { covCase(6, choose("aug", 2), false, false); }
// no attitude uncertainty: the update is linear in all other components
SX_HARNESS(c05_linear) {
  bool right = choose("right_observation", 2), bias = choose("bias_update", 2); int rows = thorough() ? 6 : 3; ErrorType et = etOf(choose("error", 2)); bool map = right != (et == ErrorType::RightInvariant);
  MX X = poseX(rotz("R"), map ? V3(V3::Zero()) : vec("v"), map ? V3(V3::Zero()) : vec("p"), {map ? V3(V3::Zero()) : vec("d")}); VX th = vecn("th", 6); int n = 18;
  MX P = symm("P", n); for (int i = 0; i < 3; i++) for (int j = 0; j < n; j++) { P(i, j) = 0; P(j, i) = 0; }
  MX H = mat("H", rows, n), N = symm("N", rows); VX Z = vecn("Z", rows);
  RobotState s(X); s.set_theta(th); s.set_P(P); s.set_enable_imu_bias_update(bias); call(right, Z, H, N, s, et);
  Upd u = update(right, et, X, th, P, Z, H, N, bias, false);
  meq(s.get_X(), u.X, "the mean moves by the optimal gain times the innovation"); meq(s.get_theta(), u.th, "the biases move by the optimal gain times the innovation");
}
static void attitude(bool full) {
  bool right = choose("right_observation", 2), bias = choose("bias_update", 2); ErrorType et = etOf(choose("error", 2)); bool map = right != (et == ErrorType::RightInvariant);
  MX X = poseX(full ? rot("R") : rotz("R"), vec("v"), vec("p"), {vec("d")}); VX th = vecn("th", 6); int n = 18;
  MX P = MX::Zero(n, n); for (int i = 0; i < n; i++) { P(i, i) = sym("P" + std::to_string(i), 1, 2); if (i >= 3) { double c = sym("C" + std::to_string(i), -0.2, 0.2); P(i, i % 3) = c; P(i % 3, i) = c; } }
  MX H = MX::Zero(3, n), N = MX::Zero(3, 3); for (int i = 0; i < 3; i++) { H(i, i) = sym("H" + std::to_string(i), 0.5, 2); N(i, i) = sym("N" + std::to_string(i), 0.1, 2); } VX Z = vecn("Z", 3, -1, 1);
  V3 w; for (int i = 0; i < 3; i++) w(i) = P(i, i) * H(i, i) * Z(i) / (H(i, i) * P(i, i) * H(i, i) + N(i, i)); turns(w, double(1));
  MX Pin = P;   // prior in the frame of the observation
  if (map) { MX A = right ? liftAdj(adjRef(invRef(X)), 6) : liftAdj(adjRef(X), 6); MX T = A * P; Pin = T * A.transpose(); }
  RobotState s(X); s.set_theta(th); s.set_P(Pin); s.set_enable_imu_bias_update(bias); call(right, Z, H, N, s, et);
  Upd u = update(right, et, X, th, Pin, Z, H, N, bias, true);
  lem(s.get_X(), u.X, "the mean moves by the exponential of the optimal gain times the innovation"); meq(s.get_theta(), u.th, "the biases move by the optimal gain times the innovation");
  meq(s.get_P(), u.P, "posterior covariance is expressed at the updated state");
}
SX_HARNESS(c05_attitude) { attitude(false); }
SX_HARNESS(c05_attitude_full_rotation) { attitude(true); }
