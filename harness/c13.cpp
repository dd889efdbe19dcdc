// @bound 3 legs: two tracked and in contact (thorough: three), one tracked and lifted or new or neither; leg Jacobians (legs 0 and 1 full, a third diagonal; thorough: all full) and positions with entries in [-2,2], encoder and kinematics std in [0.1,1]
// @bound attitude: rotation about the vertical; covariance: any symmetric prior (entries in [-2,2]) with zero innovation; mean: priors without attitude uncertainty; attitude step: one leg with an isotropic coupling and a step of at least 0.01 rad
// @assume the innovation covariance is invertible (its inverse is taken by contract)
// @shards c13_cov 4
// @shards c13_linear 4
#include "corr.h"
struct Setup { Yaml y; double se, sk_; MX pos, jac; RobotState s; vector<int> legsOn; };
// tracks legs 0..k-1 of L (in this order, so that leg i owns column 5+i)
static void setup(Setup& c, LegC& f, const MX& X, const VX& th, bool bias, int L, int k, const MX& pos0) {
  c.s = stateOf(X, th, eyen(15), bias, 10); vector<int> con(L, 0); for (int i = 0; i < k; i++) con[i] = 1; f.q->push(legs(double(10), pos0, MX::Zero(3, 3 * L), con)); check(f.c->Correct(c.s), "a timely legged measurement is applied");
}
static void run(bool linear) {
  ErrorType et = etOf(choose("error", 2)); bool right = et == ErrorType::RightInvariant, bias = choose("bias_update", 2); int k = thorough() ? 3 : 2, L = k + 1; int extra = choose("other_leg", 2);   // the last leg: absent, or new
  Yaml y; double se = sym("se", 0.1, 1), sk_ = sym("sk", 0.1, 1); y.put("noises", "encoder_std", se).put("noises", "kinematics_additive_std", sk_); LegC f(y, et); V3 o(0, 0, 0);
  MX X = poseX(rotz("R"), linear && !right ? o : vec("v"), linear && !right ? o : vec("p")); VX th = vecn("th", 6); MX pos0 = linear && !right ? MX(MX::Zero(3, L)) : mat("a", 3, L), jac = MX::Zero(3, 3 * L); for (int i = 0; i < L; i++) jac.block(0, 3 * i, 3, 3) = (thorough() || i < 2) ? mat("J" + std::to_string(i), 3, 3) : MX(MX(vec("J" + std::to_string(i)).asDiagonal()));
  Setup c; setup(c, f, X, th, bias, L, k, pos0); MX Y = c.s.get_X(); int n = 15 + 3 * k; MX P = symm("P", n); if (linear) for (int i = 0; i < 3; i++) for (int j = 0; j < n; j++) { P(i, j) = 0; P(j, i) = 0; }
  c.s.set_P(P); MX pos = linear ? mat("b", 3, L) : pos0; vector<int> con(L, 1), use; con[L - 1] = extra; for (int i = 0; i < k; i++) use.push_back(i);
  f.q->push(legs(double(10.1), pos, jac, con)); check(f.c->Correct(c.s), "a timely legged measurement is applied");
  VX Z; MX H, N; stack(Y, use, pos, jac, se, sk_, Z, H, N); if (!linear) Z = VX::Zero(Z.rows());
  Upd u = update(true, et, Y, th, P, Z, H, N, bias, false);
  meq(c.s.get_X().block(0, 0, 5 + k, 5 + k), u.X, "the mean is that of the stacked Kalman update"); meq(c.s.get_theta(), u.th, "the biases are those of the stacked Kalman update");
  if (!extra) meq(c.s.get_P(), u.P, "the covariance is that of the stacked Kalman update");
  else meq(c.s.get_P().block(0, 0, n - 6, n - 6), u.P.block(0, 0, n - 6, n - 6), "a new contact does not disturb the update of the others");
  check_eq(c.s.get_time(), double(10.1), "the state carries the time of the measurement");
}
SX_HARNESS(c13_cov) { run(false); }
SX_HARNESS(c13_linear) { run(true); }
// a tracked leg that is lifted and an untracked one contribute nothing
SX_HARNESS(c13_lifted) {
  ErrorType et = etOf(choose("error", 2)); bool bias = choose("bias_update", 2); Yaml y; double se = sym("se", 0.1, 1), sk_ = sym("sk", 0.1, 1); y.put("noises", "encoder_std", se).put("noises", "kinematics_additive_std", sk_); LegC f(y, et); V3 o(0, 0, 0);
  MX X = poseX(rotz("R"), o, o); VX th = vecn("th", 6); MX pos0 = MX::Zero(3, 3), jac = MX::Zero(3, 9); for (int i = 0; i < 3; i++) jac.block(0, 3 * i, 3, 3) = I3() * sym("J" + std::to_string(i), -2, 2); int lifted = choose("lifted", 2);
  Setup c; setup(c, f, X, th, bias, 3, 2, pos0); MX Y = c.s.get_X(); int n = 21; MX P = symm("P", n); for (int i = 0; i < 3; i++) for (int j = 0; j < n; j++) { P(i, j) = 0; P(j, i) = 0; } c.s.set_P(P); MX pos = mat("b", 3, 3);
  vector<int> con(3, 0); con[1 - lifted] = 1; f.q->push(legs(double(10.1), pos, jac, con)); check(f.c->Correct(c.s), "a timely legged measurement is applied");
  VX Z; MX H, N; stack(Y, {1 - lifted}, pos, jac, se, sk_, Z, H, N); Upd u = update(true, et, Y, th, P, Z, H, N, bias, false);
  vector<int> keep; for (int i = 0; i < n; i++) if (i < 9 + 3 * lifted || i >= 12 + 3 * lifted) keep.push_back(i); MX W(18, 18), V = MX::Identity(6, 6); for (int i = 0; i < 18; i++) for (int j = 0; j < 18; j++) W(i, j) = u.P(keep[i], keep[j]);
  V.block(0, 0, 5, 5) = u.X.block(0, 0, 5, 5); V.block(0, 5, 3, 1) = u.X.block(0, 6 - lifted, 3, 1);
  meq(c.s.get_X(), V, "only legs in contact are fused (mean)"); meq(c.s.get_theta(), u.th, "only legs in contact are fused (biases)"); meq(c.s.get_P(), W, "only legs in contact are fused (covariance)");
}
SX_HARNESS(c13_attitude) {
  bool bias = choose("bias_update", 2); Yaml y; double sk_ = sym("sk", 0.1, 1); y.put("noises", "encoder_std", double(0)).put("noises", "kinematics_additive_std", sk_); LegC f(y, ErrorType::RightInvariant); V3 o(0, 0, 0);
  MX X = poseX(rotz("R"), vec("v"), o); M3 R = X.block(0, 0, 3, 3); VX th = VX::Zero(6); Setup c; setup(c, f, X, th, bias, 1, 1, MX::Zero(3, 1)); MX P = MX::Zero(18, 18); double cc = sym("c", 0.1, 1), pv = sym("pv", 0.1, 2); for (int i = 0; i < 18; i++) P(i, i) = 1; P.block(0, 9, 3, 3) = I3() * cc; P.block(9, 0, 3, 3) = I3() * cc; P.block(9, 9, 3, 3) = I3() * pv; P.block(6, 6, 3, 3) = M3(M3::Zero());
  V3 k = vec("k"); V3 z = R * k; double S = pv + sk_ * sk_; V3 w = z * (cc / S); turns(w, double(1)); c.s.set_P(P); f.q->push(legs(double(10), MX(k), MX::Zero(3, 3), {1})); check(f.c->Correct(c.s), "a timely legged measurement is applied");
  M3 E = gammaRef(w, 0), Jl = gammaRef(w, 1); V3 dd = Jl * (z * (pv / S)), v = E * V3(X.block(0, 3, 3, 1)); MX Y = MX::Identity(6, 6); Y.block(0, 0, 3, 3) = M3(E * R); Y.block(0, 3, 3, 1) = v; Y.block(0, 5, 3, 1) = dd;
  meq(c.s.get_X(), Y, "contact correction: the attitude moves by the exponential of gain times innovation");
}
