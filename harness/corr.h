// Helpers to drive the two correction classes through their public interface only.
#pragma once
#include "prop.h"
using filter::inekf::VelocityCorrection; using filter::inekf::LeggedKinematicsCorrection;
struct VelC {
  VelocityQueuePtr q = make_shared<VelocityQueue>(); Mut m = mut(); shared_ptr<VelocityCorrection> c;
  VelC(const Yaml& y, ErrorType e) { c = make_shared<VelocityCorrection>(q, m, e, y.write()); }
};
struct LegC {
  LeggedKinQueuePtr q = make_shared<LeggedKinQueue>(); Mut m = mut(); shared_ptr<LeggedKinematicsCorrection> c;
  LegC(const Yaml& y, ErrorType e) { c = make_shared<LeggedKinematicsCorrection>(q, m, e, y.write()); }
};
typedef shared_ptr<FakeLegs> FakeP;
inline FakeP legs(const double& t, const MX& pos, const MX& jac, const vector<int>& con) { FakeP m = make_shared<FakeLegs>((int)con.size(), pos, jac, con); m->set_time(t); return m; }
// covariance of one leg's position measurement
inline M3 legCov(const MX& jac, int leg, const double& enc, const double& kin) { M3 J = jac.block(0, 3 * leg, 3, 3); M3 C = J * (enc * enc) * J.transpose(); C = C + I3() * (kin * kin); return C; }
inline MX symm(const string& nm, int n, sx::dbl lo = -2, sx::dbl hi = 2) { MX P(n, n); for (int i = 0; i < n; i++) for (int j = i; j < n; j++) { double v = sym(nm + std::to_string(i) + "_" + std::to_string(j), i == j ? 0.1 : lo, hi); P(i, j) = v; P(j, i) = v; } return P; }
inline MX congr(const MX& A, const MX& P) { MX T = A * P; return MX(T * A.transpose()); }
inline RobotState stateOf(const MX& X, const VX& th, const MX& P, bool bias, const double& t) { RobotState s(X); s.set_theta(th); s.set_P(P); s.set_enable_imu_bias_update(bias); s.set_time(t); s.set_propagate_time(t); return s; }
// ---- textbook invariant Kalman update
inline void yawFreeze(MX& P) { int n = P.rows(), y = n - 4; for (int i = 0; i < n; i++) { P(i, y) = 0; P(y, i) = 0; } P(y, y) = 0.0001; }
struct Upd { MX X, P, prior, post; VX th; };   // prior, post: covariances in the error frame of the observation
// textbook update of observation kind `right` for a filter of error type et
inline Upd update(bool right, ErrorType et, const MX& X, const VX& th, MX P, const VX& Z, const MX& H, const MX& N, bool bias, bool expo) {
  int n = P.rows(), m = n - 6;
  if (!bias) { P.block(m, 0, 6, m) = MX::Zero(6, m); P.block(0, m, m, 6) = MX::Zero(m, 6); P.block(m, m, 6, 6) = eyen(6) * double(0.0001); }
  Upd u; bool map = right != (et == ErrorType::RightInvariant);
  if (map) { MX A = right ? liftAdj(adjRef(X), 6) : liftAdj(adjRef(invRef(X)), 6); MX T = A * P; P = T * A.transpose(); }
  u.prior = P; MX PHT = P * H.transpose(), S = H * PHT + N, K = PHT * S.inverse(); VX d = K * Z;
  int k = m / 3; MX D = MX::Identity(k + 2, k + 2); V3 w(d(0), d(1), d(2)); M3 J = expo ? gammaRef(w, 1) : I3(); if (expo) D.block(0, 0, 3, 3) = gammaRef(w, 0);
  for (int i = 1; i < k; i++) { V3 t(d(3 * i), d(3 * i + 1), d(3 * i + 2)); V3 Jt = J * t; D.block(0, 2 + i, 3, 1) = Jt; }
  u.X = right ? MX(D * X) : MX(X * D); VX b(6); for (int i = 0; i < 6; i++) b(i) = (right && i == 2) ? double(0) : d(m + i); u.th = th + b;
  MX L = eyen(n) - K * H; MX T = L * P, KN = K * N; MX Q = T * L.transpose(); Q = Q + KN * K.transpose();
  if (right) yawFreeze(Q); u.post = Q;
  if (map) { MX A = right ? liftAdj(adjRef(invRef(u.X)), 6) : liftAdj(adjRef(u.X), 6); MX T2 = A * Q; Q = T2 * A.transpose(); }
  u.P = Q; return u;
}
// stacked contact observation of the tracked legs `use` (leg i owns column 5+i)
inline void stack(const MX& X, const vector<int>& use, const MX& pos, const MX& jac, const double& se, const double& sk_, VX& Z, MX& H, MX& N) {
  int r = 3 * use.size(), n = 3 * (X.cols() - 2) + 6; Z = VX::Zero(r); H = MX::Zero(r, n); N = MX::Zero(r, r); M3 R = X.block(0, 0, 3, 3); V3 p = X.block(0, 4, 3, 1);
  for (size_t i = 0; i < use.size(); i++) { int l = use[i]; V3 d = X.block(0, 5 + l, 3, 1), k = pos.block(0, l, 3, 1); V3 z = R * k - (d - p); Z.segment(3 * i, 3) = z; H.block(3 * i, 6, 3, 3) = M3(-I3()); H.block(3 * i, 9 + 3 * l, 3, 3) = I3(); M3 C = legCov(jac, l, se, sk_); M3 T = R * C; M3 W = T * R.transpose(); N.block(3 * i, 3 * i, 3, 3) = W; }
}
inline MX velObs(int n) { MX H = MX::Zero(3, n); H.block(0, 3, 3, 3) = I3(); return H; }
inline MX velNoise(const M3& R, const double& sv) { M3 C = I3() * (sv * sv); M3 T = R * C; return MX(T * R.transpose()); }
