// @bound rotations: every unit quaternion; vectors in [-2,2]; K = 0..3 attached vectors (block structure of exponential, adjoint and inverse: K = 0..8)
// @bound tangent rotation of norm >= 1e-8 or exactly zero
// @assume the exponential of a rotation of norm below 1e-10 is treated as that of zero (covered by C01)
// @shards c02_conj 4
#include "h.h"
using namespace math::lie_group;
static MX poseOf(const string& n, int K) {
  MX X = eyen(3 + K); X.block(0, 0, 3, 3) = rot(n);
  for (int i = 0; i < K; i++) { V3 c = vec(n + ".c" + std::to_string(i)); X.block(0, 3 + i, 3, 1) = c; }
  return X;
}
static VX tang(const string& n, int K, bool zero) {
  VX xi = vecn(n, 3 + 3 * K);
  if (zero) { xi(0) = 0; xi(1) = 0; xi(2) = 0; }
  else assume(ge(xi(0) * xi(0) + xi(1) * xi(1) + xi(2) * xi(2), double(1e-16)));
  return xi;
}
static MX expRef(const VX& xi, bool zero) {
  int K = (xi.size() - 3) / 3; MX X = eyen(3 + K); V3 w(xi(0), xi(1), xi(2));
  M3 R = zero ? I3() : gammaRef(w, 0), J = zero ? I3() : gammaRef(w, 1);
  X.block(0, 0, 3, 3) = R;
  for (int i = 0; i < K; i++) { V3 u(xi(3 + 3 * i), xi(4 + 3 * i), xi(5 + 3 * i)); V3 c = J * u; X.block(0, 3 + i, 3, 1) = c; }
  return X;
}
SX_HARNESS(c02_exp) {
  int K = choose("K", 4); bool zero = choose("zero", 2);
  VX xi = tang("xi", K, zero);
  meq(Exp_SEK3(xi), expRef(xi, zero), "Exp(w,u1..uK) = (Exp(w), J_l(w) u1, ..., J_l(w) uK)");
}
// two commuting increments of one direction compose: Exp(s xi) Exp(t xi) = Exp((s+t) xi) follows from d/ds Exp(s xi) = xi^ Exp(s xi)
SX_HARNESS(c02_flow) {
  int K = 1 + choose("K", 2);
  VX xi = tang("xi", K, false);
  double s = sym("s", 0.3, 1.5);
  int n = 3 + K;
  vector<double> d = sx::jac([&](const double& t) { MX X = Exp_SEK3(VX(xi * t)); vector<double> r; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r.push_back(X(i, j)); return r; }, s);
  MX D(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) D(i, j) = d[n * i + j];
  MX W = MX::Zero(n, n); W.block(0, 0, 3, 3) = sk(V3(xi(0), xi(1), xi(2)));
  for (int i = 0; i < K; i++) for (int r = 0; r < 3; r++) W(r, 3 + i) = xi(3 + 3 * i + r);
  meq(D, MX(W * Exp_SEK3(VX(xi * s))), "d/ds Exp(s xi) = xi^ Exp(s xi)");
}
SX_HARNESS(c02_adjoint) {
  int K = choose("K", 4);
  MX X = poseOf("X", K), Y = poseOf("Y", K);
  meq(Adjoint_SEK3(X), adjRef(X), "adjoint blocks: R on the diagonal, x^ R in the first column");
  meq(Adjoint_SEK3(MX(X * Y)), MX(Adjoint_SEK3(X) * Adjoint_SEK3(Y)), "Ad(XY) = Ad(X) Ad(Y)");
  // linearised conjugation: X xi^ X^-1 = (Ad(X) xi)^
  VX xi = vecn("xi", 3 + 3 * K); int n = 3 + K;
  auto hat = [&](const VX& v) { MX W = MX::Zero(n, n); W.block(0, 0, 3, 3) = sk(V3(v(0), v(1), v(2))); for (int i = 0; i < K; i++) for (int r = 0; r < 3; r++) W(r, 3 + i) = v(3 + 3 * i + r); return W; };
  MX A = Adjoint_SEK3(X); VX ax = A * xi;
  meq(hat(ax), MX(X * hat(xi) * invRef(X)), "X xi^ X^-1 = (Ad(X) xi)^");
}
SX_HARNESS(c02_conj) {
  int K = 1 + choose("K", 2); bool zero = choose("zero", 2);
  MX X = poseOf("X", K); VX xi = tang("xi", K, zero);
  VX ax = Adjoint_SEK3(X) * xi;
  meq(MX(Exp_SEK3(ax) * X), MX(X * expRef(xi, zero)), "Exp(Ad(X) xi) X = X Exp(xi)");
}
SX_HARNESS(c02_inverse) {
  int K = choose("K", 4);
  MX X = poseOf("X", 2 + K);
  state::RobotState s(X);
  MX Xi = s.get_Xinv();
  meq(MX(X * Xi), eyen(5 + K), "X get_Xinv() = I");
  meq(MX(Xi * X), eyen(5 + K), "get_Xinv() X = I");
  meq(Adjoint_SEK3(Xi) * Adjoint_SEK3(X), eyen(6 + 3 * (K + 1) - 0), "Ad(X^-1) Ad(X) = I");
  meq(s.get_X(), X, "reading the inverse leaves X unchanged");
}
SX_HARNESS(c02_sek3) {
  M3 R = rot("A"), R2 = rot("B"); V3 p = vec("p"), v = vec("v"), p2 = vec("p2"), v2 = vec("v2");
  auto mk = [](const M3& R, const V3& p, const V3& v) { MX X = eyen(5); X.block(0, 0, 3, 3) = R; X.block(0, 3, 3, 1) = p; X.block(0, 4, 3, 1) = v; return X; };
  math::SEK3 d; meq(d.get_X(), eyen(5), "a default pose is the identity"); check(d.get_dim() == 5, "a default pose has dimension 5");
  math::SEK3 a(R, p, v);
  meq(a.get_X(), mk(R, p, v), "SEK3(R,p,v)");
  meq(a.get_R(), R, "SEK3 get_R"); meq(a.get_p(), p, "SEK3 get_p"); meq(a.get_v(), v, "SEK3 get_v"); check(a.get_dim() == 5, "SEK3 get_dim");
  math::SEK3 b(R2, p2); meq(b.get_X(), mk(R2, p2, V3::Zero()), "SEK3(R,p)");
  b.set_v(v2); meq(b.get_X(), mk(R2, p2, v2), "SEK3 set_v");
  math::SEK3 c = a * b;
  meq(c.get_X(), MX(mk(R, p, v) * mk(R2, p2, v2)), "SEK3 product");
  meq(a.get_X(), mk(R, p, v), "a product leaves its factors unchanged");
  meq((a * a.inverse()).get_X(), eyen(5), "SEK3 x * inverse(x) = I"); meq((a.inverse() * a).get_X(), eyen(5), "SEK3 inverse(x) * x = I");
  meq(a.get_X(), mk(R, p, v), "inverse leaves its argument unchanged");
  a.set_R(R2); meq(a.get_X(), mk(R2, p, v), "SEK3 set_R"); a.set_p(p2); meq(a.get_X(), mk(R2, p2, v), "SEK3 set_p");
  MX X = mk(R, p, v); math::SEK3 e; e.set_X(X); meq(e.get_X(), X, "SEK3 set_X");
}
SX_HARNESS(c02_sek3big) {   // any number of attached vectors
  int K = 2 + choose("K", 3);
  MX X = poseOf("X", K), Y = poseOf("Y", K);
  math::SEK3 a(X), b(Y);
  check(a.get_dim() == 3 + K, "SEK3(X) get_dim"); meq(a.get_X(), X, "SEK3(X) get_X");
  meq((a * b).get_X(), MX(X * Y), "SEK3(X) product");
  meq(a.inverse().get_X(), invRef(X), "SEK3(X) inverse");
  meq(MX(a.get_X() * a.inverse().get_X()), eyen(3 + K), "SEK3(X): X * inverse(X) = I");
}
// many attached vectors (six legs and more): every block obeys the same formula
SX_HARNESS(c02_many) {
  int K = 4 + choose("K", 5); VX xi = tang("xi", K, false); meq(Exp_SEK3(xi), expRef(xi, false), "Exp(w,u1..uK) = (Exp(w), J_l(w) u1, ..., J_l(w) uK)");
  MX X = eyen(3 + K); X.block(0, 0, 3, 3) = rotz("X"); for (int i = 0; i < K; i++) { V3 c = vec("X.c" + std::to_string(i)); X.block(0, 3 + i, 3, 1) = c; }
  meq(Adjoint_SEK3(X), adjRef(X), "adjoint blocks: R on the diagonal, x^ R in the first column");
  state::RobotState s(X); meq(s.get_Xinv(), invRef(X), "get_Xinv() is the inverse"); math::SEK3 a(X); meq(a.inverse().get_X(), invRef(X), "SEK3(X) inverse"); meq(a.get_X(), X, "reading the inverse leaves X unchanged");
}
