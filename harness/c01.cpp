// @bound rotation vectors with components in [-4,4], Gamma orders 0..5, factorial arguments 0..12
#include "h.h"
using namespace math::lie_group;
// w arbitrary: on the generic branch every Gamma_m equals its closed form; near zero it is I/m!
SX_HARNESS(c01_gamma) {
  V3 w = vec("w", -4, 4);
  int m = choose("m", 6);
  M3 g = Gamma_SO3(w, m);
  using std::sqrt;
  double th = sqrt(dot(w, w));
  if (th < double(1e-10)) {
    M3 lim = I3() * (double(1) / fact(m));
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
      double d = g(i, j) - lim(i, j);
      check(And(le(d, double(1e-9)), ge(d, double(-1e-9))), "Gamma_m(w) goes to I/m! for vanishing w");
    }
  } else meq(g, gammaRef(w, m), "Gamma_m(w) = sum_n w^n/(n+m)!");
}
// the exponential is the flow of the constant rate w: d/ds Exp(s w) = w^ Exp(s w); d/ds s^m Gamma_m(s w) = s^(m-1) Gamma_(m-1)(s w)
SX_HARNESS(c01_flow) {
  V3 w = vec("w", -2, 2);
  assume(ge(dot(w, w), double(0.01)));
  double s = sym("s", 0.3, 1.5);
  int m = choose("m", 5);
  auto pw = [](const double& x, int k) { double r = 1; for (int i = 0; i < k; i++) r = r * x; return r; };
  vector<double> d = sx::jac([&](const double& t) { M3 g = Gamma_SO3(V3(w * t), m); vector<double> r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r.push_back(g(i, j) * pw(t, m)); return r; }, s);
  M3 D; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) D(i, j) = d[3 * i + j];
  if (m == 0) meq(D, MX(sk(w) * Exp_SO3(V3(w * s))), "d/ds Exp(s w) = w^ Exp(s w)");
  else { M3 g = Gamma_SO3(V3(w * s), m - 1); double f = pw(s, m - 1); meq(D, MX(g * f), "d/ds s^m Gamma_m(s w) = s^(m-1) Gamma_(m-1)(s w)"); }
}
SX_HARNESS(c01_group) {
  V3 w = vec("w", -4, 4);
  if (choose("zero", 2)) w = V3::Zero(); else assume(ge(dot(w, w), double(1e-4)));
  M3 R = Exp_SO3(w), Rm = Exp_SO3(V3(-w));
  meq(R * R.transpose(), eyen(3), "Exp(w) is orthogonal");
  double det = R(0, 0) * (R(1, 1) * R(2, 2) - R(1, 2) * R(2, 1)) - R(0, 1) * (R(1, 0) * R(2, 2) - R(1, 2) * R(2, 0)) + R(0, 2) * (R(1, 0) * R(2, 1) - R(1, 1) * R(2, 0));
  ceq(det, double(1), "Exp(w) has determinant 1");
  meq(Rm, R.transpose(), "Exp(-w) = Exp(w)^T");
  meq(R * w, w, "Exp(w) leaves its axis fixed");
  M3 Jl = LeftJacobian_SO3(w), Jr = RightJacobian_SO3(w);
  bool z = w(0) == double(0) && w(1) == double(0) && w(2) == double(0);
  meq(Jl, z ? I3() : gammaRef(w, 1), "left Jacobian = Gamma_1(w)");
  meq(Jr, z ? I3() : gammaRef(V3(-w), 1), "right Jacobian = Gamma_1(-w)");
  meq(R, z ? I3() : gammaRef(w, 0), "Exp = Gamma_0");
}
SX_HARNESS(c01_misc) {
  V3 w = vec("w", -4, 4), u = vec("u", -4, 4);
  meq(skew(w) * u, MX(crs(w, u)), "skew(w) u = w x u");
  long f = 1; for (int i = 0; i <= 12; i++) { if (i) f *= i; check(factorial(i) == f, "factorial"); }
}
