// Helpers shared by the harnesses. "double" is the symbolic scalar in the symbolic build.
#pragma once
#include <fstream>
#include <memory>
#include <string>
#include <vector>
#include "drift/estimator/inekf_estimator.h"
#include "drift/filter/inekf/correction/legged_kinematics_correction.h"
#include "drift/filter/inekf/correction/velocity_correction.h"
#include "drift/filter/inekf/inekf.h"
#include "drift/filter/inekf/propagation/imu_propagation.h"
#include "drift/imu_filter/imu_ang_vel_ekf.h"
#include "drift/math/lie_group.h"
#include "drift/math/se_k_3.h"
#include "drift/measurement/angular_velocity.h"
#include "drift/measurement/contact.h"
#include "drift/measurement/imu.h"
#include "drift/measurement/joint_state.h"
#include "drift/measurement/legged_kinematics.h"
#include "drift/measurement/velocity.h"
#include "drift/state/robot_state.h"

namespace hx {
typedef Eigen::Matrix3d M3;
typedef Eigen::Vector3d V3;
typedef Eigen::MatrixXd MX;
typedef Eigen::VectorXd VX;
using sx::dbl; using sx::sym; using sx::choose; using sx::assume; using sx::check; using sx::check_eq; using sx::fail;
using sx::lt; using sx::le; using sx::gt; using sx::ge; using sx::eq; using sx::ne; using sx::And; using sx::Or; using sx::Not;
using sx::note; using sx::thorough; using sx::param;
using std::string; using std::vector; using std::shared_ptr; using std::make_shared;

inline V3 vec(const string& n, dbl lo = -2, dbl hi = 2) { return V3(sym(n + ".x", lo, hi), sym(n + ".y", lo, hi), sym(n + ".z", lo, hi)); }
inline VX vecn(const string& n, int k, dbl lo = -2, dbl hi = 2) { VX v(k); for (int i = 0; i < k; i++) v(i) = sym(n + std::to_string(i), lo, hi); return v; }
inline MX mat(const string& n, int r, int c, dbl lo = -2, dbl hi = 2) { MX m(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = sym(n + std::to_string(i) + "_" + std::to_string(j), lo, hi); return m; }
inline M3 sk(const V3& v) { M3 m; m << 0, -v(2), v(1), v(2), 0, -v(0), -v(1), v(0), 0; return m; }
struct Quat { double w, x, y, z; };
inline Quat quat(const string& n) {
  Quat q; q.x = sym(n + ".qx", -0.57, 0.57, -1, 1); q.y = sym(n + ".qy", -0.57, 0.57, -1, 1); q.z = sym(n + ".qz", -0.57, 0.57, -1, 1); q.w = sym(n + ".qw", 0, 1);
  sx::define_square(q.w, double(1) - q.x * q.x - q.y * q.y - q.z * q.z);
  return q;
}
// either of the two quaternions of a rotation
inline Quat quatAny(const string& n) { Quat q = quat(n); if (choose("neg_" + n, 2)) { q.w = -q.w; q.x = -q.x; q.y = -q.y; q.z = -q.z; } return q; }
inline M3 rotOf(const Quat& q) {
  M3 R;
  R << double(1) - double(2) * (q.y * q.y + q.z * q.z), double(2) * (q.x * q.y - q.w * q.z), double(2) * (q.x * q.z + q.w * q.y),
       double(2) * (q.x * q.y + q.w * q.z), double(1) - double(2) * (q.x * q.x + q.z * q.z), double(2) * (q.y * q.z - q.w * q.x),
       double(2) * (q.x * q.z - q.w * q.y), double(2) * (q.y * q.z + q.w * q.x), double(1) - double(2) * (q.x * q.x + q.y * q.y);
  return R;
}
inline M3 rot(const string& n) { return rotOf(quat(n)); }
// rotation about z with cosine c and sine s (s*s = 1 - c*c)
inline M3 rotz(const string& n) {
  double s = sym(n + ".s", -0.9, 0.9, -1, 1), c = sym(n + ".c", 0, 1); sx::define_square(c, double(1) - s * s);
  M3 R; R << c, -s, 0, s, c, 0, 0, 0, 1; return R;
}
inline M3 I3() { return M3::Identity(); }
inline MX eyen(int n) { return MX::Identity(n, n); }
// symmetric, diagonally dominant in the sampled range (hence positive definite), otherwise arbitrary
inline MX cov(const string& nm, int n, dbl d0 = 1, dbl d1 = 2, dbl off = 0.04) {
  MX m(n, n);
  for (int i = 0; i < n; i++) for (int j = i; j < n; j++) { double v = i == j ? sym(nm + std::to_string(i) + "_" + std::to_string(j), d0, d1) : sym(nm + std::to_string(i) + "_" + std::to_string(j), -off, off); m(i, j) = v; m(j, i) = v; }
  return m;
}
inline void ceq(const double& a, const double& b, const string& l) { check_eq(a, b, l); }
template <class A, class B> void meq(const Eigen::MatrixBase<A>& a_, const Eigen::MatrixBase<B>& b_, const string& l, dbl tol = 1e-6) {
  MX a = a_, b = b_;
  check(a.rows() == b.rows() && a.cols() == b.cols(), l + " (size)");
  if (a.rows() != b.rows() || a.cols() != b.cols()) return;
  for (int i = 0; i < a.rows(); i++) for (int j = 0; j < a.cols(); j++) check_eq(a(i, j), b(i, j), l, tol);
}
template <class A, class B> void lem(const Eigen::MatrixBase<A>& a, const Eigen::MatrixBase<B>& b, const string& l) { sx::lemma_mode(true); meq(a, b, l); sx::lemma_mode(false); }
inline double sq(const double& a) { return a * a; }
inline double dot(const V3& a, const V3& b) { return a(0) * b(0) + a(1) * b(1) + a(2) * b(2); }
inline V3 crs(const V3& a, const V3& b) { return V3(a(1) * b(2) - a(2) * b(1), a(2) * b(0) - a(0) * b(2), a(0) * b(1) - a(1) * b(0)); }

// ---- rotation integrals, written independently of the library: Gamma_m = I/m! + a_m A + b_m A^2 with
//      a_0 = sin(t)/t, b_0 = (1-cos t)/t^2, a_{m+1} = b_m, b_{m+1} = (1/(m+1)! - a_m)/t^2
inline double fact(int m) { double r = 1; for (int i = 2; i <= m; i++) r = r * double(i); return r; }
struct GammaCoef { vector<double> a, b; };
inline GammaCoef gammaCoef(const double& theta, int upTo) {
  using std::sin; using std::cos;
  GammaCoef g; double t2 = theta * theta;
  g.a.push_back(sin(theta) / theta); g.b.push_back((double(1) - cos(theta)) / t2);
  for (int m = 0; m < upTo; m++) { g.a.push_back(g.b[m]); g.b.push_back((double(1) / fact(m + 1) - g.a[m]) / t2); }
  return g;
}
inline M3 gammaRef(const V3& w, int m) {
  using std::sqrt;
  double th = sqrt(w(0) * w(0) + w(1) * w(1) + w(2) * w(2));
  GammaCoef g = gammaCoef(th, m);
  M3 A = sk(w), A2 = A * A;
  M3 r = I3() * (double(1) / fact(m)); r = r + A * g.a[m] + A2 * g.b[m];
  return r;
}
// adjoint and exponential of SE_K(3), written independently
inline MX adjRef(const MX& X) {
  int n = X.cols() - 2; MX A = MX::Zero(3 * n, 3 * n); M3 R = X.block(0, 0, 3, 3);
  for (int i = 0; i < n; i++) A.block(3 * i, 3 * i, 3, 3) = R;
  for (int i = 1; i < n; i++) { V3 c = X.block(0, 2 + i, 3, 1); A.block(3 * i, 0, 3, 3) = sk(c) * R; }
  return A;
}
inline MX invRef(const MX& X) {
  int n = X.cols(); MX Y = MX::Identity(n, n); M3 R = X.block(0, 0, 3, 3); Y.block(0, 0, 3, 3) = R.transpose();
  for (int i = 3; i < n; i++) { V3 c = X.block(0, i, 3, 1); V3 d = -(R.transpose() * c); Y.block(0, i, 3, 1) = d; }
  return Y;
}
inline MX liftAdj(const MX& A, int dimTheta) { int n = A.rows(); MX B = MX::Identity(n + dimTheta, n + dimTheta); B.block(0, 0, n, n) = A; return B; }

// ---- states --------------------------------------------------------------------------------------
inline MX poseX(const M3& R, const V3& v, const V3& p, const vector<V3>& aug = {}) {
  int n = 5 + (int)aug.size(); MX X = MX::Identity(n, n);
  X.block(0, 0, 3, 3) = R; X.block(0, 3, 3, 1) = v; X.block(0, 4, 3, 1) = p;
  for (size_t i = 0; i < aug.size(); i++) X.block(0, 5 + (int)i, 3, 1) = aug[i];
  return X;
}

// ---- measurements --------------------------------------------------------------------------------
typedef shared_ptr<measurement::ImuMeasurement<double>> ImuP;
typedef shared_ptr<measurement::VelocityMeasurement<double>> VelP;
typedef shared_ptr<measurement::AngularVelocityMeasurement<double>> AngP;
inline ImuP imu(const double& t, const V3& w, const V3& a) {
  ImuP m = make_shared<measurement::ImuMeasurement<double>>();
  m->set_angular_velocity(w(0), w(1), w(2)); m->set_lin_acc(a(0), a(1), a(2)); m->set_time(t); return m;
}
inline VelP vel(const double& t, const V3& v) { VelP m = make_shared<measurement::VelocityMeasurement<double>>(); m->set_velocity(v(0), v(1), v(2)); m->set_time(t); return m; }
inline AngP ang(const double& t, const V3& v) { AngP m = make_shared<measurement::AngularVelocityMeasurement<double>>(); m->set_angular_velocity(v(0), v(1), v(2)); m->set_time(t); return m; }

// A legged measurement whose kinematics are given directly (the library only sees the interface).
class FakeLegs : public measurement::LeggedKinematicsMeasurement {
 public:
  int n_, calls = 0; MX pos_, jac_; V3 initv_ = V3::Zero();
  FakeLegs(int n, const MX& pos, const MX& jac, const vector<int>& con) : n_(n), pos_(pos), jac_(jac) {
    contacts_.resize(n); for (int i = 0; i < n; i++) contacts_(i) = con[i] != 0;
    encoders_ = VX::Zero(3 * n); d_encoders_ = VX::Zero(3 * n);
    positions_ = MX::Zero(3, n); jacobians_ = MX::Zero(3, 3 * n);
  }
  void ComputeKinematics() override { calls++; positions_ = pos_; jacobians_ = jac_; }
  int get_num_legs() override { return n_; }
  const V3 get_init_velocity(const V3& w) override { return initv_ + sk(w) * V3(1, 2, 3); }
};
typedef shared_ptr<measurement::LeggedKinematicsMeasurement> LegP;

// ---- configuration files -------------------------------------------------------------------------
struct Yaml {
  std::map<string, std::map<string, string>> s;
  Yaml& put(const string& sec, const string& k, const string& v) { s[sec][k] = v; return *this; }
  Yaml& put(const string& sec, const string& k, const double& v) { s[sec][k] = sx::show(v); return *this; }
  Yaml& put(const string& sec, const string& k, const V3& v) { s[sec][k] = "[" + sx::show(v(0)) + ", " + sx::show(v(1)) + ", " + sx::show(v(2)) + "]"; return *this; }
  Yaml& put(const string& sec, const string& k, const Quat& q) { s[sec][k] = "[" + sx::show(q.w) + ", " + sx::show(q.x) + ", " + sx::show(q.y) + ", " + sx::show(q.z) + "]"; return *this; }
  Yaml& flag(const string& sec, const string& k, bool v) { s[sec][k] = v ? "true" : "false"; return *this; }
  Yaml& num(const string& sec, const string& k, int v) { s[sec][k] = std::to_string(v); return *this; }
  string write() const {
    static int n = 0; string f = sx::tmpdir() + "/c" + std::to_string(n++ % 64) + ".yaml"; std::ofstream o(f);
    for (const char* must : {"settings", "noises", "priors", "logger", "state"}) {
      auto it = s.find(must);
      o << must << ":";
      if (it == s.end() || it->second.empty()) { o << " {}\n"; continue; }
      o << "\n"; for (auto& kv : it->second) o << "  " << kv.first << ": " << q(kv.second) << "\n";
    }
    return f;
  }
  static string q(const string& v) {   // tokens start with '@', which plain YAML scalars may not
    if (v.find('@') == string::npos) return v;
    if (v[0] != '[') return "\"" + v + "\"";
    string r = "[", e; bool first = true;
    for (size_t i = 1; i < v.size(); i++) { if (v[i] == ',' || v[i] == ']') { r += (first ? "\"" : ", \"") + e + "\""; first = false; e.clear(); } else if (v[i] != ' ') e += v[i]; }
    return r + "]";
  }
};
typedef shared_ptr<std::mutex> Mut;
inline Mut mut() { return make_shared<std::mutex>(); }
}  // namespace hx
using namespace hx;
