// @bound all twelve joint angles arbitrary in [-1.5,1.5] rad (the argument is polynomial in their sines and cosines, so it covers every angle)
// @need robots
#include "h.h"
#include "drift/kinematics/mini_cheetah_kinematics.h"
#include "drift/kinematics/robots/mini_cheetah/H_Body_to_FrontLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/H_Body_to_FrontRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/H_Body_to_HindLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/H_Body_to_HindRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/R_Body_to_FrontLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/R_Body_to_FrontRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/R_Body_to_HindLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/R_Body_to_HindRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/p_Body_to_FrontLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/p_Body_to_FrontRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/p_Body_to_HindLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/p_Body_to_HindRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jp_Body_to_FrontLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jp_Body_to_FrontRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jp_Body_to_HindLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jp_Body_to_HindRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jb_Body_to_FrontLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jb_Body_to_FrontRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jb_Body_to_HindLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jb_Body_to_HindRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Js_Body_to_FrontLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Js_Body_to_FrontRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Js_Body_to_HindLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Js_Body_to_HindRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jvb_Body_to_FrontLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jvb_Body_to_FrontRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jvb_Body_to_HindLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jvb_Body_to_HindRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jvs_Body_to_FrontLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jvs_Body_to_FrontRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jvs_Body_to_HindLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jvs_Body_to_HindRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jwb_Body_to_FrontLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jwb_Body_to_FrontRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jwb_Body_to_HindLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jwb_Body_to_HindRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jws_Body_to_FrontLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jws_Body_to_FrontRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jws_Body_to_HindLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jws_Body_to_HindRightFoot.h"
using namespace mini_cheetah_kinematics;
typedef Eigen::Matrix<double, 12, 1> Q12;
struct FootFns { const char* name; std::function<MX(const Q12&)> H, R, p, Jp, Jb, Js, Jvb, Jvs, Jwb, Jws; int first; double side; };
#define LEG(N, first, side) FootFns{#N, [](const Q12& q) { return MX(H_Body_to_##N(q)); }, [](const Q12& q) { return MX(R_Body_to_##N(q)); }, [](const Q12& q) { return MX(p_Body_to_##N(q)); }, [](const Q12& q) { return MX(Jp_Body_to_##N(q)); }, [](const Q12& q) { return MX(Jb_Body_to_##N(q)); }, [](const Q12& q) { return MX(Js_Body_to_##N(q)); }, [](const Q12& q) { return MX(Jvb_Body_to_##N(q)); }, [](const Q12& q) { return MX(Jvs_Body_to_##N(q)); }, [](const Q12& q) { return MX(Jwb_Body_to_##N(q)); }, [](const Q12& q) { return MX(Jws_Body_to_##N(q)); }, first, double(side)}
static const vector<FootFns>& allLegs() { static vector<FootFns> v = {LEG(FrontRightFoot, 0, -1), LEG(FrontLeftFoot, 3, 1), LEG(HindRightFoot, 6, -1), LEG(HindLeftFoot, 9, 1)}; return v; }
static Q12 joints() { Q12 q; for (int i = 0; i < 12; i++) q(i) = sym("q" + std::to_string(i), -1.5, 1.5); return q; }
static const FootFns& leg() { return allLegs()[choose("leg", 4)]; }
static vector<MX> partials(const std::function<MX(const Q12&)>& f, const Q12& q) {
  vector<MX> out; MX f0 = f(q); for (int k = 0; k < 12; k++) { vector<double> d = sx::jac([&](const double& x) { Q12 z = q; z(k) = x; MX m = f(z); vector<double> r; for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) r.push_back(m(i, j)); return r; }, q(k)); MX D(f0.rows(), f0.cols()); for (int i = 0; i < D.rows(); i++) for (int j = 0; j < D.cols(); j++) D(i, j) = d[i * D.cols() + j]; out.push_back(D); }
  return out;
}
static V3 vee(const MX& S) { return V3(S(2, 1), S(0, 2), S(1, 0)); }
SX_HARNESS(c14_pose) {
  const FootFns& l = leg(); Q12 q = joints(); MX H = l.H(q), R = l.R(q), p = l.p(q); check(H.rows() == 4 && H.cols() == 4 && R.rows() == 3 && p.rows() == 3, "sizes of the pose");
  meq(H.block(0, 0, 3, 3), R, "the rotation of the pose is the foot rotation"); meq(H.block(0, 3, 3, 1), p, "the translation of the pose is the foot position"); MX b(1, 4); b << 0, 0, 0, 1; meq(H.block(3, 0, 1, 4), b, "the pose is homogeneous");
  MX RRt = R * R.transpose(); meq(RRt, I3(), "the foot rotation is orthogonal"); V3 x = R.block(0, 0, 3, 1), y = R.block(0, 1, 3, 1), z = R.block(0, 2, 3, 1); meq(crs(x, y), z, "the foot rotation is right-handed");
}
SX_HARNESS(c14_jacobians) {
  const FootFns& l = leg(); Q12 q = joints(); MX R = l.R(q), p = l.p(q), Jp = l.Jp(q), Jb = l.Jb(q), Js = l.Js(q); vector<MX> dR = partials(l.R, q), dp = partials(l.p, q);
  check(Jp.rows() == 3 && Jp.cols() == 12 && Jb.rows() == 6 && Jb.cols() == 12 && Js.rows() == 6 && Js.cols() == 12, "sizes of the Jacobians");
  for (int k = 0; k < 12; k++) {
    meq(Jp.block(0, k, 3, 1), dp[k], "the position Jacobian is the derivative of the foot position");
    MX Wb = R.transpose() * dR[k], Ws = dR[k] * R.transpose(); V3 wb = vee(Wb), ws = vee(Ws); V3 vb = R.transpose() * dp[k]; V3 pp = p, dpk = dp[k]; V3 vs = dpk - crs(ws, pp);
    meq(Jb.block(3, k, 3, 1), vb, "the linear part of the body Jacobian is the foot velocity in the foot frame"); meq(Jb.block(0, k, 3, 1), wb, "the angular part of the body Jacobian is the foot rate in the foot frame");
    meq(Js.block(3, k, 3, 1), vs, "the linear part of the spatial Jacobian is the velocity of the point at the body origin"); meq(Js.block(0, k, 3, 1), ws, "the angular part of the spatial Jacobian is the foot rate in the body frame");
  }
}
SX_HARNESS(c14_parts) {
  const FootFns& l = leg(); Q12 q = joints(); MX Jb = l.Jb(q), Js = l.Js(q);
  meq(l.Jvb(q), Jb.block(3, 0, 3, 12), "linear part of the body Jacobian"); meq(l.Jwb(q), Jb.block(0, 0, 3, 12), "angular part of the body Jacobian"); meq(l.Jvs(q), Js.block(3, 0, 3, 12), "linear part of the spatial Jacobian"); meq(l.Jws(q), Js.block(0, 0, 3, 12), "angular part of the spatial Jacobian");
}
// a leg only reads its own joints
SX_HARNESS(c14_own_joints) {
  const FootFns& l = leg(); Q12 q = joints(), z = q; for (int i = 0; i < 12; i++) if (i < l.first || i >= l.first + 3) z(i) = sym("other" + std::to_string(i), -1.5, 1.5);
  meq(l.H(z), l.H(q), "the pose depends on the leg's own joints only"); meq(l.Jp(z), l.Jp(q), "the Jacobian depends on the leg's own joints only"); MX J = l.Jp(q); for (int i = 0; i < 12; i++) if (i < l.first || i >= l.first + 3) meq(J.block(0, i, 3, 1), V3(V3::Zero()), "other legs' joints do not move the foot");
}
SX_HARNESS(c14_mirror) {
  int hind = choose("hind", 2); const FootFns &r = allLegs()[2 * hind], &l = allLegs()[2 * hind + 1]; Q12 q = joints(), z = Q12::Zero(); z(l.first) = -q(r.first); z(l.first + 1) = q(r.first + 1); z(l.first + 2) = q(r.first + 2);
  MX pr = r.p(q), pl = l.p(z); meq(pl.block(0, 0, 1, 1), pr.block(0, 0, 1, 1), "left and right legs are mirror images"); check_eq(pl(1, 0), -pr(1, 0), "left and right legs are mirror images"); check_eq(pl(2, 0), pr(2, 0), "left and right legs are mirror images");
  const FootFns &f = allLegs()[choose("side", 2)], &h = allLegs()[f.first / 3 + 2]; Q12 y = Q12::Zero(); for (int i = 0; i < 3; i++) y(h.first + i) = q(f.first + i); MX pf = f.p(q), ph = h.p(y); V3 d = ph - pf; check_eq(d(1), double(0), "front and hind legs have the same shape"); check_eq(d(2), double(0), "front and hind legs have the same shape"); check_eq(d(0), double(-0.38), "front and hind hips are 0.38 m apart");
  meq(h.R(y), f.R(q), "front and hind legs have the same shape");
}
