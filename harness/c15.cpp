// @bound all twelve joint angles in [-1.5,1.5] rad (stance velocity: moving with constant rates), joint rates and body rate in [-3,3], every contact pattern of four legs
// @bound measurements built by the default constructor and the setters, or by the overloaded constructor; recomputed after the joint angles change
// @need robots
#include "h.h"
#include "drift/kinematics/mini_cheetah_kinematics.h"
#include "drift/kinematics/robots/mini_cheetah/p_Body_to_FrontRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/p_Body_to_FrontLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/p_Body_to_HindRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/p_Body_to_HindLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jp_Body_to_FrontRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jp_Body_to_FrontLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jp_Body_to_HindRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jp_Body_to_HindLeftFoot.h"
using namespace mini_cheetah_kinematics; using measurement::kinematics::MiniCheetahKinematics;
typedef Eigen::Matrix<double, 12, 1> Q12; typedef Eigen::Matrix<bool, Eigen::Dynamic, 1> CX;
static VX joints(const string& n, sx::dbl r) { VX q(12); for (int i = 0; i < 12; i++) q(i) = sym(n + std::to_string(i), -r, r); return q; }
// leg order: front right, front left, hind right, hind left
static MX pos(int l, const VX& q) { Q12 z = q; return l == 0 ? MX(p_Body_to_FrontRightFoot(z)) : l == 1 ? MX(p_Body_to_FrontLeftFoot(z)) : l == 2 ? MX(p_Body_to_HindRightFoot(z)) : MX(p_Body_to_HindLeftFoot(z)); }
static MX jac(int l, const VX& q) { Q12 z = q; return l == 0 ? MX(Jp_Body_to_FrontRightFoot(z)) : l == 1 ? MX(Jp_Body_to_FrontLeftFoot(z)) : l == 2 ? MX(Jp_Body_to_HindRightFoot(z)) : MX(Jp_Body_to_HindLeftFoot(z)); }
static CX contacts(int bits) { CX c(4); for (int i = 0; i < 4; i++) c(i) = (bits >> i) & 1; return c; }
static MiniCheetahKinematics build(const VX& q, const VX& dq, const CX& c) {
  if (choose("overload", 2)) return MiniCheetahKinematics(q, dq, c);
  MiniCheetahKinematics m; m.set_joint_state(q); m.set_joint_state_velocity(dq); m.set_contact(c); return m;
}
static void verify(MiniCheetahKinematics& m, const VX& q, const CX& c) {
  check(m.get_num_legs() == 4, "four legs");
  for (int l = 0; l < 4; l++) {
    MX P = m.get_kin_pos(l), J = m.get_J(l), W = jac(l, q).block(0, 3 * l, 3, 3); check(J.rows() == 3 && J.cols() == 3, "one 3x3 Jacobian per leg"); meq(P, pos(l, q), "the foot position is that of the leg for the stored joints"); meq(J, W, "the Jacobian is that of the leg for the stored joints"); check(m.get_contact(l) == (bool)c(l), "contact flags are as stored");
  }
  for (int i = 0; i < 12; i++) check_eq(m.get_joint_state(i), q(i), "joint angles are as stored");
}
SX_HARNESS(c15_kinematics) {
  VX q = joints("q", 1.5), dq = joints("dq", 3); CX c = contacts(choose("contacts", 16)); MiniCheetahKinematics m = build(q, dq, c); m.ComputeKinematics(); verify(m, q, c);
  VX z = joints("z", 1.5); CX d = contacts(choose("later", 2) * 15); m.set_joint_state(z); m.set_contact(d); m.ComputeKinematics(); verify(m, z, d);
}
SX_HARNESS(c15_stance_velocity) {
  VX q0 = joints("q", 1.5), dq = joints("dq", 3); double t = sym("t", 0.1, 1); VX q = q0 + dq * t; int bits = choose("contacts", 16); CX c = contacts(bits); MiniCheetahKinematics m = build(q, dq, c); if (choose("computed", 2)) m.ComputeKinematics(); V3 w = vec("w", -3, 3), v = m.get_init_velocity(w);
  int first = -1; for (int l : {0, 1, 2, 3}) if (first < 0 && c(l)) first = l; if (first < 0) return meq(v, V3(V3::Zero()), "without a contact the initial velocity is zero");
  // the foot stays at rest: v + w x p + d p / d q * dq = 0
  V3 p = pos(first, q); vector<double> dp = sx::jac([&](const double& s) { VX y = q0 + dq * s; MX r = pos(first, y); return vector<double>{r(0, 0), r(1, 0), r(2, 0)}; }, t);
  V3 r = v + crs(w, p); check_eq(r(0), -dp[0], "the initial velocity keeps the first stance foot at rest"); check_eq(r(1), -dp[1], "the initial velocity keeps the first stance foot at rest"); check_eq(r(2), -dp[2], "the initial velocity keeps the first stance foot at rest");
}
// a default-constructed measurement has no joint motion and no contact
SX_HARNESS(c15_default) {
  MiniCheetahKinematics m; VX q = joints("q", 1.5); bool setq = choose("joints_set", 2); if (setq) m.set_joint_state(q); else q = VX::Zero(12); int bits = choose("contacts", 3); CX c = contacts(bits == 2 ? 8 : bits); if (bits) m.set_contact(c); m.ComputeKinematics(); verify(m, q, c);
  V3 w = vec("w", -3, 3), v = m.get_init_velocity(w), r(0, 0, 0); if (bits) { V3 p = pos(bits == 2 ? 3 : 0, q); r = -crs(w, p); } meq(v, r, "without joint rates the stance foot moves with the body");
}
