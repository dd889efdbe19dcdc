// @bound no correction, velocity correction, legged correction, or both in either order; one to three queued samples per sensor; every sample, mounting, prior, configured standard deviation and time stamp; correction data may arrive late (at any of the first lock operations); the state may already carry one augmented column
// @assume reported orientations are unit quaternions
#include "est.h"
struct Case { ErrorType et; int kind; bool ori, mounted, dflt, stat, late; int aug = 0; };
static void run(const Case& k) {
  EstConf c; M3 Rm = I3(), R0 = I3(), Rv = I3(); V3 tr(0, 0, 0); double sc(1), rc(0.03), vc(0.01), pc(0.00001), gb(0.1 * 0.1), ab(0.1 * 0.1); bool bias = choose("bias_update", 2);
  if (k.mounted) { Quat q = quatAny("mount"); Rm = rotOf(q); c.prop.put("settings", "rotation_imu2body", q); tr = vec("tr"); c.prop.put("settings", "translation_imu2body", tr); }
  if (!k.dflt) {
    double a = sym("rot_std", 0.1, 2), b = sym("vel_std", 0.1, 2), d = sym("pos_std", 0.1, 2), e = sym("gbias_std", 0.1, 2), f = sym("abias_std", 0.1, 2); rc = a * a; vc = b * b; pc = d * d; gb = e * e; ab = f * f;
    c.est.put("state", "rotation_std_value", a).put("state", "velocity_std_value", b).put("state", "position_std_value", d); c.prop.put("noises", "gyroscope_bias_std", e).put("noises", "accelerometer_bias_std", f);
    Quat q = quatAny("velrot"); Rv = rotOf(q); sc = sym("scale", 0.5, 2); c.vel.put("settings", "rotation_vel2body", q).put("settings", "velocity_scale", sc);
  }
  c.prop.flag("settings", "enable_imu_bias_update", bias); c.prop.flag("settings", "use_imu_ori_to_init", k.ori); c.prop.flag("settings", "static_bias_initialization", k.stat); c.prop.num("settings", "init_bias_size", 1);
  V3 bg = vec("bg0"), ba = vec("ba0"); c.prop.put("priors", "gyroscope_bias", bg).put("priors", "accelerometer_bias", ba);
  Est E(c, k.et, k.kind); check(!E.e->is_enabled(), "the filter starts out disabled"); check(E.published() == 0, "nothing is published before initialisation"); check(!E.e->BiasInitialized(), "the biases start out uninitialised");
  V3 d = vec("d"); if (k.aug) { RobotState x; MX P = MX::Identity(18, 18); V3 at = d; x.add_aug_state(at, P, M3(M3::Zero()), make_shared<int>(5)); E.e->set_state(x); }
  // no inertial data: nothing happens
  V3 v0 = vec("v0"), i0 = vec("i0"); double tv = sym("tv", 9, 11), tl = sym("tl", 9, 11), ti = sym("ti", 9, 11); int nv = 1 + choose("queued_corrections", 2), ni = 1 + choose("queued_imu", 2);
  auto feed = [&] { for (int i = 0; i < nv; i++) { bool last = i == nv - 1; if (E.hasVel()) { V3 y = last ? v0 : vec("vold"); E.vq->push(vel(last ? tv : double(8), y)); } if (E.hasLeg()) { FakeP m = legs(last ? tl : double(8), MX::Zero(3, 2), MX::Zero(3, 6), {1, 1}); m->initv_ = last ? i0 : vec("iold"); E.lq->push(m); } } };
  if (!k.late) feed();
  E.e->InitState(); check(!E.e->is_enabled(), "without inertial data the filter stays disabled"); check(E.published() == 0, "without inertial data nothing is published"); if (!k.late && E.hasVel()) check((int)E.vq->size() == nv, "without inertial data no velocity is consumed"); if (!k.late && E.hasLeg()) check((int)E.lq->size() == nv, "without inertial data no kinematics are consumed");
  if (k.stat) { V3 ws = vec("ws"), as = vec("as"); ImuP m = imu(double(1), ws, as); Quat q; M3 Rs = I3(); if (k.ori) { q = quatAny("qs"); m->set_quaternion(q.w, q.x, q.y, q.z); Rs = Rm * rotOf(q); } E.iq->push(m); for (int i = 0; i < 3 && !E.e->BiasInitialized(); i++) E.e->InitBias(); bg = Rm * ws; V3 al = Rm * as; al = al - crs(bg, crs(bg, tr)); V3 g(0, 0, -9.80); V3 dn = Rs.transpose() * g; ba = al + dn; check(E.iq->empty(), "bias initialisation uses its sample"); }
  else E.e->InitBias();
  check(E.e->BiasInitialized(), "the biases are initialised");
  V3 w = vec("w"), a = vec("a"); for (int i = 0; i < ni; i++) { ImuP m = i == 0 ? imu(ti, w, a) : imu(double(12), vec("w1"), vec("a1")); if (k.ori) { Quat q = i == 0 ? quatAny("q") : quat("q1"); m->set_quaternion(q.w, q.x, q.y, q.z); if (i == 0) R0 = rotOf(q); } E.iq->push(m); }
  if (k.late) { int when = choose("arrives_at", 4); auto n = make_shared<int>(0); sx::set_env([&, n, when] { if ((*n)++ == when) feed(); }); E.e->InitState(); sx::set_env(nullptr); } else E.e->InitState();
  // expected state
  V3 wb = Rm * w; V3 wu = wb - bg; MX X = MX::Identity(5, 5); X.block(0, 0, 3, 3) = R0; double t = ti; V3 v(0, 0, 0);
  auto useVel = [&] { V3 s = Rv * v0; v = R0 * V3(s * sc); t = tv; }; auto useLeg = [&] { V3 u = i0 + crs(wu, V3(1, 2, 3)); v = R0 * u; t = tl; };
  if (k.kind == kVel || k.kind == kVelLeg) useVel(); if (E.hasLeg()) useLeg(); if (k.kind == kLegVel) useVel(); X.block(0, 3, 3, 1) = v;
  VX th(6); for (int i = 0; i < 3; i++) { th(i) = bg(i); th(3 + i) = ba(i); }
  int o = 3 * k.aug; if (k.aug) { MX Y = MX::Identity(6, 6); Y.block(0, 0, 5, 5) = X; Y.block(0, 5, 3, 1) = d; X = Y; }
  MX P = MX::Identity(15 + o, 15 + o); for (int i = 0; i < 3; i++) { P(i, i) = rc; P(3 + i, 3 + i) = vc; P(6 + i, 6 + i) = pc; P(9 + o + i, 9 + o + i) = gb; P(12 + o + i, 12 + o + i) = ab; }
  check(E.e->is_enabled(), "initialisation enables the filter"); check(E.published() == 1, "initialisation publishes exactly one state"); check((int)E.iq->size() == ni - 1, "initialisation uses exactly one inertial sample"); check(E.vq->empty() && E.lq->empty(), "initialisation uses the newest measurement and drops older ones"); check(sx::locks_held() == 0, "all locks are released");
  RobotState s = E.e->get_state(); meq(s.get_rotation(), R0, "initial attitude"); meq(s.get_velocity(), v, "initial velocity"); meq(s.get_X(), X, "initial mean"); meq(s.get_theta(), th, "initial biases"); meq(s.get_P(), P, "initial covariance"); check_eq(s.get_time(), t, "initial time"); check_eq(s.get_propagate_time(), ti, "initial propagation time"); meq(s.get_body_angular_velocity(), wu, "initial body rate"); check(s.get_enable_imu_bias_update() == bias, "bias estimation is switched as configured"); meq(s.get_continuous_noise_covariance(), MX(MX::Zero(15 + o, 15 + o)), "no process noise is added"); check(s.get_slip_flag() == 0, "the slip flag starts out clear");
  sameState(*E.take(), s, "the published state is the initial state");
}
SX_HARNESS(c21_plain) { Case k; k.et = etOf(choose("error", 2)); k.kind = choose("corrections", 5); k.dflt = choose("defaults", 2); k.ori = k.mounted = k.stat = k.late = false; k.aug = choose("augmented", 2); run(k); }
SX_HARNESS(c21_mounted) { Case k; k.et = ErrorType::RightInvariant; k.kind = choose("corrections", 3); k.dflt = true; k.ori = choose("orientation", 2); k.mounted = !k.ori || choose("mounted", 2); k.stat = k.ori ? false : choose("static", 2); k.late = false; run(k); }
SX_HARNESS(c21_late) { Case k; k.et = ErrorType::LeftInvariant; k.kind = 1 + choose("corrections", 4); k.dflt = true; k.ori = k.mounted = k.stat = false; k.late = true; run(k); }
