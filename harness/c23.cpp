// @bound a first run of 0..2 steps (thorough: 3) with or without data per sensor and contacts made, kept and lost, unread states and unread measurements left over, bias calibration from the configuration or from one averaged sample; after the clear an initialisation and 2 steps, each with or without data per sensor; no, one or two corrections
// @bound left error without and right error with bias estimation (thorough: all combinations); before every step the state is replaced by an arbitrary pose with uncertain velocity and position and no attitude uncertainty
// @assume inverses by contract; no gyro pre-filter is attached in the run comparison (its queues are checked)
// @shards c23_clear 8
#include "est.h"
static void reset(RobotState& s, const string& n) {
  MX X = s.get_X(); X.block(0, 0, 3, 3) = rotz("R" + n); X.block(0, 3, 3, 1) = vec("v" + n); X.block(0, 4, 3, 1) = vec("p" + n); for (int i = 5; i < X.cols(); i++) X.block(0, i, 3, 1) = vec("d" + n); s.set_X(X); s.set_theta(VX::Zero(6));
  int d = s.dimP(); MX P = MX::Zero(d, d); double pv = sym("pv" + n, 0.1, 1), pp = sym("pp" + n, 0.1, 1); for (int i = 3; i < d - 6; i++) P(i, i) = i < 6 ? pv : pp; s.set_P(P);
}
static void reset(Est& E, const string& n) { RobotState x = E.e->get_state(); reset(x, n); E.e->set_state(x); }
struct Data { ImuP imu; VelP vel; LegP leg; };
static void give(Est& E, const Data& d) { if (d.imu) E.iq->push(d.imu); if (d.vel) E.vq->push(d.vel); if (d.leg) E.lq->push(d.leg); }
SX_HARNESS(c23_clear) {
  int e = choose("error", 2); ErrorType et = etOf(e); int kind = choose("corrections", 5); bool bias = thorough() ? choose("bias_update", 2) : e; bool stat = choose("averaged_bias", 2); EstConf c;
  c.prop.flag("settings", "enable_imu_bias_update", bias).flag("settings", "static_bias_initialization", stat).num("settings", "init_bias_size", 1).put("noises", "gyroscope_std", double(0)).put("noises", "gyroscope_bias_std", double(0)).put("noises", "accelerometer_bias_std", double(0));
  Est E(c, et, kind), F(c, et, kind); ImuP still = imu(double(1), vec("bw"), vec("ba"));
  for (Est* x : {&E, &F}) { if (stat) { x->iq->push(still); x->e->InitBias(); } x->e->InitBias(); check(x->e->BiasInitialized(), "the bias is initialised"); check(!x->e->is_enabled(), "not enabled before the state is initialised"); }
  // first run, on E only
  int steps = choose("first_run_steps", thorough() ? 4 : 3), left = choose("left_over", 2);
  if (steps || choose("first_run", 2)) {
    give(E, {imu(double(2), V3(double(0), double(0), sym("w1", 0.5, 1)), vec("a1")), E.hasVel() ? vel(double(1.9), vec("vi")) : VelP(), E.hasLeg() ? legs(double(1.9), mat("bi", 3, 2), MX::Zero(3, 6), {1, 0}) : LegP()}); E.e->InitState(); check(E.e->is_enabled(), "enabled after initialisation");
    for (int k = 0; k < steps; k++) {
      string n = "e" + std::to_string(k); reset(E, n); double t = double(2.1 + 0.1 * k); bool di = choose(n + "imu", 2);
      if (di) E.iq->push(imu(t, V3(double(0), double(0), sym("w" + n, 0.5, 1)), vec("a" + n))); double T = E.e->get_state().get_propagate_time(); if (E.hasVel()) E.vq->push(vel(T, vec("y" + n))); if (E.hasLeg()) E.lq->push(legs(T, mat("b" + n, 3, 2), MX::Zero(3, 6), {k == 1 ? 0 : 1, k == 2 ? 0 : 1})); E.e->RunOnce();
    }
    RobotState x = E.e->get_state(); x.set_slip_flag(1); E.e->set_state(x);
  }
  if (left) { give(E, {imu(double(3), vec("wl"), vec("al")), E.hasVel() ? vel(double(3), vec("yl")) : VelP(), E.hasLeg() ? legs(double(3), mat("bl", 3, 1), MX::Zero(3, 3), {1}) : LegP()}); give(E, {imu(double(3.1), vec("wl"), vec("al"))}); }
  E.e->clear();
  check(E.iq->empty() && E.vq->empty() && E.lq->empty(), "no sensor data is left after clear"); check(E.published() == 0, "no published state is left after clear"); check(!E.e->is_enabled(), "the filter is disabled after clear"); check(E.e->BiasInitialized(), "the bias calibration is kept by clear");
  { RobotState now = E.e->get_state(), fresh; sameState(now, fresh, "the state is the default state after clear"); check(now.dimX() == 5 && now.dimP() == 15 && now.dimTheta() == 6 && now.dimQc() == 15, "dimensions are the default ones after clear"); }
  // without inertial data the filter stays disabled
  E.e->InitState(); F.e->InitState(); check(!E.e->is_enabled() && !F.e->is_enabled() && E.published() == 0, "no initialisation without inertial data"); { RobotState now = E.e->get_state(), fresh; sameState(now, fresh, "nothing is initialised without inertial data"); }
  Data d{imu(double(5), V3(double(0), double(0), sym("W", 0.5, 1)), vec("A")), E.hasVel() ? vel(double(4.9), vec("V")) : VelP(), E.hasLeg() ? legs(double(4.9), mat("B", 3, 2), MX::Zero(3, 6), {0, 1}) : LegP()}; give(E, d); give(F, d); E.e->InitState(); F.e->InitState(); check(E.e->is_enabled() && F.e->is_enabled(), "enabled after initialisation");
  auto same = [&](const string& w) { RobotState a = E.e->get_state(), b = F.e->get_state(); sameState(a, b, w); check(E.published() == F.published(), w + " (number of published states)"); while (E.published() && F.published()) { auto p = E.take(), r = F.take(); sameState(*p, *r, w + " (published)"); } check(E.iq->size() == F.iq->size() && E.vq->size() == F.vq->size() && E.lq->size() == F.lq->size(), w + " (pending data)"); };
  same("initialisation after clear equals a fresh one");
  for (int k = 0; k < 2; k++) {
    string n = "s" + std::to_string(k); reset(E, n); reset(F, n); double t = double(5.1 + 0.1 * k), T = F.e->get_state().get_propagate_time(); bool di = choose(n + "imu", 2);
    Data g; if (di) g.imu = imu(t, V3(double(0), double(0), sym("w" + n, 0.5, 1)), vec("a" + n)); if (E.hasVel() && (k || di)) g.vel = vel(T, vec("y" + n)); if (E.hasLeg() && (k || di)) g.leg = legs(T, mat("b" + n, 3, 2), MX::Zero(3, 6), {1, k == 1 ? 0 : 1});
    give(E, g); give(F, g); E.e->RunOnce(); F.e->RunOnce(); same("a step after clear equals a step of a fresh estimator");
  }
}
// the queues of an attached gyro pre-filter are emptied as well
SX_HARNESS(c23_filter_queues) {
  EstConf c; InekfEstimator e(ErrorType::LeftInvariant, c.est.write()); auto raw = make_shared<IMUQueue>(); auto enc = make_shared<AngularVelocityQueue>(); Mut rm = mut(), em = mut(); Yaml y; auto out = e.add_imu_ang_vel_ekf(raw, rm, enc, em, y.write()); e.add_imu_propagation(out.first, out.second, c.prop.write());
  int n = choose("pending", 3); for (int i = 0; i < n; i++) { raw->push(imu(double(1 + i), vec("w"), vec("a"))); enc->push(ang(double(1 + i), vec("f"))); out.first->push(imu(double(1 + i), vec("w"), vec("a"))); }
  e.clear(); check(raw->empty(), "raw inertial queue is empty after clear"); check(enc->empty(), "encoder queue is empty after clear"); check(out.first->empty(), "filtered inertial queue is empty after clear"); check(!e.is_enabled(), "disabled");
}
