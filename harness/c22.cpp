// @bound 3 run steps after initialisation (2 with both corrections; thorough: 3), each with zero or one new measurement per sensor; no, one or two corrections in either registration order; left error without and right error with bias estimation (thorough: all combinations); before every step the state is replaced by an arbitrary pose with uncertain velocity and position and no attitude uncertainty
// @bound oracle: the library's own propagation and correction objects driven by hand in the documented order (they are checked on their own in C01-C13)
// @assume inverses by contract
// @bound without a consumer: 12 (thorough: 40) steps in a row, the output queue drained before any one of them or never; 130 steps with concrete positions, never drained
// @shards c22_steps 6
#include "est.h"
static void reset(RobotState& s, const string& n) {
  MX X = s.get_X(); X.block(0, 0, 3, 3) = rotz("R" + n); X.block(0, 3, 3, 1) = vec("v" + n); X.block(0, 4, 3, 1) = vec("p" + n); for (int i = 5; i < X.cols(); i++) X.block(0, i, 3, 1) = vec("d" + n); s.set_X(X); s.set_theta(VX::Zero(6));
  int d = s.dimP(); MX P = MX::Zero(d, d); double pv = sym("pv" + n, 0.1, 1), pp = sym("pp" + n, 0.1, 1); for (int i = 3; i < d - 6; i++) P(i, i) = i < 6 ? pv : pp; s.set_P(P); s.set_slip_flag(0);
}
SX_HARNESS(c22_steps) {
  int e = choose("error", 2); ErrorType et = etOf(e); int kind = choose("corrections", 5); EstConf c; bool bias = thorough() ? choose("bias_update", 2) : e; c.prop.flag("settings", "enable_imu_bias_update", bias).flag("settings", "static_bias_initialization", false).put("noises", "gyroscope_std", double(0)).put("noises", "gyroscope_bias_std", double(0)).put("noises", "accelerometer_bias_std", double(0));
  Est E(c, et, kind); Prop p(c.prop, et); VelC v(c.vel, et); LegC l(c.leg, et); V3 o(0, 0, 0);
  double t0(10); ImuP first = imu(t0, V3(double(0), double(0), sym("w", 0.5, 1)), vec("a")); E.iq->push(first); if (E.hasVel()) E.vq->push(vel(9.9, V3(double(1), double(0), double(0)))); if (E.hasLeg()) E.lq->push(legs(double(9.9), MX::Zero(3, 1), MX::Zero(3, 3), {1}));
  E.e->InitBias(); E.e->InitState(); check(E.e->is_enabled(), "the filter is enabled"); E.take(); p.prime(first); RobotState s = E.e->get_state(); vector<shared_ptr<RobotState>> out; vector<RobotState> keep; vector<double> times; times.push_back(t0);
  int steps = kind < kVelLeg || thorough() ? 3 : 2;
  for (int k = 0; k < steps; k++) {
    string n = std::to_string(k); bool di = choose("imu" + n, 2), dv = E.hasVel() && choose("vel" + n, 2), dl = E.hasLeg() && choose("leg" + n, 2); double t = double(10 + 0.1 * (k + 1)), T = s.get_propagate_time();
    RobotState x = E.e->get_state(); reset(x, n); E.e->set_state(x); reset(s, n);
    if (di) { ImuP m = imu(t, V3(double(0), double(0), sym("w" + n, 0.5, 1)), vec("a" + n)); times.push_back(t); E.iq->push(m); p.q->push(m); }
    if (dv) { V3 y = vec("y" + n); double tv = T - double(0.01); E.vq->push(vel(tv, y)); v.q->push(vel(tv, y)); }
    if (dl) { MX b = mat("b" + n, 3, 1); E.lq->push(legs(T, b, MX::Zero(3, 3), {k != steps - 1})); l.q->push(legs(T, b, MX::Zero(3, 3), {k != steps - 1})); }
    E.e->RunOnce();
    bool any = p.p->Propagate(s); if (di) { check(any, "a queued sample is used"); check_eq(s.get_propagate_time(), times[times.size() - 2], "inertial samples are used one step late"); }
    auto useV = [&] { if (v.c->Correct(s)) any = true; }; auto useL = [&] { if (l.c->Correct(s)) any = true; };
    if (kind == kVel || kind == kVelLeg) useV(); if (E.hasLeg()) useL(); if (kind == kLegVel) useV();
    check(any == (di || dv || dl), "every new measurement is used");
    RobotState now = E.e->get_state(); sameState(now, s, "the step is propagation followed by every correction in order"); check(E.iq->empty() && E.vq->empty() && E.lq->empty(), "every measurement is consumed once");
    check(E.published() == (any ? 1 : 0), any ? "a step that used data publishes exactly one state" : "a step without data publishes nothing"); if (E.published() != (any ? 1 : 0)) sx::stop("publication differs");
    if (any) { out.push_back(E.take()); keep.push_back(now); sameState(*out.back(), now, "the published state is the current state"); }
  }
  for (size_t i = 0; i < out.size(); i++) { sameState(*out[i], keep[i], "a published state never changes afterwards"); for (size_t j = 0; j < i; j++) check(out[i] != out[j], "every published state is an object of its own"); }
}

// however many states nobody has taken yet, every step publishes one of its own
SX_HARNESS(c22_backlog) {
  int kind = choose("corrections", 4); bool many = kind == 3; if (many) kind = kNone; int n = many ? 130 : thorough() ? 40 : 12, drain = many ? n : choose("drained_before", n); EstConf c; c.prop.flag("settings", "static_bias_initialization", false); Est E(c, ErrorType::RightInvariant, kind); double t0(10); V3 z(0, 0, 0), w(double(0), double(0), sym("w", 0.5, 1)), a = vec("a"); E.iq->push(imu(t0, z, z)); if (E.hasVel()) E.vq->push(vel(9.9, z)); if (E.hasLeg()) E.lq->push(legs(double(9.9), MX::Zero(3, 1), MX::Zero(3, 3), {1}));
  E.e->InitBias(); E.e->InitState(); auto q = E.e->get_robot_state_queue_ptr(); vector<double> due; due.push_back(E.e->get_state().get_time()); int taken = 0; auto first = q->empty() ? nullptr : q->front(); vector<V3> pos; pos.push_back(V3(0, 0, 0));
  for (int k = 0; k < n; k++) {
    if (k > 0 && k == drain) while (!q->empty()) { q->pop(); taken++; }
    RobotState x; x.set_time(E.e->get_state().get_time()); x.set_propagate_time(E.e->get_state().get_propagate_time()); V3 p = many ? V3(double(k), double(2), double(-k)) : vec("p" + std::to_string(k)); x.set_position(p); E.e->set_state(x); E.iq->push(imu(t0 + double(0.1) * double(k + 1), z, z)); E.e->RunOnce(); due.push_back(E.e->get_state().get_time()); pos.push_back(V3(E.e->get_state().get_position())); check((int)q->size() + taken == k + 2, "every step publishes one state, however many are waiting");
    if ((int)q->size() + taken != k + 2) sx::stop("publication differs");
  }
  for (int i = taken; !q->empty(); i++) { auto s = q->front(); q->pop(); check_eq(s->get_time(), due[i], "waiting states keep their time"); meq(MX(s->get_position()), MX(pos[i]), "waiting states keep their position"); }
}
