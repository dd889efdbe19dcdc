// @bound up to 3 run steps after initialisation, each with at most one measurement per sensor; all six noise levels symbolic (standard deviations in [0.1,2]) or all defaults; symbolic bias prior; both ground modes (all axes / yaw only); gyro and random-walk propagation; every sensor rotation
// @assume matrix inverses by contract; message times of one step are consistent with the propagation threshold (order and staleness are C18)
// @shards c17_combined 4
#include "gy.h"
static void expectMsg(Gy& g, const Kf& k, const double& t, const ImuP& base, const string& what) {
  check((int)g.out->size() == 1, what + " emits exactly one message"); ImuP m = g.take(); if (!m) return;
  V3 w = m->get_angular_velocity(); V3 e = k.e.head(3);
  meq(w, e, what + ": the message carries the updated rate estimate"); check_eq(m->get_time(), t, what + ": the message carries the time of the measurement");
  check(m != base, what + ": the message is a new object"); check(m->get_type() == base->get_type(), what + ": message type");
  meq(m->get_lin_acc(), base->get_lin_acc(), what + ": the linear acceleration is passed through");
  Eigen::Quaternion<double> a = m->get_quaternion(), b = base->get_quaternion(); check_eq(a.w(), b.w(), what + ": orientation w"); check_eq(a.x(), b.x(), what + ": orientation x"); check_eq(a.y(), b.y(), what + ": orientation y"); check_eq(a.z(), b.z(), what + ": orientation z");
}
struct In { ImuP m; V3 w, a; double t; In(const string& n, const double& t_) : w(vec(n + ".w")), t(t_) { m = fullImu(n, t, w); a = m->get_lin_acc(); } void same(const string& what) { meq(m->get_angular_velocity(), w, what + ": the input message keeps its rate"); check_eq(m->get_time(), t, what + ": the input message keeps its time"); meq(m->get_lin_acc(), a, what + ": the input message keeps its acceleration"); } };
static Yaml conf(bool dflt, Kf& k, bool all, V3 prior, Quat* q) {
  Yaml y; if (all || choose("flat_ground_key", 2)) y.flag("settings", "flat_ground", all); y.flag("settings", "static_bias_initialization", false); if (q) y.put("settings", "rotation_imu2body", *q);
  if (dflt) { k = Kf(all, 0.01, 0.01, 0.01, 0.01, 0.1, 0.1); }
  else {
    double s0 = sym("ang_vel_std", 0.1, 2), s1 = sym("ang_vel_bias_std", 0.1, 2), q0 = sym("filter_std", 0.1, 2), q1 = sym("filter_bias_std", 0.1, 2), ri = sym("imu_std", 0.1, 2), re = sym("enc_std", 0.1, 2);
    k = Kf(all, s0, s1, q0, q1, ri, re);
    y.put("noises", "ang_vel_std", s0).put("noises", "ang_vel_bias_std", s1).put("noises", "filter_std", q0).put("noises", "filter_bias_std", q1).put("noises", "imu_meas_noise_std", ri).put("noises", "encoder_meas_noise_std", re);
    y.put("priors", "ang_vel_bias", prior); k.e.tail(3) = prior;
  }
  return y;
}
// one correction IMU
SX_HARNESS(c17_imu) {
  bool all = choose("all_axes", 2), gyro = choose("gyro", 2), dflt = choose("defaults", 2), five = gyro ? false : choose("queue_ctor", 2);
  Kf k(all, 1, 1, 1, 1, 1, 1); V3 prior = vec("prior"); Yaml y = conf(dflt, k, all, prior, nullptr); if (five) y.num("settings", "correction_method", 1);
  Gy g(y, gyro, 1, false, five); g.f->RunOnce(); check(g.out->empty(), "initialisation emits nothing");
  V3 prev = V3::Zero();
  for (int i = 0; i < (thorough() ? 3 : 2); i++) {
    string n = std::to_string(i); double t(10 + i); In b("imu" + n, t); g.iq[0]->push(b.m);
    if (gyro) { In a("gyro" + n, t); g.gq->push(a.m); g.f->RunOnce(); V3 d = a.w - prev; k.propagate(d); prev = a.w; check(g.gq->empty(), "one gyro sample is used per step"); a.same("gyro propagation"); }
    else { g.f->RunOnce(); k.propagate(V3::Zero()); }
    k.imu(b.w); expectMsg(g, k, t, b.m, "IMU correction"); b.same("IMU correction"); check(g.iq[0]->empty(), "the IMU measurement is consumed");
  }
}
// IMU and body-rate corrections
SX_HARNESS(c17_combined) {
  bool all = choose("all_axes", 2), gyro = choose("gyro", 2), five = gyro ? false : choose("queue_ctor", 2);
  Kf k(all, 1, 1, 1, 1, 1, 1); V3 prior = vec("prior"); Quat q = quat("q"); M3 Rt = rotOf(q).transpose(); Yaml y = conf(false, k, all, prior, &q);
  Gy g(y, gyro, 1, true, five); g.f->RunOnce(); check(g.out->empty(), "initialisation emits nothing");
  V3 prev = V3::Zero(); ImuP base; int steps = thorough() ? 4 : 3; shared_ptr<In> lastImu;
  for (int i = 0; i < steps; i++) {
    string n = std::to_string(i); double t(10 + i); bool enc = i > 0 && choose("enc" + n, 2); bool sample = gyro && choose("sample" + n, 2);
    if (sample) { In a("gyro" + n, t); g.gq->push(a.m); V3 d = a.w - prev; k.propagate(d); prev = a.w; }
    else if (!gyro) k.propagate(V3::Zero());
    if (!enc) { lastImu = make_shared<In>("imu" + n, t); base = lastImu->m; g.iq[0]->push(base); g.f->RunOnce(); k.imu(lastImu->w); expectMsg(g, k, t, base, "IMU correction"); check(g.iq[0]->empty(), "the IMU measurement is consumed"); }
    else { V3 w = vec("enc" + n); V3 yb = rotOf(q) * w; AngP m = ang(t, yb); g.aq->push(m); g.f->RunOnce(); V3 z = Rt * yb; lem(z, w, "rotation to the IMU frame"); k.enc(z); expectMsg(g, k, t, base, "body-rate correction"); check(g.aq->empty(), "the body-rate measurement is consumed"); meq(m->get_angular_velocity(), yb, "body-rate correction: the input message keeps its rate"); }
    lastImu->same("correction");
  }
}
// body-rate correction alone: the message is based on the latest gyro sample
SX_HARNESS(c17_rate) {
  bool all = choose("all_axes", 2); Kf k(all, 1, 1, 1, 1, 1, 1); V3 prior = vec("prior"); Quat q = quat("q"); Yaml y = conf(false, k, all, prior, &q);
  Gy g(y, true, 0, true); g.f->RunOnce(); check(g.out->empty(), "initialisation emits nothing"); V3 prev = V3::Zero(); ImuP base;
  for (int i = 0; i < (thorough() ? 3 : 2); i++) {
    string n = std::to_string(i); double t(10 + i); bool sample = i == 0 || choose("sample" + n, 2);
    if (sample) { In a("gyro" + n, t); base = a.m; g.gq->push(a.m); V3 d = a.w - prev; k.propagate(d); prev = a.w; }
    V3 w = vec("enc" + n); V3 yb = rotOf(q) * w; double te = t + sym("lag" + n, -0.01, 0.01); g.aq->push(ang(te, yb)); g.f->RunOnce(); V3 z = rotOf(q).transpose() * yb; lem(z, w, "rotation to the IMU frame"); k.enc(z); expectMsg(g, k, te, base, "body-rate correction"); check(g.aq->empty(), "the body-rate measurement is consumed");
  }
}
// several correction IMUs
SX_HARNESS(c17_multi) {
  bool all = choose("all_axes", 2), gyro = choose("gyro", 2); Kf k(all, 1, 1, 1, 1, 1, 1); V3 prior = vec("prior"); Yaml y = conf(false, k, all, prior, nullptr); int n = 2;
  Gy g(y, gyro, n, false); g.f->RunOnce(); check(g.out->empty(), "initialisation emits nothing");
  if (gyro) { In a("gyro", double(10)); g.gq->push(a.m); k.propagate(a.w); } else k.propagate(V3::Zero());
  vector<shared_ptr<In>> in; for (int i = 0; i < n; i++) { in.push_back(make_shared<In>("imu" + std::to_string(i), double(10))); if (choose("have" + std::to_string(i), 2)) g.iq[i]->push(in[i]->m); else in[i] = nullptr; }
  g.f->RunOnce(); int expected = 0; for (auto& i : in) if (i) expected++;
  check((int)g.out->size() == expected, "one message per correction IMU with data"); if ((int)g.out->size() != expected) return;
  for (int i = 0; i < n; i++) if (in[i]) { k.imu(in[i]->w); ImuP m = g.take(); V3 w = m->get_angular_velocity(), e = k.e.head(3); meq(w, e, "IMU correction: the message carries the updated rate estimate"); meq(m->get_lin_acc(), in[i]->a, "IMU correction: the linear acceleration is passed through"); in[i]->same("IMU correction"); check(g.iq[i]->empty(), "the IMU measurement is consumed"); }
}
