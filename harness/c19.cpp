// @bound bias sample counts 0..3 (thorough: 4), every rate value, all sensor combinations of both constructors, with and without gyro propagation; samples arrive before or between the calls
// @bound clear: 0..2 entries in every queue the configuration uses, before or after initialisation
#include "gy.h"
struct Conf { bool gyro, angv, five; int imus; };
static Conf conf() { int k = choose("sensors", 5); Conf c; c.five = k == 4; c.imus = k == 0 || k == 1 || k == 4 ? 1 : k == 2 ? 2 : 0; c.angv = k == 1 || k == 3 || k == 4; c.gyro = choose("gyro", 2); return c; }
static bool primary(const Gy& g, const Conf& c) { return c.imus > 0; }
static V3 z() { return V3::Zero(); }
// static initialisation: mean of the first N rates of the (first) correction IMU
SX_HARNESS(c19_static) {
  Conf c = conf(); int N = choose("count", thorough() ? 5 : 4); bool all = choose("all_axes", 2); Yaml y; y.flag("settings", "static_bias_initialization", true).flag("settings", "flat_ground", all).num("settings", "init_bias_size", N); if (c.five && choose("single_method", 2)) { y.num("settings", "correction_method", 1); c.angv = false; }
  if (!c.imus && !c.gyro) return;
  V3 prior = vec("prior"); y.put("priors", "ang_vel_bias", prior); bool late = choose("samples_arrive_late", 2);
  Gy g(y, c.gyro, c.imus, c.angv, c.five); V3 mean = V3::Zero(); int used = c.imus ? N : 0; V3 prev = V3::Zero(); int extra = 2;
  vector<V3> w; for (int i = 0; i < N + extra; i++) w.push_back(vec("w" + std::to_string(i)));
  for (int i = 0; i < used; i++) { V3 s = mean + w[i]; mean = s; } if (used) { V3 s = mean / double(used); mean = s; }
  auto feed = [&](int i) { if (c.imus) g.iq[0]->push(imu(double(i + 1), w[i], z())); if (c.gyro) g.gq->push(imu(double(i + 1), w[i] + V3(double(1), double(2), double(3)), z())); if (c.angv) g.aq->push(ang(double(i + 1), V3(double(1), double(1), double(1)))); if (c.imus > 1) g.iq[1]->push(imu(double(i + 1), V3(double(9), double(9), double(9)), z())); };
  if (!late) for (int i = 0; i < N + extra; i++) feed(i);
  // each call takes one sample; the last one averages and discards what was received meanwhile
  for (int i = 0; i < used; i++) { if (late) { g.f->RunOnce(); check(g.out->empty(), "no output before initialisation completes"); feed(i); } g.f->RunOnce(); check(g.out->empty(), "no output before initialisation completes"); }
  if (late) { if (choose("one_more", 2)) feed(N); }
  g.f->RunOnce(); check(g.out->empty(), "no output before initialisation completes");
  if (c.imus) { for (int i = 0; i < (c.imus > 1 ? 2 : 1); i++) check(g.iq[i]->empty(), "measurements received meanwhile are discarded"); }
  if (c.gyro) check(g.gq->empty(), "gyro samples received meanwhile are discarded"); if (c.angv) check(g.aq->empty(), "body rates received meanwhile are discarded");
  if (used && c.gyro) { V3 s = w[used - 1] + V3(double(1), double(2), double(3)); prev = s; }
  // the first update shows rate and bias: defaults for the noises
  Kf k(all, 0.01, 0.01, 0.01, 0.01, 0.1, 0.1); k.e.tail(3) = mean; V3 gy = vec("gyro"), m = vec("meas");
  if (c.gyro) { g.gq->push(imu(double(50), gy, z())); V3 d = gy - prev; k.propagate(d); } else k.propagate(z());
  if (c.imus) { g.iq[0]->push(imu(double(50), m, z())); k.imu(m); } else { g.aq->push(ang(double(50), m)); k.enc(m); }
  g.f->RunOnce(); check((int)g.out->size() == 1, "the first update after initialisation emits one message"); ImuP o = g.take(); if (!o) return;
  V3 e = k.e.head(3), r = o->get_angular_velocity(); check(!sx::is_nan_value(r(2)), "the estimate is a number"); meq(r, e, "the filter starts at zero rate and the mean of the first rates as bias");
}
// without static initialisation the bias starts at the prior, whatever the sample count
SX_HARNESS(c19_prior) {
  Conf c = conf(); bool dflt = choose("default_prior", 2); Yaml y; if (choose("explicit_static", 2)) y.flag("settings", "static_bias_initialization", false); y.flag("settings", "flat_ground", true); V3 prior = vec("prior"); if (!dflt) y.put("priors", "ang_vel_bias", prior); else prior = V3::Zero();
  if (choose("count_key", 2)) y.num("settings", "init_bias_size", choose("count", 3)); if (!c.imus && !c.gyro) return;
  Gy g(y, c.gyro, c.imus, c.angv, c.five); V3 w = vec("w"), gy = vec("gyro"); if (choose("data_before", 2) && c.imus) g.iq[0]->push(imu(double(50), w, z())); else if (c.imus) { g.f->RunOnce(); check(g.out->empty(), "no output before initialisation completes"); g.iq[0]->push(imu(double(50), w, z())); }
  else { g.f->RunOnce(); g.aq->push(ang(double(50), w)); }
  Kf k(true, 0.01, 0.01, 0.01, 0.01, 0.1, 0.1); k.e.tail(3) = prior; if (c.gyro) { g.gq->push(imu(double(50), gy, z())); k.propagate(gy); } else k.propagate(z());
  g.f->RunOnce(); if (g.out->empty()) g.f->RunOnce(); check((int)g.out->size() == 1, "the first update emits one message"); ImuP o = g.take(); if (!o) return;
  if (c.imus) k.imu(w); else k.enc(w); V3 e = k.e.head(3); meq(o->get_angular_velocity(), e, "the filter starts at zero rate and the prior bias");
}
// clear empties every queue in every configuration
SX_HARNESS(c19_clear) {
  Conf c = conf(); bool st = choose("static", 2); Yaml y; y.flag("settings", "static_bias_initialization", st).num("settings", "init_bias_size", 2); Gy g(y, c.gyro, c.imus, c.angv, c.five); if (choose("initialised", 2)) g.f->RunOnce();
  int n = choose("entries", 3); for (int i = 0; i < n; i++) { for (int j = 0; j < c.imus; j++) g.iq[j]->push(imu(double(i + 1), z(), z())); if (c.gyro) g.gq->push(imu(double(i + 1), z(), z())); if (c.angv) g.aq->push(ang(double(i + 1), z())); }
  if (choose("run", 2)) { g.f->RunOnce(); }
  g.f->clear();
  for (int j = 0; j < c.imus; j++) check(g.iq[j]->empty(), "clear empties every IMU queue"); if (c.gyro) check(g.gq->empty(), "clear empties the gyro queue"); if (c.angv) check(g.aq->empty(), "clear empties the body-rate queue"); check(g.out->empty(), "clear empties the output queue");
}
