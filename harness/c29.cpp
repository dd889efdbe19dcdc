// @bound up to 4 measurements per queue in any combination of counts and up to 4 run steps (thorough: 5), interleaved with further arrivals; body velocity arbitrary, body rate about the vertical (one step: any axis, attitude change at least 0.01 rad), steps with zero rate; arbitrary time stamps (any order, zero included), logging rate in [1,50] or the default
// @assume exact real arithmetic; text output with at least 15 digits counts as exact
// @source REPO/baselines/src/wheel_odometry/wheel_odometry.cpp
// @include REPO/baselines/include
#include "log.h"
#include "wheel_odometry/wheel_odometry.h"
using baseline::WheelOdometry;
struct Odo {
  VelocityQueuePtr vq = make_shared<VelocityQueue>(); AngularVelocityQueuePtr aq = make_shared<AngularVelocityQueue>(); Mut vm = mut(), am = mut(); shared_ptr<WheelOdometry> o; string file;
  Odo(bool log, bool dflt, const double& rate) { static int n = 0; file = sx::tmpdir() + "/odo" + std::to_string(n++ % 32); std::remove((file + ".txt").c_str()); Yaml y; y.flag("logger", "enable_pose_logger", log); y.put("logger", "pose_log_file", file + (choose("suffix", 2) ? ".csv" : ".txt")); if (!dflt) y.put("logger", "pose_log_rate", rate); o = make_shared<WheelOdometry>(vq, vm, aq, am, y.write()); }
  Rows rows() { return readLog(file + ".txt"); }
};
struct Ref {   // independent dead reckoning
  M3 R = I3(); V3 p = V3::Zero(); double t = 0, last = 0; bool started = false; Rows log; vector<M3> att;
  void pair(const double& tv, const V3& v, const V3& w, bool zero, const double& period) {
    if (!started) { started = true; t = tv; return; } double dt = tv - t; t = tv; V3 d = R * v; V3 step = d * dt; p = p + step; V3 phi = w * dt; if (!zero) { M3 E = gammaRef(phi, 0); M3 Rn = R * E; R = Rn; }
    if (t - last >= period) { last = t; log.push_back({t, p(0), p(1), p(2)}); att.push_back(R); }
  }
};
static void compare(Odo& o, const Ref& r) {
  Rows g = o.rows(); check(g.size() == r.log.size(), "one line per pose that is due, no more often than the configured rate"); if (g.size() != r.log.size()) sx::stop("log differs");
  for (size_t i = 0; i < g.size(); i++) {
    check(g[i].size() == 8, "a line holds time, position and quaternion"); if (g[i].size() != 8) sx::stop("line differs"); const char* nm[4] = {"logged time is the velocity time stamp", "logged position x", "logged position y", "logged position z"}; for (int k = 0; k < 4; k++) check_eq(g[i][k], r.log[i][k], nm[k]);
    double x = g[i][4], y = g[i][5], z = g[i][6], w = g[i][7]; M3 Q = rotOf(Quat{w, x, y, z}); meq(Q, r.att[i], "logged quaternion is the attitude"); check_eq(x * x + y * y + z * z + w * w, double(1), "logged quaternion has unit norm");
  }
}
// positions and attitudes about the vertical over several pairs
SX_HARNESS(c29_turning) {
  bool dflt = choose("default_rate", 2); double rate = dflt ? double(10) : sym("rate", 1, 50); Odo o(true, dflt, rate); Ref r; double period = double(1) / rate, t(0);
  int pairs = thorough() ? 4 : 3; for (int k = 0; k < pairs; k++) {
    string n = std::to_string(k); bool zero = k && choose("zero_rate" + n, 2); double dt = k ? sym("dt" + n, 0.05, 0.5) : double(0); t = k ? t + dt : sym("t0", 0, 1000000000.0); V3 v = vec("v" + n), w(double(0), double(0), zero ? double(0) : sym("w" + n, 0.25, 1));
    if (k == 0) w = vec("w0"); o.vq->push(vel(t, v)); o.aq->push(ang(sym("ta" + n, 0, 100), w)); o.o->RunOnce(); check(o.vq->empty() && o.aq->empty(), "a pair is consumed"); r.pair(t, v, w, zero, period); compare(o, r);
  }
}
// consumption in pairs and in order; time stamps in any order, zero included; straight motion
SX_HARNESS(c29_pairs) {
  double rate = sym("rate", 1, 50); Odo o(true, false, rate); Ref r; double period = double(1) / rate; int steps = thorough() ? 5 : 4, nv = choose("velocities", 4), na = choose("rates", 4), late = choose("late", 3); vector<double> tv; vector<V3> v; vector<VelP> mv; vector<AngP> ma; bool zeroStart = choose("starts_at_zero", 2);
  auto addV = [&] { int i = mv.size(); string n = std::to_string(i); tv.push_back(i == 0 && zeroStart ? double(0) : sym("t" + n, 0, 20)); v.push_back(vec("v" + n)); mv.push_back(vel(tv[i], v[i])); o.vq->push(mv[i]); }; auto addA = [&] { ma.push_back(ang(sym("ta" + std::to_string(ma.size()), 0, 20), V3::Zero())); o.aq->push(ma.back()); };
  for (int i = 0; i < nv; i++) addV(); for (int i = 0; i < na; i++) addA(); int used = 0;
  for (int k = 0; k < steps; k++) {
    if (k == 2 && late == 1) addA(); if (k == 2 && late == 2) { addV(); addA(); }
    bool both = used < (int)mv.size() && used < (int)ma.size(); o.o->RunOnce(); if (both) { r.pair(tv[used], v[used], V3::Zero(), true, period); used++; }
    check((int)o.vq->size() == (int)mv.size() - used, "velocities are consumed only in pairs"); check((int)o.aq->size() == (int)ma.size() - used, "body rates are consumed only in pairs"); if (!o.vq->empty()) check(o.vq->front() == mv[used], "velocities are consumed in order"); if (!o.aq->empty()) check(o.aq->front() == ma[used], "body rates are consumed in order"); compare(o, r);
  }
}
// one step about any axis
SX_HARNESS(c29_axis) {
  Odo o(true, true, 1); double t0 = sym("t0", 1, 5), dt = sym("dt", 0.2, 1, 0.2, 100); V3 v = vec("v"), w = vec("w", -1, 1); V3 phi = w * dt; assume(ge(dot(phi, phi), double(0.0001))); assume(lt(dot(phi, phi), double(1.0)));
  { using std::sqrt; using std::cos; assume(gt(cos(sqrt(dot(phi, phi))), double(0.5))); }   // a fact for angles below 1 rad
  o.vq->push(vel(t0, v)); o.aq->push(ang(t0, V3::Zero())); o.o->RunOnce(); o.vq->push(vel(t0 + dt, v)); o.aq->push(ang(t0, w)); o.o->RunOnce(); Rows g = o.rows(); check(g.size() == 1 && g[0].size() == 8, "the pose is logged"); if (g.size() != 1 || g[0].size() != 8) return;
  M3 E = gammaRef(phi, 0); double x = g[0][4], y = g[0][5], z = g[0][6], q = g[0][7]; V3 e = v * dt; for (int i = 0; i < 3; i++) check_eq(g[0][1 + i], e(i), "position moves by R v dt with the attitude before the step"); double s = 4 * q; check_eq(s * x, E(2, 1) - E(1, 2), "quaternion of Exp(w dt), x"); check_eq(s * y, E(0, 2) - E(2, 0), "quaternion of Exp(w dt), y"); check_eq(s * z, E(1, 0) - E(0, 1), "quaternion of Exp(w dt), z"); check_eq(s * q, 1 + E(0, 0) + E(1, 1) + E(2, 2), "quaternion of Exp(w dt), w"); check(gt(q, double(0)), "quaternion sign");
}
// nothing is written when logging is off; file names without suffix
SX_HARNESS(c29_quiet) { Odo o(false, true, 1); for (int k = 0; k < 3; k++) { o.vq->push(vel(double(k + 1), vec("v"))); o.aq->push(ang(double(k), V3::Zero())); o.o->RunOnce(); } check(o.vq->empty() && o.aq->empty(), "pairs are consumed"); check(!isFile(o.file + ".txt"), "no log file when logging is disabled"); }
