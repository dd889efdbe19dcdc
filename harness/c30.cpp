// @bound an estimator with logging: up to 3 run steps (thorough: 4), a clear and up to 2 more steps, then destruction, with the logger thread interleaved at lock operations (up to 2 free preemptions, thorough 3, any placement, plus every forced switch); without preemptions: rate in [1,50] or the default and arbitrary sample times and headings; with preemptions: samples 1/8 s or 1/16 s apart and a rate of 10 Hz; arbitrary positions and velocities; one run of 130 steps with concrete poses whose logger waits; file names with and without suffix or directory
// @assume threads switch at lock operations only; text output with at least 15 digits counts as exact; attitude about the vertical
// @shards c30_log 3
// @shards c30_clear 6
// @shards c30_rate 3
#include "est.h"
#include "log.h"
#include <filesystem>
static string fresh(const string& n) { static int k = 0; string d = sx::tmpdir() + "/log" + std::to_string(k++ % 16); std::filesystem::remove_all(d); std::filesystem::create_directories(d + "/run.d"); return d + "/" + n; }
struct Line { double t; V3 p, v; M3 R; };
struct Book {   // what is to be written
  double period, last = 0; vector<Line> due; Book(const double& rate) : period(double(1) / rate) {}
  void add(const RobotState& s) { double t = s.get_time(); if (t - last >= period) { last = t; due.push_back({t, V3(s.get_position()), V3(s.get_velocity()), M3(s.get_rotation())}); } }
};
static void row(const vector<double>& r, size_t n, const string& w) { check(r.size() == n, w + ": columns"); if (r.size() != n) sx::stop("columns differ"); }
static void compare(const string& pose, const string& vel, const string& body, const Book& b, bool prefix, const string& w) {
  Rows P = readLog(pose), V = readLog(vel), B = readLog(body); check(isFile(pose) && isFile(vel) && isFile(body), w + ": the three files exist"); check(P.size() == V.size() && V.size() == B.size(), w + ": the three files hold the same states");
  check(prefix ? P.size() <= b.due.size() : P.size() == b.due.size(), w + ": one line per state that is due"); if (P.size() > b.due.size() || V.size() != P.size() || B.size() != P.size() || (!prefix && P.size() != b.due.size())) sx::stop("lines differ");
  for (size_t i = 0; i < P.size(); i++) {
    const Line& l = b.due[i]; row(P[i], 8, w + ": pose"); row(V[i], 4, w + ": velocity"); row(B[i], 4, w + ": body velocity"); check_eq(P[i][0], l.t, w + ": pose time"); check_eq(V[i][0], l.t, w + ": velocity time"); check_eq(B[i][0], l.t, w + ": body velocity time"); V3 vb = l.R.transpose() * l.v;
    for (int k = 0; k < 3; k++) { check_eq(P[i][1 + k], l.p(k), w + ": position in the world"); check_eq(V[i][1 + k], l.v(k), w + ": velocity in the world"); check_eq(B[i][1 + k], vb(k), w + ": velocity in the body"); }
    Quat q{P[i][7], P[i][4], P[i][5], P[i][6]}; meq(rotOf(q), l.R, w + ": attitude as x y z w quaternion"); check_eq(q.w * q.w + q.x * q.x + q.y * q.y + q.z * q.z, double(1), w + ": unit quaternion");
  }
}
static void reset(RobotState& s, const string& n, bool turn) { MX X = s.get_X(); X.block(0, 0, 3, 3) = turn ? rotz("R" + n) : I3(); X.block(0, 3, 3, 1) = vec("v" + n); X.block(0, 4, 3, 1) = vec("p" + n); s.set_X(X); s.set_theta(VX::Zero(6)); s.set_P(MX(MX::Identity(15, 15))); }
struct Run {
  shared_ptr<Est> E; Book* b; double t; int n = 0; bool turn = true, even = false;
  void init(const double& t0) { t = t0; E->iq->push(imu(t, V3(V3::Zero()), V3(V3::Zero()))); E->e->InitState(); check(E->e->is_enabled(), "enabled"); }
  void step() { string k = std::to_string(n++); RobotState x = E->e->get_state(); reset(x, k, turn); E->e->set_state(x); t = t + (even ? double(n % 3 == 2 ? 0.0625 : 0.125) : sym("dt" + k, 0.05, 0.5)); E->iq->push(imu(t, V3(V3::Zero()), V3(V3::Zero()))); E->e->RunOnce(); b->add(E->e->get_state()); }
};
static EstConf conf(const string& dir, bool dflt, const double& rate) { EstConf c; c.est.flag("logger", "enable_pose_logger", true).put("logger", "pose_log_file", dir + "pose.txt").put("logger", "vel_log_file", dir + "vel.csv"); if (!dflt) c.est.put("logger", "pose_log_rate", rate); return c; }
// what is logged: any times, rate, poses
SX_HARNESS(c30_rate) {
  sx::Coop coop(0); bool dflt = choose("default_rate", 2); double rate = dflt ? double(10) : sym("rate", 1, 50); string d = fresh(""); EstConf c = conf(d, dflt, rate); Book b(rate); Run r; r.E = make_shared<Est>(c, etOf(choose("error", 2)), kNone); r.b = &b; r.init(sym("t0", 0, 1000000000.0));
  int steps = choose("steps", thorough() ? 5 : 4); bool idle = choose("no_data_step", 2), drain = choose("wait", 2); for (int i = 0; i < steps; i++) { r.step(); if (idle) r.E->e->RunOnce(); if (drain) sx::coop_run(); }
  r.E.reset(); sx::coop_check(); compare(d + "pose.txt", d + "vel.txt", d + "vel_body_frame.txt", b, false, "log");
}
// every interleaving of the logger thread
SX_HARNESS(c30_log) {
  sx::Coop coop(thorough() ? 3 : 2); double rate(10); string d = fresh(""); EstConf c = conf(d, false, rate); Book b(rate); Run r; r.turn = false; r.even = true; r.E = make_shared<Est>(c, ErrorType::RightInvariant, kNone); r.b = &b; r.init(double(0.5)); int steps = choose("steps", 4); for (int i = 0; i < steps; i++) r.step(); if (choose("wait", 2)) sx::coop_run();
  r.E.reset(); sx::coop_check(); compare(d + "pose.txt", d + "vel.txt", d + "vel_body_frame.txt", b, false, "log");
}
static vector<string> newer(const string& dir, const string& prefix, const vector<string>& old) { vector<string> r; for (auto& f : std::filesystem::directory_iterator(dir)) { string n = f.path().filename().string(); if (n.rfind(prefix, 0) == 0 && std::find(old.begin(), old.end(), n) == old.end()) r.push_back(n); } std::sort(r.begin(), r.end()); return r; }
SX_HARNESS(c30_clear) {
  sx::Coop coop(thorough() ? 2 : 1); double rate(10); string d = fresh(""); EstConf c = conf(d, false, rate); Book b(rate); Run r; r.turn = false; r.even = true; r.E = make_shared<Est>(c, ErrorType::RightInvariant, kNone); r.b = &b; r.init(double(50));
  int before = choose("steps_before", 3), clears = 1 + choose("clears", 2), after = choose("steps_after", 3); for (int i = 0; i < before; i++) r.step();
  for (int k = 0; k < clears; k++) r.E->e->clear();
  Book b2(rate); r.b = &b2; double t1 = choose("time_restarts", 2) ? double(1) : double(60); r.init(t1); for (int i = 0; i < after; i++) r.step(); r.E.reset(); sx::coop_check();
  compare(d + "pose.txt", d + "vel.txt", d + "vel_body_frame.txt", b, true, "log before the clear");
  auto pose = newer(d, "pose_", {}), body = newer(d, "vel_body_frame_", {}), all = newer(d, "vel_", {"vel_body_frame.txt"}); vector<string> vel; for (auto& n : all) if (n.rfind("vel_body", 0) != 0) vel.push_back(n);
  check((int)pose.size() == clears && (int)vel.size() == clears && (int)body.size() == clears, "every clear starts a new set of files"); if ((int)pose.size() != clears || (int)vel.size() != clears || (int)body.size() != clears) return;
  compare(d + pose.back(), d + vel.back(), d + body.back(), b2, false, "log after the clear"); if (clears == 2) check(readLog(d + pose[0]).empty() && readLog(d + vel[0]).empty() && readLog(d + body[0]).empty(), "nothing is written to the files of a run without steps");
}
// configured names
SX_HARNESS(c30_names) {
  const char* in[6] = {"a.txt", "b.csv", "c", "run.d/e.txt", "run.d/f", "g.h.txt"}; const char* out[6] = {"a", "b", "c", "run.d/e", "run.d/f", "g.h"}; int i = choose("pose", 6), j = choose("vel", 6); if (i == j) return; string d = fresh(""); EstConf c; c.est.flag("logger", "enable_pose_logger", true).put("logger", "pose_log_file", d + in[i]).put("logger", "vel_log_file", d + in[j]);
  { sx::Coop coop(0); Est E(c, ErrorType::RightInvariant, kNone); } check(isFile(d + out[i] + ".txt"), "the pose log has the configured name"); check(isFile(d + out[j] + ".txt"), "the velocity log has the configured name"); check(isFile(d + out[j] + "_body_frame.txt"), "the body velocity log has the configured name");
}
// without logging nothing is written, no thread is started and the estimator can be cleared and destroyed
SX_HARNESS(c30_off) {
  sx::Coop coop(1); string d = fresh(""); if (choose("default_constructor", 2)) { InekfEstimator e; check(!e.is_enabled(), "a new estimator is not enabled"); return; }
  EstConf c; c.est.put("logger", "pose_log_file", d + "x.txt").put("logger", "vel_log_file", d + "y.txt"); Book b(10); Run r; r.E = make_shared<Est>(c, ErrorType::LeftInvariant, kNone); r.b = &b; r.init(double(5)); r.step(); if (choose("clear", 2)) { r.E->e->clear(); r.init(double(6)); r.step(); } r.E.reset(); check(newer(d, "x", {}).empty() && newer(d, "y", {}).empty(), "no log file when logging is disabled");
}
// a long run before the logger gets to write anything
SX_HARNESS(c30_long) {
  sx::Coop coop(0); double rate(10); string d = fresh(""); EstConf c = conf(d, false, rate); Book b(rate); Est E(c, ErrorType::RightInvariant, kNone); V3 z(0, 0, 0); E.iq->push(imu(double(5), z, z)); E.e->InitState(); int n = 130, at = choose("drained", 3) * 60; shared_ptr<Est> own;
  for (int i = 0; i < n; i++) { if (i && i == at) sx::coop_run(); RobotState x = E.e->get_state(); x.set_position(V3(double(i), double(1), double(-i))); x.set_velocity(V3(double(2), double(i), double(3))); E.e->set_state(x); E.iq->push(imu(double(5) + double(0.125) * double(i + 1), z, z)); E.e->RunOnce(); b.add(E.e->get_state()); }
  sx::coop_run(); E.e.reset(); sx::coop_check(); compare(d + "pose.txt", d + "vel.txt", d + "vel_body_frame.txt", b, false, "long log");
}
