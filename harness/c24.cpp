// @bound 0..2 queued measurements with arbitrary time stamps in [8,12] and one arrival (thorough: two) at any of the first 10 lock operations of the call; gyro filter: also a concurrent clear followed by an arrival
// @bound estimator: run steps, initialisation and clear with producers acting between the lock operations, and the logger thread
// @assume a lock operation is the only point where another thread's action becomes visible (everything else is covered by the lock discipline being checked)
// @bound gyro filter thread (alone and inside an estimator): up to 4 measurements over all sensors, then shutdown; interleaved at lock operations with one (thorough: two) free preemptions plus every forced switch; arbitrary rates and accelerations
// @shards c24_velocity 2
// @shards c24_gyro 6
// @shards c24_filter_thread 3
// @shards c24_filtered_estimator 2
#include "est.h"
#include "gy.h"
static const char* kOps = "op";
// arrivals at chosen lock operations (an arrival waits while the lock of its queue is held)
struct Arrivals {
  struct A { int at; Mut m; std::function<void()> f; bool done = false; }; vector<A> a; int op = 0;
  void add(const string& name, Mut m, std::function<void()> f, int ops = 10) { A x; x.at = choose(name + kOps, ops); x.m = m; x.f = f; a.push_back(x); }
  void start() { sx::set_env([this] { int o = op++; for (auto& x : a) if (!x.done && o >= x.at && !x.m->held) { x.done = true; x.f(); } }); }
  void stop() { sx::set_env(nullptr); for (auto& x : a) if (!x.done) { x.done = true; x.f(); } }
};
template <class Q> static int suffix(const Q& q, const vector<typename Q::element_type::value_type>& all, const string& what) {
  int n = q->size(), h = (int)all.size() - n; check(h >= 0, what + ": no measurement is duplicated"); if (h < 0) sx::stop("duplicate"); typename Q::element_type c = *q;
  for (int i = h; i < (int)all.size(); i++) { check(c.front() == all[i], what + ": exactly a prefix of the measurements is consumed, in order"); c.pop(); } return h;
}
static void released(const string& what) { check(sx::locks_held() == 0, what + ": every lock is released"); }
template <class C> static void correctionOps(C& f, const string& what, const std::function<typename decltype(f.q)::element_type::value_type(const double&, int)>& make, RobotState s, bool velocity) {
  typedef typename decltype(f.q)::element_type::value_type Ptr; double T = sym("T", 9, 11, 0, 2e9), thr = sym("threshold", 0, 1); (void)thr; s.set_propagate_time(T); s.set_time(T);
  int n = choose("queued", 3), late = thorough() ? 2 : 1; vector<double> t; vector<Ptr> all, pend; for (int i = 0; i < n + late; i++) { t.push_back(sym("t" + std::to_string(i), 8, 12, 0, 2e9)); pend.push_back(make(t[i], i)); } for (int i = 0; i < n; i++) { all.push_back(pend[i]); f.q->push(pend[i]); }
  int op = choose("operation", 3); Arrivals ar; for (int i = 0; i < late; i++) { Ptr m = pend[n + i]; ar.add("a" + std::to_string(i), f.m, [&f, &all, m] { all.push_back(m); f.q->push(m); }); }
  sx::guard(f.q.get(), f.m.get()); bool ok = false; { sx::Concurrent c; ar.start(); if (op == 0) ok = f.c->Correct(s); else if (op == 1) ok = f.c->initialize(s); else f.c->clear(); { sx::Quiet q; ar.stop(); } }
  released(what); int h = suffix(f.q, all, what); auto timeOf = [&](int i) { for (size_t j = 0; j < pend.size(); j++) if (pend[j] == all[i]) return t[j]; return double(0); };
  if (op == 0) {
    for (int i = 0; i < h - (ok ? 1 : 0); i++) { double ti = timeOf(i); check(ti < T - thr || (!velocity && ti > T + thr), what + ": a measurement dropped unused is too old"); }
    if (ok) { check(h > 0, what + ": an applied measurement was consumed"); if (h) check_eq(s.get_time(), timeOf(h - 1), what + ": the measurement applied is the last one consumed"); }
    else { bool usable = true; int i = h; if (i < n) { double ti = timeOf(i); if (ti < T - thr || ti > T || (velocity && ti == T) || (h > 0 && timeOf(h - 1) > T + thr)) usable = false; check(!usable, what + ": a usable queued measurement is applied"); } }
  } else if (op == 1) { check(ok == (h > 0), what + ": initialisation succeeds exactly when it consumed a measurement"); check(ok || n == 0, what + ": initialisation uses queued data"); if (ok) check_eq(s.get_time(), timeOf(h - 1), what + ": initialisation uses the newest measurement"); }
  else check(h >= n, what + ": clear drops what was queued");
}
SX_HARNESS(c24_velocity) {
  Yaml y; double thr = sym("threshold", 0, 1); y.put("settings", "correction_time_threshold", thr); VelC f(y, ErrorType::RightInvariant); RobotState s = stateOf(MX::Identity(5, 5), VX::Zero(6), eyen(15), true, 10);
  correctionOps(f, "velocity correction", [](const double& t, int i) { return vel(t, V3(double(i), double(2), double(3))); }, s, true);
}
SX_HARNESS(c24_legged) {
  Yaml y; double thr = sym("threshold", 0, 1); y.put("settings", "correction_time_threshold", thr); LegC f(y, ErrorType::RightInvariant); RobotState s = stateOf(MX::Identity(5, 5), VX::Zero(6), eyen(15), true, 10);
  correctionOps(f, "legged correction", [](const double& t, int i) -> LeggedKinMeasurementPtr { return legs(t, V3(double(i), double(1), double(2)), MX::Zero(3, 3), {1}); }, s, false);
}
SX_HARNESS(c24_imu) {
  int op = choose("operation", 4), n = choose("queued", 3), late = thorough() ? 2 : 1; Yaml y; y.flag("settings", "static_bias_initialization", true).num("settings", "init_bias_size", 2); Prop p(y, ErrorType::RightInvariant); RobotState s = stateOf(MX::Identity(5, 5), VX::Zero(6), eyen(15), false, 10);
  if (op == 0) { p.q->push(imu(10, V3(0, 0, 0), V3(0, 0, 9.8))); check(p.p->set_initial_state(s), "set_initial_state accepts a queued sample"); }
  vector<ImuP> all; vector<double> t; for (int i = 0; i < n + late; i++) t.push_back(sym("t" + std::to_string(i), 10, 12)); auto mk = [&](int i) { return imu(t[i], V3(0, 0, double(0.01 * i)), V3(0, 0, 9.8)); }; for (int i = 0; i < n; i++) { all.push_back(mk(i)); p.q->push(all[i]); }
  Arrivals ar; for (int i = 0; i < late; i++) { ImuP m = mk(n + i); ar.add("a" + std::to_string(i), p.m, [&p, &all, m] { all.push_back(m); p.q->push(m); }); }
  sx::guard(p.q.get(), p.m.get()); bool ok = false; { sx::Concurrent c; ar.start(); if (op == 0) ok = p.p->Propagate(s); else if (op == 1) ok = p.p->set_initial_state(s); else if (op == 2) p.p->InitImuBias(); else p.p->clear(); { sx::Quiet q; ar.stop(); } }
  string what = "inertial propagation"; released(what); int h = suffix(p.q, all, what);
  if (op < 2) { check(h == (ok ? 1 : 0), what + ": exactly the sample used is consumed"); check(ok || n == 0, what + ": queued data is used"); } else if (op == 2) check(h <= 1 && (h == 1 || n == 0), what + ": bias initialisation uses one sample per call"); else check(h >= n, what + ": clear drops what was queued");
  if (op == 1 && ok) check_eq(s.get_time(), t[0], what + ": the state starts at the sample consumed");
}
// the gyro filter: producers and a clear between its lock operations
SX_HARNESS(c24_gyro) {
  bool gyro = choose("gyro", 2); int mode = choose("mode", 4); if (mode == 3 && !gyro) return; int imus = mode == 1 ? 2 : mode == 3 ? 0 : 1; bool rate = mode == 0 || mode == 3; Yaml y; y.flag("settings", "static_bias_initialization", false); Gy g(y, gyro, imus, rate); g.f->RunOnce();
  int op = choose("operation", 3);   // run, clear, run with a concurrent clear
  if (gyro) { g.gq->push(imu(10, V3(0, 0, 0), V3(0, 0, 9.8))); g.f->RunOnce(); }
  double ti = sym("ti", 9.99, 10), ta = sym("ta", 9.99, 10), tb = sym("tb", 9.99, 10), tg = sym("tg", 10, 10.01); vector<vector<ImuP>> I(imus); vector<AngP> A; vector<ImuP> G; V3 o(0, 0, 0); bool have = choose("queued", 2);
  if (have) { for (int i = 0; i < imus; i++) { I[i].push_back(imu(ti, o, V3(1, 1, 1))); g.iq[i]->push(I[i][0]); } if (rate) { A.push_back(ang(ta, o)); g.aq->push(A[0]); } if (gyro) { G.push_back(imu(double(10), o, V3(9, 9, 9))); g.gq->push(G[0]); } }
  int who = choose("arrival", 3); Arrivals ar; Mut none = mut(); ImuP ni = imu(tb, o, V3(2, 2, 2)); AngP na = ang(tb, o); ImuP ng = imu(tg, o, V3(3, 3, 3)); int cleared = 0;
  if (op == 2) ar.add("clear", none, [&] { if (sx::locks_held()) sx::stop("a clear waits here"); g.f->clear(); cleared = 1; for (auto& v : I) v.clear(); A.clear(); G.clear(); });
  if (who == 0 && imus) { int i = imus - 1; ar.add("a", g.im[i], [&, i] { I[i].push_back(ni); g.iq[i]->push(ni); }); }
  if (who == 1 && rate) ar.add("a", g.am, [&] { A.push_back(na); g.aq->push(na); });
  if (who == 2 && gyro) ar.add("a", g.gm, [&] { G.push_back(ng); g.gq->push(ng); });
  for (int i = 0; i < imus; i++) sx::guard(g.iq[i].get(), g.im[i].get()); sx::guard(g.aq.get(), g.am.get()); sx::guard(g.gq.get(), g.gm.get()); sx::guard(g.out.get(), g.om.get());
  { sx::Concurrent c; ar.start(); if (op == 1) g.f->clear(); else g.f->RunOnce(); { sx::Quiet q; ar.stop(); } }
  string what = "gyro filter"; released(what); int used = 0, usedI = 0, usedA = 0; for (int i = 0; i < imus; i++) { usedI += suffix(g.iq[i], I[i], what); } if (rate) usedA = suffix(g.aq, A, what); used = usedI + usedA; int hg = gyro ? suffix(g.gq, G, what) : 0; int out = g.out->size();
  if (op == 0) { check(hg <= 1, what + ": one propagation sample per step"); check(used <= (mode == 1 ? 2 : 1), what + ": one measurement per step and sensor"); if (mode != 0) check(out == used, what + ": every measurement used yields one message"); else check(out == used || (out == 0 && usedA == 1), what + ": every measurement used yields one message"); if (have) check(used == (mode == 1 ? 2 : 1), what + ": queued data is used"); }
  if (op == 2) { check(used <= out || (mode == 0 && usedA == 1), what + ": a measurement that arrives after a concurrent clear is not lost"); }
}
SX_HARNESS(c24_estimator) {
  int kind = choose("corrections", 5), op = choose("operation", 4), n = choose("queued", 2); bool log = choose("logger", 2); EstConf c; if (log) { c.est.flag("logger", "enable_pose_logger", true).put("logger", "pose_log_file", sx::tmpdir() + "/p.txt").put("logger", "vel_log_file", sx::tmpdir() + "/v.txt"); }
  c.prop.num("settings", "init_bias_size", 2); Est E(c, ErrorType::RightInvariant, kind); std::function<void()> logger = std::thread::last(); auto oq = E.e->get_robot_state_queue_ptr(); auto om = E.e->get_robot_state_queue_mutex_ptr();
  double t0 = sym("t0", 9, 10), t1 = sym("t1", 10, 10.2), t2 = sym("t2", 9.35, 9.49); V3 o(0, 0, 0), up(0, 0, 9.8);
  auto V = [&](const double& t) { return vel(t, V3(1, 0, 0)); }; auto L = [&](const double& t) -> LeggedKinMeasurementPtr { return legs(t, V3(1, 1, 1), MX::Zero(3, 3), {1}); };
  vector<ImuP> iq; vector<VelP> vq; vector<LeggedKinMeasurementPtr> lq; auto pi = [&](const double& t) { iq.push_back(imu(t, o, up)); E.iq->push(iq.back()); }; auto pv = [&](const double& t) { vq.push_back(V(t)); E.vq->push(vq.back()); }; auto pl = [&](const double& t) { lq.push_back(L(t)); E.lq->push(lq.back()); };
  sx::guard(E.iq.get(), E.im.get()); sx::guard(E.vq.get(), E.vm.get()); sx::guard(E.lq.get(), E.lm.get()); sx::guard(oq.get(), om.get());
  if (op == 0) { pi(9.5); if (E.hasVel()) pv(9.5); if (E.hasLeg()) pl(9.5); E.e->InitState(); iq.clear(); vq.clear(); lq.clear(); pi(9.6); E.e->RunOnce(); iq.clear(); while (!oq->empty()) oq->pop(); }
  if (n) { pi(t1); if (E.hasVel()) pv(t2); if (E.hasLeg()) pl(t2); }
  int before = oq->size(); Arrivals ar; int who = op == 1 ? 3 : choose("arrival", 3), K = 8;
  if (who == 0 || who == 3) ar.add("ai", E.im, [&] { pi(t1 + double(0.1)); }, who == 3 ? 3 : K); if ((who == 1 || who == 3) && E.hasVel()) ar.add("av", E.vm, [&] { pv(t2); }, who == 3 ? 5 : K); if ((who == 2 || who == 3) && E.hasLeg()) ar.add("al", E.lm, [&] { pl(t2); }, who == 3 ? 5 : K);
  { sx::Concurrent cc; ar.start(); if (op == 0) E.e->RunOnce(); else if (op == 1) E.e->InitState(); else if (op == 2) E.e->clear(); else E.e->InitBias(); { sx::Quiet q; ar.stop(); }
    if (log) { sx::set_lock_budget(8); sx::ThreadScope ts(1); try { logger(); } catch (sx::Stop&) {} sx::set_lock_budget(-1); } 
    if (log && op == 2) { sx::Quiet q; } }
  string what = "estimator"; check(sx::locks_held() == 0, what + ": every lock is released"); int hi = suffix(E.iq, iq, what), hv = suffix(E.vq, vq, what), hl = suffix(E.lq, lq, what), pub = (int)oq->size() - before;
  if (op == 0) { check(hi <= 1 && hv <= 1 && hl <= 1, what + ": one measurement per sensor and step"); check(pub == (hi + hv + hl > 0 ? 1 : 0), what + ": one state is published per step that used data"); if (n) check(hi == 1 && (!E.hasVel() || hv == 1) && (!E.hasLeg() || hl == 1), what + ": queued data is used"); }
  if (op == 1) { check(pub == (hi ? 1 : 0), what + ": initialisation publishes once"); check(E.e->is_enabled() == (hi > 0), what + ": initialisation enables the filter"); if (hi) check((!E.hasVel() || hv > 0) && (!E.hasLeg() || hl > 0), what + ": initialisation uses correction data"); }
  if (op == 2) { check(oq->empty(), what + ": clear empties the output"); check(hi >= n && (!E.hasVel() || hv >= n) && (!E.hasLeg() || hl >= n), what + ": clear drops what was queued"); }
  (void)t0;
}
// the gyro filter's own thread against producers and a consumer
SX_HARNESS(c24_filter_thread) {
  sx::Coop coop(thorough() ? 2 : 1); int mode = choose("mode", 3), n = choose("before", 3), m = choose("during", 3); bool gyro = choose("gyro", 2), drain = choose("drain", 2); Yaml y; y.flag("settings", "static_bias_initialization", false); { Gy g(y, gyro, mode == 1 ? 2 : 1, mode == 0); V3 o(0, 0, 0); vector<ImuP> in; vector<AngP> an; string what = "gyro filter thread";
    for (auto& q : g.iq) sx::guard(q.get(), g.im[&q - &g.iq[0]].get()); sx::guard(g.aq.get(), g.am.get()); sx::guard(g.gq.get(), g.gm.get()); sx::guard(g.out.get(), g.om.get()); vector<ImuP> got;
    { sx::Concurrent c; g.f->StartImuFilterThread(); sx::coop_run();
    auto feed = [&](int i) { double t(20 - 0.001 * (10 - i)); int k = i % (int)g.iq.size(); if (gyro && i == 0) { g.gm->lock(); g.gq->push(imu(double(20), o, o)); g.gm->unlock(); } if (mode == 0 && i % 2) { AngP a = ang(t, V3(double(0), double(0), double(i))); an.push_back(a); g.am->lock(); g.aq->push(a); g.am->unlock(); } else { ImuP a = imu(t, vec("w" + std::to_string(i)), vec("a" + std::to_string(i))); in.push_back(a); g.im[k]->lock(); g.iq[k]->push(a); g.im[k]->unlock(); } };
    auto take = [&] { g.om->lock(); while (!g.out->empty()) { got.push_back(g.out->front()); g.out->pop(); } g.om->unlock(); };
    for (int i = 0; i < n; i++) feed(i); if (drain) { sx::coop_run(); take(); } for (int i = 0; i < m; i++) feed(n + i); sx::coop_run(); take(); g.f.reset(); sx::coop_check(); take(); }
    released(what); for (auto& q : g.iq) check(q->empty(), what + ": every measurement is consumed"); if (mode == 0) check(g.aq->empty(), what + ": every body rate is consumed"); if (gyro) check(g.gq->empty(), what + ": every gyro sample is consumed");
    // the outputs are those of the IMU messages once each, in order per sensor, and of body rates once each at most
    size_t ni = 0, na = 0; vector<int> seen(in.size(), 0); double prev(0); for (auto& x : got) { bool isI = false; for (size_t j = 0; j < in.size(); j++) { double a = in[j]->get_time(), b = x->get_time(); if (a == b) { isI = true; seen[j]++; ni++; check(x != in[j], what + ": messages are copies"); meq(MX(x->get_lin_acc()), MX(in[j]->get_lin_acc()), what + ": messages keep the acceleration"); } } if (!isI) { na++; bool known = false; for (auto& q : an) { double a = q->get_time(), b = x->get_time(); if (a == b) known = true; } check(known, what + ": every message has the time of its measurement"); } if (mode != 1 && (mode == 2)) { double t = x->get_time(); check(prev < t, what + ": messages come out in order"); prev = t; } }
    for (int s : seen) check(s == 1, what + ": every IMU message is answered once"); check(na <= an.size(), what + ": a body rate is answered at most once"); if (in.empty()) check(na == 0, what + ": no message without IMU data");
  }
  sx::coop_check(); check(sx::locks_held() == 0, "gyro filter thread: locks are released at the end");
}
// the estimator with a gyro filter: raw samples reach the filter through the filter thread
SX_HARNESS(c24_filtered_estimator) {
  sx::Coop coop(thorough() ? 2 : 1); EstConf c; c.prop.flag("settings", "static_bias_initialization", false); Yaml y; y.flag("settings", "static_bias_initialization", false).flag("settings", "flat_ground", true); int n = 1 + choose("samples", 3); bool clear = choose("clear", 2); string what = "estimator with gyro filter";
  { InekfEstimator e(ErrorType::RightInvariant, c.est.write()); IMUQueuePtr raw = make_shared<IMUQueue>(); Mut rm = mut(); AngularVelocityQueuePtr aq = make_shared<AngularVelocityQueue>(); Mut am = mut(); V3 o(0, 0, 0), up(0, 0, 9.8); auto oq = e.get_robot_state_queue_ptr(); auto om = e.get_robot_state_queue_mutex_ptr(); sx::guard(raw.get(), rm.get()); sx::guard(aq.get(), am.get()); sx::guard(oq.get(), om.get());
    sx::Concurrent cc; auto f = e.add_imu_ang_vel_ekf(raw, rm, aq, am, y.write()); sx::guard(f.first.get(), f.second.get()); e.add_imu_propagation(f.first, f.second, c.prop.write()); sx::coop_run(); auto push = [&](int i) { rm->lock(); raw->push(imu(double(10 + 0.1 * i), o, vec("a" + std::to_string(i)))); rm->unlock(); };
    auto start = [&](int from) { e.InitBias(); e.InitState(); sx::Quiet z; check(!e.is_enabled(), what + ": no sample, no initialisation"); (void)from; }; start(0); push(0); sx::coop_run(); e.InitState(); check(e.is_enabled(), what + ": a raw sample initialises the filter"); if (!e.is_enabled()) sx::stop("not enabled");
    int steps = 0; for (int i = 1; i <= n; i++) { push(i); if (choose("wait" + std::to_string(i), 2)) sx::coop_run(); e.RunOnce(); } sx::coop_run(); for (int i = 0; i <= n; i++) e.RunOnce(); (void)steps;
    { sx::Quiet z; check((int)oq->size() == 1 + n, what + ": every raw sample leads to one propagation"); check(raw->empty() && f.first->empty(), what + ": every sample is consumed"); double t = e.get_state().get_time(); check_eq(t, double(10 + 0.1 * (n - 1)), what + ": inertial samples are used one step late"); }
    if (clear) { push(n + 1); if (choose("late", 2)) sx::coop_run(); e.clear(); { sx::Quiet z; check(oq->empty() && raw->empty(), what + ": clear empties the queues"); check(!e.is_enabled(), what + ": clear disables the filter"); } }
  }
  sx::coop_check(); check(sx::locks_held() == 0, what + ": locks are released at the end");
}
