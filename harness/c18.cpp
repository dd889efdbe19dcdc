// @bound up to 2 queued measurements per sensor with arbitrary time stamps in [8,12] (any order, ties included), propagation time in [9,11] or no propagation yet or random walk, threshold in [0,1] or the default; 3 fusion steps (thorough: 4); one run with a backlog of 130 per sensor
// @bound sensor values are concrete and distinct (the time stamps decide the order of consumption)
// @shards c18_combined 6
#include "gy.h"
struct Set { double T, thr; bool gyro, prop; Yaml y; };
static Set setup(int method) {
  Set s; s.gyro = choose("gyro", 2); s.prop = s.gyro && choose("propagated", 2); bool d = choose("default_threshold", 2); s.T = sym("T", 9, 11, 0, 2e9); s.thr = d ? double(0.03) : sym("threshold", 0, 1);
  if (!d) s.y.put("settings", "t_threshold", s.thr);
  return s;
}
static V3 accOf(int i) { return V3(double(i + 1), double(2 * i + 1), double(-i)); }
static ImuP im(const double& t, int i) { return imu(t, V3(double(0.1 * (i + 1)), double(0.2), double(0.3 * i)), accOf(i)); }
static void start(Gy& g, const Set& s) { g.f->RunOnce(); check(g.out->empty(), "initialisation emits nothing"); if (s.prop) { g.gq->push(imu(s.T, V3(double(0), double(0), double(0.5)), V3(double(7), double(7), double(7)))); g.f->RunOnce(); check(g.out->empty(), "a propagation alone emits nothing"); check(g.gq->empty(), "the propagation sample is consumed"); } }
static bool stale(const Set& s, const double& t) { return s.prop && s.T - t > s.thr; }
template <class Q> static void rest(Q q, const vector<typename Q::element_type::value_type>& all, int head, const string& what) { int n = all.size() - head; check((int)q->size() == n, what + ": exactly the consumed measurements leave the queue"); if ((int)q->size() != n) { sx::stop("queue differs"); } typename Q::element_type c = *q; for (size_t i = head; i < all.size(); i++) { check(c.front() == all[i], what + ": the remaining measurements keep their order"); c.pop(); } }
static void expect(Gy& g, bool any, const double& t, const V3& acc) {
  check((int)g.out->size() == (any ? 1 : 0), any ? "an update emits one message" : "no message without an update"); if ((int)g.out->size() != (any ? 1 : 0)) sx::stop("output differs");
  if (any) { ImuP m = g.take(); check_eq(m->get_time(), t, "the message carries the time of the measurement consumed"); meq(m->get_lin_acc(), acc, "the message is based on the latest IMU message"); }
}
SX_HARNESS(c18_combined) {
  Set s = setup(0); Gy g(s.y, s.gyro, 1, true, !s.gyro && choose("queue_ctor", 2)); start(g, s);
  int ni = choose("imus", 3), na = choose("rates", 3); vector<ImuP> I; vector<AngP> A; vector<double> ti, ta;
  for (int i = 0; i < ni; i++) { ti.push_back(sym("ti" + std::to_string(i), 8, 12, 0, 2e9)); I.push_back(im(ti[i], i)); g.iq[0]->push(I[i]); }
  for (int i = 0; i < na; i++) { ta.push_back(sym("ta" + std::to_string(i), 8, 12, 0, 2e9)); A.push_back(ang(ta[i], V3(double(0.4), double(i), double(0.6)))); g.aq->push(A[i]); }
  int hi = 0, ha = 0, latest = -1;
  for (int k = 0; k < (thorough() ? 5 : 3); k++) {
    bool haveI = hi < ni, haveA = ha < na, any = false; double t(0); if (haveI && haveA) { if (ti[hi] <= ta[ha]) haveA = false; else haveI = false; }
    g.f->RunOnce();
    if (haveI) { latest = hi; t = ti[hi]; any = !stale(s, t); hi++; } else if (haveA) { t = ta[ha]; any = latest >= 0 && !stale(s, t); ha++; }
    rest(g.iq[0], I, hi, "IMU queue"); rest(g.aq, A, ha, "body-rate queue"); expect(g, any, t, latest < 0 ? V3(V3::Zero()) : accOf(latest));
  }
}
SX_HARNESS(c18_single) {
  Set s = setup(1); bool five = !s.gyro && choose("queue_ctor", 2); if (five) s.y.num("settings", "correction_method", 1); Gy g(s.y, s.gyro, 1, false, five); start(g, s);
  int ni = choose("imus", 4); vector<ImuP> I; vector<double> ti; for (int i = 0; i < ni; i++) { ti.push_back(sym("ti" + std::to_string(i), 8, 12, 0, 2e9)); I.push_back(im(ti[i], i)); g.iq[0]->push(I[i]); }
  int h = 0;
  for (int k = 0; k < (thorough() ? 4 : 3); k++) {
    g.f->RunOnce(); bool any = false; double t(0); int used = h;
    if (h < ni && (!s.gyro || (s.prop && ti[h] <= s.T))) { t = ti[h]; any = !stale(s, t); h++; }
    rest(g.iq[0], I, h, "IMU queue"); expect(g, any, t, accOf(used));
  }
}
SX_HARNESS(c18_multi) {
  Set s = setup(2); int n = 2 + choose("more", 2); Gy g(s.y, s.gyro, n, false); start(g, s);
  vector<vector<ImuP>> I(n); vector<vector<double>> t(n); for (int j = 0; j < n; j++) { int c = choose("count" + std::to_string(j), j ? 2 : 3); for (int i = 0; i < c; i++) { t[j].push_back(sym("t" + std::to_string(j) + "_" + std::to_string(i), 8, 12, 0, 2e9)); I[j].push_back(im(t[j][i], 3 * j + i)); g.iq[j]->push(I[j][i]); } }
  for (int k = 0; k < 2; k++) {
    g.f->RunOnce(); vector<std::pair<double, int>> want; for (int j = 0; j < n; j++) { int c = I[j].size(); if (k < c) { if (!stale(s, t[j][k])) want.push_back({t[j][k], 3 * j + k}); } rest(g.iq[j], I[j], k < c ? k + 1 : c, "IMU queue"); }
    check(g.out->size() == want.size(), "each timely measurement emits one message, a stale one none"); if (g.out->size() != want.size()) return;
    for (auto& w : want) { ImuP m = g.take(); check_eq(m->get_time(), w.first, "the message carries the time of the measurement consumed"); meq(m->get_lin_acc(), accOf(w.second), "the message is based on the IMU measurement consumed"); }
  }
}
SX_HARNESS(c18_rate) {
  bool gyro = choose("gyro", 2); Yaml y; if (!gyro && choose("queue_ctor", 2)) { }
  Gy g(y, gyro, 0, true); g.f->RunOnce(); check(g.out->empty(), "initialisation emits nothing");
  int ng = gyro ? choose("gyros", 3) : 0, na = choose("rates", 3); vector<ImuP> G; vector<AngP> A; vector<double> ta;
  for (int i = 0; i < ng; i++) { G.push_back(im(sym("tg" + std::to_string(i), 8, 12, 0, 2e9), i)); g.gq->push(G[i]); }
  for (int i = 0; i < na; i++) { ta.push_back(sym("ta" + std::to_string(i), 8, 12, 0, 2e9)); A.push_back(ang(ta[i], V3(double(0.4), double(i), double(0.6)))); g.aq->push(A[i]); }
  int late = gyro ? choose("sample_arrives_late", 2) : 0;   // without an inertial message yet, body rates are dropped
  int latest = -1, hg = 0; if (late) { while (!g.gq->empty()) g.gq->pop(); hg = ng; }
  int ha = 0; for (int k = 0; k < 3; k++) {
    if (late && k == 1) { G.push_back(im(double(10), 5)); g.gq->push(G.back()); ng++; }
    g.f->RunOnce(); if (hg < ng) { latest = hg == (int)G.size() - 1 && late ? 5 : hg; hg++; } bool any = false; double t(0); if (ha < na) { t = ta[ha]; any = latest >= 0; ha++; }
    rest(g.gq, G, hg, "gyro queue"); rest(g.aq, A, ha, "body-rate queue"); expect(g, any, t, latest < 0 ? V3(V3::Zero()) : accOf(latest));
  }
}
// long backlogs: every measurement is used once, in order, and every message waits for its consumer
SX_HARNESS(c18_backlog) {
  bool gyro = choose("gyro", 2); int mode = choose("mode", 3); Yaml y; Gy g(y, gyro, mode == 1 ? 2 : 1, mode == 0); g.f->RunOnce(); int N = 130; double lag = sym("lag", 0.0001, 0.02, 0, 0.03); vector<vector<ImuP>> I(mode == 1 ? 2 : 1);
  double t0(1700000000.0); if (gyro) for (int i = 0; i < (mode == 0 ? 2 * N : N); i++) g.gq->push(imu(t0 + double(i) * double(mode == 0 ? 0.5 : 1), V3(0, 0, 0), V3(0, 0, 9.8)));
  for (int i = 0; i < N; i++) { for (auto& q : I) { q.push_back(imu(t0 - lag + double(i), V3(0, 0, double(0.01)), accOf(i))); g.iq[&q - &I[0]]->push(q.back()); } if (mode == 0) g.aq->push(ang(t0 - lag + double(i) + double(0.5), V3(0, 0, double(0.01)))); }
  int per = mode == 2 ? 1 : 2, steps = mode == 0 ? 2 * N : N; for (int k = 0; k < steps; k++) { g.f->RunOnce(); check((int)g.out->size() == (mode == 1 ? 2 * (k + 1) : k + 1), "each measurement emits one message, however many wait"); if ((int)g.out->size() != (mode == 1 ? 2 * (k + 1) : k + 1)) return; }
  check(g.iq[0]->empty() && g.aq->empty(), "every measurement is consumed"); int i = 0; while (!g.out->empty()) { ImuP m = g.take(); int j = i / per; double t = t0 - lag + double(j); if (mode == 0 && i % 2) t = t + double(0.5); check_eq(m->get_time(), t, "the message carries the time of the measurement consumed"); meq(m->get_lin_acc(), accOf(j), "the message is based on the latest IMU message"); i++; }
}
