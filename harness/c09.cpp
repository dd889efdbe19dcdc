// @bound 0..3 queued measurements (thorough: 4) with arbitrary distinct or equal time stamps in [8,12] in any order, propagation time in [9,11], threshold in [0,1]; two consecutive calls; one backlog of 130 (120 stale in front of timely ones)
// @bound one-dimensional information: zero prior covariance except the velocity block, so that an applied measurement moves the velocity
// @shards c09_order 6
#include "corr.h"
SX_HARNESS(c09_order) {
  int k = choose("queued", thorough() ? 5 : 4); bool dflt = choose("default_threshold", 2); double T = sym("T", 9, 11, 0, 2e9), thr = dflt ? double(0.3) : sym("threshold", 0, 1);
  Yaml y; if (!dflt) y.put("settings", "correction_time_threshold", thr); y.put("noises", "velocity_std", double(1)); VelC f(y, etOf(choose("error", 2)));
  vector<VelP> all; vector<double> t; vector<V3> m; for (int i = 0; i < k; i++) { t.push_back(sym("t" + std::to_string(i), 8, 12, 0, 2e9)); m.push_back(V3(double(i + 1), double(0), double(-i - 1))); all.push_back(vel(t[i], m[i])); f.q->push(all[i]); }
  MX P = MX::Zero(15, 15); P.block(3, 3, 3, 3) = I3(); MX X = MX::Identity(5, 5); VX th = vecn("th", 6); RobotState s = stateOf(X, th, P, true, 0); double st = sym("state_time", 0, 20); s.set_time(st); s.set_propagate_time(T);
  int head = 0;
  for (int call = 0; call < 2; call++) {
    s.set_X(X); s.set_P(P); s.set_time(st);
    int used = -1; while (head < k) { if (t[head] >= T) break; if (t[head] < T - thr) { head++; continue; } used = head++; break; }
    bool ok = f.c->Correct(s);
    check(ok == (used >= 0), "success is reported exactly when a measurement was applied");
    check((int)f.q->size() == k - head, "exactly the stale and the applied measurements leave the queue");
    if ((int)f.q->size() == k - head) { VelocityQueue rest = *f.q; for (int i = head; i < k; i++) { check(rest.front() == all[i], "the remaining measurements keep their order"); rest.pop(); } }
    if (used >= 0) { MX Y = X; V3 v = m[used] * double(0.5); Y.block(0, 3, 3, 1) = v; meq(s.get_X(), Y, "the oldest timely measurement is the one applied"); check_eq(s.get_time(), t[used], "the state carries the time of the measurement applied"); }
    else { meq(s.get_X(), X, "without a timely measurement the mean is unchanged"); meq(s.get_P(), P, "without a timely measurement the covariance is unchanged"); meq(s.get_theta(), th, "without a timely measurement the biases are unchanged"); check_eq(s.get_time(), st, "without a timely measurement the time is unchanged"); }
    check_eq(s.get_propagate_time(), T, "a correction keeps the propagation time");
  }
}
// a long backlog: whatever is stale leaves, the oldest timely one is used, the rest waits
SX_HARNESS(c09_backlog) {
  ErrorType et = etOf(choose("error", 2)); int stale = choose("stale", 3) * 60, n = stale + 10; double thr(0.3), T(100); Yaml y; y.put("noises", "velocity_std", double(1)); VelC f(y, et); double m0 = sym("m0"), a = sym("age", 0.01, 0.29, 0.001, 0.299), s0 = sym("over", 0.01, 50, 0.001, 99);
  vector<VelP> all; vector<double> t; for (int i = 0; i < n; i++) { double ti = i < stale ? T - thr - s0 : i < stale + 5 ? T - a : T + double(i); t.push_back(ti); all.push_back(vel(ti, V3(m0 + double(i), double(1), double(-i)))); f.q->push(all[i]); }
  MX P = MX::Zero(15, 15); P.block(3, 3, 3, 3) = I3(); MX X = MX::Identity(5, 5); RobotState s = stateOf(X, VX(VX::Zero(6)), P, true, 0); s.set_propagate_time(T);
  for (int call = 0; call < 7; call++) {
    s.set_X(X); s.set_P(P); bool ok = f.c->Correct(s); int used = stale + call; bool any = call < 5; check(ok == any, "success is reported exactly when a measurement was applied"); check((int)f.q->size() == n - stale - (any ? call + 1 : 5), "exactly the stale and the applied measurements leave the queue"); if (ok != any) return;
    if (any) { V3 v = V3(m0 + double(used), double(1), double(-used)) * double(0.5); meq(s.get_velocity(), v, "the oldest timely measurement is the one applied"); check_eq(s.get_time(), t[used], "the state carries the time of the measurement applied"); }
  }
}
