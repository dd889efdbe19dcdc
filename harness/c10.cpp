// @bound 0..3 queued measurements (thorough: 4) with arbitrary time stamps in [8,12] in any order, propagation time in [9,11], threshold in [0,1]; two consecutive calls; one leg, whose contact flag alternates or stays set; one backlog of 130 (120 stale in front of timely ones)
// @bound whether a measurement newer than T + threshold stays queued is left open
// @shards c10_order 6
#include "corr.h"
SX_HARNESS(c10_order) {
  int k = choose("queued", thorough() ? 5 : 4); bool dflt = choose("default_threshold", 2), tracked = choose("tracked", 2); double T = sym("T", 9, 11, 0, 2e9), thr = dflt ? double(0.3) : sym("threshold", 0, 1);
  Yaml y; if (!dflt) y.put("settings", "correction_time_threshold", thr); LegC f(y, etOf(choose("error", 2)));
  MX J = MX::Zero(3, 3); RobotState s = stateOf(MX::Identity(5, 5), VX::Zero(6), eyen(15) * double(0), true, 0);
  V3 foot(1, 2, 3); if (tracked) { s.set_propagate_time(9); f.q->push(legs(double(9), foot, J, {1})); check(f.c->Correct(s), "a timely legged measurement is applied"); }
  // an applied measurement inserts its own position (no contact before) or removes the contact (contact before)
  vector<FakeP> all; vector<double> t; for (int i = 0; i < k; i++) { t.push_back(sym("t" + std::to_string(i), 8, 12, 0, 2e9)); all.push_back(legs(t[i], V3(double(i + 4), double(0), double(0)), J, {tracked ? 0 : 1})); f.q->push(all[i]); }
  double st = sym("state_time", 0, 20); s.set_propagate_time(T); int head = 0;
  for (int call = 0; call < 2; call++) {
    if (call) { if (s.dimX() != (tracked ? 6 : 5)) return; }   // an applied measurement changed the contact set; single step is enough
    s.set_time(st); MX X = s.get_X(), P = s.get_P(), Q = s.get_continuous_noise_covariance();
    int used = -1; bool future = false; while (head < k) { if (t[head] < T - thr) { head++; continue; } if (t[head] > T + thr) { future = true; break; } used = head++; break; }
    int before = f.q->size(); bool ok = f.c->Correct(s);
    check(ok == (used >= 0), "success is reported exactly when a measurement was applied");
    int left = f.q->size(); check(left == k - head || (future && left == k - head - 1), "exactly the stale and the applied measurements leave the queue"); if (future && left == k - head - 1) head++;
    if (left == k - head) { LeggedKinQueue rest = *f.q; for (int i = head; i < k; i++) { check(rest.front() == all[i], "the remaining measurements keep their order"); rest.pop(); } }
    if (used >= 0) {
      check_eq(s.get_time(), t[used], "the state carries the time of the measurement applied");
      if (tracked) check(s.dimX() == 5, "the first timely measurement is applied (contact removed)");
      else { check(s.dimX() == 6, "the first timely measurement is applied (contact added)"); if (s.dimX() == 6) { V3 d = s.get_aug_state(5); meq(d, V3(double(used + 4), double(0), double(0)), "the oldest timely measurement is the one applied"); } }
    } else {
      meq(s.get_X(), X, "without a timely measurement the mean is unchanged"); meq(s.get_P(), P, "without a timely measurement the covariance is unchanged"); meq(s.get_continuous_noise_covariance(), Q, "without a timely measurement the process noise is unchanged"); check_eq(s.get_time(), st, "without a timely measurement the time is unchanged");
      // the tracked contacts are untouched: a following timely measurement behaves as before
      if (call == 1 || !ok) { RobotState z = s; LegC* g = &f; while (!g->q->empty()) g->q->pop(); g->q->push(legs(T, V3(double(50), double(0), double(0)), J, {tracked ? 0 : 1})); check(g->c->Correct(z), "a timely legged measurement is applied"); check(z.dimX() == (tracked ? 5 : 6), "a skipped measurement leaves the tracked contacts alone"); return; }
    }
    check_eq(s.get_propagate_time(), T, "a correction keeps the propagation time");
  }
}
// a long backlog: whatever is stale leaves, the oldest timely one is used, the rest waits
SX_HARNESS(c10_backlog) {
  ErrorType et = etOf(choose("error", 2)); int stale = choose("stale", 3) * 60, n = stale + 5; double T(100), thr(0.3); Yaml y; LegC f(y, et); MX J = MX::Zero(3, 3); double a = sym("age", 0.01, 0.29, 0.001, 0.299), s0 = sym("over", 0.01, 50, 0.001, 99);
  RobotState s = stateOf(MX::Identity(5, 5), VX(VX::Zero(6)), eyen(15) * double(0), true, 0); s.set_propagate_time(T); vector<FakeP> all; vector<double> t; for (int i = 0; i < n; i++) { t.push_back(i < stale ? T - thr - s0 : T - a); all.push_back(legs(t[i], V3(double(i + 4), double(0), double(0)), J, {(i - stale) % 2 == 0})); f.q->push(all[i]); }
  for (int call = 0; call < 6; call++) {
    bool ok = f.c->Correct(s), any = call < 5; int used = stale + call; check(ok == any, "success is reported exactly when a measurement was applied"); check((int)f.q->size() == (any ? 4 - call : 0), "exactly the stale and the applied measurements leave the queue"); if (!any || !ok) return;
    check_eq(s.get_time(), t[used], "the state carries the time of the measurement applied"); bool on = call % 2 == 0; check(s.dimX() == (on ? 6 : 5), "the oldest timely measurement is the one applied"); if (on && s.dimX() == 6) { V3 d = s.get_aug_state(5); meq(d, V3(double(used + 4), double(0), double(0)), "the oldest timely measurement is the one applied"); }
  }
}
