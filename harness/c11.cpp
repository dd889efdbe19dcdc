// @bound 3 legs (thorough: 4), every contact history of 3 legged corrections (thorough: 4); footholds, robot positions between calls arbitrary in [-1,1] (footholds 4 m apart per leg); attitude identity; 6 legs: all on, then a subset that stays on (10 patterns; thorough: every one of the 64), then all on again
// @bound measurements agree with the footholds during the history (so the mean must not move); a last correction with an offset per leg checks that each leg moves its own column
// @shards c11_history 8
// @shards c11_six 2
#include "corr.h"
SX_HARNESS(c11_history) {
  int L = thorough() ? 4 : 3, T = thorough() ? 4 : 3; ErrorType et = etOf(choose("error", 2)); Yaml y; double sk = sym("sk", 0.1, 1), sc = sym("sc", 0, 1); y.put("noises", "kinematics_additive_std", sk).put("noises", "contact_noise_std", sc); LegC f(y, et);
  MX X = MX::Identity(5, 5); VX th = vecn("th", 6); RobotState s = stateOf(X, th, MX::Zero(15, 15), true, 10); MX J = MX::Zero(3, 3 * L);
  vector<int> on(L, 0); vector<V3> foot(L); V3 p(0, 0, 0);
  auto measure = [&](const vector<int>& con, const vector<V3>& off) {
    MX pos(3, L); for (int i = 0; i < L; i++) { V3 r = foot[i] - p + off[i]; pos.block(0, i, 3, 1) = r; }
    f.q->push(legs(double(10), pos, J, con)); check(f.c->Correct(s), "a timely legged measurement is applied");
  };
  // column of leg i: its first coordinate lies in [4i-1.5, 4i+1.5]
  auto column = [&](int i) { int c = -1, n = 0; for (int k = 5; k < s.dimX(); k++) { V3 d = s.get_aug_state(k); if (d(0) > double(4 * i) - double(2) && d(0) < double(4 * i) + double(2)) { c = k; n++; } } return n == 1 ? c : -1; };
  auto verify = [&](const string& when) {
    int n = 0; for (int i = 0; i < L; i++) n += on[i];
    check(s.dimX() == 5 + n && s.get_X().rows() == 5 + n, "one column per leg in contact " + when); check(s.dimP() == 15 + 3 * n && s.get_P().rows() == 15 + 3 * n, "covariance size follows the contacts " + when); check(s.dimQc() == 15 + 3 * n && s.get_continuous_noise_covariance().rows() == 15 + 3 * n, "process-noise size follows the contacts " + when);
    if (s.dimX() != 5 + n) sx::stop("sizes");
    for (int i = 0; i < L; i++) if (on[i]) { int c = column(i); check(c >= 5, "every leg in contact has its own column " + when); if (c < 5) sx::stop("column"); V3 d = s.get_aug_state(c); meq(d, foot[i], "a leg's column keeps its world position " + when); }
    meq(s.get_position(), p, "consistent contacts leave the position " + when);
  };
  vector<V3> none(L, V3(V3::Zero()));
  for (int t = 0; t < T; t++) {
    vector<int> con(L); for (int i = 0; i < L; i++) con[i] = choose("contact" + std::to_string(t) + std::to_string(i), 2);
    string tag = std::to_string(t); p = vec("p" + tag, -1, 1); s.set_position(p);
    for (int i = 0; i < L; i++) if (!on[i]) { V3 q = vec("f" + tag + std::to_string(i), -1, 1); q(0) = sym("fx" + tag + std::to_string(i), -1, 1, -1, 1); foot[i] = V3(q(0) + double(4 * i), q(1), q(2)); }
    measure(con, none); on = con; verify("after any history");
  }
  // only the contacts uncertain: the offset of leg i moves column i by the scalar gain
  vector<V3> off(L), gainOff(L); int n = s.dimP(); MX P = MX::Zero(n, n); vector<V3> moved(L); double sum = 0;
  for (int i = 0; i < L; i++) { off[i] = vec("o" + std::to_string(i), -0.4, 0.4); if (on[i]) { int c = column(i); double v = sym("P" + std::to_string(i), 0.5, 2); P.block(3 * c - 6, 3 * c - 6, 3, 3) = I3() * v; moved[i] = foot[i] + off[i] * (v / (v + sk * sk)); } }
  s.set_P(P); bool any = false; for (int i = 0; i < L; i++) any = any || on[i]; if (!any) return;
  measure(on, off); for (int i = 0; i < L; i++) if (on[i]) foot[i] = moved[i];
  verify("after a correction with innovations");
}
// a hexapod: every leg on, any subset lifts off, all touch down again
SX_HARNESS(c11_six) {
  int L = 6; ErrorType et = etOf(choose("error", 2)); Yaml y; LegC f(y, et); RobotState s = stateOf(MX::Identity(5, 5), VX(VX::Zero(6)), MX::Zero(15, 15), true, 10); MX J = MX::Zero(3, 3 * L); int keep = thorough() ? choose("keep", 64) : vector<int>{0, 1, 32, 21, 42, 30, 51, 12, 55, 62}[choose("keep", 10)]; vector<V3> foot(L); vector<int> on(L, 1); V3 p = vec("p", -1, 1); s.set_position(p);
  auto go = [&](const string& w) {
    MX pos(3, L); for (int i = 0; i < L; i++) { V3 r = foot[i] - p; pos.block(0, i, 3, 1) = r; } f.q->push(legs(double(10), pos, J, on)); check(f.c->Correct(s), "a timely legged measurement is applied"); int n = 0; for (int i = 0; i < L; i++) n += on[i];
    check(s.dimX() == 5 + n && s.dimP() == 15 + 3 * n && s.dimQc() == 15 + 3 * n, "one column per leg in contact " + w); if (s.dimX() != 5 + n) sx::stop("sizes");
    for (int i = 0; i < L; i++) if (on[i]) { int c = -1; for (int k = 5; k < s.dimX(); k++) { V3 d = s.get_aug_state(k); if (d(0) > double(4 * i) - double(2) && d(0) < double(4 * i) + double(2)) c = k; } check(c > 0, "every leg in contact has its own column " + w); if (c < 0) sx::stop("column"); V3 d = s.get_aug_state(c); meq(d, foot[i], "a leg's column keeps its world position " + w); }
    meq(s.get_position(), p, "consistent contacts leave the position " + w);
  };
  auto place = [&](int i, const string& k) { foot[i] = V3(double(4 * i) + sym("x" + k + std::to_string(i), -1, 1, -1, 1), sym("y" + k + std::to_string(i)), sym("z" + k + std::to_string(i))); };
  for (int i = 0; i < L; i++) place(i, "a"); go("after any history"); for (int i = 0; i < L; i++) on[i] = (keep >> i) & 1; go("after any history"); for (int i = 0; i < L; i++) if (!on[i]) { on[i] = 1; place(i, "b"); } go("after any history");
}
