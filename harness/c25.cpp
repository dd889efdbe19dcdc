// @bound states with 0..3 augmented columns (and as many augmented biases), every entry symbolic; every column index; up to 2 block-diagonal copies appended to an empty or non-empty matrix
// @assume rotations are proper
#include "h.h"
using state::RobotState; using math::SEK3;
static MX anyX(const string& n, int aug) { MX X = MX::Identity(5 + aug, 5 + aug); X.block(0, 0, 3, 3 + 2 + aug) = mat(n, 3, 5 + aug); return X; }
struct Snap { MX X, P, Q; VX th; double t, tp; int slip; bool en; V3 w; };
static Snap snap(RobotState& s) { return Snap{s.get_X(), s.get_P(), s.get_continuous_noise_covariance(), s.get_theta(), s.get_time(), s.get_propagate_time(), s.get_slip_flag(), s.get_enable_imu_bias_update(), s.get_body_angular_velocity()}; }
static void same(RobotState& s, const Snap& e, const string& what) {
  meq(s.get_X(), e.X, what + " (mean)"); meq(s.get_P(), e.P, what + " (covariance)"); meq(s.get_continuous_noise_covariance(), e.Q, what + " (process noise)"); meq(s.get_theta(), e.th, what + " (biases)"); check_eq(s.get_time(), e.t, what + " (time)"); check_eq(s.get_propagate_time(), e.tp, what + " (propagation time)"); check(s.get_slip_flag() == e.slip, what + " (slip flag)"); check(s.get_enable_imu_bias_update() == e.en, what + " (bias flag)"); meq(s.get_body_angular_velocity(), e.w, what + " (body rate)");
  check(s.dimX() == e.X.cols(), what + " (dimX)"); check(s.dimP() == e.P.cols(), what + " (dimP)"); check(s.dimQc() == e.Q.cols(), what + " (dimQc)"); check(s.dimTheta() == e.th.rows(), what + " (dimTheta)");
}
static void defined(RobotState& s, const string& what) {
  check_eq(s.get_time(), double(0), what + ": time"); check_eq(s.get_propagate_time(), double(0), what + ": propagation time"); meq(s.get_body_angular_velocity(), V3(V3::Zero()), what + ": body rate"); check(s.get_slip_flag() == 0, what + ": slip flag"); check(!s.get_enable_imu_bias_update(), what + ": bias flag"); check(s.get_state_type() == StateType::WorldCentric, what + ": world-centric");
}
SX_HARNESS(c25_constructors) {
  int which = choose("constructor", 8), aug = which == 0 || which == 7 ? 0 : choose("aug", 4); MX X = anyX("X", aug); VX th = vecn("th", 6); int n = 15 + 3 * aug; MX P = mat("P", n, n); shared_ptr<RobotState> s; MX eX = X; VX eth = VX::Zero(6); MX eP = MX::Identity(n, n); SEK3 G(X);
  switch (which) {
    case 0: s = make_shared<RobotState>(); eX = MX::Identity(5, 5); break;
    case 1: s = make_shared<RobotState>(X); break;
    case 2: s = make_shared<RobotState>(X, th); eth = th; break;
    case 3: s = make_shared<RobotState>(X, th, P); eth = th; eP = P; break;
    case 4: s = make_shared<RobotState>(G); eth = VX::Zero(s->dimTheta()); eP = MX::Identity(3 * (5 + aug) - 6 + s->dimTheta(), 3 * (5 + aug) - 6 + s->dimTheta()); check(s->dimTheta() >= 6 && s->dimTheta() % 3 == 0, "the biases cover gyroscope and accelerometer"); break;
    case 5: s = make_shared<RobotState>(G, th); eth = th; break;
    case 6: s = make_shared<RobotState>(G, th, P); eth = th; eP = P; break;
    case 7: { s = make_shared<RobotState>(X, th, P); s->set_time(sym("t")); s->set_propagate_time(sym("tp")); s->set_slip_flag(1); s->set_enable_imu_bias_update(true); s->set_body_angular_velocity(vec("w")); s->set_continuous_noise_covariance(mat("Q", n, n)); if (choose("augmented", 2)) s->add_aug_state(vec("d"), mat("PA", 18, 18), mat("N", 3, 3), make_shared<int>(5)); s->clear(); eX = MX::Identity(5, 5); break; }
  }
  string what = which == 7 ? "cleared state" : "new state"; Snap e{eX, eP, MX::Zero(eP.rows(), eP.rows()), eth, double(0), double(0), 0, false, V3::Zero()}; same(*s, e, what); defined(*s, what);
  if (which == 7) { auto id = make_shared<int>(-1); int c = s->add_aug_state(vec("d2"), MX(MX::Identity(18, 18)), M3(M3::Zero()), id); check(c == 5, "a cleared state can be augmented again"); s->del_aug_state(5); same(*s, e, "augmenting and removing again"); }
}
SX_HARNESS(c25_setters) {
  int aug = choose("aug", 4), n = 15 + 3 * aug; RobotState s(anyX("X", aug), vecn("th", 6), mat("P", n, n)); s.set_continuous_noise_covariance(mat("Q", n, n)); s.set_time(sym("t")); s.set_propagate_time(sym("tp")); s.set_body_angular_velocity(vec("w"));
  Snap e = snap(s); V3 v = vec("new"); M3 m = mat("newm", 3, 3); double t = sym("newt"); int b = n - 6, which = choose("setter", 19);
  auto blk = [&](int i) { e.P.block(i, i, 3, 3) = m; };
  switch (which) {
    case 0: s.set_rotation(m); e.X.block(0, 0, 3, 3) = m; meq(s.get_rotation(), m, "rotation"); break;
    case 1: s.set_velocity(v); e.X.block(0, 3, 3, 1) = v; meq(s.get_velocity(), v, "velocity"); meq(s.get_vector(3), v, "velocity column"); break;
    case 2: s.set_position(v); e.X.block(0, 4, 3, 1) = v; meq(s.get_position(), v, "position"); meq(s.get_vector(4), v, "position column"); break;
    case 3: s.set_gyroscope_bias(v); e.th.segment(0, 3) = v; meq(s.get_gyroscope_bias(), v, "gyroscope bias"); break;
    case 4: s.set_accelerometer_bias(v); e.th.segment(3, 3) = v; meq(s.get_accelerometer_bias(), v, "accelerometer bias"); break;
    case 5: s.set_rotation_covariance(m); blk(0); meq(s.get_rotation_covariance(), m, "rotation covariance"); break;
    case 6: s.set_velocity_covariance(m); blk(3); meq(s.get_velocity_covariance(), m, "velocity covariance"); break;
    case 7: s.set_position_covariance(m); blk(6); meq(s.get_position_covariance(), m, "position covariance"); break;
    case 8: s.set_gyroscope_bias_covariance(m); blk(b); meq(s.get_gyroscope_bias_covariance(), m, "gyroscope bias covariance"); break;
    case 9: s.set_accelerometer_bias_covariance(m); blk(b + 3); meq(s.get_accelerometer_bias_covariance(), m, "accelerometer bias covariance"); break;
    case 10: s.set_time(t); e.t = t; break;
    case 11: s.set_propagate_time(t); e.tp = t; break;
    case 12: s.set_slip_flag(1); e.slip = 1; break;
    case 13: s.set_enable_imu_bias_update(true); e.en = true; break;
    case 14: s.set_body_angular_velocity(v); e.w = v; break;
    case 15: if (!aug) return; { int i = 5 + choose("index", aug); s.set_aug_state(i, v); e.X.block(0, i, 3, 1) = v; meq(s.get_aug_state(i), v, "augmented state"); } break;
    case 16: { MX X = anyX("Y", aug); s.set_X(X); e.X = X; } break;
    case 17: { VX th = vecn("thn", 6); s.set_theta(th); e.th = th; } break;
    case 18: { MX P = mat("PN", n, n); s.set_P(P); e.P = P; } break;
  }
  same(s, e, "a setter changes exactly its block");
  if (which == 0) { for (int i = 0; i < aug; i++) { V3 d = e.X.block(0, 5 + i, 3, 1); meq(s.get_aug_state(5 + i), d, "augmented state"); meq(s.get_vector(5 + i), d, "augmented column"); M3 c = e.P.block(9 + 3 * i, 9 + 3 * i, 3, 3); meq(s.get_aug_cov(5 + i), c, "augmented covariance"); } }
}
SX_HARNESS(c25_views) {
  int aug = choose("aug", 4), k = choose("copies", 3), pre = 2 * choose("appended", 2); MX X = anyX("X", aug); M3 R = rot("R"); X.block(0, 0, 3, 3) = R; RobotState s(X); int n = 5 + aug; V3 v = X.block(0, 3, 3, 1), p = X.block(0, 4, 3, 1);
  meq(s.get_world_rotation(), R, "world rotation"); meq(s.get_world_velocity(), v, "world velocity"); meq(s.get_world_position(), p, "world position"); meq(s.get_world_X(), X, "world view");
  V3 vb = R.transpose() * v, pb = R.transpose() * p; meq(s.get_body_rotation(), M3(R.transpose()), "body rotation"); meq(s.get_body_velocity(), vb, "body velocity"); meq(s.get_body_position(), pb, "body position");
  MX Xi = invRef(X); meq(s.get_Xinv(), Xi, "inverse"); meq(s.get_body_X(), Xi, "body view"); MX prod = X * s.get_Xinv(); meq(prod, MX(MX::Identity(n, n)), "state times inverse is the identity"); MX prod2 = s.get_Xinv() * X; meq(prod2, MX(MX::Identity(n, n)), "inverse times state is the identity");
  MX B = pre ? mat("B", pre, pre) : MX(0, 0), E = MX::Zero(pre + k * n, pre + k * n), F = E; if (pre) { E.block(0, 0, pre, pre) = B; F.block(0, 0, pre, pre) = B; } for (int i = 0; i < k; i++) { E.block(pre + i * n, pre + i * n, n, n) = X; F.block(pre + i * n, pre + i * n, n, n) = Xi; }
  MX C = B, D = B; s.copy_diag_X(k, C); s.copy_diag_Xinv(k, D); meq(C, E, "block-diagonal copies of the state"); meq(D, F, "block-diagonal copies of the inverse"); meq(s.get_X(), X, "views leave the state alone");
}
// augmented states: added at the end, removed by index
SX_HARNESS(c25_augment) {
  int base = choose("columns", 3), adds = choose("added", 3), n0 = 15 + 3 * base; RobotState s(anyX("X", base), vecn("th", 6), mat("P", n0, n0)); MX Q = mat("Q", n0, n0); s.set_continuous_noise_covariance(Q); s.set_time(sym("t")); s.set_propagate_time(sym("tp")); s.set_body_angular_velocity(vec("w"));
  vector<shared_ptr<int>> ids(base); Snap e = snap(s);
  for (int a = 0; a < adds; a++) {
    string nm = std::to_string(a); int n = e.P.rows(); MX PA = mat("PA" + nm, n + 3, n + 3); M3 N = mat("N" + nm, 3, 3); V3 d = vec("d" + nm); auto id = make_shared<int>(-1); int c = s.add_aug_state(d, PA, N, id); *id = c; ids.push_back(id); check(c == (int)e.X.cols(), "a new augmented state goes to the last column");
    int x = e.X.cols(); MX X = MX::Identity(x + 1, x + 1); X.block(0, 0, x, x) = e.X; X.block(0, x, 3, 1) = d; e.X = X; e.P = PA; int m = n - 6; MX W = MX::Zero(n + 3, n + 3); W.block(0, 0, m, m) = e.Q.block(0, 0, m, m); W.block(m + 3, m + 3, 6, 6) = e.Q.block(m, m, 6, 6); W.block(0, m + 3, m, 6) = e.Q.block(0, m, m, 6); W.block(m + 3, 0, 6, m) = e.Q.block(m, 0, 6, m); W.block(m, m, 3, 3) = N; e.Q = W; same(s, e, "adding an augmented state");
  }
  int total = base + adds; for (int r = 0; r < (thorough() ? 3 : 2) && total > 0; r++) {
    int i = choose("remove" + std::to_string(r), total); s.del_aug_state(5 + i); ids.erase(ids.begin() + i); total--; auto cut = [](const MX& M, int at, int w) { int n = M.rows(); MX C(n - w, n - w); for (int a = 0; a < n - w; a++) for (int b = 0; b < n - w; b++) C(a, b) = M(a < at ? a : a + w, b < at ? b : b + w); return C; };
    e.X = cut(e.X, 5 + i, 1); e.P = cut(e.P, 9 + 3 * i, 3); e.Q = cut(e.Q, 9 + 3 * i, 3); same(s, e, "removing an augmented state removes exactly it");
    for (int j = 0; j < total; j++) if (ids[j]) check(*ids[j] == 5 + j, "column ids follow the columns");
  }
}
SX_HARNESS(c25_bias) {
  int k = 1 + choose("biases", 3); RobotState s(anyX("X", k), vecn("th", 6)); Snap e = snap(s); vector<V3> b; for (int i = 0; i < k; i++) { b.push_back(vec("b" + std::to_string(i))); s.add_aug_bias(b[i]); VX t(9 + 3 * i); t.head(6 + 3 * i) = e.th; t.tail(3) = b[i]; e.th = t; same(s, e, "adding an augmented bias"); }
  for (int i = 0; i < k; i++) meq(s.get_aug_bias(5 + i), b[i], "augmented bias by index");
  int i = choose("remove", k); s.del_aug_bias(5 + i); VX t(6 + 3 * (k - 1)); t.head(6) = e.th.head(6); for (int j = 0, o = 0; j < k; j++) if (j != i) { t.segment(6 + 3 * o, 3) = b[j]; o++; } e.th = t; same(s, e, "removing an augmented bias removes exactly it"); meq(s.get_gyroscope_bias(), V3(e.th.segment(0, 3)), "gyroscope bias"); meq(s.get_accelerometer_bias(), V3(e.th.segment(3, 3)), "accelerometer bias");
}
SX_HARNESS(c25_cov) {
  int aug = 1 + choose("aug", 3), n = 15 + 3 * aug, which = choose("operation", 3); RobotState s(anyX("X", aug), vecn("th", 6), mat("P", n, n)); s.set_continuous_noise_covariance(mat("Q", n, n)); Snap e = snap(s); M3 m = mat("new", 3, 3); int i = choose("index", aug);
  auto cut = [](const MX& M, int at, int w) { int n = M.rows(); MX C(n - w, n - w); for (int a = 0; a < n - w; a++) for (int b = 0; b < n - w; b++) C(a, b) = M(a < at ? a : a + w, b < at ? b : b + w); return C; };
  if (which == 0) { s.add_aug_cov(m); MX P = MX::Zero(n + 3, n + 3); P.block(0, 0, n, n) = e.P; P.block(n, n, 3, 3) = m; e.P = P; same(s, e, "an augmented covariance is appended"); }
  else if (which == 1) { s.del_aug_cov(5 + i); e.P = cut(e.P, 9 + 3 * i, 3); same(s, e, "an augmented covariance is removed by index"); }
  else { s.del_aug_noise_cov(5 + i); e.Q = cut(e.Q, 9 + 3 * i, 3); same(s, e, "an augmented process noise is removed by index"); }
}
