// @bound insertion of one or two contacts into a state with 0..1 contacts, removal of one of two or both of two contacts; attitude any unit quaternion; symmetric prior covariance and leg Jacobians with entries in [-2,2]
// @bound noise and column history: 3 legs, every contact history of 3 corrections (thorough: 4), process noise overwritten by nothing in between
// @assume in a removal the remaining contact is confirmed with zero innovation; the covariance update of that confirmation is decided in C13
// @shards c12_noise_history 8
// @shards c12_insert 2
#include "corr.h"
static RobotState tracked(LegC& f, const MX& X0, const VX& th, bool bias, int L, const vector<int>& con, const MX& pos) {
  RobotState s = stateOf(X0, th, eyen(15), bias, 10); f.q->push(legs(double(10), pos, MX::Zero(3, 3 * L), con)); check(f.c->Correct(s), "a timely legged measurement is applied"); return s;
}
SX_HARNESS(c12_insert) {
  ErrorType et = etOf(choose("error", 2)); bool bias = choose("bias_update", 2); int before = choose("contacts_before", 2), add = 1 + choose("inserted", 2), L = before + add;
  Yaml y; double se = sym("se", 0, 1), sk_ = sym("sk", 0.05, 1), sc = sym("sc", 0, 1); y.put("noises", "encoder_std", se).put("noises", "kinematics_additive_std", sk_).put("noises", "contact_noise_std", sc); LegC f(y, et);
  MX X = poseX(rot("R"), vec("v"), vec("p")); VX th = vecn("th", 6); M3 R = X.block(0, 0, 3, 3); V3 p = X.block(0, 4, 3, 1); MX pos = mat("k", 3, L), jac = MX::Zero(3, 3 * L); for (int i = before; i < L; i++) jac.block(0, 3 * i, 3, 3) = mat("J" + std::to_string(i), 3, 3);
  RobotState s;
  if (before) { vector<int> c0(L, 0); c0[0] = 1; s = tracked(f, X, th, bias, L, c0, pos); } else s = stateOf(X, th, eyen(15), bias, 10);
  int n = s.dimP(), m = n - 6; MX P = symm("P", n); MX Y = s.get_X();
  // a confirmed contact would be corrected as well: with a certain pose and contact that correction does nothing
  if (before) { for (int i = 0; i < 12; i++) if (i >= 6 || (i < 3 && et == ErrorType::LeftInvariant)) for (int j = 0; j < n; j++) { P(i, j) = 0; P(j, i) = 0; } }
  s.set_P(P); vector<int> con(L, 1); f.q->push(legs(double(10), pos, jac, con)); check(f.c->Correct(s), "a timely legged measurement is applied");
  if (before) { if (!bias) { P.block(m, 0, 6, m) = MX::Zero(6, m); P.block(0, m, m, 6) = MX::Zero(m, 6); P.block(m, m, 6, 6) = eyen(6) * double(0.0001); } for (int i = 0; i < n; i++) { P(i, m + 2) = 0; P(m + 2, i) = 0; } P(m + 2, m + 2) = 0.0001; }
  MX W = P;
  for (int i = before; i < L; i++) {
    V3 k = pos.block(0, i, 3, 1); V3 d = p + R * k; MX Y2 = MX::Identity(Y.rows() + 1, Y.cols() + 1); Y2.block(0, 0, Y.rows(), Y.cols()) = Y; Y2.block(0, Y.cols(), 3, 1) = d; Y = Y2;
    MX F = MX::Zero(m + 9, m + 6); F.block(0, 0, m, m) = eyen(m); F.block(m + 3, m, 6, 6) = eyen(6); F.block(m, 6, 3, 3) = I3(); MX G = MX::Zero(m + 9, 3);
    if (et == ErrorType::RightInvariant) G.block(m, 0, 3, 3) = R; else { F.block(m, 0, 3, 3) = M3(-sk(k)); G.block(m, 0, 3, 3) = I3(); }
    MX C = legCov(jac, i, se, sk_); MX T = F * W, GC = G * C; MX N = T * F.transpose(); W = N + GC * G.transpose(); m += 3;
  }
  meq(s.get_X(), Y, "a new contact enters at p + R (leg position)"); meq(s.get_P(), W, "a new contact enters with covariance F P F^T + G C G^T"); meq(s.get_theta(), th, "insertion leaves the biases");
  MX Q = MX::Zero(W.rows(), W.rows()); for (int i = 0; i < L; i++) Q.block(9 + 3 * i, 9 + 3 * i, 3, 3) = I3() * sq(sc); meq(s.get_continuous_noise_covariance(), Q, "every tracked contact carries the contact process noise");
}
// two tracked contacts, all of them lifted: pure marginalisation
SX_HARNESS(c12_remove_all) {
  ErrorType et = etOf(choose("error", 2)); bool bias = choose("bias_update", 2); int L = 3; Yaml y; y.put("noises", "contact_noise_std", sym("sc", 0, 1)); LegC f(y, et); MX X = poseX(rot("R"), vec("v"), vec("p")); VX th = vecn("th", 6); MX pos = mat("k", 3, L);
  int who = choose("pair", 3); vector<int> c0(L, 1); c0[who] = 0; RobotState s = tracked(f, X, th, bias, L, c0, pos); MX P = symm("P", 21), Q = symm("Q", 21), Y = s.get_X(); s.set_P(P); s.set_continuous_noise_covariance(Q);
  f.q->push(legs(double(10), pos, MX::Zero(3, 3 * L), {0, 0, 0})); check(f.c->Correct(s), "a timely legged measurement is applied");
  vector<int> keep; for (int i = 0; i < 9; i++) keep.push_back(i); for (int i = 15; i < 21; i++) keep.push_back(i); MX W(15, 15), V(15, 15); for (int i = 0; i < 15; i++) for (int j = 0; j < 15; j++) { W(i, j) = P(keep[i], keep[j]); V(i, j) = Q(keep[i], keep[j]); }
  meq(s.get_X(), X, "removal leaves the rest of the mean"); meq(s.get_P(), W, "removal marginalises exactly the contact's rows and columns"); meq(s.get_continuous_noise_covariance(), V, "removal drops exactly the contact's process noise"); meq(s.get_theta(), th, "removal leaves the biases");
}
// one of two tracked contacts lifted, the other confirmed by a measurement that carries no information about it
SX_HARNESS(c12_remove_one) {
  ErrorType et = etOf(choose("error", 2)); bool bias = choose("bias_update", 2); int L = 2, who = choose("lifted", 2); Yaml y; double sc = sym("sc", 0, 1); y.put("noises", "contact_noise_std", sc); LegC f(y, et); MX X = poseX(rotz("R"), vec("v"), vec("p")); VX th = vecn("th", 6); MX pos = mat("k", 3, L);
  RobotState s = tracked(f, X, th, bias, L, {1, 1}, pos); MX P = symm("P", 21), Y = s.get_X(); int hold = 9 + 3 * (1 - who); double pv = sym("pv", 0.5, 2), sv = 0.05;
  // position and the held contact certain: the confirmation changes nothing but the bias bookkeeping
  for (int b : {6, hold}) for (int i = b; i < b + 3; i++) for (int j = 0; j < 21; j++) { P(i, j) = 0; P(j, i) = 0; } if (et == ErrorType::LeftInvariant) for (int i = 0; i < 3; i++) for (int j = 0; j < 21; j++) { P(i, j) = 0; P(j, i) = 0; }
  s.set_P(P); vector<int> con(2, 1); con[who] = 0; f.q->push(legs(double(10), pos, MX::Zero(3, 3 * L), con)); check(f.c->Correct(s), "a timely legged measurement is applied");
  int m = 15; if (!bias) { P.block(m, 0, 6, m) = MX::Zero(6, m); P.block(0, m, m, 6) = MX::Zero(m, 6); P.block(m, m, 6, 6) = eyen(6) * double(0.0001); } for (int i = 0; i < 21; i++) { P(i, m + 2) = 0; P(m + 2, i) = 0; } P(m + 2, m + 2) = 0.0001;
  vector<int> keep; for (int i = 0; i < 21; i++) if (i < 9 + 3 * who || i >= 12 + 3 * who) keep.push_back(i); MX W(18, 18), Z = MX::Identity(6, 6); for (int i = 0; i < 18; i++) for (int j = 0; j < 18; j++) W(i, j) = P(keep[i], keep[j]);
  Z.block(0, 0, 5, 5) = X; Z.block(0, 5, 3, 1) = Y.block(0, 6 - who, 3, 1); MX Q = MX::Zero(18, 18); Q.block(9, 9, 3, 3) = I3() * sq(sc);
  meq(s.get_X(), Z, "removing a contact leaves the others in place"); meq(s.get_P(), W, "removal marginalises exactly the contact's rows and columns"); meq(s.get_continuous_noise_covariance(), Q, "the remaining contact keeps its process noise");
}
SX_HARNESS(c12_noise_history) {
  int L = 3, T = thorough() ? 4 : 3; ErrorType et = etOf(choose("error", 2)); Yaml y; double sc = sym("sc", 0.1, 1); y.put("noises", "contact_noise_std", sc); LegC f(y, et); MX J = MX::Zero(3, 3 * L), pos = mat("k", 3, L); RobotState s = stateOf(MX::Identity(5, 5), VX::Zero(6), MX::Zero(15, 15), true, 10); MX B = symm("Q", 15); s.set_continuous_noise_covariance(B);
  vector<int> order;   // tracked legs in column order
  for (int t = 0; t < T; t++) {
    vector<int> con(L); int n = 0; for (int i = 0; i < L; i++) { con[i] = choose("contact" + std::to_string(t) + std::to_string(i), 2); n += con[i]; }
    f.q->push(legs(double(10), pos, J, con)); check(f.c->Correct(s), "a timely legged measurement is applied");
    MX Q = MX::Zero(15 + 3 * n, 15 + 3 * n); Q.block(0, 0, 9, 9) = B.block(0, 0, 9, 9); Q.block(0, 9 + 3 * n, 9, 6) = B.block(0, 9, 9, 6); Q.block(9 + 3 * n, 0, 6, 9) = B.block(9, 0, 6, 9); Q.block(9 + 3 * n, 9 + 3 * n, 6, 6) = B.block(9, 9, 6, 6); for (int i = 0; i < n; i++) Q.block(9 + 3 * i, 9 + 3 * i, 3, 3) = I3() * sq(sc);
    meq(s.get_continuous_noise_covariance(), Q, "every tracked contact keeps its process noise through any history");
    vector<int> o2; for (int i : order) if (con[i]) o2.push_back(i); for (int i = 0; i < L; i++) if (con[i] && std::find(order.begin(), order.end(), i) == order.end()) o2.push_back(i); order = o2;
    MX Y = MX::Identity(5 + n, 5 + n); for (int j = 0; j < n; j++) { V3 d = pos.block(0, order[j], 3, 1); Y.block(0, 5 + j, 3, 1) = d; }
    meq(s.get_X(), Y, "exactly the lifted contacts leave the state, in any history");
    if (s.dimQc() != 15 + 3 * n) return;
  }
}
