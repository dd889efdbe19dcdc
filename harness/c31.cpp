// @bound every subscriber kind, up to 3 messages (odometry: 3 of each of two sources) on each of two topics in any order; all message values, wheel radii, track widths and mounting transforms arbitrary; unit or absent orientations; encoder messages of 0..4 wheels for the two-wheel robot; odometry turns below 1.5 rad about the vertical of the sensor or none; 130 concrete messages waiting on every kind of topic except odometry, with large sequence numbers and time stamps; the producers checked against the queue's mutex
// @assume exact real arithmetic; time stamps are reals; the ROS client library is replaced by a stand-in that hands each message to the registered callbacks; the logarithm of a rigid transform by contract (log exp = id)
// @need robots
// @source REPO/ROS/drift/src/communication/ros_subscriber.cpp
// @include VERIF/harness/ros
// @include REPO/ROS/drift/include
#include "corr.h"
#include "communication/ros_subscriber.h"
using ros_wrapper::ROSSubscriber; using std::pair; namespace rs = ros::stub;
struct Node { ros::NodeHandle nh; shared_ptr<ROSSubscriber> s; Node() { rs::reset(); s = make_shared<ROSSubscriber>(&nh); } };
template <class H> static void stamp(H& h, const string& n, int seq) { h.seq = seq; h.stamp.sec = sym("sec_" + n, 0, 2000000000.0); h.stamp.nsec = sym("nsec_" + n, 0, 999999999.0); h.frame_id = "frame_" + n; }
template <class H> static void head(const Measurement& m, const H& h, const string& w) { check_eq(m.get_time(), h.stamp.sec + h.stamp.nsec / 1000000000.0, w + ": time stamp", 1e-13); check(m.header.seq == h.seq, w + ": sequence number"); check(m.header.frame_id == h.frame_id, w + ": frame"); }
template <class Q> static typename Q::value_type only(shared_ptr<Q> q, size_t n, const string& w) { sx::Quiet z; check(q->size() == n, w + ": one measurement per message"); if (q->empty()) sx::stop("nothing queued"); auto m = q->front(); q->pop(); return m; }
static V3 v3(const geometry_msgs::Vector3& v) { return V3(v.x, v.y, v.z); }
static geometry_msgs::Vector3 g3(const string& n) { geometry_msgs::Vector3 v; v.x = sym(n + "_x"); v.y = sym(n + "_y"); v.z = sym(n + "_z"); return v; }
static sensor_msgs::Imu imuMsg(const string& n, int seq, bool ori, Quat* q) { sensor_msgs::Imu m; stamp(m.header, n, seq); m.angular_velocity = g3("w" + n); m.linear_acceleration = g3("a" + n); if (ori) { *q = quatAny("q" + n); m.orientation.w = q->w; m.orientation.x = q->x; m.orientation.y = q->y; m.orientation.z = q->z; } return m; }
static void sameImu(const ImuMeasurement<double>& m, const sensor_msgs::Imu& g, const V3& w, bool ori, const Quat& q, const string& what) {
  head(m, g.header, what); V3 a = v3(g.linear_acceleration); meq(m.get_angular_velocity(), w, what + ": angular rate"); meq(m.get_lin_acc(), a, what + ": acceleration"); M3 R = ori ? rotOf(q) : I3(); meq(m.get_rotation_matrix(), R, what + ": orientation (identity when absent)"); check(m.get_type() == IMU, what + ": type");
}
// two inertial topics, any order of arrival
SX_HARNESS(c31_imu) {
  Node n; auto a = n.s->AddIMUSubscriber("imu_a"), b = n.s->AddIMUSubscriber("imu_b"); check(a.first && b.first && a.second && b.second && a.first != b.first && a.second != b.second, "each subscriber has its own queue and mutex"); sx::guard(a.first.get(), a.second.get()); sx::guard(b.first.get(), b.second.get());
  vector<pair<sensor_msgs::Imu, Quat>> A, B; vector<bool> oa, ob; int k = 3; { sx::Concurrent c; for (int i = 0; i < k; i++) { bool toA = choose("topic" + std::to_string(i), 2) == 0, ori = choose("orientation" + std::to_string(i), 2); Quat q; sensor_msgs::Imu m = imuMsg(std::to_string(i), 7 + i, ori, &q); rs::deliver(toA ? "imu_a" : "imu_b", m); (toA ? A : B).push_back({m, q}); (toA ? oa : ob).push_back(ori); check(sx::locks_held() == 0, "locks are released"); } }
  check(a.first->size() == A.size() && b.first->size() == B.size(), "each message reaches the queue of its topic only"); if (a.first->size() != A.size() || b.first->size() != B.size()) return;
  for (size_t i = 0; i < A.size(); i++) { auto m = only(a.first, A.size() - i, "imu"); sameImu(*m, A[i].first, v3(A[i].first.angular_velocity), oa[i], A[i].second, "imu"); } for (size_t i = 0; i < B.size(); i++) { auto m = only(b.first, B.size() - i, "imu"); sameImu(*m, B[i].first, v3(B[i].first.angular_velocity), ob[i], B[i].second, "imu"); }
}
// gyro offset of the Fetch robot
SX_HARNESS(c31_offset) {
  Node n; auto a = n.s->AddFetchIMUSubscriber("imu", "offset"); sx::guard(a.first.get(), a.second.get()); bool ori = choose("orientation", 2); vector<sensor_msgs::Imu> M; vector<V3> W; vector<Quat> Q(2);
  { sx::Concurrent c; for (int i = 0; i < 2; i++) { string k = std::to_string(i); sensor_msgs::Imu m = imuMsg(k, 3 + i, ori, &Q[i]); geometry_msgs::Vector3Stamped o; stamp(o.header, "o" + k, 90 + i); o.vector = g3("o" + k); rs::deliver("offset", o); rs::deliver("imu", m); V3 w = v3(m.angular_velocity) + v3(o.vector); M.push_back(m); W.push_back(w); } }
  for (int i = 0; i < 2; i++) { auto m = only(a.first, 2 - i, "offset imu"); sameImu(*m, M[i], W[i], ori, Q[i], "offset imu"); } check(sx::locks_held() == 0, "locks are released");
}
SX_HARNESS(c31_velocity) {
  bool cov = choose("with_covariance", 2); Node n; auto add = [&](const string& t) { return cov ? n.s->AddVelocityWithCovarianceSubscriber(t) : n.s->AddVelocitySubscriber(t); }; auto a = add("v_a"), b = add("v_b"); check(a.first != b.first && a.second != b.second, "each subscriber has its own queue and mutex"); sx::guard(a.first.get(), a.second.get()); sx::guard(b.first.get(), b.second.get());
  vector<pair<std_msgs::Header, V3>> A, B; { sx::Concurrent c; for (int i = 0; i < 3; i++) { string k = std::to_string(i); bool toA = choose("topic" + k, 2) == 0; geometry_msgs::Twist tw; tw.linear = g3("l" + k); tw.angular = g3("r" + k); std_msgs::Header h; stamp(h, k, 20 + i); string t = toA ? "v_a" : "v_b"; if (cov) { geometry_msgs::TwistWithCovarianceStamped m; m.header = h; m.twist.twist = tw; rs::deliver(t, m); } else { geometry_msgs::TwistStamped m; m.header = h; m.twist = tw; rs::deliver(t, m); } (toA ? A : B).push_back({h, v3(tw.linear)}); check(sx::locks_held() == 0, "locks are released"); } }
  for (auto* p : {&A, &B}) { auto q = p == &A ? a.first : b.first; check(q->size() == p->size(), "each message reaches the queue of its topic only"); if (q->size() != p->size()) return; for (size_t i = 0; i < p->size(); i++) { auto m = only(q, p->size() - i, "velocity"); head(*m, (*p)[i].first, "velocity"); meq(m->get_velocity(), (*p)[i].second, "linear velocity"); check(m->get_type() == VELOCITY, "velocity: type"); } }
}
// wheel encoders: four wheels (front left, front right, rear left, rear right) or the two wheels of the Fetch robot
SX_HARNESS(c31_wheels) {
  int kind = choose("kind", 4); bool fetch = kind >= 2, yaw = kind % 2; double r = sym("radius", 0.05, 1), w = sym("track", 0.2, 2); Node n; VelocityQueuePtr vq; AngularVelocityQueuePtr aq; shared_ptr<std::mutex> vm, am;
  if (!yaw) { auto p = fetch ? n.s->AddDifferentialDriveLinearVelocitySubscriber_Fetch("enc", r) : n.s->AddDifferentialDriveVelocitySubscriber("enc", r); vq = p.first; vm = p.second; } else { auto t = fetch ? n.s->AddDifferentialDriveVelocitySubscriber_Fetch("enc", r, w) : n.s->AddDifferentialDriveVelocitySubscriber("enc", r, w); vq = std::get<0>(t); vm = std::get<1>(t); aq = std::get<2>(t); am = std::get<3>(t); }
  sx::guard(vq.get(), vm.get()); if (yaw) { check(vm != am, "each queue has its own mutex"); sx::guard(aq.get(), am.get()); } vector<sensor_msgs::JointState> M;
  for (int i = 0; i < 2; i++) { string k = std::to_string(i); sensor_msgs::JointState m; stamp(m.header, k, 40 + i); int wheels = fetch ? choose("wheels" + k, 5) : 4; for (int j = 0; j < wheels; j++) { m.velocity.push_back(sym("e" + k + std::to_string(j))); m.position.push_back(sym("p" + k + std::to_string(j))); } { sx::Concurrent c; rs::deliver("enc", m); } check(sx::locks_held() == 0, "locks are released"); if (wheels > 2) M.push_back(m); }
  check(vq->size() == M.size() && (!yaw || aq->size() == M.size()), "one measurement per wheel encoder message"); if (vq->size() != M.size() || (yaw && aq->size() != M.size())) return;
  for (size_t i = 0; i < M.size(); i++) { auto& e = M[i].velocity; double right = fetch ? e[1] : (e[1] + e[3]) / 2, left = fetch ? e[0] : (e[0] + e[2]) / 2; auto m = only(vq, M.size() - i, "wheels"); head(*m, M[i].header, "wheels"); V3 v = m->get_velocity(); check_eq(v(0), r * (right + left) / 2, "forward velocity of the wheels"); check_eq(v(1), double(0), "no lateral velocity"); check_eq(v(2), double(0), "no vertical velocity");
    if (yaw) { auto o = only(aq, M.size() - i, "wheels"); head(*o, M[i].header, "wheels (yaw)"); V3 u = o->get_angular_velocity(); check_eq(u(0), double(0), "no roll rate"); check_eq(u(1), double(0), "no pitch rate"); check_eq(u(2), r * (right - left) / w, "yaw rate of the wheels"); } }
}
SX_HARNESS(c31_legs) {
  Node n; auto a = n.s->AddMiniCheetahKinematicsSubscriber("contact", "joint"); sx::guard(a.first.get(), a.second.get()); vector<custom_sensor_msgs::ContactArray> C; vector<sensor_msgs::JointState> J;
  for (int i = 0; i < 2; i++) { string k = std::to_string(i); custom_sensor_msgs::ContactArray c; stamp(c.header, "c" + k, 60 + i); c.contacts.resize(4); for (int l = 0; l < 4; l++) { c.contacts[l].id = l; c.contacts[l].indicator = i == 0 ? choose("contact" + std::to_string(l), 2) : l % 2; } sensor_msgs::JointState j; stamp(j.header, "j" + k, 70 + i); for (int m = 0; m < 12; m++) { j.position.push_back(sym("q" + k + "_" + std::to_string(m))); j.velocity.push_back(sym("dq" + k + "_" + std::to_string(m))); } { sx::Concurrent z; if (choose("order", 2)) { rs::deliver("contact", c); rs::deliver("joint", j); } else { rs::deliver("joint", j); rs::deliver("contact", c); } } C.push_back(c); J.push_back(j); check(sx::locks_held() == 0, "locks are released"); }
  for (int i = 0; i < 2; i++) { auto m = only(a.first, 2 - i, "legs"); head(*m, C[i].header, "legs"); check(m->get_type() == LEGGED_KINEMATICS, "legs: type"); for (int l = 0; l < 4; l++) check(bool(m->get_contact(l)) == bool(C[i].contacts[l].indicator), "contact flag of each leg"); for (int k = 0; k < 12; k++) { check_eq(m->get_joint_state(k), J[i].position[k], "joint angle"); }
    // joint rates are only visible through the initial velocity: compare with a measurement built from the same data
    Eigen::Matrix<bool, 4, 1> ct; Eigen::Matrix<double, 12, 1> q, dq; for (int l = 0; l < 4; l++) ct(l) = C[i].contacts[l].indicator; for (int k = 0; k < 12; k++) { q(k) = J[i].position[k]; dq(k) = J[i].velocity[k]; } kinematics::MiniCheetahKinematics o; o.set_contact(ct); o.set_joint_state(q); o.set_joint_state_velocity(dq); V3 w = vec("w"); V3 x = m->get_init_velocity(w), y = o.get_init_velocity(w); meq(x, y, "joint rates"); }
}
struct Odom { V3 p; Quat q; };
static Quat qmul(const Quat& a, const Quat& b) { return {a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z, a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y, a.w * b.y - a.x * b.z + a.y * b.w + a.z * b.x, a.w * b.z + a.x * b.y - a.y * b.x + a.z * b.w}; }
static Quat qinv(const Quat& a) { return {a.w, -a.x, -a.y, -a.z}; }
static MX hom(const M3& R, const V3& p) { MX T = MX::Identity(4, 4); T.block(0, 0, 3, 3) = R; T.block(0, 3, 3, 1) = p; return T; }
static nav_msgs::Odometry odomMsg(const V3& p, const Quat& q, const double& t, int seq) { nav_msgs::Odometry m; m.header.seq = seq; m.header.stamp.sec = t; m.header.frame_id = "odom"; m.pose.pose.position.x = p(0); m.pose.pose.position.y = p(1); m.pose.pose.position.z = p(2); m.pose.pose.orientation.w = q.w; m.pose.pose.orientation.x = q.x; m.pose.pose.orientation.y = q.y; m.pose.pose.orientation.z = q.z; m.twist.twist.linear = g3("tw"); return m; }
struct Src { V3 t; Quat q; V3 cp; Quat cq; double time; vector<V3> vel; vector<double> at; };
static Quat turnz(const string& n) { Quat q; q.x = q.y = double(0); q.z = sym(n + ".qz", -0.9, 0.9); q.w = sym(n + ".qw", 0, 1); sx::define_square(q.w, double(1) - q.z * q.z); return q; }
// moves the body of a source by the twist (rho, psi about z) over dt
static void move(Src& s, const string& n, bool turn, const double& dt) {
  V3 v = vec("v" + n); double h = turn ? sym("h" + n, 0.01, 0.75, 0.01, 0.75) : double(0), psi = h + h; using std::cos; using std::sin; V3 rho = v * dt; Quat e{double(1), double(0), double(0), double(0)}; V3 d = rho; MX L = MX::Zero(4, 4), E;
  if (turn) { e = {cos(h), double(0), double(0), sin(h)}; V3 w(double(0), double(0), psi); M3 G0 = gammaRef(w, 0), G1 = gammaRef(w, 1); d = G1 * rho; E = hom(G0, d); M3 K = sk(w); L.block(0, 0, 3, 3) = K; } else E = hom(I3(), d);
  for (int i = 0; i < 3; i++) L(i, 3) = rho(i); vector<double> ev, lv; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { ev.push_back(E(i, j)); lv.push_back(L(i, j)); } sx::log_hint(ev, lv);
  // body pose = source pose * mount; source pose' = source pose * mount * E * mount^-1
  M3 M = rotOf(s.q), C = rotOf(s.cq); V3 md = M * d, dp = md; Quat rel{double(1), double(0), double(0), double(0)}; if (turn) { rel = e; M3 R = rotOf(e); V3 rt = R * s.t; V3 mt = s.t + md; dp = mt - rt; }   // turns: the mount is a yaw, which commutes
  V3 step = C * dp; s.cp = s.cp + step; if (turn) s.cq = qmul(s.cq, rel); s.time = s.time + dt; s.vel.push_back(v); s.at.push_back(s.time);
}
static void odometry(int srcs, int msgs, int turns, bool yaw) {
  Node n; vector<Src> S(srcs); vector<VelocityQueuePair> P;
  for (int i = 0; i < srcs; i++) { string k = std::to_string(i); Src& s = S[i]; s.t = vec("mt" + k); s.q = yaw ? turnz("mq" + k) : quat("mq" + k); s.cp = vec("p" + k); s.cq = turnz("q" + k); s.time = sym("t" + k, 0, 100); P.push_back(n.s->AddOdom2VelocityCallback("odom" + k, {s.t(0), s.t(1), s.t(2)}, {s.q.w, s.q.x, s.q.y, s.q.z})); sx::guard(P[i].first.get(), P[i].second.get()); }
  vector<int> cnt(srcs, 0); int seq = 100;
  for (int k = 0; k < msgs; k++) { int i = srcs == 2 ? choose("source" + std::to_string(k), 2) : 0; Src& s = S[i]; string nm = std::to_string(i) + std::to_string(cnt[i]); if (cnt[i]) move(s, nm, cnt[i] <= turns, sym("dt" + nm, 0.1, 1)); cnt[i]++; { sx::Concurrent c; rs::deliver("odom" + std::to_string(i), odomMsg(s.cp, s.cq, s.time, seq++)); } check(sx::locks_held() == 0, "locks are released"); }
  for (int i = 0; i < srcs; i++) { check(P[i].first->size() == S[i].vel.size(), "one velocity per odometry message after the first of its source"); if (P[i].first->size() != S[i].vel.size()) return; for (size_t j = 0; j < S[i].vel.size(); j++) { auto m = only(P[i].first, S[i].vel.size() - j, "odometry"); check_eq(m->get_time(), S[i].at[j], "odometry velocity time stamp", 1e-13); meq(m->get_velocity(), S[i].vel[j], "odometry velocity is the body twist between the two poses"); check(m->header.frame_id == "odom", "odometry velocity frame"); } }
}
SX_HARNESS(c31_odom) { odometry(1, 3, thorough() ? 2 : 1, true); }
SX_HARNESS(c31_odom_mount) { odometry(1, 3, 0, false); }
SX_HARNESS(c31_odom_sources) { odometry(2, 4, 1, true); }
// messages that repeat a time stamp must not produce infinite velocities
SX_HARNESS(c31_odom_time) {
  Node n; auto p = n.s->AddOdom2VelocityCallback("odom", {0, 0, 0}, {1, 0, 0, 0}); double t = sym("t", 0, 100); Quat q{double(1), double(0), double(0), double(0)}; vector<double> ev, lv; V3 d = vec("d"); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { ev.push_back(j == 3 && i < 3 ? d(i) : double(i == j)); lv.push_back(j == 3 && i < 3 ? d(i) : double(0)); } sx::log_hint(ev, lv);
  V3 p0 = vec("p"); V3 p1 = p0 + d; rs::deliver("odom", odomMsg(p0, q, t, 1)); double dt = choose("same", 2) ? double(0) : sym("back", -5, -0.1); rs::deliver("odom", odomMsg(p1, q, t + dt, 2)); check(p.first->empty(), "no velocity from odometry messages without time progress");
}
// start and shutdown
SX_HARNESS(c31_thread) { sx::Coop coop(2); { Node n; auto a = n.s->AddIMUSubscriber("imu"); if (choose("started", 2)) { n.s->StartSubscribingThread(); sx::coop_run(); check(rs::bus().spinners == 1, "callbacks are served after the start"); Quat q; rs::deliver("imu", imuMsg("0", 1, false, &q)); check(a.first->size() == 1, "messages arrive while the thread runs"); rs::bus().ok = false; } n.s.reset(); } sx::coop_check(); check(sx::locks_held() == 0, "locks are released"); }
// long backlogs: 130 messages of one topic before anything is taken
SX_HARNESS(c31_backlog) {
  Node n; int kind = choose("kind", 9), N = 130; double t0(1700000000.0); V3 unused; auto hd = [&](auto& h, int i) { h.seq = 4000000000u + i; h.stamp.sec = t0 + double(i); h.stamp.nsec = double(123456789); h.frame_id = "f" + std::to_string(i); };
  auto each = [&](auto q, const string& w, auto chk) { check((int)q->size() == N, w + ": one measurement per message, however many wait"); if ((int)q->size() != N) return; for (int i = 0; i < N; i++) { auto m = q->front(); q->pop(); check_eq(m->get_time(), t0 + double(i) + double(0.123456789), w + ": time stamp", 1e-13); check(m->header.seq == 4000000000u + i, w + ": sequence number"); check(m->header.frame_id == "f" + std::to_string(i), w + ": frame"); chk(m, double(i)); } };
  if (kind < 2) { auto a = kind ? n.s->AddFetchIMUSubscriber("t", "o") : n.s->AddIMUSubscriber("t"); for (int i = 0; i < N; i++) { if (kind) { geometry_msgs::Vector3Stamped o; hd(o.header, i + 1000); o.vector.x = double(1); o.vector.y = double(0); o.vector.z = double(0); rs::deliver("o", o); } sensor_msgs::Imu m; hd(m.header, i); m.angular_velocity.x = double(i); m.linear_acceleration.y = double(2 * i); rs::deliver("t", m); } each(a.first, "imu", [&](auto m, const double& i) { check_eq(m->get_angular_velocity()(0), i + double(kind), "imu: angular rate"); check_eq(m->get_lin_acc()(1), double(2) * i, "imu: acceleration"); }); }
  else if (kind < 4) { auto a = kind == 3 ? n.s->AddVelocityWithCovarianceSubscriber("t") : n.s->AddVelocitySubscriber("t"); for (int i = 0; i < N; i++) { geometry_msgs::Twist tw; tw.linear.x = double(i); if (kind == 3) { geometry_msgs::TwistWithCovarianceStamped m; hd(m.header, i); m.twist.twist = tw; rs::deliver("t", m); } else { geometry_msgs::TwistStamped m; hd(m.header, i); m.twist = tw; rs::deliver("t", m); } } each(a.first, "velocity", [&](auto m, const double& i) { check_eq(m->get_velocity()(0), i, "linear velocity"); }); }
  else if (kind < 8) {
    bool fetch = kind >= 6, yaw = kind % 2; double r(0.5), w(2); VelocityQueuePtr vq; AngularVelocityQueuePtr aq; if (!yaw) vq = (fetch ? n.s->AddDifferentialDriveLinearVelocitySubscriber_Fetch("t", r) : n.s->AddDifferentialDriveVelocitySubscriber("t", r)).first; else { auto t = fetch ? n.s->AddDifferentialDriveVelocitySubscriber_Fetch("t", r, w) : n.s->AddDifferentialDriveVelocitySubscriber("t", r, w); vq = std::get<0>(t); aq = std::get<2>(t); }
    for (int i = 0; i < N; i++) { sensor_msgs::JointState m; hd(m.header, i); for (int j = 0; j < 4; j++) m.velocity.push_back(double(i)); rs::deliver("t", m); } each(vq, "wheels", [&](auto m, const double& i) { check_eq(m->get_velocity()(0), r * i, "forward velocity of the wheels"); }); if (yaw) each(aq, "wheels (yaw)", [&](auto m, const double&) { check_eq(m->get_angular_velocity()(2), double(0), "yaw rate of the wheels"); });
  } else {
    auto a = n.s->AddMiniCheetahKinematicsSubscriber("c", "j"); for (int i = 0; i < N; i++) { custom_sensor_msgs::ContactArray c; hd(c.header, i); c.contacts.resize(4); for (int l = 0; l < 4; l++) { c.contacts[l].id = l; c.contacts[l].indicator = (i + l) % 2; } sensor_msgs::JointState j; hd(j.header, i); for (int k = 0; k < 12; k++) { j.position.push_back(double(i) + double(k)); j.velocity.push_back(double(k)); } rs::deliver("c", c); rs::deliver("j", j); } each(a.first, "legs", [&](auto m, const double& i) { check_eq(m->get_joint_state(3), i + double(3), "joint angle"); });
  }
}
