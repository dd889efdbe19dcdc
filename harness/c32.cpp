// @bound up to 4 states queued before and while the publisher runs, then shutdown; runs of 130 concrete states; the pose and path threads and the producer interleaved at lock and publish operations (up to 2 free preemptions, thorough 3, plus every forced switch); arbitrary positions, headings (one state: attitudes), times and 15 x 15 (with a contact: 18 x 18) covariances; path thinning 1, 2, 3 and the defaults
// @assume exact real arithmetic; threads switch at lock and publish operations only; the ROS client library is replaced by a stand-in that records what is published
// @shards c32_threads 6
// @source REPO/ROS/drift/src/communication/ros_publisher.cpp
// @include VERIF/harness/ros
// @include REPO/ROS/drift/include
#include "corr.h"
#include "communication/ros_publisher.h"
using ros_wrapper::ROSPublisher; namespace rs = ros::stub; typedef geometry_msgs::PoseWithCovarianceStamped PoseMsg; typedef nav_msgs::Path PathMsg;
struct Pub {
  ros::NodeHandle nh; RobotStateQueuePtr q = make_shared<RobotStateQueue>(); Mut m = mut(); shared_ptr<ROSPublisher> p; string pose, path, frame; int skip;
  Pub(bool dflt, int skip_) : skip(skip_) {
    rs::reset(); sx::guard(q.get(), m.get()); if (dflt) { skip = 100; pose = "/robot/inekf_estimation/pose"; path = "/robot/inekf_estimation/path"; frame = "/odom"; p = make_shared<ROSPublisher>(&nh, q, m); return; }
    pose = "/x/pose"; path = "/x/path"; frame = "world"; string f = sx::tmpdir() + "/pub.yaml"; { std::ofstream o(f); o << "publishers:\n  pose_publish_rate: " << 100 * skip << "\n  pose_publish_topic: \"/x/pose\"\n  pose_frame: \"world\"\n  path_publish_rate: 100\n  path_publish_topic: \"/x/path\"\n"; if (choose("slip", 2)) o << "  enable_slip_publisher: true\n"; } p = make_shared<ROSPublisher>(&nh, q, m, f);
  }
  void push(shared_ptr<RobotState> s) { m->lock(); q->push(s); m->unlock(); }
};
struct Ref { M3 R; V3 p; MX P; double t; };
static Ref make(const string& n, bool full, int aug) { Ref r; r.R = full ? rot("R" + n) : rotz("R" + n); r.p = vec("p" + n); r.t = sym("t" + n, 0, 100); r.P = cov("P" + n, 15 + 3 * aug); return r; }
static shared_ptr<RobotState> mkState(const Ref& r, int aug) { auto s = make_shared<RobotState>(); vector<V3> a; for (int i = 0; i < aug; i++) a.push_back(vec("d")); s->set_X(poseX(r.R, vec("v"), r.p, a)); s->set_P(r.P); s->set_time(r.t); return s; }
static void samePose(const geometry_msgs::Pose& g, const Ref& r, const string& w) { V3 p(g.position.x, g.position.y, g.position.z); meq(p, r.p, w + ": position"); Quat q{g.orientation.w, g.orientation.x, g.orientation.y, g.orientation.z}; meq(rotOf(q), r.R, w + ": orientation"); check_eq(q.w * q.w + q.x * q.x + q.y * q.y + q.z * q.z, double(1), w + ": unit quaternion"); }
static void samePoseMsg(const PoseMsg& g, const Ref& r, int seq, const string& frame, bool covariance) {
  check((int)g.header.seq == seq, "pose: sequence number"); check(g.header.frame_id == frame, "pose: frame"); check_eq(g.header.stamp.toSec(), r.t, "pose: time stamp"); samePose(g.pose.pose, r, "pose"); if (!covariance) return; const int at[6] = {6, 7, 8, 0, 1, 2}; for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) check_eq(g.pose.covariance[i * 6 + j], r.P(at[i], at[j]), "pose: covariance of position and rotation, in this order");
}
// content of one pose message
SX_HARNESS(c32_pose) {
  sx::Coop coop(0); sx::Concurrent conc; int aug = choose("contacts", 2); Pub u(choose("default", 2), 1); Ref r = make("0", choose("full", 2), aug); u.p->StartPublishingThread(); sx::coop_run(); check(rs::published<PoseMsg>(u.pose).empty() && rs::published<PathMsg>(u.path).empty(), "nothing is published without a state"); u.push(mkState(r, aug)); sx::coop_run(); auto P = rs::published<PoseMsg>(u.pose); check(P.size() == 1, "one pose per state"); { sx::Quiet z; check(u.q->empty(), "the state is taken from the queue"); } if (P.size() == 1) samePoseMsg(P[0], r, 0, u.frame, true);
  ros::shutdown(); u.p.reset(); sx::coop_check(); check(sx::locks_held() == 0, "locks are released");
}
// all interleavings: every state once and in order; the path holds every k-th pose
SX_HARNESS(c32_threads) {
  sx::Coop coop(thorough() ? 3 : 2); sx::Concurrent conc; int skip = 1 + choose("thinning", 3), before = choose("before", 3), during = choose("during", 3); Pub u(false, skip); vector<Ref> R; int n = before + during; for (int i = 0; i < n; i++) { string k = std::to_string(i); Ref r; r.R = I3(); r.p = vec("p" + k); r.t = double(i + 1); r.P = MX::Identity(15, 15); R.push_back(r); }
  for (int i = 0; i < before; i++) u.push(mkState(R[i], 0)); u.p->StartPublishingThread(); for (int i = before; i < n; i++) { u.push(mkState(R[i], 0)); if (choose("wait" + std::to_string(i), 2)) sx::coop_run(); } if (choose("drain", 2)) { sx::coop_run(); sx::coop_run(); check(rs::published<PoseMsg>(u.pose).size() == R.size(), "every queued state is published"); }
  ros::shutdown(); u.p.reset(); sx::coop_check(); check(sx::locks_held() == 0, "locks are released");
  sx::Quiet z; auto P = rs::published<PoseMsg>(u.pose); check(P.size() + u.q->size() == R.size(), "no state is lost or published twice"); if (P.size() > R.size()) return; for (size_t i = 0; i < P.size(); i++) samePoseMsg(P[i], R[i], i, u.frame, false);
  auto T = rs::published<PathMsg>(u.path); size_t last = 0; for (size_t k = 0; k < T.size(); k++) { auto& t = T[k]; check((int)t.header.seq == (int)k, "path: sequence number"); check(t.header.frame_id == u.frame, "path: frame"); check(t.poses.size() >= last && t.poses.size() > 0 && t.poses.size() * skip <= P.size(), "path: one pose in every pose rate / path rate"); if (t.poses.size() * skip > R.size() || t.poses.empty()) return; last = t.poses.size(); for (size_t i = 0; i < t.poses.size(); i++) { const Ref& r = R[(i + 1) * skip - 1]; samePose(t.poses[i].pose, r, "path pose"); check_eq(t.poses[i].header.stamp.toSec(), r.t, "path pose: time stamp"); check(t.poses[i].header.frame_id == u.frame, "path pose: frame"); } check_eq(t.header.stamp.toSec(), R[t.poses.size() * skip - 1].t, "path: time stamp of its last pose"); }
}
// a publisher that is never started can be destroyed
SX_HARNESS(c32_idle) { sx::Coop coop(0); { Pub u(choose("default", 2), 1); u.p.reset(); } sx::coop_check(); check(sx::locks_held() == 0, "locks are released"); }
// long runs: all at once or one after the other
SX_HARNESS(c32_long) {
  sx::Coop coop(0); sx::Concurrent conc; int skip = 1 + choose("thinning", 2), N = 130; bool burst = choose("burst", 2); Pub u(false, skip); vector<Ref> R; for (int i = 0; i < N; i++) { Ref r; r.R = I3(); r.p = V3(double(i), double(1), double(-i)); r.t = double(1700000000.0) + double(i) * double(0.125); r.P = MX::Identity(15, 15); R.push_back(r); }
  u.p->StartPublishingThread(); for (int i = 0; i < N; i++) { u.push(mkState(R[i], 0)); if (!burst) sx::coop_run(); } sx::coop_run(); sx::coop_run();
  auto P = rs::published<PoseMsg>(u.pose); check(P.size() == R.size(), "every queued state is published"); if (P.size() == R.size()) for (int i = 0; i < N; i++) samePoseMsg(P[i], R[i], i, u.frame, false);
  auto T = rs::published<PathMsg>(u.path); check(!T.empty(), "a path is published"); if (!T.empty()) { auto& t = T.back(); check((int)t.poses.size() == N / skip, "the path keeps every pose that is due"); if ((int)t.poses.size() == N / skip) for (size_t i = 0; i < t.poses.size(); i++) { const Ref& r = R[(i + 1) * skip - 1]; samePose(t.poses[i].pose, r, "path pose"); check_eq(t.poses[i].header.stamp.toSec(), r.t, "path pose: time stamp"); } }
  ros::shutdown(); u.p.reset(); sx::coop_check(); check(sx::locks_held() == 0, "locks are released");
}
