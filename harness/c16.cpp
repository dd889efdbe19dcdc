// @bound every component in [-3,3]; quaternion components in [-2,2] plus NaN and infinity in any one of them; two successive stores per field; joint vectors of 0..3 entries, contact vectors of 4 flags
// @bound type parameter double
// @need robots
#include "h.h"
#include "drift/kinematics/mini_cheetah_kinematics.h"
#include "drift/measurement/odom.h"
// what is stored comes back as it is, up to rounding of a last digit
#define check_eq(a, b, l) check_eq(a, b, l, 1e-13)
#define meq(a, b, l) meq(a, b, l, 1e-13)
using namespace measurement; using kinematics::MiniCheetahKinematics;
typedef Eigen::Matrix<bool, Eigen::Dynamic, 1> CX;
static void stamps(Measurement& m, MeasurementType t, const string& what) {
  check(m.get_type() == t, what + " reports its own type"); check_eq(m.get_time(), double(0), what + " starts at time zero");
  double a = sym("time_a"), b = sym("time_b"); m.set_time(a); check_eq(m.get_time(), a, what + " returns the time set last"); m.set_header(7, b, "body"); check_eq(m.get_time(), b, what + " returns the time set last"); check(m.header.seq == 7 && m.header.frame_id == "body", what + " returns the header set last");
  auto h = m.header; h.seq = 9; h.stamp = a; h.frame_id = "imu"; m.set_header(h); check(m.header.seq == 9 && m.header.frame_id == "imu", what + " returns the header set last"); check_eq(m.get_time(), a, what + " returns the time set last"); check(m.get_type() == t, what + " keeps its type");
}
SX_HARNESS(c16_velocity) {
  VelocityMeasurement<double> m; stamps(m, VELOCITY, "velocity"); meq(m.get_velocity(), V3(V3::Zero()), "velocity starts at zero"); V3 a = vec("a", -3, 3), b = vec("b", -3, 3); m.set_velocity(a(0), a(1), a(2)); meq(m.get_velocity(), a, "velocity returns what was stored"); m.set_velocity(b(0), b(1), b(2)); meq(m.get_velocity(), b, "velocity returns what was stored last"); check_eq(m.get_time(), sym("time_a"), "storing a velocity keeps the time");
  double n2 = dot(b, b); assume(ge(n2, double(0.01))); check_eq(sq(m.get_vel_mag()), n2, "velocity magnitude"); check(ge(m.get_vel_mag(), double(0)), "velocity magnitude"); V3 u = m.get_vel_unit_vec(); V3 r = u * m.get_vel_mag(); meq(r, b, "velocity direction"); VelocityMeasurement<double> c(m); meq(c.get_velocity(), b, "a copy holds the same velocity"); check_eq(c.get_time(), sym("time_a"), "a copy holds the same time");
}
SX_HARNESS(c16_angular_velocity) {
  AngularVelocityMeasurement<double> m; stamps(m, ANGULAR_VELOCITY, "angular velocity"); meq(m.get_angular_velocity(), V3(V3::Zero()), "angular velocity starts at zero"); V3 a = vec("a", -3, 3), b = vec("b", -3, 3); m.set_angular_velocity(a(0), a(1), a(2)); meq(m.get_angular_velocity(), a, "angular velocity returns what was stored"); m.set_angular_velocity(b(0), b(1), b(2)); meq(m.get_angular_velocity(), b, "angular velocity returns what was stored last"); check_eq(m.get_time(), sym("time_a"), "storing an angular velocity keeps the time");
  double n2 = dot(b, b); assume(ge(n2, double(0.01))); check_eq(sq(m.get_angular_velocity_magnitude()), n2, "angular velocity magnitude"); check(ge(m.get_angular_velocity_magnitude(), double(0)), "angular velocity magnitude"); V3 u = m.get_ang_vel_unit_vec(); V3 r = u * m.get_angular_velocity_magnitude(); meq(r, b, "angular velocity direction");
}
SX_HARNESS(c16_contact_joint) {
  ContactMeasurement m; stamps(m, CONTACT, "contact"); int bits = choose("contacts", 16); CX c(4); for (int i = 0; i < 4; i++) c(i) = (bits >> i) & 1; m.set_contact(c); check(m.get_contact() == c, "contact returns what was stored"); CX d = CX::Constant(2, true); m.set_contact(d); check(m.get_contact().rows() == 2 && m.get_contact() == d, "contact returns what was stored last");
}
SX_HARNESS(c16_joint) {
  int n = choose("joints", 4); JointStateMeasurement<double> m; stamps(m, JOINT_STATE, "joint state"); VX p = vecn("p", n, -3, 3), v = vecn("v", n, -3, 3), e = vecn("e", n, -3, 3), z = vecn("z", n, -3, 3); m.set_joint_state(p, v, e); meq(m.get_joint_pos(), p, "joint positions return what was stored"); meq(m.get_joint_vel(), v, "joint velocities return what was stored"); meq(m.get_joint_effort(), e, "joint efforts return what was stored"); m.set_encoders(z); meq(m.get_joint_pos(), z, "joint positions return what was stored last"); meq(m.get_joint_vel(), v, "storing positions keeps the velocities"); meq(m.get_joint_effort(), e, "storing positions keeps the efforts");
}
SX_HARNESS(c16_legged) {
  MiniCheetahKinematics m; stamps(m, LEGGED_KINEMATICS, "legged kinematics"); VX q = vecn("q", 12, -1, 1), d = vecn("d", 12, -1, 1); CX c(4); c << true, false, true, false; MiniCheetahKinematics k(q, d, c); stamps(k, LEGGED_KINEMATICS, "legged kinematics built from data"); for (int i = 0; i < 12; i++) check_eq(k.get_joint_state(i), q(i), "joint angles return what was stored");
  FakeLegs f(1, MX(MX::Zero(3, 1)), MX(MX::Zero(3, 3)), {1}); stamps(f, LEGGED_KINEMATICS, "a legged kinematics measurement"); MiniCheetahKinematics t = k; CX e(4); e << false, true, true, false; t.set_contact(e); for (int i = 0; i < 4; i++) { check(k.get_contact(i) == c(i), "a copy is independent"); check(t.get_contact(i) == e(i), "contact flags return what was stored last"); }
}
SX_HARNESS(c16_odom) {
  OdomMeasurement m; stamps(m, ODOM, "odometry"); MX I = MX::Identity(4, 4); meq(m.get_transformation(), I, "odometry starts at the identity"); Quat q = quatAny("q"); V3 t = vec("t"); Eigen::Quaternion<double> eq_(q.w, q.x, q.y, q.z); MX T = MX::Identity(4, 4); T.block(0, 0, 3, 3) = rotOf(q); T.block(0, 3, 3, 1) = t;
  OdomMeasurement o(t, eq_, 5, sym("time_c"), "odom"); check(o.get_type() == ODOM, "odometry built from data reports its own type"); meq(o.get_transformation(), T, "odometry holds the given pose"); check_eq(o.get_time(), sym("time_c"), "odometry holds the given time"); check(o.header.seq == 5 && o.header.frame_id == "odom", "odometry holds the given header"); m.set_translation(t); m.set_rotation(eq_); m.set_transformation(); meq(m.get_transformation(), T, "odometry holds the pose stored last");
}
SX_HARNESS(c16_imu) {
  ImuMeasurement<double> m; stamps(m, IMU, "imu"); meq(m.get_angular_velocity(), V3(V3::Zero()), "imu rate starts at zero"); meq(m.get_lin_acc(), V3(V3::Zero()), "imu acceleration starts at zero"); meq(m.get_rotation_matrix(), I3(), "imu orientation starts at the identity"); Quat q = quatAny("q"); V3 w = vec("w"), a = vec("a"), w2 = vec("w2"), a2 = vec("a2");
  m.set_quaternion(q.w, q.x, q.y, q.z); m.set_angular_velocity(w(0), w(1), w(2)); m.set_lin_acc(a(0), a(1), a(2));
  auto all = [&](const V3& ww, const V3& aa, const char* l) { meq(m.get_angular_velocity(), ww, l); meq(m.get_lin_acc(), aa, l); check_eq(m.get_quaternion().w(), q.w, l); check_eq(m.get_quaternion().x(), q.x, l); check_eq(m.get_quaternion().y(), q.y, l); check_eq(m.get_quaternion().z(), q.z, l); meq(m.get_rotation_matrix(), rotOf(q), l); check_eq(m.get_time(), sym("time_a"), l); };
  all(w, a, "imu returns what was stored"); m.set_lin_acc(a2(0), a2(1), a2(2)); all(w, a2, "storing an acceleration keeps the other fields"); m.set_angular_velocity(w2(0), w2(1), w2(2)); all(w2, a2, "storing a rate keeps the other fields");
}
static bool store(ImuMeasurement<double>& m, const double& w, const double& x, const double& y, const double& z) { try { m.set_quaternion(w, x, y, z); return true; } catch (const std::invalid_argument&) { return false; } }
SX_HARNESS(c16_quaternion) {
  ImuMeasurement<double> m; m.set_quaternion(double(0.6), double(0), double(0.8), double(0)); double w = sym("w", -2, 2), x = sym("x", -2, 2), y = sym("y", -2, 2), z = sym("z", -2, 2); double n = w * w + x * x + y * y + z * z; bool ok = store(m, w, x, y, z); Eigen::Quaternion<double> q = m.get_quaternion();
  if (ok) { check(And(lt(n, double(1 + 1.0e-5)), gt(n, double(1 - 1.0e-5))), "only quaternions of unit norm are accepted"); check_eq(q.w(), w, "the accepted quaternion is stored"); check_eq(q.x(), x, "the accepted quaternion is stored"); check_eq(q.y(), y, "the accepted quaternion is stored"); check_eq(q.z(), z, "the accepted quaternion is stored"); }
  else { check(Or(ge(n, double(1 + 1.0e-5)), le(n, double(1 - 1.0e-5))), "every quaternion of unit norm is accepted"); check_eq(q.w(), double(0.6), "a rejected quaternion leaves the stored one"); check_eq(q.x(), double(0), "a rejected quaternion leaves the stored one"); check_eq(q.y(), double(0.8), "a rejected quaternion leaves the stored one"); check_eq(q.z(), double(0), "a rejected quaternion leaves the stored one"); }
}
SX_HARNESS(c16_not_finite) {
  ImuMeasurement<double> m; int which = choose("component", 4), kind = choose("kind", 3); double v[4]; for (int i = 0; i < 4; i++) v[i] = sym("q" + std::to_string(i), -1, 1); v[which] = kind == 0 ? sx::nan_value() : kind == 1 ? sx::inf_value() : -sx::inf_value();
  check(!store(m, v[0], v[1], v[2], v[3]), "quaternions with a component that is not finite are rejected"); meq(m.get_rotation_matrix(), I3(), "a rejected quaternion leaves the stored one");
}
