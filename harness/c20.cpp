// @bound configured sample counts 0..3 (thorough: 0..4), one more sample than needed; every sample, mounting rotation and translation, prior and reported orientation
// @assume reported orientations are unit quaternions; with a reported orientation q the body attitude used is R(mounting) R(q)
#include "prop.h"
static ImuP fullSample(const string& n, const double& t, V3& w, V3& a, Quat& q, bool ori) { w = vec(n + ".w"); a = vec(n + ".a"); ImuP m = imu(t, w, a); if (ori) { q = n == "s0" ? quatAny(n) : quat(n); m->set_quaternion(q.w, q.x, q.y, q.z); } else m->set_quaternion(1, 0, 0, 0); return m; }
static void finite(const V3& v, const string& l) { for (int i = 0; i < 3; i++) check(!sx::is_nan_value(v(i)), l); }
SX_HARNESS(c20_static) {
  int n = choose("count", thorough() ? 5 : 4); bool given = choose("count_key", 2) || n, flag = choose("static_key", 2), ori = choose("use_orientation", 2), mounted = choose("mounted", 2), late = choose("late", 2);
  Yaml y; if (flag) y.flag("settings", "static_bias_initialization", true); if (given) y.num("settings", "init_bias_size", n); if (ori) y.flag("settings", "use_imu_ori_to_init", true);
  M3 Rm = I3(); V3 tr(0, 0, 0); if (mounted) { if (ori) { Rm = rotz("mount"); Quat h; double s = Rm(1, 0), c = Rm(0, 0); h.w = sym("mount.hw", 0.6, 1); h.z = s / (h.w + h.w); h.x = 0; h.y = 0; sx::define_square(h.w, (double(1) + c) / double(2)); y.put("settings", "rotation_imu2body", h); Rm = rotOf(h); } else { Quat q = quat("mount"); Rm = rotOf(q); y.put("settings", "rotation_imu2body", q); } tr = vec("tr"); y.put("settings", "translation_imu2body", tr); }
  V3 bg = vec("bg0"), ba = vec("ba0"); y.put("priors", "gyroscope_bias", bg).put("priors", "accelerometer_bias", ba);
  Prop p(y, ErrorType::RightInvariant); check(!p.p->get_bias_initialized(), "initialisation starts out incomplete");
  V3 sw(0, 0, 0), sa(0, 0, 0), g(0, 0, -9.80); vector<V3> w0(n + 1), a0(n + 1); vector<ImuP> ms;
  for (int i = 0; i <= n; i++) {
    V3 w, a; Quat q; ImuP m = fullSample("s" + std::to_string(i), double(i), w, a, q, ori); w0[i] = w; a0[i] = a; ms.push_back(m); if (i == n) break;
    V3 wb = Rm * w, ab = Rm * a; ab = ab - crs(wb, crs(wb, tr)); if (ori) { M3 R = Rm * rotOf(q); V3 down = R.transpose() * g; sa = sa + (ab + down); } else sa = sa + (ab + g); sw = sw + wb;
  }
  if (!late) for (auto& m : ms) p.q->push(m);
  for (int i = 0; i < n; i++) {
    if (late) { p.p->InitImuBias(); check(!p.p->get_bias_initialized(), "no sample, no bias"); p.q->push(ms[i]); }
    check(!p.p->get_bias_initialized(), "initialisation is incomplete before the configured number of samples"); p.p->InitImuBias(); check((int)p.q->size() == (late ? 0 : n - i), "one sample is used per call");
  }
  for (int i = 0; i < 2 && !p.p->get_bias_initialized(); i++) p.p->InitImuBias();
  check(p.p->get_bias_initialized(), "initialisation completes after the configured number of samples"); check((int)p.q->size() == (late ? 0 : 1), "exactly the configured number of samples is used");
  V3 eg = p.p->get_estimate_gyro_bias(), ea = p.p->get_estimate_accel_bias(); finite(eg, "the gyroscope bias is a number"); finite(ea, "the accelerometer bias is a number");
  if (n) { V3 mg = sw / double(n), ma = sa / double(n); meq(eg, mg, "gyroscope bias is the mean body rate of the samples"); meq(ea, ma, "accelerometer bias is the mean specific force without gravity and lever arm"); }
  else { meq(eg, bg, "without samples the configured gyroscope prior stays"); meq(ea, ba, "without samples the configured accelerometer prior stays"); }
  p.p->InitImuBias(); meq(p.p->get_estimate_gyro_bias(), eg, "further calls do not change the bias (gyroscope)"); meq(p.p->get_estimate_accel_bias(), ea, "further calls do not change the bias (accelerometer)"); check((int)p.q->size() == (late ? 0 : 1), "further calls use no samples");
  RobotState s; if (late) p.q->push(ms[n]); check(p.p->set_initial_state(s), "set_initial_state accepts a queued sample"); meq(s.get_gyroscope_bias(), eg, "the state starts with the estimated gyroscope bias"); meq(s.get_accelerometer_bias(), ea, "the state starts with the estimated accelerometer bias");
  check_eq(s.get_time(), double(n), "the state starts at the first unused sample"); for (int i = 0; i <= n; i++) { meq(ms[i]->get_angular_velocity(), w0[i], "samples are not changed (rate)"); meq(ms[i]->get_lin_acc(), a0[i], "samples are not changed (acceleration)"); }
}
SX_HARNESS(c20_prior) {
  bool given = choose("priors", 2), queued = choose("queued", 2); Yaml y; y.flag("settings", "static_bias_initialization", false); if (choose("count", 2)) y.num("settings", "init_bias_size", 3);
  V3 bg(0, 0, 0), ba(0, 0, 0); if (given) { bg = vec("bg0"); ba = vec("ba0"); y.put("priors", "gyroscope_bias", bg).put("priors", "accelerometer_bias", ba); }
  Prop p(y, ErrorType::LeftInvariant); if (queued) p.q->push(imu(1, vec("w"), vec("a"))); p.p->InitImuBias(); check(p.p->get_bias_initialized(), "configured priors are used at once"); check((int)p.q->size() == (queued ? 1 : 0), "no sample is used");
  meq(p.p->get_estimate_gyro_bias(), bg, "gyroscope prior"); meq(p.p->get_estimate_accel_bias(), ba, "accelerometer prior");
  if (!queued) p.q->push(imu(1, vec("w"), vec("a"))); RobotState s; check(p.p->set_initial_state(s), "set_initial_state accepts a queued sample"); meq(s.get_gyroscope_bias(), bg, "the state starts with the gyroscope prior"); meq(s.get_accelerometer_bias(), ba, "the state starts with the accelerometer prior");
}
