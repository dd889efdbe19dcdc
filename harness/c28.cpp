// @bound every value of the last augmented vector and of the rest of the state (attitude about the vertical), symmetric covariance, 1..3 augmented columns, both previous flag values; up to 3 consecutive steps
// @assume exact real arithmetic (values within rounding of the threshold are not distinguished)
#include "est.h"
SX_HARNESS(c28_slip) {
  EstConf c; Est E(c, etOf(choose("error", 2)), kNone); int aug = 1 + choose("aug", 3), n = 15 + 3 * aug; vector<V3> d; for (int i = 0; i < aug; i++) d.push_back(vec("d" + std::to_string(i), -5, 5));
  MX X = poseX(rotz("R"), vec("v"), vec("p"), d); VX th = vecn("th", 6); RobotState s = stateOf(X, th, symm("P", n), choose("bias_update", 2), sym("t", 0, 20)); s.set_slip_flag(choose("flag", 2)); s.set_body_angular_velocity(vec("w")); s.set_continuous_noise_covariance(symm("Q", n)); int steps = 1 + choose("steps", thorough() ? 3 : 2);
  for (int k = 0; k < steps; k++) {
    if (k) { V3 x = vec("x" + std::to_string(k), -5, 5); s.set_aug_state(s.dimX() - 1, x); d[aug - 1] = x; if (aug == 2) { V3 o(0, 0, 0); s.set_aug_state(5, o); } }
    E.e->set_state(s); E.e->SlipEstimatorStep(); RobotState r = E.e->get_state(); V3 l = d[aug - 1]; double chi = dot(l, l) / double(0.001);
    check(r.get_slip_flag() == 0 || r.get_slip_flag() == 1, "the slip flag is 0 or 1"); if (r.get_slip_flag()) check(gt(chi, double(4.642)), "slip is raised only above the threshold"); else check(le(chi, double(4.642)), "slip is cleared only at or below the threshold");
    s.set_slip_flag(r.get_slip_flag()); sameState(r, s, "the slip step changes nothing else"); check(E.published() == 0, "the slip step publishes nothing");
  }
}
