// Helpers to drive filter::inekf::ImuPropagation through its public interface only.
#pragma once
#include "h.h"
using filter::inekf::ImuPropagation;
using state::RobotState;
// the rotation over dt is at least 1e-8 rad
inline void turns(const V3& w, const double& dt, sx::dbl least = 1e-8) { using std::sqrt; assume(ge(sqrt(dot(w, w)) * dt, double(least))); }
struct Prop {
  IMUQueuePtr q = make_shared<IMUQueue>(); Mut m = mut(); shared_ptr<ImuPropagation> p;
  Prop(const Yaml& y, ErrorType e) { p = make_shared<ImuPropagation>(q, m, e, y.write()); }
  // makes `first` the sample that the next Propagate call uses
  void prime(const ImuP& first) { RobotState dummy; q->push(first); bool ok = p->set_initial_state(dummy); check(ok, "set_initial_state accepts a queued sample"); }
  bool step(RobotState& s, const ImuP& next) { q->push(next); return p->Propagate(s); }
};
inline const char* etName(ErrorType e) { return e == ErrorType::LeftInvariant ? "left" : "right"; }
inline ErrorType etOf(int i) { return i ? ErrorType::RightInvariant : ErrorType::LeftInvariant; }
// reference mean after dt with constant body rate w and specific force a
inline MX meanRef(const MX& X, const V3& w, const V3& a, const double& dt, bool zeroRate) {
  V3 phi = w * dt; MX Y = X; M3 R = X.block(0, 0, 3, 3); V3 v = X.block(0, 3, 3, 1), p = X.block(0, 4, 3, 1), g(0, 0, -9.80);
  M3 G0 = zeroRate ? I3() : gammaRef(phi, 0), G1 = zeroRate ? I3() : gammaRef(phi, 1), G2 = zeroRate ? M3(I3() * double(0.5)) : gammaRef(phi, 2);
  M3 Rn = R * G0; Y.block(0, 0, 3, 3) = Rn;
  V3 vn = v + (R * (G1 * a)) * dt + g * dt; Y.block(0, 3, 3, 1) = vn;
  V3 pn = p + v * dt + (R * (G2 * a)) * (dt * dt) + g * (double(0.5) * dt * dt); Y.block(0, 4, 3, 1) = pn;
  return Y;
}
