// Helpers to drive imu_filter::ImuAngVelEKF through its public interface only, and an independent reference filter.
#pragma once
#include "h.h"
using imu_filter::ImuAngVelEKF;
struct Gy {
  IMUQueuePtr gq = make_shared<IMUQueue>(), out; vector<IMUQueuePtr> iq; AngularVelocityQueuePtr aq = make_shared<AngularVelocityQueue>();
  Mut gm = mut(), am = mut(), om; vector<Mut> im; shared_ptr<ImuAngVelEKF> f; bool gyro, angv; int imus;
  // five: the constructor that takes the queues (one IMU and one body-rate queue, random walk propagation)
  Gy(const Yaml& y, bool gyro_, int imus_, bool angv_, bool five = false) : gyro(gyro_), angv(angv_), imus(imus_) {
    for (int i = 0; i < (imus > 1 ? imus : 1); i++) { iq.push_back(make_shared<IMUQueue>()); im.push_back(mut()); }
    if (five) f = make_shared<ImuAngVelEKF>(iq[0], im[0], aq, am, y.write());
    else f = make_shared<ImuAngVelEKF>(y.write());
    if (gyro) f->add_gyro_propagate(gq, gm);
    if (!five) { for (int i = 0; i < imus; i++) f->add_imu_correction(iq[i], im[i]); if (angv) f->add_ang_vel_correction(aq, am); }
    out = f->get_filtered_imu_data_buffer_ptr(); om = f->get_filtered_imu_data_buffer_mutex_ptr();
  }
  ImuP take() { if (out->empty()) return nullptr; ImuP m = out->front(); out->pop(); return m; }
};
// textbook Kalman filter on [rate; rate bias]
struct Kf {
  VX e = VX::Zero(6); MX P, Q, Ri, Re, Hi, He;
  Kf(bool all, const double& s0, const double& s1, const double& q0, const double& q1, const double& ri, const double& re) {
    P = MX::Zero(6, 6); Q = P; Hi = MX::Zero(3, 6); He = Hi;
    for (int i = 0; i < 3; i++) { P(i, i) = s0 * s0; P(3 + i, 3 + i) = s1 * s1; Q(i, i) = q0 * q0; Q(3 + i, 3 + i) = q1 * q1; if (all || i == 2) { Hi(i, i) = 1; Hi(i, 3 + i) = 1; He(i, i) = 1; } }
    Ri = ri * ri * I3(); Re = re * re * I3();
  }
  void propagate(const V3& d) { for (int i = 0; i < 3; i++) e(i) = e(i) + d(i); MX S = P + Q; P = S; }
  void correct(const V3& y, const MX& H, const MX& R) { MX S = H * P * H.transpose() + R; MX Si = S.inverse(); MX K = P * H.transpose() * Si; VX he = H * e; VX z = V3(y) - he; VX d = K * z; e = e + d; MX A = eyen(6) - K * H; MX B = A * P; P = B; }
  void imu(const V3& y) { correct(y, Hi, Ri); }
  void enc(const V3& y) { correct(y, He, Re); }
};
// an IMU message with every field set
inline ImuP fullImu(const string& n, const double& t, const V3& w) { ImuP m = imu(t, w, vec(n + ".a", -9, 9)); Quat q = quat(n); m->set_quaternion(q.w, q.x, q.y, q.z); return m; }
