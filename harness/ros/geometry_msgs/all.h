#pragma once
#include "std_msgs/Header.h"
#include <array>
#include <vector>
namespace geometry_msgs {
struct Vector3 { double x = 0, y = 0, z = 0; }; struct Point { double x = 0, y = 0, z = 0; }; struct Quaternion { double x = 0, y = 0, z = 0, w = 0; };
struct Cov36 { std::array<double, 36> a; Cov36() { a.fill(double(0)); } double& operator[](size_t i) { return a[i]; } const double& operator[](size_t i) const { return a[i]; } double* begin() { return a.data(); } double* end() { return a.data() + 36; } double* data() { return a.data(); } size_t size() const { return 36; } double& at(size_t i) { return a.at(i); } void fill(const double& v) { a.fill(v); } };
struct Pose { Point position; Quaternion orientation; }; struct Twist { Vector3 linear, angular; };
struct PoseStamped { std_msgs::Header header; Pose pose; }; struct PoseWithCovariance { Pose pose; Cov36 covariance; }; struct PoseWithCovarianceStamped { std_msgs::Header header; PoseWithCovariance pose; };
struct TwistStamped { std_msgs::Header header; Twist twist; }; struct TwistWithCovariance { Twist twist; Cov36 covariance; }; struct TwistWithCovarianceStamped { std_msgs::Header header; TwistWithCovariance twist; };
struct Vector3Stamped { std_msgs::Header header; Vector3 vector; };
}
