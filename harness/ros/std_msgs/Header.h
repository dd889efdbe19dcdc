#pragma once
#include <string>
#include <boost/shared_ptr.hpp>
namespace ros {
// the two fields of a time stamp are integers; they are kept as reals so that they can be symbolic
struct Time {
  double sec = 0, nsec = 0; Time() {} Time(const double& t) : sec(t), nsec(0) {} Time(const double& s, const double& n) : sec(s), nsec(n) {}
  Time& fromSec(const double& t) { sec = t; nsec = 0; return *this; } double toSec() const { return sec + nsec / 1000000000.0; } bool isZero() const { return toSec() == 0; } static Time now() { return Time(); }
};
}
namespace std_msgs { template <class A> struct Header_ { uint32_t seq = 0; ros::Time stamp; std::string frame_id; Header_() {} Header_(const A&) {} }; typedef Header_<std::allocator<void>> Header;
template <class A, class B> bool operator==(const Header_<A>& a, const Header_<B>& b) { return a.seq == b.seq && a.frame_id == b.frame_id && a.stamp.toSec() == b.stamp.toSec(); } }
