// Stand-in for the ROS client library: messages are delivered by the harness and published messages are recorded.
#pragma once
#include <boost/bind.hpp>
#include <boost/function.hpp>
#include <boost/shared_ptr.hpp>
#include <boost/make_shared.hpp>
#include "std_msgs/Header.h"
namespace ros {
namespace stub {
struct Bus {
  std::map<std::string, std::vector<std::function<void(boost::shared_ptr<const void>)>>> in;   // topic -> callbacks
  std::map<std::string, std::vector<std::shared_ptr<void>>> out;                               // topic -> published messages
  std::map<std::string, std::string> types;
  std::mutex tick; bool ok = true; int spinners = 0;
};
inline Bus& bus() { static Bus b; return b; }
inline void reset() { bus().in.clear(); bus().out.clear(); bus().types.clear(); bus().ok = true; bus().spinners = 0; }
inline void tick() { bus().tick.lock(); bus().tick.unlock(); }
template <class M> void deliver(const std::string& topic, const M& m) { boost::shared_ptr<const M> p(new M(m)); auto cbs = bus().in[topic]; for (auto& f : cbs) f(p); }
template <class M> std::vector<M> published(const std::string& topic) { std::vector<M> r; for (auto& p : bus().out[topic]) r.push_back(*std::static_pointer_cast<M>(p)); return r; }
template <class M> void listen(const std::string& topic, std::function<void(const boost::shared_ptr<const M>&)> f) { bus().in[topic].push_back([f](boost::shared_ptr<const void> p) { f(boost::static_pointer_cast<const M>(p)); }); }
}  // namespace stub
inline bool ok() { return stub::bus().ok; }
inline void init(int&, char**, const std::string&, uint32_t = 0) {}
inline void shutdown() { stub::bus().ok = false; }
inline void spin() {} inline void spinOnce() { stub::tick(); }
inline void waitForShutdown() { while (ok()) stub::tick(); }
struct Duration { double s; Duration(const double& v = 0) : s(v) {} bool sleep() const { stub::tick(); return true; } double toSec() const { return s; } };
struct Rate { double hz; Rate(const double& r) : hz(r) {} explicit Rate(const Duration& d) : hz(1 / d.s) {} bool sleep() { stub::tick(); return true; } void reset() {} };
struct Subscriber { std::string topic; void shutdown() {} std::string getTopic() const { return topic; } };
struct Publisher {
  std::string topic;
  template <class M> void publish(const M& m) const { stub::tick(); stub::bus().out[topic].push_back(std::static_pointer_cast<void>(std::make_shared<M>(m))); }
  template <class M> void publish(const boost::shared_ptr<M>& m) const { publish(*m); }
  uint32_t getNumSubscribers() const { return 1; } std::string getTopic() const { return topic; }
};
struct NodeHandle {
  NodeHandle(const std::string& = "") {}
  template <class M> Subscriber subscribe(const std::string& topic, uint32_t, const boost::function<void(const boost::shared_ptr<M const>&)>& f) { stub::listen<M>(topic, f); return Subscriber{topic}; }
  template <class M, class T> Subscriber subscribe(const std::string& topic, uint32_t, void (T::*f)(const boost::shared_ptr<M const>&), T* o) { stub::listen<M>(topic, [f, o](const boost::shared_ptr<M const>& m) { (o->*f)(m); }); return Subscriber{topic}; }
  template <class M> Publisher advertise(const std::string& topic, uint32_t, bool = false) { return Publisher{topic}; }
};
struct MultiThreadedSpinner { MultiThreadedSpinner(uint32_t = 0) {} void spin() { waitForShutdown(); } };
struct AsyncSpinner { AsyncSpinner(uint32_t = 0) {} void start() { stub::bus().spinners++; } void stop() { stub::bus().spinners--; } };
}  // namespace ros
#define ROS_INFO(...) ((void)0)
#define ROS_WARN(...) ((void)0)
#define ROS_ERROR(...) ((void)0)
#define ROS_INFO_STREAM(x) ((void)0)
#define ROS_WARN_STREAM(x) ((void)0)
#define ROS_ERROR_STREAM(x) ((void)0)
