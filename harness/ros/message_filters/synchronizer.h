#pragma once
#include "message_filters/subscriber.h"
#include <deque>
namespace message_filters {
// pairs the k-th messages of both inputs
template <class P> struct Synchronizer {
  typedef typename P::A A; typedef typename P::B B; std::deque<boost::shared_ptr<const A>> a; std::deque<boost::shared_ptr<const B>> b; std::vector<boost::function<void(const boost::shared_ptr<const A>&, const boost::shared_ptr<const B>&)>> cbs;
  Synchronizer(const P&, Subscriber<A>& x, Subscriber<B>& y) { x.sinks.push_back([this](const boost::shared_ptr<const A>& m) { a.push_back(m); go(); }); y.sinks.push_back([this](const boost::shared_ptr<const B>& m) { b.push_back(m); go(); }); }
  Synchronizer(const Synchronizer&) = delete;
  void go() { while (!a.empty() && !b.empty()) { auto m = a.front(); auto n = b.front(); a.pop_front(); b.pop_front(); for (auto& f : cbs) f(m, n); } }
  template <class C> void registerCallback(const C& c) { cbs.push_back(c); }
};
}
