#pragma once
#include "ros/ros.h"
namespace message_filters {
template <class M> struct Subscriber { std::vector<std::function<void(const boost::shared_ptr<const M>&)>> sinks; Subscriber(ros::NodeHandle&, const std::string& topic, uint32_t) { ros::stub::listen<M>(topic, [this](const boost::shared_ptr<const M>& m) { for (auto& s : sinks) s(m); }); } Subscriber(const Subscriber&) = delete; };
}
