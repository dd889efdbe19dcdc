#pragma once
#define ROS_DECLARE_ALLINONE_SERIALIZER
namespace ros { namespace serialization { template <class T> struct Serializer {}; } }
