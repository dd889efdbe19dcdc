#pragma once
namespace ros { namespace message_traits {
struct TrueType { static const bool value = true; }; struct FalseType { static const bool value = false; };
template <class T> struct IsMessage : FalseType {}; template <class T> struct IsFixedSize : FalseType {}; template <class T> struct HasHeader : FalseType {};
template <class T> struct MD5Sum {}; template <class T> struct DataType {}; template <class T> struct Definition {};
} }
