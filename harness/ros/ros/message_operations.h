#pragma once
#include <iostream>
namespace ros { namespace message_operations { template <class T> struct Printer { template <class S> static void stream(S& s, const std::string&, const T&) {} }; } }
