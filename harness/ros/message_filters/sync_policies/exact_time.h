#pragma once
#include <cstdint>
namespace message_filters { namespace sync_policies { template <class M, class N> struct ExactTime { typedef M A; typedef N B; ExactTime(uint32_t) {} }; } }
