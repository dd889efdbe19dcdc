#pragma once
#include <cstdint>
namespace message_filters { namespace sync_policies { template <class M, class N> struct ApproximateTime { typedef M A; typedef N B; ApproximateTime(uint32_t) {} }; } }
