#pragma once
#include <cstdint>
#include <boost/shared_ptr.hpp>
