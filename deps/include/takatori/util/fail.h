#pragma once
#include <takatori/util/std_all.h>
#include <cstdlib>
namespace takatori::util {
[[noreturn]] inline void fail() noexcept { std::abort(); }
}
