#pragma once
#include <takatori/util/std_all.h>
#include "print_support.h"
namespace takatori::util {
template<class T> class optional_print_support { public: explicit optional_print_support(std::optional<T> const& v) : v_ { v } {}
 friend std::ostream& operator<<(std::ostream& o, optional_print_support const& s) { impl::print_any(o, s.v_); return o; } private: std::optional<T> const& v_; };
}
