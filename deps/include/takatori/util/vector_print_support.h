#pragma once
#include <takatori/util/std_all.h>
#include "print_support.h"
namespace takatori::util {
template<class T, class A = std::allocator<T>> class vector_print_support { public: explicit vector_print_support(std::vector<T, A> const& v) : v_ { v } {}
 friend std::ostream& operator<<(std::ostream& o, vector_print_support const& s) { impl::print_any(o, s.v_); return o; } private: std::vector<T, A> const& v_; };
}
