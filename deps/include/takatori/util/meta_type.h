#pragma once
#include <takatori/util/std_all.h>
namespace takatori::util {
template<class T> struct meta_type { using type = T; };
template<class T> using meta_type_t = typename T::type;
}
