#pragma once
#include <takatori/util/std_all.h>
namespace takatori::util {
template<auto K> struct enum_tag_t { static constexpr auto value = K; explicit enum_tag_t() = default; };
template<auto K> inline constexpr enum_tag_t<K> enum_tag {};
}
