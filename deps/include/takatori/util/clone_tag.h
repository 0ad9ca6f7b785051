#pragma once
#include <takatori/util/std_all.h>
// Stand-in for takatori/util/clone_tag.h
namespace takatori::util {
struct clone_tag_t { explicit constexpr clone_tag_t() = default; };
inline constexpr clone_tag_t clone_tag {};
}
