#pragma once
#include <takatori/util/std_all.h>
#include <cstddef>
#include <functional>
namespace takatori::util {
inline std::size_t hash_combine(std::size_t a, std::size_t b) noexcept { return a * 31 + b; }
template<class... T> [[nodiscard]] std::size_t hash(T const&... v) { std::size_t r = 0; ((r = hash_combine(r, std::hash<T> {}(v))), ...); return r; }
}
