#pragma once
#include <takatori/util/std_all.h>
#include <type_traits>
#include <utility>
#include "downcast.h"
namespace takatori::util {
template<class T, class Callback, class E, class... Args>
inline auto polymorphic_callback(Callback&& callback, E&& object, Args&&... args) {
    using O = std::conditional_t<std::is_const_v<std::remove_reference_t<E>>, T const, T>;
    using R = std::conditional_t<std::is_lvalue_reference_v<E>, O&, O&&>;
    return std::forward<Callback>(callback)(static_cast<R>(static_cast<O&>(object)), std::forward<Args>(args)...);
}
}
