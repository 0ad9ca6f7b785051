#pragma once
#include <takatori/util/std_all.h>
#include <memory>
#include <type_traits>
#include "assertion.h"
namespace takatori::util {
template<class T, class U>
[[nodiscard]] inline std::enable_if_t<std::is_base_of_v<std::remove_cv_t<U>, T>, std::conditional_t<std::is_const_v<U>, std::add_const_t<T>, T>*>
downcast(U* p) noexcept { return dynamic_cast<std::conditional_t<std::is_const_v<U>, std::add_const_t<T>, T>*>(p); }
template<class T, class U>
[[nodiscard]] inline std::enable_if_t<std::is_base_of_v<std::remove_cv_t<U>, T>, std::conditional_t<std::is_const_v<U>, std::add_const_t<T>, T>&>
downcast(U& r) { return dynamic_cast<std::conditional_t<std::is_const_v<U>, std::add_const_t<T>, T>&>(r); }
template<class T, class U, class = std::enable_if_t<!std::is_lvalue_reference_v<U>>>
[[nodiscard]] inline std::enable_if_t<std::is_base_of_v<std::remove_cv_t<U>, T>, T&&> downcast(U&& r) { return dynamic_cast<T&&>(std::move(r)); }

// the stand-in checks the cast (the real one only asserts in debug builds)
template<class T, class U>
[[nodiscard]] inline std::enable_if_t<std::is_base_of_v<std::remove_cv_t<U>, T>, std::conditional_t<std::is_const_v<U>, std::add_const_t<T>, T>*>
unsafe_downcast(U* p) noexcept {
    auto* r = dynamic_cast<std::conditional_t<std::is_const_v<U>, std::add_const_t<T>, T>*>(p);
    BOOST_ASSERT(p == nullptr || r != nullptr);
    return r;
}
template<class T, class U>
[[nodiscard]] inline std::enable_if_t<std::is_base_of_v<std::remove_cv_t<U>, T>, std::conditional_t<std::is_const_v<U>, std::add_const_t<T>, T>&>
unsafe_downcast(U& r) noexcept {
    auto* p = dynamic_cast<std::conditional_t<std::is_const_v<U>, std::add_const_t<T>, T>*>(std::addressof(r));
    BOOST_ASSERT(p != nullptr);
    return *p;
}
template<class T, class U, class = std::enable_if_t<!std::is_lvalue_reference_v<U>>>
[[nodiscard]] inline std::enable_if_t<std::is_base_of_v<std::remove_cv_t<U>, T>, T&&>
unsafe_downcast(U&& r) noexcept {
    auto* p = dynamic_cast<T*>(std::addressof(r));
    BOOST_ASSERT(p != nullptr);
    return std::move(*p);
}
}
