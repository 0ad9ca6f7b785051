#pragma once
#include <takatori/util/std_all.h>
#include <cstddef>
#include <memory>
#include <optional>
#include <type_traits>
#include "assertion.h"
namespace takatori::util {
/// optional rvalue pointer
template<class T>
class rvalue_ptr {
public:
    using element_type = T;
    using value_type = T;
    using reference = T&&;
    using pointer = T*;
    constexpr rvalue_ptr() = default;
    constexpr rvalue_ptr(std::nullptr_t) noexcept {} // NOLINT
    constexpr rvalue_ptr(T&& r) noexcept : p_ { std::addressof(r) } {} // NOLINT
    explicit constexpr rvalue_ptr(pointer p) noexcept : p_ { p } {}
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>>
    constexpr rvalue_ptr(rvalue_ptr<U> const& o) noexcept : p_ { o.get() } {} // NOLINT
    template<class U, class = std::enable_if_t<std::is_base_of_v<T, U> && !std::is_same_v<T, U>>, class = void>
    constexpr rvalue_ptr(U&& r) noexcept : p_ { std::addressof(r) } {} // NOLINT
    [[nodiscard]] constexpr pointer get() const noexcept { return p_; }
    [[nodiscard]] constexpr reference value() const { if (!p_) throw std::bad_optional_access(); return std::move(*p_); }
    [[nodiscard]] constexpr reference operator*() const noexcept { BOOST_ASSERT(p_ != nullptr); return std::move(*p_); }
    [[nodiscard]] constexpr pointer operator->() const noexcept { return p_; }
    [[nodiscard]] constexpr bool has_value() const noexcept { return p_ != nullptr; }
    [[nodiscard]] constexpr explicit operator bool() const noexcept { return p_ != nullptr; }
    void reset() noexcept { p_ = nullptr; }
private:
    pointer p_ { nullptr };
};
template<class T> rvalue_ptr(T&&) -> rvalue_ptr<T>;
template<class T> rvalue_ptr(T*) -> rvalue_ptr<T>;
}
