#pragma once
#include <takatori/util/std_all.h>
#include <cstddef>
#include <functional>
#include <memory>
#include <ostream>
#include <optional>
#include <stdexcept>
#include <type_traits>
#include "assertion.h"
namespace takatori::util {
template<class T>
class optional_ptr {
public:
    using element_type = T;
    using value_type = T;
    using reference = std::add_lvalue_reference_t<T>;
    using pointer = std::add_pointer_t<T>;
    constexpr optional_ptr() = default;
    constexpr optional_ptr(std::nullptr_t) noexcept {} // NOLINT
    constexpr optional_ptr(std::nullopt_t) noexcept {} // NOLINT
    constexpr optional_ptr(reference r) noexcept : p_ { std::addressof(r) } {} // NOLINT
    explicit constexpr optional_ptr(pointer p) noexcept : p_ { p } {}
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>>
    constexpr optional_ptr(optional_ptr<U> const& o) noexcept : p_ { o.get() } {} // NOLINT
    [[nodiscard]] constexpr pointer get() const noexcept { return p_; }
    [[nodiscard]] constexpr reference value() const { if (!p_) throw std::bad_optional_access(); return *p_; }
    [[nodiscard]] constexpr reference operator*() const noexcept { BOOST_ASSERT(p_ != nullptr); return *p_; }
    [[nodiscard]] constexpr pointer operator->() const noexcept { BOOST_ASSERT(p_ != nullptr); return p_; }
    [[nodiscard]] constexpr bool has_value() const noexcept { return p_ != nullptr; }
    [[nodiscard]] constexpr explicit operator bool() const noexcept { return p_ != nullptr; }
    void reset() noexcept { p_ = nullptr; }
    void reset(pointer p) noexcept { p_ = p; }
    reference emplace(reference r) noexcept { p_ = std::addressof(r); return r; }
    void swap(optional_ptr& o) noexcept { std::swap(p_, o.p_); }
private:
    pointer p_ { nullptr };
};
template<class T> optional_ptr(T&) -> optional_ptr<T>;
template<class T> optional_ptr(T*) -> optional_ptr<T>;
template<class T> optional_ptr(optional_ptr<T>) -> optional_ptr<T>;
template<class A, class B> constexpr bool operator==(optional_ptr<A> const& a, optional_ptr<B> const& b) noexcept { return a.get() == b.get(); }
template<class A, class B> constexpr bool operator!=(optional_ptr<A> const& a, optional_ptr<B> const& b) noexcept { return a.get() != b.get(); }
namespace optional_ptr_impl {
template<class T> struct is_opt : std::false_type {};
template<class T> struct is_opt<optional_ptr<T>> : std::true_type {};
}
template<class A, class B, class = std::enable_if_t<!optional_ptr_impl::is_opt<B>::value && !std::is_same_v<B, std::nullptr_t>>>
constexpr bool operator==(optional_ptr<A> const& a, B const& b) { return a && *a == b; }
template<class A, class B, class = std::enable_if_t<!optional_ptr_impl::is_opt<B>::value && !std::is_same_v<B, std::nullptr_t>>>
constexpr bool operator!=(optional_ptr<A> const& a, B const& b) { return !(a == b); }
template<class A> constexpr bool operator==(optional_ptr<A> const& a, std::nullptr_t) noexcept { return a.get() == nullptr; }
template<class A> constexpr bool operator!=(optional_ptr<A> const& a, std::nullptr_t) noexcept { return a.get() != nullptr; }
template<class A> constexpr bool operator==(std::nullptr_t, optional_ptr<A> const& a) noexcept { return a.get() == nullptr; }
template<class A> constexpr bool operator!=(std::nullptr_t, optional_ptr<A> const& a) noexcept { return a.get() != nullptr; }
template<class T> std::ostream& operator<<(std::ostream& out, optional_ptr<T> const& v) { if (v) return out << *v; return out << "(empty)"; }
}
template<class T> struct std::hash<::takatori::util::optional_ptr<T>> {
    std::size_t operator()(::takatori::util::optional_ptr<T> const& v) const noexcept { return std::hash<T*> {}(v.get()); }
};
