#pragma once
#include <takatori/util/std_all.h>
#include <cstddef>
#include <functional>
#include <memory>
#include <ostream>
#include <type_traits>
#include <utility>
#include "optional_ptr.h"
namespace takatori::util {
/// shared pointer or plain (non-owning) pointer
template<class T>
class maybe_shared_ptr {
public:
    using element_type = T;
    using pointer = T*;
    using reference = std::add_lvalue_reference_t<T>;
    using shared_pointer = std::shared_ptr<T>;
    constexpr maybe_shared_ptr() = default;
    constexpr maybe_shared_ptr(std::nullptr_t) noexcept {} // NOLINT
    explicit constexpr maybe_shared_ptr(pointer p) noexcept : p_ { p } {}
    maybe_shared_ptr(shared_pointer p) noexcept : s_ { std::move(p) }, p_ { s_.get() } {} // NOLINT
    maybe_shared_ptr(reference r) noexcept : p_ { std::addressof(r) } {} // NOLINT
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>>
    maybe_shared_ptr(std::shared_ptr<U> p) noexcept : s_ { std::move(p) }, p_ { s_.get() } {} // NOLINT
    template<class U, class D, class = std::enable_if_t<std::is_convertible_v<U*, T*>>>
    maybe_shared_ptr(std::unique_ptr<U, D> p) : s_ { std::move(p) }, p_ { s_.get() } {} // NOLINT
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>>
    maybe_shared_ptr(maybe_shared_ptr<U> const& o) noexcept : s_ { o.ownership() }, p_ { o.get() } {} // NOLINT
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>>
    explicit maybe_shared_ptr(optional_ptr<U> o) noexcept : p_ { o.get() } {}
    maybe_shared_ptr(maybe_shared_ptr const&) = default;
    maybe_shared_ptr& operator=(maybe_shared_ptr const&) = default;
    maybe_shared_ptr(maybe_shared_ptr&& o) noexcept : s_ { std::move(o.s_) }, p_ { std::exchange(o.p_, nullptr) } {}
    maybe_shared_ptr& operator=(maybe_shared_ptr&& o) noexcept { s_ = std::move(o.s_); p_ = std::exchange(o.p_, nullptr); return *this; }
    ~maybe_shared_ptr() = default;
    [[nodiscard]] pointer get() const noexcept { return p_; }
    [[nodiscard]] reference operator*() const noexcept { BOOST_ASSERT(p_ != nullptr); return *p_; }
    [[nodiscard]] pointer operator->() const noexcept { BOOST_ASSERT(p_ != nullptr); return p_; }
    [[nodiscard]] shared_pointer ownership() const noexcept { return s_; }
    [[nodiscard]] optional_ptr<T> as_optional() const noexcept { return optional_ptr<T> { p_ }; }
    [[nodiscard]] bool owner_held() const noexcept { return static_cast<bool>(s_); }
    [[nodiscard]] explicit operator bool() const noexcept { return p_ != nullptr; }
    [[nodiscard]] bool has_value() const noexcept { return p_ != nullptr; }
    void reset() noexcept { s_.reset(); p_ = nullptr; }
private:
    shared_pointer s_ {};
    pointer p_ { nullptr };
};
template<class T> maybe_shared_ptr(T*) -> maybe_shared_ptr<T>;
template<class T> maybe_shared_ptr(std::shared_ptr<T>) -> maybe_shared_ptr<T>;
template<class T, class D> maybe_shared_ptr(std::unique_ptr<T, D>) -> maybe_shared_ptr<T>;
template<class A, class B> bool operator==(maybe_shared_ptr<A> const& a, maybe_shared_ptr<B> const& b) noexcept { return a.get() == b.get(); }
template<class A, class B> bool operator!=(maybe_shared_ptr<A> const& a, maybe_shared_ptr<B> const& b) noexcept { return a.get() != b.get(); }
template<class A> bool operator==(maybe_shared_ptr<A> const& a, std::nullptr_t) noexcept { return a.get() == nullptr; }
template<class A> bool operator!=(maybe_shared_ptr<A> const& a, std::nullptr_t) noexcept { return a.get() != nullptr; }
template<class A> bool operator==(std::nullptr_t, maybe_shared_ptr<A> const& a) noexcept { return a.get() == nullptr; }
template<class A> bool operator!=(std::nullptr_t, maybe_shared_ptr<A> const& a) noexcept { return a.get() != nullptr; }
template<class T> std::ostream& operator<<(std::ostream& out, maybe_shared_ptr<T> const& v) { if (v) return out << *v; return out << "(empty)"; }
template<class T, class U> [[nodiscard]] maybe_shared_ptr<T> unsafe_static_pointer_cast(maybe_shared_ptr<U> const& p) {
    if (auto o = p.ownership()) return { std::static_pointer_cast<T>(std::move(o)) };
    return maybe_shared_ptr<T> { static_cast<T*>(p.get()) };
}
}
template<class T> struct std::hash<::takatori::util::maybe_shared_ptr<T>> {
    std::size_t operator()(::takatori::util::maybe_shared_ptr<T> const& v) const noexcept { return std::hash<T*> {}(v.get()); }
};
