#pragma once
#include <takatori/util/std_all.h>
#include <memory>
#include <type_traits>
#include <utility>
namespace takatori::util {
template<class T>
class rvalue_reference_wrapper {
public:
    using value_type = T;
    using reference = T&&;
    constexpr rvalue_reference_wrapper(T&& r) noexcept : p_ { std::addressof(r) } {} // NOLINT
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>>
    constexpr rvalue_reference_wrapper(rvalue_reference_wrapper<U> const& o) noexcept : p_ { o.get_pointer() } {} // NOLINT
    [[nodiscard]] constexpr reference get() const noexcept { return std::move(*p_); }
    [[nodiscard]] constexpr operator reference() const noexcept { return get(); } // NOLINT
    [[nodiscard]] constexpr reference operator*() const noexcept { return get(); }
    [[nodiscard]] constexpr T* get_pointer() const noexcept { return p_; }
private:
    T* p_;
};
template<class T> rvalue_reference_wrapper(T&&) -> rvalue_reference_wrapper<T>;
template<class T> [[nodiscard]] constexpr rvalue_reference_wrapper<T> rvalue_ref(T&& r) noexcept { return rvalue_reference_wrapper<T>(std::move(r)); }
}
