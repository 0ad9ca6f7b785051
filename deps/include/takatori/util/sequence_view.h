#pragma once
#include <takatori/util/std_all.h>
#include <cstddef>
#include <iterator>
#include <memory>
#include <ostream>
#include <type_traits>
#include "assertion.h"
namespace takatori::util {
template<class T, class C = T*>
class sequence_view {
public:
    using iterator = C;
    using const_iterator = C;
    using size_type = std::size_t;
    using difference_type = std::ptrdiff_t;
    using value_type = std::remove_cv_t<T>;
    using pointer = T*;
    using reference = T&;
    constexpr sequence_view() = default;
    constexpr sequence_view(iterator begin, iterator end) : b_ { begin }, e_ { end } {}
    constexpr sequence_view(iterator begin, std::size_t n) : b_ { begin }, e_ { begin + n } {}
    constexpr explicit sequence_view(reference r) noexcept : b_ { std::addressof(r) }, e_ { std::addressof(r) + 1 } {}
    template<class Cont, class = std::enable_if_t<
            std::is_convertible_v<decltype(std::declval<Cont&>().data()), iterator>
            && !std::is_same_v<std::remove_cv_t<std::remove_reference_t<Cont>>, sequence_view>>>
    constexpr sequence_view(Cont&& c) : b_ { c.data() }, e_ { c.data() + c.size() } {} // NOLINT
    template<class U, class = std::enable_if_t<!std::is_same_v<U, T> && std::is_convertible_v<U(*)[], T(*)[]>>, class = void>
    constexpr sequence_view(sequence_view<U, U*> const& o) : b_ { o.begin() }, e_ { o.end() } {} // NOLINT
    [[nodiscard]] constexpr iterator begin() const noexcept { return b_; }
    [[nodiscard]] constexpr iterator end() const noexcept { return e_; }
    [[nodiscard]] constexpr iterator cbegin() const noexcept { return b_; }
    [[nodiscard]] constexpr iterator cend() const noexcept { return e_; }
    [[nodiscard]] constexpr pointer data() const noexcept { return b_; }
    [[nodiscard]] constexpr bool empty() const noexcept { return b_ == e_; }
    [[nodiscard]] constexpr std::size_t size() const noexcept { return static_cast<std::size_t>(e_ - b_); }
    [[nodiscard]] constexpr reference operator[](std::size_t i) const { BOOST_ASSERT(i < size()); return b_[i]; }
    [[nodiscard]] reference at(std::size_t i) const { BOOST_ASSERT(i < size()); return b_[i]; }
    [[nodiscard]] constexpr reference front() const { return *b_; }
    [[nodiscard]] constexpr reference back() const { return *(e_ - 1); }
private:
    iterator b_ {};
    iterator e_ {};
};
template<class T, class I> std::ostream& operator<<(std::ostream& out, sequence_view<T, I> const& v) {
    out << "[";
    bool first = true;
    for (auto&& e : v) { if (!first) out << ", "; first = false; out << e; }
    return out << "]";
}
template<class Cont> sequence_view(Cont&) -> sequence_view<std::remove_pointer_t<decltype(std::declval<Cont&>().data())>>;
template<class T> sequence_view(T*, T*) -> sequence_view<T>;
template<class T> sequence_view(T*, std::size_t) -> sequence_view<T>;
}
