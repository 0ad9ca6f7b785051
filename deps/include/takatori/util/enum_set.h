#pragma once
#include <takatori/util/std_all.h>
// Stand-in for takatori/util/enum_set.h
#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <iterator>
#include <ostream>

namespace takatori::util {

template<class T, T First, T Last>
class enum_set {
    static constexpr std::size_t offset_ = static_cast<std::size_t>(First);
    static constexpr std::size_t capacity_ = static_cast<std::size_t>(Last) - offset_ + 1;
    static constexpr std::size_t words_ = (capacity_ + 63) / 64;
    std::uint64_t w_[words_] {};

    static constexpr std::size_t index(T v) noexcept { return static_cast<std::size_t>(v) - offset_; }
    [[nodiscard]] constexpr bool at(std::size_t i) const noexcept { return i < capacity_ && ((w_[i / 64] >> (i % 64)) & 1U) != 0; }

public:
    using value_type = T;

    constexpr enum_set() = default;
    constexpr enum_set(std::initializer_list<T> init) { // NOLINT
        for (auto v : init) { insert(v); }
    }

    [[nodiscard]] constexpr bool contains(T v) const noexcept { return at(index(v)); }
    [[nodiscard]] constexpr bool operator[](T v) const noexcept { return contains(v); }
    [[nodiscard]] constexpr bool empty() const noexcept { return size() == 0; }
    [[nodiscard]] constexpr std::size_t size() const noexcept {
        std::size_t n = 0;
        for (std::size_t i = 0; i < capacity_; ++i) { n += at(i) ? 1 : 0; }
        return n;
    }
    [[nodiscard]] constexpr std::size_t capacity() const noexcept { return capacity_; }
    constexpr bool insert(T v) noexcept { auto i = index(v); if (i >= capacity_) return false; bool r = !at(i); w_[i / 64] |= (std::uint64_t { 1 } << (i % 64)); return r; }
    constexpr bool erase(T v) noexcept { auto i = index(v); if (i >= capacity_) return false; bool r = at(i); w_[i / 64] &= ~(std::uint64_t { 1 } << (i % 64)); return r; }
    constexpr void clear() noexcept { for (auto& w : w_) w = 0; }

    class const_iterator {
    public:
        using iterator_category = std::input_iterator_tag;
        using value_type = T;
        using difference_type = std::ptrdiff_t;
        using pointer = T const*;
        using reference = T;
        constexpr const_iterator(enum_set const* b, std::size_t i) : b_ { b }, i_ { i } { skip(); }
        constexpr T operator*() const { return static_cast<T>(i_ + offset_); }
        constexpr const_iterator& operator++() { ++i_; skip(); return *this; }
        constexpr const_iterator operator++(int) { auto r = *this; ++*this; return r; }
        constexpr bool operator==(const_iterator const& o) const { return i_ == o.i_; }
        constexpr bool operator!=(const_iterator const& o) const { return i_ != o.i_; }
    private:
        enum_set const* b_;
        std::size_t i_;
        constexpr void skip() { while (i_ < capacity_ && !b_->at(i_)) ++i_; }
    };
    using iterator = const_iterator;
    [[nodiscard]] constexpr const_iterator begin() const noexcept { return { this, 0 }; }
    [[nodiscard]] constexpr const_iterator end() const noexcept { return { this, capacity_ }; }
    [[nodiscard]] constexpr const_iterator cbegin() const noexcept { return begin(); }
    [[nodiscard]] constexpr const_iterator cend() const noexcept { return end(); }

    constexpr enum_set& operator|=(enum_set const& o) noexcept { for (std::size_t i = 0; i < words_; ++i) w_[i] |= o.w_[i]; return *this; }
    constexpr enum_set& operator&=(enum_set const& o) noexcept { for (std::size_t i = 0; i < words_; ++i) w_[i] &= o.w_[i]; return *this; }
    constexpr enum_set& operator-=(enum_set const& o) noexcept { for (std::size_t i = 0; i < words_; ++i) w_[i] &= ~o.w_[i]; return *this; }
    constexpr enum_set& operator|=(T v) noexcept { insert(v); return *this; }
    constexpr enum_set& operator+=(enum_set const& o) noexcept { return *this |= o; }
    constexpr enum_set& operator+=(T v) noexcept { insert(v); return *this; }
    constexpr enum_set& operator-=(T v) noexcept { erase(v); return *this; }
    friend constexpr enum_set operator|(enum_set a, enum_set const& b) noexcept { a |= b; return a; }
    friend constexpr enum_set operator&(enum_set a, enum_set const& b) noexcept { a &= b; return a; }
    friend constexpr enum_set operator-(enum_set a, enum_set const& b) noexcept { a -= b; return a; }
    friend constexpr enum_set operator+(enum_set a, T b) noexcept { a.insert(b); return a; }
    friend constexpr bool operator==(enum_set const& a, enum_set const& b) noexcept {
        for (std::size_t i = 0; i < words_; ++i) { if (a.w_[i] != b.w_[i]) return false; }
        return true;
    }
    friend constexpr bool operator!=(enum_set const& a, enum_set const& b) noexcept { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, enum_set const& v) {
        out << "{";
        bool f = true;
        for (auto e : v) { if (!f) out << ", "; f = false; out << e; }
        return out << "}";
    }
};

} // namespace takatori::util
