#pragma once
// Stand-in for takatori/util/reference_vector.h
#include <takatori/util/std_all.h>
#include <takatori/util/clonable.h>
#include <takatori/util/ownership_reference.h>
#include <takatori/util/print_support.h>
namespace takatori::util {
template<class T>
class reference_iterator {
public:
    using iterator_category = std::random_access_iterator_tag;
    using value_type = std::remove_const_t<T>;
    using difference_type = std::ptrdiff_t;
    using pointer = T*;
    using reference = T&;
    using base = std::conditional_t<std::is_const_v<T>, std::unique_ptr<std::remove_const_t<T>> const, std::unique_ptr<T>>;
    reference_iterator() = default;
    explicit reference_iterator(base* p) noexcept : p_ { p } {}
    template<class U = T, class = std::enable_if_t<std::is_const_v<U>>>
    reference_iterator(reference_iterator<std::remove_const_t<U>> o) noexcept : p_ { o.raw() } {} // NOLINT
    reference operator*() const { return **p_; }
    pointer operator->() const { return p_->get(); }
    reference operator[](difference_type n) const { return *p_[n]; }
    reference_iterator& operator++() { ++p_; return *this; }
    reference_iterator operator++(int) { auto r = *this; ++p_; return r; }
    reference_iterator& operator--() { --p_; return *this; }
    reference_iterator operator--(int) { auto r = *this; --p_; return r; }
    reference_iterator& operator+=(difference_type n) { p_ += n; return *this; }
    reference_iterator& operator-=(difference_type n) { p_ -= n; return *this; }
    friend reference_iterator operator+(reference_iterator a, difference_type n) { return reference_iterator { a.p_ + n }; }
    friend reference_iterator operator-(reference_iterator a, difference_type n) { return reference_iterator { a.p_ - n }; }
    friend difference_type operator-(reference_iterator a, reference_iterator b) { return a.p_ - b.p_; }
    friend bool operator==(reference_iterator a, reference_iterator b) { return a.p_ == b.p_; }
    friend bool operator!=(reference_iterator a, reference_iterator b) { return a.p_ != b.p_; }
    friend bool operator<(reference_iterator a, reference_iterator b) { return a.p_ < b.p_; }
    [[nodiscard]] base* raw() const noexcept { return p_; }
private:
    base* p_ { nullptr };
};

template<class T>
class reference_vector {
public:
    using value_type = T;
    using size_type = std::size_t;
    using reference = T&;
    using const_reference = T const&;
    using iterator = reference_iterator<T>;
    using const_iterator = reference_iterator<T const>;
    reference_vector() = default;
    explicit reference_vector(std::vector<std::unique_ptr<T>> v) noexcept : v_ { std::move(v) } {}
    reference_vector(reference_vector&&) noexcept = default;
    reference_vector& operator=(reference_vector&&) noexcept = default;
    reference_vector(reference_vector const& o) { v_.reserve(o.size()); for (auto&& e : o.v_) v_.emplace_back(clone_unique(*e)); }
    reference_vector& operator=(reference_vector const& o) { reference_vector t { o }; v_ = std::move(t.v_); return *this; }
    ~reference_vector() = default;
    [[nodiscard]] bool empty() const noexcept { return v_.empty(); }
    [[nodiscard]] size_type size() const noexcept { return v_.size(); }
    [[nodiscard]] size_type capacity() const noexcept { return v_.capacity(); }
    void reserve(size_type n) { v_.reserve(n); }
    void clear() noexcept { v_.clear(); }
    [[nodiscard]] reference at(size_type i) { return *v_.at(i); }
    [[nodiscard]] const_reference at(size_type i) const { return *v_.at(i); }
    [[nodiscard]] reference operator[](size_type i) { BOOST_ASSERT(i < v_.size()); return *v_[i]; }
    [[nodiscard]] const_reference operator[](size_type i) const { BOOST_ASSERT(i < v_.size()); return *v_[i]; }
    [[nodiscard]] reference front() { return *v_.front(); }
    [[nodiscard]] const_reference front() const { return *v_.front(); }
    [[nodiscard]] reference back() { return *v_.back(); }
    [[nodiscard]] const_reference back() const { return *v_.back(); }
    [[nodiscard]] iterator begin() noexcept { return iterator { v_.data() }; }
    [[nodiscard]] iterator end() noexcept { return iterator { v_.data() + v_.size() }; }
    [[nodiscard]] const_iterator begin() const noexcept { return const_iterator { v_.data() }; }
    [[nodiscard]] const_iterator end() const noexcept { return const_iterator { v_.data() + v_.size() }; }
    [[nodiscard]] const_iterator cbegin() const noexcept { return begin(); }
    [[nodiscard]] const_iterator cend() const noexcept { return end(); }
    [[nodiscard]] ownership_reference<T> ownership(size_type i) { return ownership_reference<T> { v_.at(i) }; }
    [[nodiscard]] ownership_reference<T> ownership(iterator i) { return ownership_reference<T> { *i.raw() }; }
    reference push_back(std::unique_ptr<T> v) { v_.emplace_back(std::move(v)); return *v_.back(); }
    reference push_back(T&& v) { return push_back(clone_unique(std::move(v))); }
    reference push_back(T const& v) { return push_back(clone_unique(v)); }
    template<class U = T, class... Args> U& emplace_back(Args&&... args) { auto p = std::make_unique<U>(std::forward<Args>(args)...); auto& r = *p; v_.emplace_back(std::move(p)); return r; }
    reference insert(size_type i, std::unique_ptr<T> v) { return **v_.insert(v_.begin() + static_cast<std::ptrdiff_t>(i), std::move(v)); }
    [[nodiscard]] std::unique_ptr<T> put(size_type i, std::unique_ptr<T> v) { return std::exchange(v_.at(i), std::move(v)); }
    void pop_back() noexcept { v_.pop_back(); }
    void erase(size_type i) { v_.erase(v_.begin() + static_cast<std::ptrdiff_t>(i)); }
    [[nodiscard]] std::unique_ptr<T> release(size_type i) { auto r = std::move(v_.at(i)); erase(i); return r; }
    [[nodiscard]] std::unique_ptr<T> release_back() { auto r = std::move(v_.back()); v_.pop_back(); return r; }
    [[nodiscard]] std::vector<std::unique_ptr<T>> release_elements() { return std::move(v_); }
    [[nodiscard]] std::vector<std::unique_ptr<T>> release() { return std::move(v_); }
    friend bool operator==(reference_vector const& a, reference_vector const& b) noexcept {
        if (a.size() != b.size()) return false;
        for (size_type i = 0; i < a.size(); ++i) if (!(a[i] == b[i])) return false;
        return true;
    }
    friend bool operator!=(reference_vector const& a, reference_vector const& b) noexcept { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& o, reference_vector const& v) { o << "["; bool f = true; for (auto&& e : v) { if (!f) o << ", "; f = false; o << e; } return o << "]"; }
private:
    std::vector<std::unique_ptr<T>> v_ {};
};
} // namespace takatori::util
