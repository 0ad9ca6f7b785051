#pragma once
// Stand-in for takatori/util/ownership_reference.h
#include <takatori/util/std_all.h>
namespace takatori::util {
/// reference to the holder of an element (the element may be exchanged in place)
template<class T>
class ownership_reference {
public:
    using value_type = T;
    using pointer = T*;
    using reference = T&;
    ownership_reference() = default;
    explicit ownership_reference(std::unique_ptr<T>& p) noexcept : p_ { std::addressof(p) } {}
    [[nodiscard]] reference get() const { return **p_; }
    [[nodiscard]] reference value() const { return **p_; }
    [[nodiscard]] reference operator*() const { return **p_; }
    [[nodiscard]] pointer operator->() const { return p_->get(); }
    [[nodiscard]] pointer find() const { return p_ ? p_->get() : nullptr; }
    void set(std::unique_ptr<T> v) { *p_ = std::move(v); }
    [[nodiscard]] std::unique_ptr<T> exchange(std::unique_ptr<T> v) { return std::exchange(*p_, std::move(v)); }
    ownership_reference& operator=(std::unique_ptr<T> v) { set(std::move(v)); return *this; }
    [[nodiscard]] explicit operator bool() const noexcept { return p_ && *p_; }
private:
    std::unique_ptr<T>* p_ { nullptr };
};
} // namespace takatori::util
