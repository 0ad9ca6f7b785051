#pragma once
#include <takatori/util/std_all.h>
#include <functional>
#include <utility>
namespace takatori::util {
/// invokes an operation when this object is disposed.
class finalizer {
public:
    using operation_type = std::function<void()>;
    finalizer() noexcept = default;
    finalizer(operation_type operation) noexcept : operation_ { std::move(operation) } {} // NOLINT
    ~finalizer() { invoke(); }
    finalizer(finalizer const&) = delete;
    finalizer& operator=(finalizer const&) = delete;
    finalizer(finalizer&& other) noexcept : operation_ { std::exchange(other.operation_, nullptr) } {}
    finalizer& operator=(finalizer&& other) noexcept {
        if (this != &other) { invoke(); operation_ = std::exchange(other.operation_, nullptr); }
        return *this;
    }
    void operator()() { invoke(); }
    void invoke() { if (operation_) { auto f = std::exchange(operation_, nullptr); f(); } }
    void cancel() noexcept { operation_ = nullptr; }
    [[nodiscard]] explicit operator bool() const noexcept { return static_cast<bool>(operation_); }
private:
    operation_type operation_ {};
};
}
