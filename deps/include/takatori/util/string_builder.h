#pragma once
#include <takatori/util/std_all.h>
#include <ios>
#include <iomanip>
#include <ostream>
#include <sstream>
#include <string>
#include <utility>
namespace takatori::util {
class string_builder {
public:
    struct to_string_t { explicit constexpr to_string_t() = default; };
    static constexpr to_string_t to_string {};
    [[nodiscard]] std::string str() const { return out_.str(); }
    [[nodiscard]] std::ostream& stream() noexcept { return out_; }
    template<class T> friend string_builder& operator<<(string_builder& b, T const& v) { b.out_ << v; return b; }
    template<class T> friend string_builder&& operator<<(string_builder&& b, T const& v) { b.out_ << v; return std::move(b); }
    friend string_builder& operator<<(string_builder& b, std::ios_base& (*f)(std::ios_base&)) { b.out_ << f; return b; }
    friend string_builder&& operator<<(string_builder&& b, std::ios_base& (*f)(std::ios_base&)) { b.out_ << f; return std::move(b); }
    friend std::string operator<<(string_builder& b, to_string_t) { return b.str(); }
    friend std::string operator<<(string_builder&& b, to_string_t) { return b.str(); }
private:
    std::ostringstream out_ {};
};
class debug_string_builder {
public:
    using to_string_t = string_builder::to_string_t;
    static constexpr to_string_t to_string {};
    template<class T> friend debug_string_builder& operator<<(debug_string_builder& b, T const& v) { b.out_ << v; return b; }
    template<class T> friend debug_string_builder&& operator<<(debug_string_builder&& b, T const& v) { b.out_ << v; return std::move(b); }
    friend std::string operator<<(debug_string_builder& b, to_string_t) { return b.out_.str(); }
    friend std::string operator<<(debug_string_builder&& b, to_string_t) { return b.out_.str(); }
private:
    std::ostringstream out_ {};
};
}
