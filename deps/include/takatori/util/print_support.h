#pragma once
#include <takatori/util/std_all.h>
#include <memory>
#include <optional>
#include <ostream>
#include <type_traits>
#include <vector>
#include "maybe_shared_ptr.h"
#include "optional_ptr.h"
#include "rvalue_ptr.h"
namespace takatori::util {
template<class T>
class print_support {
public:
    explicit print_support(T const& v) noexcept : v_ { v } {}
    T const& get() const noexcept { return v_; }
private:
    T const& v_;
};
template<class T> print_support(T const&) -> print_support<T>;
namespace impl {
template<class T, class = void> struct is_streamable : std::false_type {};
template<class T> struct is_streamable<T, std::void_t<decltype(std::declval<std::ostream&>() << std::declval<T const&>())>> : std::true_type {};
template<class T> struct printer { static void p(std::ostream& o, T const& v) { if constexpr (is_streamable<T>::value) o << v; else o << "?"; } };
template<class T> void print_any(std::ostream& o, T const& v) { printer<T>::p(o, v); }
template<class P> void print_ptr(std::ostream& o, P const& v) { if (v) print_any(o, *v); else o << "(empty)"; }
template<class T, class D> struct printer<std::unique_ptr<T, D>> { static void p(std::ostream& o, std::unique_ptr<T, D> const& v) { print_ptr(o, v); } };
template<class T> struct printer<std::shared_ptr<T>> { static void p(std::ostream& o, std::shared_ptr<T> const& v) { print_ptr(o, v); } };
template<class T> struct printer<optional_ptr<T>> { static void p(std::ostream& o, optional_ptr<T> const& v) { print_ptr(o, v); } };
template<class T> struct printer<maybe_shared_ptr<T>> { static void p(std::ostream& o, maybe_shared_ptr<T> const& v) { print_ptr(o, v); } };
template<class T> struct printer<std::optional<T>> { static void p(std::ostream& o, std::optional<T> const& v) { print_ptr(o, v); } };
template<class T, class A> struct printer<std::vector<T, A>> { static void p(std::ostream& o, std::vector<T, A> const& v) {
    o << "["; bool f = true; for (auto&& e : v) { if (!f) o << ", "; f = false; print_any(o, e); } o << "]"; } };
}
template<class T> std::ostream& operator<<(std::ostream& out, print_support<T> const& v) { impl::print_any(out, v.get()); return out; }
}
