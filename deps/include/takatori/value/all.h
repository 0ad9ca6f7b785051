#pragma once
// Stand-in for takatori/value/*.h
#include <takatori/util/std_all.h>
#include <takatori/util/clonable.h>
#include <takatori/util/clone_tag.h>
#include <takatori/util/downcast.h>
#include <takatori/datetime/all.h>
#include <takatori/decimal/triple.h>

namespace takatori::value {

enum class value_kind { unknown, boolean, int4, int8, float4, float8, decimal, character, octet, bit, date, time_of_day, time_point, datetime_interval, array, record, extension };
inline std::string_view to_string_view(value_kind k) noexcept {
    static constexpr char const* names[] = { "unknown", "boolean", "int4", "int8", "float4", "float8", "decimal", "character", "octet", "bit", "date", "time_of_day", "time_point", "datetime_interval", "array", "record", "extension" };
    return names[static_cast<std::size_t>(k)];
}
inline std::ostream& operator<<(std::ostream& o, value_kind k) { return o << to_string_view(k); }

class data {
public:
    data() = default;
    virtual ~data() = default;
    data(data const&) = delete;
    data& operator=(data const&) = delete;
    data(data&&) = delete;
    data& operator=(data&&) = delete;
    [[nodiscard]] virtual value_kind kind() const noexcept = 0;
    [[nodiscard]] virtual data* clone() const& = 0;
    [[nodiscard]] virtual data* clone() && = 0;
    [[nodiscard]] virtual std::size_t hash() const noexcept = 0;
    friend bool operator==(data const& a, data const& b) noexcept { return a.equals(b); }
    friend bool operator!=(data const& a, data const& b) noexcept { return !a.equals(b); }
    friend std::ostream& operator<<(std::ostream& o, data const& v) { return v.print_to(o); }
protected:
    [[nodiscard]] virtual bool equals(data const& other) const noexcept = 0;
    virtual std::ostream& print_to(std::ostream& out) const = 0;
};

namespace impl {
inline void print(std::ostream& o, std::string const& s) {
    static char const hex[] = "0123456789abcdef";
    for (char c : s) { auto u = static_cast<unsigned char>(c); if (u < 0x20 || u >= 0x7f) o << "\\x" << hex[u >> 4U] << hex[u & 15U]; else o << c; }
}
template<class T> inline void print(std::ostream& o, T const& v) { o << v; }
inline void print(std::ostream& o, double v) { std::uint64_t u {}; static_assert(sizeof u == sizeof v); __builtin_memcpy(&u, &v, sizeof v); o << v << "#" << u; }
}

template<value_kind K, class E>
class simple final : public data {
public:
    static constexpr value_kind tag = K;
    using entity_type = E;
    using view_type = std::conditional_t<std::is_same_v<E, std::string>, std::string_view, E>;
    explicit simple(entity_type v) : v_ { std::move(v) } {}
    template<class A, class = std::enable_if_t<std::is_same_v<E, std::string> && std::is_convertible_v<A, std::string_view> && !std::is_same_v<std::decay_t<A>, std::string>>>
    explicit simple(A const& v) : v_ { std::string_view { v } } {}
    template<class A0, class A1, class... A, class = std::enable_if_t<std::is_same_v<E, datetime::time_point> && std::is_arithmetic_v<A0>>>
    simple(A0 y, A1 m, A... r) : simple(make(num(y), num(m), num(r)...)) {}
    template<class A0, class = std::enable_if_t<std::is_same_v<E, datetime::time_of_day> && std::is_arithmetic_v<A0>>>
    simple(A0 h, std::uint32_t m, std::uint32_t s, std::chrono::nanoseconds sub) : v_ { static_cast<std::uint32_t>(h), m, s, sub } {}
    template<class A0, class A1, class A2, class = std::enable_if_t<!std::is_same_v<E, datetime::time_point> && std::is_constructible_v<E, A0, A1, A2>>, class = void>
    simple(A0 a, A1 b, A2 c) : v_ { static_cast<std::conditional_t<std::is_same_v<E, datetime::date>, std::int32_t, std::uint32_t>>(a), static_cast<std::uint32_t>(b), static_cast<std::uint32_t>(c) } {}
    template<class A, class = std::enable_if_t<std::is_same_v<E, ::takatori::decimal::triple> && std::is_convertible_v<A, std::string_view>>, class = void, class = void>
    explicit simple(A const& v) : v_ { ::decimal::Decimal { std::string { std::string_view { v } } } } {}
    simple(::takatori::util::clone_tag_t, simple const& o) : v_ { o.v_ } {}
    simple(::takatori::util::clone_tag_t, simple&& o) : v_ { std::move(o.v_) } {}
    simple(simple const& o) : data(), v_ { o.v_ } {}
    [[nodiscard]] value_kind kind() const noexcept override { return tag; }
    [[nodiscard]] view_type get() const noexcept { return v_; }
    [[nodiscard]] simple* clone() const& override { return new simple(*this); }
    [[nodiscard]] simple* clone() && override { return new simple(::takatori::util::clone_tag, std::move(*this)); }
    friend bool operator==(simple const& a, simple const& b) noexcept { return a.v_ == b.v_; }
    friend bool operator!=(simple const& a, simple const& b) noexcept { return !(a == b); }
    [[nodiscard]] std::size_t hash() const noexcept override { return static_cast<std::size_t>(K); }
protected:
    [[nodiscard]] bool equals(data const& o) const noexcept override { return o.kind() == tag && *this == static_cast<simple const&>(o); }
    std::ostream& print_to(std::ostream& out) const override { out << to_string_view(K) << "("; impl::print(out, v_); return out << ")"; }
private:
    entity_type v_;
    template<class N> static std::int64_t num(N v) noexcept { return static_cast<std::int64_t>(v); }
    static std::int64_t num(std::chrono::nanoseconds v) noexcept { return v.count(); }
    static datetime::time_point make(std::int64_t y, std::int64_t mo, std::int64_t d, std::int64_t h = 0, std::int64_t mi = 0, std::int64_t s = 0, std::int64_t sub = 0) {
        return { datetime::date { static_cast<std::int32_t>(y), static_cast<std::uint32_t>(mo), static_cast<std::uint32_t>(d) },
            datetime::time_of_day { static_cast<std::uint32_t>(h), static_cast<std::uint32_t>(mi), static_cast<std::uint32_t>(s), std::chrono::nanoseconds { sub } } };
    }
};
using boolean = simple<value_kind::boolean, bool>;
using int4 = simple<value_kind::int4, std::int32_t>;
using int8 = simple<value_kind::int8, std::int64_t>;
using float4 = simple<value_kind::float4, float>;
using float8 = simple<value_kind::float8, double>;
using decimal = simple<value_kind::decimal, ::takatori::decimal::triple>;
using character = simple<value_kind::character, std::string>;
using octet = simple<value_kind::octet, std::string>;
using bit = simple<value_kind::bit, std::string>;
using date = simple<value_kind::date, datetime::date>;
using time_of_day = simple<value_kind::time_of_day, datetime::time_of_day>;
using time_point = simple<value_kind::time_point, datetime::time_point>;

enum class unknown_kind { null };
inline std::ostream& operator<<(std::ostream& o, unknown_kind) { return o << "null"; }
class unknown final : public data {
public:
    static constexpr value_kind tag = value_kind::unknown;
    explicit unknown(unknown_kind = unknown_kind::null) noexcept {}
    unknown(::takatori::util::clone_tag_t, unknown const&) noexcept {}
    unknown(unknown const&) noexcept : data() {}
    [[nodiscard]] value_kind kind() const noexcept override { return tag; }
    [[nodiscard]] unknown_kind get() const noexcept { return unknown_kind::null; }
    [[nodiscard]] unknown* clone() const& override { return new unknown(); }
    [[nodiscard]] unknown* clone() && override { return new unknown(); }
    friend bool operator==(unknown const&, unknown const&) noexcept { return true; }
    friend bool operator!=(unknown const&, unknown const&) noexcept { return false; }
    [[nodiscard]] std::size_t hash() const noexcept override { return 3; }
protected:
    [[nodiscard]] bool equals(data const& o) const noexcept override { return o.kind() == tag; }
    std::ostream& print_to(std::ostream& out) const override { return out << "unknown(null)"; }
};

class octet_result {
public:
    octet_result() = default;
    explicit octet_result(std::string e) : ok_ { false }, e_ { std::move(e) } {}
    [[nodiscard]] explicit operator bool() const noexcept { return ok_; }
    [[nodiscard]] bool has_value() const noexcept { return ok_; }
    [[nodiscard]] std::string const& error() const noexcept { return e_; }
private:
    bool ok_ { true };
    std::string e_ {};
};
/// appends the octets of the hex digits (blanks are ignored)
inline octet_result parse_octet(std::string_view input, std::string& out) {
    int hi = -1;
    for (char c : input) {
        if (c == ' ') continue;
        int v;
        if (c >= '0' && c <= '9') v = c - '0';
        else if (c >= 'a' && c <= 'f') v = c - 'a' + 10;
        else if (c >= 'A' && c <= 'F') v = c - 'A' + 10;
        else return octet_result { "invalid character" };
        if (hi < 0) hi = v; else { out.push_back(static_cast<char>((hi << 4) | v)); hi = -1; }
    }
    if (hi >= 0) return octet_result { "odd digits" };
    return {};
}

} // namespace takatori::value

template<> struct std::hash<::takatori::value::data> {
    std::size_t operator()(::takatori::value::data const& v) const noexcept { return v.hash(); }
};
