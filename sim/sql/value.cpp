#include "value.h"

#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <limits>

namespace sim::sql {

value boolean(bool v) { value r {}; r.k = kind::boolean; r.i = v ? 1 : 0; return r; }
value integer(long v) { value r {}; r.k = kind::integer; r.i = v; return r; }
value decimal(__int128 c, int scale) { value r {}; r.k = kind::decimal; r.c = c; r.scale = scale; return r; }
value floating(double v) { value r {}; r.k = kind::floating; r.f = v == 0 ? 0 : v; return r; }
value text(std::string s) { value r {}; r.k = kind::text; r.s = std::move(s); return r; }
value bytes(std::string s) { value r {}; r.k = kind::bytes; r.s = std::move(s); return r; }

bool operator==(vtype const& a, vtype const& b) { return a.k == b.k && a.width == b.width && a.precision == b.precision && a.scale == b.scale && a.zoned == b.zoned && a.fixed == b.fixed; }

ternary of(value const& v) { return v.k != kind::boolean ? ternary::unknown : v.i != 0 ? ternary::yes : ternary::no; }
value to_value(ternary t) { return t == ternary::unknown ? value {} : boolean(t == ternary::yes); }
ternary operator!(ternary t) { return t == ternary::unknown ? t : t == ternary::yes ? ternary::no : ternary::yes; }
ternary both(ternary a, ternary b) { if (a == ternary::no || b == ternary::no) return ternary::no; return a == ternary::yes && b == ternary::yes ? ternary::yes : ternary::unknown; }
ternary either(ternary a, ternary b) { return !both(!a, !b); }

namespace {
using i128 = __int128;
bool number(value const& v) { return v.k == kind::integer || v.k == kind::decimal || v.k == kind::floating; }
bool exact(value const& v) { return v.k == kind::integer || v.k == kind::decimal; }
value as_decimal(value const& v) { return v.k == kind::integer ? decimal(v.i, 0) : v; }
double as_double(value const& v) {
    if (v.k == kind::integer) return static_cast<double>(v.i);
    if (v.k == kind::floating) return v.f;
    double d = static_cast<double>(v.c);
    for (int i = 0; i < v.scale; ++i) d /= 10;
    for (int i = 0; i > v.scale; --i) d *= 10;
    return d;
}
/// wraps around
i128 times10(i128 c) { return static_cast<i128>(static_cast<unsigned __int128>(c) * 10U); }
value scaled(value const& v, int scale) {
    value r = v;
    while (r.scale < scale) { r.c = times10(r.c); ++r.scale; }
    while (r.scale > scale) { r.c /= 10; --r.scale; }
    return r;
}
value normal(value v) {
    if (v.c == 0) { v.scale = 0; return v; }
    while (v.c % 10 == 0) { v.c /= 10; --v.scale; }
    return v;
}
std::string digits(i128 c) {
    bool neg = c < 0;
    auto u = neg ? static_cast<unsigned __int128>(0) - static_cast<unsigned __int128>(c) : static_cast<unsigned __int128>(c);
    std::string s {};
    do { s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(u % 10))); u /= 10; } while (u != 0);
    return neg ? "-" + s : s;
}
} // namespace

int order(value const& a, value const& b) {
    auto three = [](auto const& x, auto const& y) { return x < y ? -1 : y < x ? 1 : 0; };
    if (number(a) && number(b)) {
        if (exact(a) && exact(b)) {
            auto x = as_decimal(a), y = as_decimal(b);
            int s = std::max(x.scale, y.scale);
            if (s - std::min(x.scale, y.scale) < 19) return three(scaled(x, s).c, scaled(y, s).c);
        }
        return three(as_double(a), as_double(b));
    }
    if (a.k != b.k) return three(static_cast<int>(a.k), static_cast<int>(b.k));
    switch (a.k) {
        case kind::text: case kind::bytes: return three(a.s, b.s);
        case kind::stamp: { int x = three(a.i, b.i); return x != 0 ? x : three(a.scale, b.scale); }
        default: return three(a.i, b.i);
    }
}
ternary compare(cmp op, value const& a, value const& b) {
    if (a.null() || b.null()) return ternary::unknown;
    int o = order(a, b);
    bool r = false;
    switch (op) {
        case cmp::eq: r = o == 0; break;
        case cmp::ne: r = o != 0; break;
        case cmp::lt: r = o < 0; break;
        case cmp::le: r = o <= 0; break;
        case cmp::gt: r = o > 0; break;
        case cmp::ge: r = o >= 0; break;
    }
    return r ? ternary::yes : ternary::no;
}
int sort_order(value const& a, value const& b) {
    if (a.null() || b.null()) return (a.null() ? 0 : 1) - (b.null() ? 0 : 1);
    return order(a, b);
}
std::string key(value const& v) {
    switch (v.k) {
        case kind::null: return "~";
        case kind::boolean: return v.i != 0 ? "T" : "F";
        case kind::integer: case kind::decimal: { auto n = normal(as_decimal(v)); return "n" + digits(n.c) + "e" + std::to_string(-n.scale); }
        case kind::floating: { std::uint64_t u {}; double d = v.f == 0 ? 0 : v.f; std::memcpy(&u, &d, sizeof u); return "f" + std::to_string(u); }
        case kind::text: return "s" + std::to_string(v.s.size()) + ":" + v.s;
        case kind::bytes: return "x" + std::to_string(v.s.size()) + ":" + v.s;
        case kind::date: return "d" + std::to_string(v.i);
        case kind::time: return "t" + std::to_string(v.i);
        case kind::stamp: return "p" + std::to_string(v.i) + "." + std::to_string(v.scale);
    }
    return {};
}
std::string key(row const& r) { std::string s {}; for (auto&& v : r) s += key(v) + "|"; return s; }

value arith(char op, value const& a, value const& b) {
    if (a.null() || b.null()) return {};
    if (op == '|') {
        if (a.k != b.k || (a.k != kind::text && a.k != kind::bytes)) return {};
        value r = a;
        r.s += b.s;
        if (r.s.size() > 4096) r.s.resize(4096);
        return r;
    }
    if (!number(a) || !number(b)) return {};
    if (a.k == kind::floating || b.k == kind::floating) {
        double x = as_double(a), y = as_double(b), z = 0;
        switch (op) {
            case '+': z = x + y; break;
            case '-': z = x - y; break;
            case '*': z = x * y; break;
            case '/': if (y == 0) return {}; z = x / y; break;
            default: if (y == 0) return {}; z = std::fmod(x, y); break;
        }
        if (!std::isfinite(z)) return {};
        return floating(z);
    }
    if (a.k == kind::integer && b.k == kind::integer) {
        auto x = static_cast<unsigned long>(a.i), y = static_cast<unsigned long>(b.i);
        switch (op) {
            case '+': return integer(static_cast<long>(x + y));
            case '-': return integer(static_cast<long>(x - y));
            case '*': return integer(static_cast<long>(x * y));
            default: break;
        }
        if (b.i == 0) return {};
        if (b.i == -1) return op == '/' ? integer(static_cast<long>(0UL - x)) : integer(0);
        return integer(op == '/' ? a.i / b.i : a.i % b.i);
    }
    auto x = as_decimal(a), y = as_decimal(b);
    using u128 = unsigned __int128;
    auto cap = [](value v) { while (v.scale > 24) { v.c /= 10; --v.scale; } return v; };
    switch (op) {
        case '+': case '-': {
            int s = std::max(x.scale, y.scale);
            x = scaled(x, s); y = scaled(y, s);
            return decimal(static_cast<i128>(op == '+' ? static_cast<u128>(x.c) + static_cast<u128>(y.c) : static_cast<u128>(x.c) - static_cast<u128>(y.c)), s);
        }
        case '*': return cap(decimal(static_cast<i128>(static_cast<u128>(x.c) * static_cast<u128>(y.c)), x.scale + y.scale));
        default: break;
    }
    if (y.c == 0) return {};
    int s = std::max(x.scale, y.scale);
    x = scaled(x, s); y = scaled(y, s);
    if (y.c == 0) return {};
    if (y.c == -1) { y.c = 1; x.c = static_cast<i128>(static_cast<u128>(0) - static_cast<u128>(x.c)); }
    if (op == '%') return decimal(x.c % y.c, s);
    for (int i = 0; i < 4; ++i) x.c = times10(x.c);
    return decimal(x.c / y.c, 4);
}
value negate(value const& v) {
    switch (v.k) {
        case kind::integer: return integer(static_cast<long>(0UL - static_cast<unsigned long>(v.i)));
        case kind::decimal: return decimal(static_cast<i128>(static_cast<unsigned __int128>(0) - static_cast<unsigned __int128>(v.c)), v.scale);
        case kind::floating: return floating(-v.f);
        default: return {};
    }
}
namespace {
bool matches(std::string const& s, std::size_t i, std::string const& p, std::size_t j, int escape) {
    for (; j < p.size(); ++j) {
        auto c = static_cast<unsigned char>(p[j]);
        if (escape >= 0 && c == static_cast<unsigned>(escape) && j + 1 < p.size()) { ++j; if (i >= s.size() || s[i] != p[j]) return false; ++i; continue; }
        if (c == '%') { for (std::size_t k = i; k <= s.size(); ++k) if (matches(s, k, p, j + 1, escape)) return true; return false; }
        if (i >= s.size() || (c != '_' && s[i] != p[j])) return false;
        ++i;
    }
    return i == s.size();
}
} // namespace
value like(value const& in, value const& pattern, value const* escape) {
    if (in.null() || pattern.null() || (escape && escape->null())) return {};
    return boolean(matches(in.s, 0, pattern.s, 0, escape && escape->s.size() == 1 ? static_cast<unsigned char>(escape->s[0]) : -1));
}

std::string show(value const& v) {
    switch (v.k) {
        case kind::null: return "NULL";
        case kind::boolean: return v.i != 0 ? "TRUE" : "FALSE";
        case kind::integer: return std::to_string(v.i);
        case kind::decimal: {
            if (v.scale <= 0) { auto x = v.c; for (int i = 0; i > v.scale; --i) x = times10(x); return digits(x) + ".0"; }
            auto d = digits(v.c < 0 ? -v.c : v.c);
            while (static_cast<int>(d.size()) <= v.scale) d.insert(d.begin(), '0');
            return (v.c < 0 ? "-" : "") + d.substr(0, d.size() - static_cast<std::size_t>(v.scale)) + "." + d.substr(d.size() - static_cast<std::size_t>(v.scale));
        }
        case kind::floating: { char b[40]; std::snprintf(b, sizeof b, "%.17ge0", v.f); return b; }
        case kind::text: return "'" + v.s + "'";
        case kind::bytes: { std::string s = "X'"; static char const h[] = "0123456789ABCDEF"; for (char c : v.s) { s += h[static_cast<unsigned char>(c) >> 4U]; s += h[static_cast<unsigned char>(c) & 15U]; } return s + "'"; }
        case kind::date: return "date(" + std::to_string(v.i) + ")";
        case kind::time: return "time(" + std::to_string(v.i) + ")";
        case kind::stamp: return "stamp(" + std::to_string(v.i) + "." + std::to_string(v.scale) + ")";
    }
    return {};
}
std::string show(row const& r) { std::string s = "("; for (auto&& v : r) { if (s.size() > 1) s += ", "; s += show(v); } return s + ")"; }

value cast(vtype const& t, value const& v) {
    if (v.null()) return {};
    constexpr long day = 86400;
    auto floor_div = [](long a, long b) { long q = a / b; return a % b < 0 ? q - 1 : q; };
    switch (t.k) {
        case kind::null: return v;
        case kind::boolean:
            if (v.k == kind::boolean) return v;
            if (v.k == kind::integer) return boolean(v.i != 0);
            if (v.k == kind::text) return boolean(v.s == "true");
            return {};
        case kind::integer: {
            long r = 0;
            switch (v.k) {
                case kind::integer: case kind::boolean: r = v.i; break;
                case kind::decimal: { auto c = scaled(v, 0).c; constexpr i128 m = std::numeric_limits<long>::max(); r = c > m ? std::numeric_limits<long>::max() : c < -m ? -std::numeric_limits<long>::max() : static_cast<long>(c); break; }
                case kind::floating: r = v.f > 9e18 ? std::numeric_limits<long>::max() : v.f < -9e18 ? -std::numeric_limits<long>::max() : static_cast<long>(v.f); break;
                case kind::text: { auto s = v.s.substr(0, 18); char* e = nullptr; r = std::strtol(s.c_str(), &e, 10); if (e == s.c_str()) return {}; break; }
                default: return {};
            }
            if (t.width < 8) { long m = 1L << (t.width * 8 - 1); r = std::min(std::max(r, -m), m - 1); }
            return integer(r);
        }
        case kind::decimal: {
            value r {};
            switch (v.k) {
                case kind::integer: case kind::boolean: r = decimal(v.i, 0); break;
                case kind::decimal: r = v; break;
                case kind::floating: r = decimal(static_cast<i128>(std::max(-9e15, std::min(9e15, v.f * 100))), 2); break;
                case kind::text: { auto i = cast({ kind::integer }, v); if (i.null()) return {}; r = decimal(i.i, 0); break; }
                default: return {};
            }
            return t.scale < 0 ? r : scaled(r, t.scale);
        }
        case kind::floating: {
            if (number(v)) { double d = as_double(v); return floating(t.width == 4 ? static_cast<double>(static_cast<float>(d)) : d); }
            if (v.k == kind::text) { auto i = cast({ kind::integer }, v); if (i.null()) return {}; return floating(static_cast<double>(i.i)); }
            return {};
        }
        case kind::text: {
            std::string s = v.k == kind::text || v.k == kind::bytes ? v.s : show(v);
            if (t.precision >= 0 && s.size() > static_cast<std::size_t>(t.precision)) s.resize(static_cast<std::size_t>(t.precision));
            if (t.fixed && t.precision >= 0) s.resize(static_cast<std::size_t>(t.precision), ' ');
            return text(std::move(s));
        }
        case kind::bytes: {
            if (v.k != kind::text && v.k != kind::bytes) return {};
            auto s = v.s;
            if (t.precision >= 0 && s.size() > static_cast<std::size_t>(t.precision)) s.resize(static_cast<std::size_t>(t.precision));
            if (t.fixed && t.precision >= 0) s.resize(static_cast<std::size_t>(t.precision), '\0');
            return bytes(std::move(s));
        }
        case kind::date: {
            if (v.k == kind::date) return v;
            if (v.k != kind::stamp) return {};
            value r {}; r.k = kind::date; r.i = floor_div(v.i, day); return r;
        }
        case kind::time: {
            if (v.k == kind::time) return v;
            if (v.k != kind::stamp) return {};
            value r {}; r.k = kind::time; r.i = (v.i - floor_div(v.i, day) * day) * 1000000000L + v.scale; return r;
        }
        case kind::stamp: {
            if (v.k == kind::stamp) return v;
            if (v.k != kind::date) return {};
            value r {}; r.k = kind::stamp; r.i = v.i * day; return r;
        }
    }
    return {};
}

} // namespace sim::sql
