// B16: literals and data types mean exactly what they state.
#include "analyze.h"
#include "../ascii.h"

#include <takatori/type/all.h>
#include <takatori/value/all.h>
#include <takatori/datetime/all.h>
#include <takatori/scalar/cast.h>

#include <algorithm>
#include <cerrno>
#include <chrono>
#include <sstream>

#include <stdlib.h>

namespace sim {
namespace {

constexpr char const* id = "B16";

namespace tt = ::takatori::type;
namespace tv = ::takatori::value;
namespace dt = ::takatori::datetime;

template<class T, std::size_t N> T const& one_of(rt::prng& r, T const (&l)[N]) { return l[r.below(N)]; }

template<class T> std::string text_of(T const& v) { std::ostringstream o {}; o.imbue(std::locale::classic()); o.precision(17); o << v; return o.str(); }
template<class V, class T> std::string meaning(V const& v, T const& t) { return text_of(v) + ":" + text_of(t); }

/// what a run does with a piece of text: a literal or the name of a type
struct piece {
    std::string text {};
    std::string want {};            // value and type, or type
    std::string code {};            // why it is refused, instead
    std::size_t begin { 0 }, end { 0 };     // what is reported
    std::size_t number { 0 };       // where the digits start, behind a sign
};
piece refused(piece p, std::string code, std::size_t begin, std::size_t end) { p.code = std::move(code); p.begin = begin; p.end = end; return p; }

struct choices {
    u64 f;
    std::size_t max_decimal, max_int4, max_float4;
    std::optional<std::size_t> decimal;
    int zone;
    [[nodiscard]] bool has(long b) const { return (f & static_cast<u64>(b)) != 0; }
};
choices choices_of(op const& o) {
    choices c { static_cast<u64>(o.num(a_flags)), 38, 31, 25, {}, 0 };
    if (o.num(a_decimal, 38) >= 0) c.decimal = static_cast<std::size_t>(o.num(a_decimal, 38));
    if (o.num(a_precision) == 1) { c.max_int4 = 9; c.max_decimal = 20; }
    if (o.num(a_precision) == 2) { c.max_decimal = 5; c.max_float4 = 0; }
    if (o.num(a_precision) == 3) c.zone = 540;
    return c;
}

// ---- numbers
piece exact(std::string const& sign, std::string const& digits, std::string const& fraction, bool point, choices const& c) {
    piece p {};
    p.text = sign + digits + (point ? "." + fraction : "");
    p.number = sign.size();
    bool negative = !sign.empty() && sign[0] == '-';
    auto all = digits + fraction;
    auto first = all.find_first_not_of('0');
    auto coefficient = first == std::string::npos ? std::string { "0" } : all.substr(first);
    auto scale = fraction.size();
    if ((coefficient != "0" && coefficient.size() > c.max_decimal) || scale > c.max_decimal) return refused(p, "unsupported_decimal_value", p.number, p.text.size());
    unsigned __int128 v = 0;
    for (auto x : coefficient) v = v * 10 + static_cast<unsigned>(x - '0');
    if (scale == 0 && v <= static_cast<unsigned __int128>(9223372036854775807ULL) + (negative ? 1U : 0U)) {
        auto i = static_cast<std::int64_t>(negative ? 0 - static_cast<std::uint64_t>(v) : static_cast<std::uint64_t>(v));
        if (!c.has(af_small_integer) || i != static_cast<std::int32_t>(i)) p.want = meaning(tv::int8 { i }, tt::int8 {});
        else {
            tv::int4 w { static_cast<std::int32_t>(i) };
            p.want = i == static_cast<std::int8_t>(i) ? meaning(w, tt::int1 {}) : i == static_cast<std::int16_t>(i) ? meaning(w, tt::int2 {}) : meaning(w, tt::int4 {});
        }
        return p;
    }
    std::optional<std::size_t> precision {};
    if (c.has(af_small_decimal)) precision = std::max(coefficient.size(), scale);
    ::takatori::decimal::triple t { v == 0 ? 0 : negative ? -1 : 1, static_cast<std::uint64_t>(v >> 64U), static_cast<std::uint64_t>(v), -static_cast<std::int32_t>(scale) };
    p.want = meaning(tv::decimal { t }, tt::decimal { precision, scale });
    return p;
}
std::string random_digits(rt::prng& r, long n) { std::string s {}; while (n-- > 0) s += static_cast<char>('0' + r.below(10)); return s; }
std::string random_sign(rt::prng& r) {
    static char const* const l[] { "", "", "", "-", "-", "+", "- ", "-\n" };
    return one_of(r, l);
}
piece random_exact(rt::prng& r, choices const& c) {
    static char const* const known[] { "0", "1", "127", "128", "129", "32767", "32768", "32769", "2147483647", "2147483648", "2147483649", "9223372036854775807", "9223372036854775808", "9223372036854775809", "18446744073709551615", "18446744073709551616", "18446744073709551617", "99999999999999999999", "100", "7", "340282366920938463463374607431768211455", "99999999999999999999999999999999999999", "100000000000000000000000000000000000000", "4294967295", "4294967296", "36893488147419103231" };
    auto sign = random_sign(r);
    std::string zeros(r.chance(1, 8) ? static_cast<std::size_t>(r.range(1, 45)) : 0, '0');
    if (r.chance(1, 2)) return exact(sign, zeros + (r.chance(1, 2) ? std::string { one_of(r, known) } : random_digits(r, r.range(1, r.chance(1, 3) ? 41 : 6))), "", false, c);
    auto whole = r.chance(1, 2) ? random_digits(r, r.range(1, 3)) : r.chance(1, 2) ? std::string { "0" } : random_digits(r, r.range(1, 39));
    auto fraction = r.chance(1, 5) ? std::string(static_cast<std::size_t>(r.range(1, 40)), '0') : r.chance(1, 2) ? random_digits(r, r.range(1, 4)) : random_digits(r, r.range(1, 40));
    return exact(sign, zeros + whole, fraction, true, c);
}
piece random_approximate(rt::prng& r, choices const& c) {
    piece p {};
    auto sign = random_sign(r);
    p.number = sign.size();
    std::string number = random_digits(r, r.range(1, r.chance(1, 6) ? 60 : 4));
    if (r.chance(1, 2)) number += "." + random_digits(r, r.range(1, r.chance(1, 6) ? 60 : 4));
    number += r.chance(1, 2) ? "E" : "e";
    static char const* const e[] { "", "", "+", "-" };
    number += one_of(r, e);
    number += r.chance(1, 2) ? std::to_string(r.range(0, 20)) : r.chance(3, 4) ? std::to_string(r.range(0, 280)) : r.chance(1, 2) ? std::to_string(r.range(400, 100000)) : "0" + random_digits(r, 3);
    p.text = sign + number;
    static locale_t plain = newlocale(LC_ALL_MASK, "C", nullptr);
    auto v = ::strtod_l(number.c_str(), nullptr, plain);
    auto mantissa = number.substr(0, number.find_first_of("eE"));
    bool zero = mantissa.find_first_not_of("0.") == std::string::npos;
    // what is next to zero may be rounded or refused
    if (!zero && v < 1e-300) return exact("", "1", "", false, c);
    if (v > 1.7976931348623157e308) return refused(p, "unsupported_approximate_number", p.number, p.text.size());
    p.want = meaning(tv::float8 { sign.empty() || sign[0] != '-' ? v : -v }, tt::float8 {});
    return p;
}

// ---- strings
std::string in_quotes(std::string const& s) { std::string r { "'" }; for (auto x : s) { r += x; if (x == '\'') r += x; } return r + "'"; }
std::string separator(rt::prng& r) { static char const* const l[] { " ", "\n", " \t ", " /* ' */ ", "\n-- '\n" }; return one_of(r, l); }
piece random_string(rt::prng& r, choices const& c) {
    static char const* const l[] { "", "a", "'", "''", "it's", " ", "\\", "\"", "\xE3\x81\x82", "\xC3\xA9\xF0\x9F\x98\x80", "a text which is too long for the small string", "%", "x'", "\n", "--", "/*" };
    piece p {};
    std::string value { one_of(r, l) };
    p.text = in_quotes(value);
    for (auto k = r.chance(1, 3) ? r.range(1, 3) : 0; k > 0; --k) {
        std::string more { one_of(r, l) };
        value += more;
        p.text += separator(r) + in_quotes(more);
    }
    std::optional<std::size_t> size {};
    if (c.has(af_small_character)) size = value.size();
    p.want = meaning(tv::character { value }, tt::character { tt::varying, size });
    return p;
}
piece random_hex(rt::prng& r, choices const&) {
    piece p {};
    std::string value {};
    bool bad = r.chance(1, 8);
    auto k = r.chance(1, 3) ? r.range(2, 4) : 1;
    auto wrong = bad ? r.range(0, k - 1) : -1;
    for (long i = 0; i < k; ++i) {
        std::string digits {};
        for (auto n = r.range(0, r.chance(1, 6) ? 40 : 4); n > 0; --n) {
            auto b = static_cast<unsigned char>(r.below(256));
            static char const* const upper = "0123456789ABCDEF";
            static char const* const lower = "0123456789abcdef";
            auto* d = r.chance(1, 2) ? upper : lower;
            if (r.chance(1, 10)) digits += ' ';
            digits += d[b >> 4U];
            if (r.chance(1, 20)) digits += ' ';
            digits += d[b & 15U];
            value += static_cast<char>(b);
        }
        if (i == wrong) digits += r.chance(1, 2) ? "a" : r.chance(1, 2) ? "0g" : r.chance(1, 2) ? "@@" : "\t00";
        if (i > 0) p.text += separator(r); else p.text += r.chance(1, 2) ? "X" : "x";
        auto begin = p.text.size();
        p.text += "'" + digits + "'";
        if (i == wrong) { p.code = "malformed_quoted_string"; p.begin = begin; p.end = p.text.size(); }
    }
    // NOTE: whether a length is told does not depend on the options: the unit tests fix it
    p.want = meaning(tv::octet { value }, tt::octet { tt::varying, value.size() });
    return p;
}

// ---- times
std::string two(unsigned v) { return (v < 10 ? "0" : "") + std::to_string(v); }
piece random_time(rt::prng& r, choices const& c) {
    piece p {};
    auto year = r.chance(1, 2) ? r.range(1990, 2030) : r.range(1, 9999);
    auto month = static_cast<unsigned>(r.range(1, 12)), day = static_cast<unsigned>(r.range(1, 28));
    if (r.chance(1, 8)) { year = 2024; month = 2; day = 29; }
    if (r.chance(1, 8)) { month = 12; day = 31; }
    auto hour = static_cast<unsigned>(r.below(24)), minute = static_cast<unsigned>(r.below(60)), second = static_cast<unsigned>(r.below(60));
    if (r.chance(1, 6)) { hour = 23; minute = second = 59; }
    std::string fraction = r.chance(1, 2) ? "" : random_digits(r, r.range(1, 9));
    auto nanos = std::chrono::nanoseconds { fraction.empty() ? 0 : std::stol((fraction + "000000000").substr(0, 9)) };
    auto years = std::to_string(year);
    while (years.size() < 4) years.insert(years.begin(), '0');
    auto date = years + "-" + two(month) + "-" + two(day);
    auto time = two(hour) + ":" + two(minute) + ":" + two(second) + (fraction.empty() ? "" : "." + fraction);
    bool bad = r.chance(1, 10);
    dt::date d { static_cast<std::int32_t>(year), month, day };
    dt::time_of_day t { hour, minute, second, nanos };
    std::string prefix {}, contents {};
    auto blank = [&] { return r.chance(1, 6) ? std::string { "\n" } : std::string { " " }; };
    switch (r.below(5)) {
        case 0:
            prefix = "DATE" + blank();
            contents = bad ? r.chance(1, 2) ? time : "2020-13-01" : date;
            p.want = meaning(tv::date { d }, tt::date {});
            break;
        case 1:
            prefix = r.chance(1, 2) ? "TIME" + blank() : "TIME WITHOUT TIME ZONE ";
            contents = bad ? r.chance(1, 2) ? date : "24:00:00" : time;
            p.want = meaning(tv::time_of_day { t }, tt::time_of_day {});
            break;
        case 2:
            prefix = r.chance(1, 2) ? "TIMESTAMP" + blank() : "TIMESTAMP WITHOUT TIME ZONE ";
            contents = bad ? r.chance(1, 2) ? date + " " + time + "+09:00" : date + " x" : date + " " + time;
            p.want = meaning(tv::time_point { dt::time_point { d, t } }, tt::time_point {});
            break;
        case 3: {
            prefix = "TIMESTAMP WITH TIME ZONE ";
            contents = date + " " + time;
            dt::time_point x { d, t };
            std::chrono::minutes offset { c.zone };
            if (r.chance(2, 3)) {
                auto h = static_cast<unsigned>(r.below(15)), m = static_cast<unsigned>(r.below(4) * 15);
                bool plus = r.chance(1, 2);
                if (r.chance(1, 6)) { contents += "Z"; offset = {}; }
                else {
                    contents += (plus ? "+" : "-") + two(h) + ":" + two(m);
                    offset = std::chrono::minutes { plus ? static_cast<long>(h * 60 + m) : -static_cast<long>(h * 60 + m) };
                }
            }
            x -= offset;
            if (bad) contents = date + " " + time + "+x";
            p.want = meaning(tv::time_point { x }, tt::time_point { tt::with_time_zone });
            break;
        }
        default:
            // there are no values of this type
            p.text = "TIME WITH TIME ZONE '" + time + "'";
            return refused(p, "unsupported_feature", 0, p.text.size());
    }
    p.text = prefix + "'" + contents + "'";
    if (bad) return refused(p, "unsupported_string_value", prefix.size(), p.text.size());
    return p;
}

piece random_literal(rt::prng& r, choices const& c) {
    switch (r.below(12)) {
        case 0: case 1: case 2: case 3: return random_exact(r, c);
        case 4: case 5: return random_approximate(r, c);
        case 6: return random_string(r, c);
        case 7: return random_hex(r, c);
        case 8: case 9: return random_time(r, c);
        case 10: {
            piece p {};
            auto v = r.chance(1, 2);
            p.text = v ? "TRUE" : "FALSE";
            p.want = meaning(tv::boolean { v }, tt::boolean {});
            return p;
        }
        default: {
            piece p {};
            p.text = "NULL";
            if (!c.has(af_null)) return refused(p, "missing_context_of_null", 0, 4);
            p.want = meaning(tv::unknown { tv::unknown_kind::null }, tt::unknown {});
            return p;
        }
    }
}

// ---- types
template<class T> piece type_piece(std::string text, T const& t) { piece p {}; p.text = std::move(text); p.want = text_of(t); return p; }
piece random_type(rt::prng& r, choices const& c) {
    auto size = [&]() -> std::string { return r.chance(1, 6) ? "0" : r.chance(1, 8) ? "2147483648" : r.chance(1, 12) ? "18446744073709551615" : r.chance(1, 3) ? std::to_string(r.range(1, 8)) : std::to_string(r.range(1, 70)); };
    auto number = [](std::string const& s) { return static_cast<std::size_t>(std::strtoull(s.c_str(), nullptr, 10)); };
    auto length = [&](char const* name, bool varying, bool flexible, auto make) {
        piece p {};
        p.text = name;
        std::optional<std::size_t> n {};
        if (!varying) n = 1;
        if (r.chance(3, 4)) {
            bool star = flexible && r.chance(1, 4);
            auto s = star ? std::string { "*" } : size();
            auto blank = r.chance(1, 6) ? " " : "";
            p.text += std::string { blank } + "(";
            auto at = p.text.size();
            p.text += s + ")";
            if (star) n.reset();
            else if (number(s) == 0 || s.size() >= 20) return refused(p, "invalid_type_length", at, at + s.size());
            else n = number(s);
        }
        p.want = make(n);
        return p;
    };
    auto text = [](bool v) { return [v](std::optional<std::size_t> n) { return text_of(tt::character { tt::varying_t { v }, n }); }; };
    auto octets = [](bool v) { return [v](std::optional<std::size_t> n) { return text_of(tt::octet { tt::varying_t { v }, n }); }; };
    switch (r.below(24)) {
        case 0: return type_piece("TINYINT", tt::int1 {});
        case 1: return type_piece("SMALLINT", tt::int2 {});
        case 2: return type_piece(r.chance(1, 2) ? "INT" : "INTEGER", tt::int4 {});
        case 3: return type_piece("BIGINT", tt::int8 {});
        case 4: return type_piece(r.chance(1, 2) ? "REAL" : "FLOAT", tt::float4 {});
        case 5: return type_piece(r.chance(1, 2) ? "DOUBLE" : "DOUBLE PRECISION", tt::float8 {});
        case 6: return type_piece("BOOLEAN", tt::boolean {});
        case 7: return type_piece("DATE", tt::date {});
        case 8: return r.chance(1, 2) ? type_piece("TIME", tt::time_of_day {}) : r.chance(1, 2) ? type_piece("TIME WITHOUT TIME ZONE", tt::time_of_day {}) : type_piece("TIME WITH TIME ZONE", tt::time_of_day { tt::with_time_zone });
        case 9: return r.chance(1, 2) ? type_piece("TIMESTAMP", tt::time_point {}) : r.chance(1, 2) ? type_piece("TIMESTAMP WITHOUT TIME ZONE", tt::time_point {}) : type_piece("TIMESTAMP WITH TIME ZONE", tt::time_point { tt::with_time_zone });
        case 10: case 11: return length(r.chance(1, 2) ? "CHAR" : "CHARACTER", false, false, text(false));
        case 12: case 13: return length(r.chance(1, 3) ? "VARCHAR" : r.chance(1, 2) ? "CHAR VARYING" : "CHARACTER VARYING", true, true, text(true));
        case 14: return length("BINARY", false, false, octets(false));
        case 15: return length(r.chance(1, 2) ? "VARBINARY" : "BINARY VARYING", true, true, octets(true));
        case 16: case 17: {     // INT(n), FLOAT(n): bits
            bool f = r.chance(1, 2);
            piece p {};
            p.text = f ? "FLOAT(" : r.chance(1, 2) ? "INT(" : "INTEGER(";
            auto at = p.text.size();
            auto s = size();
            p.text += s + ")";
            auto n = number(s);
            if (s.size() >= 20) n = 0;
            if (n == 0 || n > (f ? 53U : 63U)) return refused(p, "invalid_type_length", at, at + s.size());
            if (f) p.want = n <= c.max_float4 ? text_of(tt::float4 {}) : text_of(tt::float8 {});
            else p.want = n <= 7 ? text_of(tt::int1 {}) : n <= 15 ? text_of(tt::int2 {}) : n <= c.max_int4 ? text_of(tt::int4 {}) : text_of(tt::int8 {});
            return p;
        }
        case 22: return r.chance(1, 2) ? type_piece("BLOB", tt::blob {}) : type_piece("BINARY LARGE OBJECT", tt::blob {});
        case 23: return r.chance(1, 2) ? type_piece("CLOB", tt::clob {}) : type_piece(r.chance(1, 2) ? "CHAR LARGE OBJECT" : "CHARACTER LARGE OBJECT", tt::clob {});
        default: {
            piece p {};
            static char const* const names[] { "DECIMAL", "DEC", "NUMERIC" };
            p.text = one_of(r, names);
            auto precision = c.decimal;
            std::optional<std::size_t> scale { 0 };
            std::size_t pb = 0, pe = 0, sb = 0, se = 0;
            bool whole = true;
            if (r.chance(3, 4)) {
                whole = false;
                p.text += "(";
                pb = p.text.size();
                auto s = r.chance(1, 5) ? std::string { "*" } : r.chance(1, 8) ? size() : std::to_string(r.range(0, 42));
                p.text += s;
                pe = p.text.size();
                if (s == "*") precision.reset(); else precision = s.size() >= 20 ? 0 : number(s);
                if (r.chance(2, 3)) {
                    p.text += r.chance(1, 2) ? "," : ", ";
                    sb = p.text.size();
                    auto q = r.chance(1, 5) ? std::string { "*" } : std::to_string(r.chance(1, 2) ? r.range(0, 5) : r.range(0, 42));
                    p.text += q;
                    se = p.text.size();
                    if (q == "*") scale.reset(); else scale = number(q);
                }
                p.text += ")";
            }
            if (whole) { pb = 0; pe = p.text.size(); }
            if (precision && (*precision == 0 || *precision > c.max_decimal)) return refused(p, "invalid_type_length", pb, pe);
            if (scale && *scale > precision.value_or(c.max_decimal)) return refused(p, "invalid_numeric_scale", sb, se);
            p.want = text_of(tt::decimal { precision, scale });
            return p;
        }
    }
}

/// columns of the sample catalog which take any number or text
struct target { char const* table; char const* column; std::string type; bool number; };

void step(op const& o, world& w, analyzer::sql_analyzer& a, rt::alloc_fault const& fault) {
    auto c = choices_of(o);
    rt::prng r { static_cast<u64>(o.num(9)) };
    struct part { piece p; std::size_t at; std::string around; };
    std::vector<part> parts {};
    std::string text {};
    auto n = static_cast<std::size_t>(o.num(10));
    auto shape = o.num(11);
    static std::vector<target> const targets {
        { "t0", "c0", text_of(tt::int4 {}), true }, { "t0", "c1", text_of(tt::int8 {}), true }, { "t0", "c3", text_of(tt::decimal { 10, 2 }), true }, { "t1", "f", text_of(tt::float8 {}), true }, { "t0", "c2", text_of(tt::character { tt::varying }), false }, { "t1", "v", text_of(tt::character { 10 }), false },
    };
    target const* into = nullptr;
    auto add = [&](piece p, std::string around = {}) { auto at = text.size(); text += p.text; parts.push_back({ std::move(p), at, std::move(around) }); };
    switch (shape) {
        case 3:     // types
            text = "SELECT ";
            for (std::size_t i = 0; i < n; ++i) {
                if (i > 0) text += ", ";
                text += "CAST(";
                text += "NULL AS ";
                add(random_type(r, c));
                text += ")";
            }
            break;
        case 4: {   // the type of a column
            into = std::addressof(targets[r.below(targets.size())]);
            text = std::string { "INSERT INTO pub." } + into->table + " (" + into->column + ") VALUES ";
            for (std::size_t i = 0; i < n; ++i) {
                piece p {};
                if (r.chance(1, 6)) { p.text = "NULL"; p.want = text_of(tv::unknown { tv::unknown_kind::null }) + ":" + into->type; }
                else if (into->number) p = r.chance(1, 4) ? random_approximate(r, c) : random_exact(r, c);
                else p = random_string(r, c);
                bool same = p.want.size() > into->type.size() && p.want.compare(p.want.size() - into->type.size() - 1, std::string::npos, ":" + into->type) == 0;
                text += i > 0 ? ", (" : "(";
                add(p, !same && c.has(af_cast) ? into->type : std::string {});
                text += ")";
            }
            break;
        }
        default:
            text = shape == 2 ? "VALUES (" : "SELECT ";
            for (std::size_t i = 0; i < n; ++i) {
                if (i > 0) text += ", ";
                bool more = r.chance(1, 8);
                if (more) text += "(";
                add(random_literal(r, c));
                if (more) text += ")";
            }
            if (shape == 1) text += " FROM pub.t0";
            if (shape == 2) text += ")";
    }
    auto p = make_analyze(text, std::vector<long>(o.n.begin(), o.n.begin() + 9));
    if (shape == 3) p.n[a_flags] |= af_null;
    auto options = make_options(w, p);
    auto src = parse_source(p);
    if (!src.statement) fail("parse", "a statement with literals was not parsed" + where(p));
    lookups() = {};
    rt::set_alloc_fault(fault);
    std::string out {};
    bool failed = false;
    try {
        rt::armed x {};
        auto result = call(a, options, src, w, p);
        rt::disarmed d {};
        rt::set_alloc_fault({});
        count_result(result);
        out = canon_brief(result);
    } catch (std::bad_alloc const&) {
        rt::set_alloc_fault({});
        if (fault.at < 0) fail("exception", "bad_alloc without a fault" + where(p));
        rt::count(c_threw);
        failed = true;
    }
    if (failed) return;
    auto place = [](std::size_t b, std::size_t e) { return "@" + std::to_string(b) + "-" + std::to_string(e); };
    bool wrong = false;
    bool diagnostics = out.compare(0, 11, "diagnostics") == 0;
    for (auto&& x : parts) {
        if (x.p.code.empty()) continue;
        if (!diagnostics) fail("accepted", "what has no meaning was accepted: " + escape(x.p.text, 200) + " (" + x.p.code + ")" + where(p) + "\n  result: " + escape(out, 2000));
        // the first of them is told
        if (!wrong && out.find(x.p.code + place(x.at + x.p.begin, x.at + x.p.end)) == std::string::npos) fail("report", "the report does not tell what is wrong: " + escape(x.p.text, 200) + " (" + x.p.code + place(x.at + x.p.begin, x.at + x.p.end) + ")" + where(p) + "\n  result: " + escape(out, 2000));
        wrong = true;
    }
    if (wrong) { rt::count(c_compared); return; }
    if (diagnostics) fail("refused", "literals or types which have a meaning were refused" + where(p) + "\n  result: " + escape(out, 2000));
    for (auto&& x : parts) {
        bool found = false;
        std::string want {};
        if (shape == 3) {
            // the operand or the whole
            want = "(" + x.p.want + ",";
            for (auto&& i : { place(x.at - 8, x.at - 4), place(x.at - 13, x.at + x.p.text.size() + 1) }) if (out.find("cast" + i + want) != std::string::npos) found = true;
        } else {
            for (auto b : { x.p.number, std::size_t { 0 } }) {
                auto i = place(x.at + b, x.at + x.p.text.size());
                want = "immediate" + i + "(" + x.p.want + ")";
                if (!x.around.empty()) want = "cast" + i + "(" + x.around + "," + text_of(::takatori::scalar::cast_loss_policy::error) + "," + want + ")";
                if (out.find(want) != std::string::npos) found = true;
            }
        }
        if (!found) fail("meaning", "not in the result: " + escape(want, 300) + " for " + escape(x.p.text, 300) + where(p) + "\n  result: " + escape(out, 2500));
        rt::count(c_compared);
    }
}

void execute(scenario const& s, expectations const&) {
    apply_environment(s);
    rt::run_single([&] {
        world w {};
        auto live = rt::live_armed_blocks();
        {
            std::unique_ptr<analyzer::sql_analyzer> a {};
            {
                rt::armed x {};
                a = std::make_unique<analyzer::sql_analyzer>();
            }
            for (std::size_t i = 0; i < s.threads[0].size(); ++i) {
                rt::alloc_fault af {};
                if (auto* f = s.fault_of(0, static_cast<int>(i), "alloc")) { af.at = f->at; af.len = f->len; }
                if (s.get("errno") != 0) errno = static_cast<int>(s.get("errno"));
                step(s.threads[0][i], w, *a, af);
            }
            rt::armed x {};
            a.reset();
        }
        rt::count(c_leak_checked);
        if (rt::live_armed_blocks() != live) fail("leak", std::string { "blocks remain allocated after the analyzer is gone\n" } + rt::describe_live(4));
    }, 65536);
}

void generate(rt::prng& r, scenario& s, oracle&, bool thorough) {
    random_heap(r, s);
    s.cfg["locale"] = r.chance(1, 2);
    if (r.chance(1, 4)) s.cfg["errno"] = r.chance(1, 2) ? 34 : 12;
    s.threads.resize(1);
    for (auto n = r.range(2, thorough ? 16 : 8), i = 0L; i < n; ++i) {
        op o {};
        o.kind = "literals";
        auto x = random_options(r);
        for (auto b : { af_null, af_small_integer, af_small_character, af_small_binary, af_small_decimal }) if (r.chance(1, 3)) x[a_flags] ^= b;
        x[a_path] = 0;
        x[a_source] = r.chance(1, 6) ? 1 : 0;
        if (x[a_source] == 1) x[a_source] = 0;
        x.resize(9);
        x[a_statement] = 0;
        x.push_back(static_cast<long>(r.next() >> 2U));
        x.push_back(r.range(1, 4));
        x.push_back(r.range(0, 4));
        o.n = std::move(x);
        if (r.chance(1, 6)) s.faults.push_back({ 0, static_cast<int>(i), "alloc", static_cast<long>(r.below(150)), r.chance(1, 4) ? 1000000 : 1, 0 });
        s.threads[0].push_back(std::move(o));
    }
}

property const p { id, "", generate, execute, solo_analyze, [](op const&) { return false; }, 6000, 600000,
    "A run analyses 2 to 8 statements with 1 to 4 literals or names of types each, with the same analyzer and changing options, under another locale of C and C++, leftover errno, heap layout, and memory running out in some steps; each literal and type which the plan has is compared to the value and type which its text states, and each report of one which has no meaning to its place." };
registrar const reg { &p };

} // namespace
} // namespace sim
