// Runtime values of the simulated database; shared by the executor and the reference model.
// Operations are total (no run-time errors), so that the order of evaluation cannot matter.
#pragma once
#include <cstdint>
#include <string>
#include <vector>

namespace sim::sql {

enum class kind : std::uint8_t { null, boolean, integer, decimal, floating, text, bytes, date, time, stamp };

struct value {
    kind k { kind::null };
    long i { 0 };               // boolean, integer, date (days), time (ns), stamp (s)
    __int128 c { 0 };           // decimal: coefficient
    int scale { 0 };            // decimal: digits after the point; stamp: ns
    double f { 0 };
    std::string s {};
    [[nodiscard]] bool null() const { return k == kind::null; }
};
using row = std::vector<value>;

value boolean(bool v);
value integer(long v);
value decimal(__int128 c, int scale);
value floating(double v);
value text(std::string s);
value bytes(std::string s);

/// static types, as far as the values depend on them
struct vtype {
    kind k { kind::null };
    int width { 8 };            // integer, floating: 4 or 8
    int precision { -1 };       // decimal: precision; text, bytes: length (-1: any)
    int scale { -1 };           // decimal (-1: any)
    bool zoned { false };       // time, stamp
    bool fixed { false };       // text, bytes: not varying
};
bool operator==(vtype const& a, vtype const& b);

enum class ternary { no, yes, unknown };
ternary of(value const& v);             // of booleans
value to_value(ternary t);
ternary operator!(ternary t);
ternary both(ternary a, ternary b);
ternary either(ternary a, ternary b);

enum class cmp { eq, ne, lt, le, gt, ge };
/// order of two values which are not null
int order(value const& a, value const& b);
ternary compare(cmp op, value const& a, value const& b);
/// null first
int sort_order(value const& a, value const& b);
/// equal for values which are not distinct
std::string key(value const& v);
std::string key(row const& r);

value arith(char op, value const& a, value const& b);      // + - * / % and | (concatenation)
value negate(value const& v);
value like(value const& in, value const& pattern, value const* escape);
value cast(vtype const& t, value const& v);
std::string show(value const& v);
std::string show(row const& r);

} // namespace sim::sql
