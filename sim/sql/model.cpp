// Reference model of SQL: expressions and queries.
#include "model.h"

#include <algorithm>
#include <set>

namespace sim::sql {

std::string random_choices(rt::prng& r, std::size_t n) { std::string s {}; for (std::size_t i = 0; i < n; ++i) s += static_cast<char>(33 + r.below(94)); return s; }

vtype type_of(tclass c) {
    switch (c) {
        case tclass::i4: return { kind::integer, 4 };
        case tclass::i8: return { kind::integer, 8 };
        case tclass::dec: return { kind::decimal };
        case tclass::f8: return { kind::floating, 8 };
        case tclass::str: return { kind::text };
        case tclass::bo: return { kind::boolean };
        case tclass::da: return { kind::date };
        case tclass::ti: return { kind::time };
        case tclass::tp: return { kind::stamp };
        case tclass::oct: return { kind::bytes };
        case tclass::tz: { vtype t { kind::stamp }; t.zoned = true; return t; }
        default: return {};
    }
}
bool ordinary(table_def const& t) {
    for (auto&& c : t.columns) {
        auto& y = c.type;
        bool ok = y.k == kind::integer ? y.width >= 4 : y.k == kind::floating ? y.width == 8 : y.k == kind::text || y.k == kind::bytes ? !y.fixed : y.k == kind::time ? !y.zoned : true;
        if (!ok) return false;
    }
    return true;
}
tclass class_of(vtype const& t) {
    switch (t.k) {
        case kind::boolean: return tclass::bo;
        case kind::integer: return t.width == 4 ? tclass::i4 : tclass::i8;
        case kind::decimal: return tclass::dec;
        case kind::floating: return tclass::f8;
        case kind::text: return tclass::str;
        case kind::bytes: return tclass::oct;
        case kind::date: return tclass::da;
        case kind::time: return tclass::ti;
        case kind::stamp: return t.zoned ? tclass::tz : tclass::tp;
        default: return tclass::last;
    }
}
bool compatible(tclass a, tclass b) { auto n = [](tclass x) { return x == tclass::i4 ? tclass::i8 : x; }; return n(a) == n(b); }

namespace {

std::string lower(std::string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c = static_cast<char>(c - 'A' + 'a'); return s; }

char const* const texts[] { "a", "", "b", "ab", "A", "a_b", "100%", "abc", "it's", "\xe3\x81\x82", " ", "B" };
struct named_date { char const* text; long days; };
named_date const dates[] { { "2000-01-01", 10957 }, { "2020-02-29", 18321 }, { "1970-01-01", 0 }, { "1999-12-31", 10956 }, { "2024-03-01", 19783 } };
struct named_time { char const* text; long ns; };
named_time const times[] { { "00:00:00", 0 }, { "12:34:56", 45296000000000L }, { "23:59:59", 86399000000000L }, { "06:00:00.5", 21600500000000L } };
std::string two(long x) { auto s = std::to_string(x); return s.size() < 2 ? "0" + s : s; }
std::string time_text(long ns) {
    long s = ns / 1000000000L, f = ns % 1000000000L;
    auto r = two(s / 3600) + ":" + two(s / 60 % 60) + ":" + two(s % 60);
    if (f != 0) { auto d = std::to_string(f + 1000000000L).substr(1); while (d.back() == '0') d.pop_back(); r += "." + d; }
    return r;
}
std::string date_text(long z) {
    z += 719468;
    long era = (z >= 0 ? z : z - 146096) / 146097;
    long doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    long doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
    long d = doy - (153 * mp + 2) / 5 + 1, m = mp < 10 ? mp + 3 : mp - 9, y = yoe + era * 400 + (m <= 2 ? 1 : 0);
    auto ys = std::to_string(y);
    while (ys.size() < 4) ys.insert(ys.begin(), '0');
    return ys + "-" + two(m) + "-" + two(d);
}
} // namespace

value random_value(choices& c, tclass t, bool null) {
    if (null && c.one_in(5)) return {};
    switch (t) {
        case tclass::i4: { static long const l[] { 0, 1, 2, 3, -1, 5, 100, -2 }; return integer(l[c.pick(8)]); }
        case tclass::i8: { static long const l[] { 0, 1, 2, 3, -1, 4, 3000000000L, -7 }; return integer(l[c.pick(8)]); }
        case tclass::dec: { static int const l[] { 0, 150, 100, 225, -100, 199, 300 }; return decimal(l[c.pick(7)], 2); }
        case tclass::f8: { static double const l[] { 0, 1.5, 1, -0.25, 2, 1e10 }; return floating(l[c.pick(6)]); }
        case tclass::str: return text(texts[c.pick(12)]);
        case tclass::bo: return boolean(c.pick(2) == 0);
        case tclass::da: { value v {}; v.k = kind::date; v.i = dates[c.pick(5)].days; return v; }
        case tclass::ti: { value v {}; v.k = kind::time; v.i = times[c.pick(4)].ns; return v; }
        case tclass::tp: case tclass::tz: { value v {}; v.k = kind::stamp; auto ns = times[c.pick(4)].ns; v.i = dates[c.pick(5)].days * 86400 + ns / 1000000000L; v.scale = static_cast<int>(ns % 1000000000L); return v; }
        case tclass::oct: { static char const* const l[] { "", "a", "\xff\x01", "ab" }; return bytes(l[c.pick(4)]); }
        default: return {};
    }
}

std::string identifier(choices& c, style const& s, std::string const& name) {
    bool lower = std::none_of(name.begin(), name.end(), [](char x) { return x >= 'A' && x <= 'Z'; });
    auto how = s.fancy ? c.pick(6) : 0;
    bool plain = std::all_of(name.begin(), name.end(), [](unsigned char x) { return ascii::alnum(x) || x == '_'; }) && !name.empty() && !ascii::digit(static_cast<unsigned char>(name[0]));
    if (!plain || (s.lowercase && !lower) || how == 5) {
        std::string q = "\"";
        for (char x : name) { q += x; if (x == '"') q += x; }
        return q + "\"";
    }
    if (s.lowercase && how == 4) { auto n = name; for (auto& x : n) if (x >= 'a' && x <= 'z' && c.pick(2) == 1) x = static_cast<char>(x - 32); return n; }
    if (s.lowercase && how == 3) { auto n = name; for (auto& x : n) if (x >= 'a' && x <= 'z') x = static_cast<char>(x - 32); return n; }
    return name;
}

std::string literal(choices& c, style const& s, value const& v, vtype const& t) {
    (void) s;
    switch (v.k) {
        case kind::null: return "NULL";
        case kind::boolean: return v.i != 0 ? "TRUE" : "FALSE";
        case kind::integer: return std::to_string(v.i);
        case kind::decimal: return show(v);
        case kind::floating: { static char const* const f[] { "%.17ge0", "%.17gE+0" }; char b[48]; std::snprintf(b, sizeof b, f[c.pick(2)], v.f); std::string r = b; if (r.find('e') != r.rfind('e') || r.find('e') < r.find('E')) { std::snprintf(b, sizeof b, "%.17e", v.f); r = b; } return r; }
        case kind::text: {
            std::string r = "'";
            for (char x : v.s) { r += x; if (x == '\'') r += x; }
            return r + "'";
        }
        case kind::bytes: return show(v);
        case kind::date: return "DATE '" + date_text(v.i) + "'";
        case kind::time: return "TIME '" + time_text(v.i) + "'";
        case kind::stamp: {
            long off = t.zoned ? static_cast<long>(c.pick(3)) * 90 - 90 : 0;
            auto at = v.i + off * 60;
            long day = at / 86400, sec = at % 86400;
            if (sec < 0) { --day; sec += 86400; }
            auto r = "TIMESTAMP '" + date_text(day) + (c.pick(2) == 0 ? " " : "T") + time_text(sec * 1000000000L + v.scale);
            if (t.zoned) { auto o = off < 0 ? -off : off; r += (off < 0 ? "-" : "+") + two(o / 60) + ":" + two(o % 60); r.replace(0, 9, "TIMESTAMP WITH TIME ZONE"); }
            return r + "'";
        }
    }
    return {};
}
std::string type_name(choices& c, vtype const& t) {
    switch (t.k) {
        case kind::boolean: return "BOOLEAN";
        case kind::integer: if (t.width == 4) return c.pick(2) == 0 ? "INT" : "INTEGER"; return "BIGINT";
        case kind::decimal: return t.precision < 0 ? (t.scale < 0 ? "DECIMAL(*, *)" : "DECIMAL(*," + std::to_string(t.scale) + ")") : t.scale == 0 && c.pick(2) == 1 ? "DECIMAL(" + std::to_string(t.precision) + ")" : "DECIMAL(" + std::to_string(t.precision) + "," + std::to_string(t.scale) + ")";
        case kind::floating: { if (t.width == 4) return "REAL"; static char const* const l[] { "DOUBLE PRECISION", "DOUBLE", "FLOAT(53)" }; return l[c.pick(3)]; }
        case kind::text: case kind::bytes: {
            static char const* const v[] { "VARCHAR", "CHARACTER VARYING", "CHAR VARYING" };
            static char const* const f[] { "CHAR", "CHARACTER", "CHAR" };
            static char const* const vb[] { "VARBINARY", "BINARY VARYING", "VARBINARY" };
            std::string n = t.k == kind::text ? (t.fixed ? f[c.pick(3)] : v[c.pick(3)]) : t.fixed ? "BINARY" : vb[c.pick(3)];
            return n + "(" + (t.precision < 0 ? "*" : std::to_string(t.precision)) + ")";
        }
        case kind::date: return "DATE";
        case kind::time: return t.zoned ? "TIME WITH TIME ZONE" : c.pick(2) == 0 ? "TIME" : "TIME WITHOUT TIME ZONE";
        case kind::stamp: return t.zoned ? "TIMESTAMP WITH TIME ZONE" : c.pick(2) == 0 ? "TIMESTAMP" : "TIMESTAMP WITHOUT TIME ZONE";
        default: return "?";
    }
}

// ---- names

std::vector<std::string> maker::renderings(scope* s, std::size_t up, source_relation const& r, source_column const& c) {
    std::vector<std::string> l {};
    scope* at = s;
    bool name_hidden = false, relation_hidden = r.name.empty();
    for (std::size_t i = 0; i < up; ++i, at = at->outer) {
        for (auto&& x : at->relations) {
            if (x.name == r.name) relation_hidden = true;
            for (auto&& y : x.columns) if (y.c.name == c.c.name) name_hidden = true;
        }
    }
    if (c.c.name.empty()) return l;
    std::size_t names = 0, relations = 0, inside = 0;
    for (std::size_t i = 0; i < at->relations.size(); ++i) {
        auto& x = at->relations[i];
        if (x.name == r.name) ++relations;
        for (auto&& y : x.columns) {
            if (y.c.name != c.c.name) continue;
            if (i >= at->from && i < at->to ? y.visible : true) ++names;
            if (std::addressof(x) == std::addressof(r) && y.visible) ++inside;
        }
    }
    // names of relations before this element of the FROM clause
    if (!name_hidden && names == 1) l.push_back(ident(c.c.name));
    if (!relation_hidden && relations == 1 && inside == 1 && c.merged.empty()) l.push_back(ident(r.name) + "." + ident(c.c.name));
    return l;
}

std::vector<maker::candidate> maker::candidates(scope* s, tclass t, bool same_class) {
    std::vector<candidate> l {};
    std::size_t up = 0;
    for (auto* at = s; at != nullptr; at = at->outer, ++up) {
        for (std::size_t i = at->from; i < at->to && i < at->relations.size(); ++i) {
            auto& r = at->relations[i];
            for (auto&& c : r.columns) {
                if (!c.visible) continue;
                auto k = class_of(c.c.type);
                if (same_class ? k != t : !compatible(k, t)) continue;
                if (at->grouped && (std::find(at->keys.begin(), at->keys.end(), c.slot) == at->keys.end() || !c.merged.empty())) continue;
                l.push_back({ up, std::addressof(c), {}, c.c.exact });
                // the owner is found again when it is rendered
            }
        }
    }
    return l;
}

bool maker::column(tclass t, scope* s, ex& out, bool same_class) {
    auto l = candidates(s, t, same_class);
    if (l.empty()) return false;
    auto start = c_.pick(l.size());
    for (std::size_t n = 0; n < l.size(); ++n) {
        auto& k = l[(start + n) % l.size()];
        scope* at = s;
        for (std::size_t i = 0; i < k.up; ++i) at = at->outer;
        source_relation const* owner = nullptr;
        for (auto&& r : at->relations) for (auto&& c : r.columns) if (std::addressof(c) == k.column) owner = std::addressof(r);
        auto texts = renderings(s, k.up, *owner, *k.column);
        if (texts.empty()) continue;
        out = {};
        out.text = texts[c_.pick(texts.size())];
        out.type = k.column->c.type;
        out.exact = k.column->c.exact;
        out.name = k.column->c.name;
        auto up = k.up;
        auto slot = k.column->slot;
        auto merged = k.column->merged;
        out.eval = [up, slot, merged](ctx const& x) -> value {
            auto* p = std::addressof(x);
            for (std::size_t i = 0; i < up; ++i) p = p->outer;
            auto* v = std::addressof((*p->r)[slot - p->base]);
            for (auto m : merged) if (v->null()) v = std::addressof((*p->r)[m - p->base]);
            return *v;
        };
        return true;
    }
    return false;
}

std::string maker::paren(ex const& e, int prec) {
    if (e.prec >= prec && !(c_.one_in(9) && e.text.size() < 200)) return e.text;
    return "(" + e.text + ")";
}

// ---- expressions

ex maker::constant(tclass t) {
    ex e {};
    e.constant = true;
    if (t == tclass::i4) t = tclass::i8;
    auto v = random_value(c_, t, false);
    if (t == tclass::f8) { static double const l[] { 1.5, 0, 2, 0.25 }; v = floating(l[c_.pick(4)]); }
    if (t == tclass::i8) { static long const l[] { 1, 0, 2, 3, 10, 3000000000L, 7, 5 }; v = integer(l[c_.pick(8)]); }
    if (t == tclass::dec) { static int const l[] { 150, 100, 25, 200, 199 }; v = decimal(l[c_.pick(5)], 2); }
    if (t == tclass::oct) { static char const* const l[] { "a", "\xff\x01", "ab" }; v = bytes(l[c_.pick(3)]); }
    e.type = type_of(t);
    if (t == tclass::i8 && v_.st.small_integers && v.i < 2147483648L) e.type.width = 4;
    e.text = literal(c_, v_.st, v, e.type);
    if (t == tclass::str && c_.one_in(8)) {     // adjacent pieces
        auto w = random_value(c_, t, false);
        e.text += " " + literal(c_, v_.st, w, e.type);
        v.s += w.s;
    }
    e.exact = t != tclass::str && t != tclass::dec && t != tclass::oct;
    e.eval = [v](ctx const&) { return v; };
    return e;
}

// ---- errors

std::string maker::made(std::string const& what, std::string const& text, std::vector<std::string> codes, bool around) {
    error->what = what;
    error->codes = std::move(codes);
    error->around = around;
    return "\x01" + text + "\x02";
}

ex maker::wrong(tclass t, scope* s) {
    struct choice { char const* what; std::string text; std::vector<std::string> codes; bool around; };
    std::vector<choice> l {};
    ex e {};
    e.type = type_of(t);
    e.eval = [](ctx const&) { return value {}; };
    l.push_back({ "a column which does not exist", ident("nosuch"), { "variable_not_found" }, false });
    l.push_back({ "a column of a relation which does not exist", ident("nosuch") + "." + ident("a"), { "symbol_not_found" }, false });
    l.push_back({ "a schema which does not exist", ident("nosuch") + "." + ident("t0") + "." + ident("a"), { "symbol_not_found" }, false });
    l.push_back({ "a host variable which does not exist", ":nosuch", { "variable_not_found" }, false });
    l.push_back({ "a function which does not exist", ident("nosuch") + "(1)", { "function_not_found" }, false });
    l.push_back({ "a function which does not exist", ident("nosuch") + "()", { "function_not_found" }, false });
    l.push_back({ "a function of a schema which does not exist", ident("nosuch") + "." + ident("kind_of") + "(1)", { "function_not_found", "schema_not_found" }, false });
    l.push_back({ "too many arguments", ident("days") + "(1, 2)", { "function_not_found" }, false });
    l.push_back({ "missing arguments", ident("is_ok") + "()", { "function_not_found" }, false });
    l.push_back({ "arguments of wrong types", ident("days") + "(TRUE)", { "function_not_found" }, false });
    l.push_back({ "a date which is none", "DATE '2000-13-01'", { "unsupported_string_value" }, false });
    l.push_back({ "a time which is none", "TIME '10:61:00'", { "unsupported_string_value" }, false });
    l.push_back({ "bytes which are none", "X'0g'", { "malformed_quoted_string" }, false });
    l.push_back({ "a number which is too long", "1234567890123456789012345678901234567890.5", { "unsupported_decimal_value" }, false });
    l.push_back({ "a type which is none", "CAST(1 AS DECIMAL(40))", { "invalid_type_length" }, false });
    l.push_back({ "a type which is none", "CAST('a' AS VARCHAR(0))", { "invalid_type_length" }, false });
    if (!no_subquery) {
        l.push_back({ "a subquery of two columns", "(SELECT 1, 2)", { "inconsistent_columns" }, false });
        l.push_back({ "a subquery of two columns", "1 IN (SELECT 1, 2)", { "inconsistent_columns" }, false });
    }
    for (auto* at = s; at != nullptr; at = at->outer) {
        if (at->relations.empty()) continue;
        auto& r = at->relations[c_.pick(at->relations.size())];
        if (r.name.empty()) continue;
        bool other = false;
        for (auto* o = s; o != nullptr; o = o->outer) for (auto&& x : o->relations) if (x.name == r.name && std::addressof(x) != std::addressof(r)) other = true;
        if (other) continue;
        if (at->to != 0 && std::addressof(r) - at->relations.data() < static_cast<std::ptrdiff_t>(at->to) && std::addressof(r) - at->relations.data() >= static_cast<std::ptrdiff_t>(at->from)) l.push_back({ "a column which the relation does not have", ident(r.name) + "." + ident("nosuch"), { "column_not_found" }, false });
        else for (auto&& c : r.columns) if (!c.c.name.empty() && c.visible && std::count_if(r.columns.begin(), r.columns.end(), [&](auto& x) { return lower(x.c.name) == lower(c.c.name); }) == 1) { for (int i = 0; i < 6; ++i) l.push_back({ "a column of a relation which cannot be seen here", ident(r.name) + "." + ident(c.c.name), { "variable_not_found", "symbol_not_found", "column_not_found" }, false }); break; }
    }
    if (s != nullptr) {
        std::map<std::string, int> names {};
        for (auto i = s->from; i < s->to && i < s->relations.size(); ++i) for (auto&& c : s->relations[i].columns) if (!c.c.name.empty() && c.visible) names[c.c.name] += c.merged.empty() ? 1 : 100;
        for (auto&& [n, k] : names) if (k > 1 && k < 100) { l.push_back({ "an ambiguous column", ident(n), { "column_ambiguous" }, false }); l.push_back(l.back()); break; }
        if (s->grouped) for (auto&& r : s->relations) for (auto&& c : r.columns) {
            if (!c.visible || !c.merged.empty() || std::find(s->keys.begin(), s->keys.end(), c.slot) != s->keys.end()) continue;
            if (!compatible(class_of(c.c.type), t)) continue;
            auto x = renderings(s, 0, r, c);
            if (!x.empty()) { for (int i = 0; i < 5; ++i) l.push_back({ "a column which is not grouped", x[c_.pick(x.size())], { "invalid_aggregation_column" }, false }); break; }
        }
    }
    if (clause != 'n') {
        static char const* const a[] { "COUNT(*)", "MAX(1)", "COUNT(DISTINCT 1)" };
        static std::map<char, char const*> const names { { 'w', "an aggregate in WHERE" }, { 'o', "an aggregate in ON" }, { 'v', "an aggregate in VALUES" }, { 's', "an aggregate in SET" }, { 'd', "an aggregate in WHERE of a change" }, { 'a', "an aggregate of an aggregate" }, { 'p', "an aggregate in APPLY" } };
        for (int i = 0; i < 2; ++i) {
            std::string x = a[c_.pick(3)];
            if (t != tclass::i4 && t != tclass::i8 && t != tclass::dec && t != tclass::f8) {
                auto v = t == tclass::bo ? std::string { "TRUE" } : constant(t).text;
                x = "CASE WHEN " + x + " = 1 THEN " + v + " ELSE " + v + " END";
            }
            l.push_back({ names.at(clause), x, { "unsupported_feature" }, true });
        }
    }
    auto& k = l[c_.pick(l.size())];
    e.text = made(k.what, k.text, k.codes, k.around);
    e.prec = k.text.compare(0, 4, "1 IN") == 0 ? 5 : 9;
    return e;
}

std::string maker::wrong_table() {
    struct choice { char const* what; std::string text; std::string code { "table_not_found" }; };
    std::vector<choice> l {};
    l.push_back({ "a table which does not exist", ident("nosuch") });
    l.push_back({ "a table of a schema which does not exist", ident("nosuch") + "." + ident("t0"), "schema_not_found" });
    l.push_back({ "a table of a catalog which does not exist", ident("nosuch") + "." + ident("pub") + "." + ident("t0"), "catalog_not_found" });
    l.push_back({ "a table which the schema does not have", ident("sch2") + "." + ident("nosuch") });
    for (auto* n : { "w", "W2", "v" }) {
        bool known = false;
        for (auto&& q : ctes_) if (q.name == n) known = true;
        for (int i = 0; i < 3; ++i) if (v_.db->tables[i].count(n) != 0) known = true;
        if (!known) { l.push_back({ "a query which is not defined here", ident(n) }); break; }
    }
    for (auto&& [n, t] : v_.db->tables[2]) {
        bool known = v_.db->tables[0].count(n) != 0 || v_.db->tables[1].count(n) != 0;
        for (auto&& q : ctes_) if (q.name == n) known = true;
        if (!known) { l.push_back({ "a table which is not on the search path", ident(n) }); break; }
    }
    auto& k = l[c_.pick(l.size())];
    return made(k.what, k.text, { k.code });
}

namespace {
struct in_clause {
    maker& m;
    char v;
    in_clause(maker& m, char c) : m { m }, v { m.clause } { m.clause = c; }
    in_clause(in_clause const&) = delete;
    in_clause& operator=(in_clause const&) = delete;
    ~in_clause() { m.clause = v; }
};
} // namespace

ex maker::aggregate(tclass t, std::size_t depth, scope* s) {
    in_clause here { *this, 'a' };
    // arguments refer to the columns of this level
    auto grouped = s->grouped;
    auto* outer = s->outer;
    auto sub = no_subquery, agg = no_aggregate;
    s->grouped = false; s->outer = nullptr; no_subquery = true; no_aggregate = true;
    struct restore { scope* s; bool g; scope* o; bool& a; bool& b; bool va, vb; ~restore() { s->grouped = g; s->outer = o; a = va; b = vb; } } r { s, grouped, outer, no_subquery, no_aggregate, sub, agg };
    struct choice { char const* name; bool distinct; std::vector<tclass> args; };
    std::vector<choice> l {};
    switch (t) {
        case tclass::i4: case tclass::i8: l = { { "count", false, {} }, { "count", false, { tclass::i8 } }, { "sum", false, { tclass::i8 } }, { "max", false, { tclass::i8 } }, { "min", false, { tclass::i8 } }, { "count", true, { tclass::i8 } }, { "sum", true, { tclass::i8 } }, { "count", false, { tclass::str } }, { "count", true, { tclass::str } }, { "wdiff", false, { tclass::i8, tclass::i8 } }, { "count", false, { tclass::da } }, { "count", false, { tclass::bo } }, { "count", true, { tclass::dec } } }; break;
        case tclass::f8: l = { { "avg", false, { tclass::f8 } }, { "sum", false, { tclass::f8 } }, { "max", false, { tclass::f8 } }, { "min", false, { tclass::f8 } } }; break;
        case tclass::dec: l = { { "sum", false, { tclass::dec } }, { "max", false, { tclass::dec } }, { "min", false, { tclass::dec } } }; break;
        case tclass::str: l = { { "max", false, { tclass::str } }, { "min", false, { tclass::str } } }; break;
        case tclass::da: l = { { "max", false, { tclass::da } }, { "min", false, { tclass::da } } }; break;
        default: return constant(t);
    }
    auto k = l[c_.pick(l.size())];
    if (t == tclass::f8 && std::string { k.name } == "avg" && c_.pick(2) == 1) { k.args = { tclass::i8 }; k.distinct = c_.pick(2) == 1; }
    std::vector<ex> args {};
    for (auto a : k.args) args.push_back(expression(a, depth == 0 ? 0 : depth - 1, s));
    std::string text = k.name;
    if (std::string { k.name } == "wdiff") text = ident(text);
    else if (v_.st.fancy && c_.pick(3) == 1) for (auto& x : text) x = static_cast<char>(x - 32);
    text += "(";
    if (k.distinct) text += "DISTINCT "; else if (!args.empty() && args.size() == 1 && c_.one_in(8)) text += "ALL ";
    if (args.empty()) text += "*";
    for (std::size_t i = 0; i < args.size(); ++i) text += (i > 0 ? ", " : "") + args[i].text;
    text += ")";
    auto name = std::string { k.name } + (k.distinct ? "$distinct" : "");
    aggregate_def const* def = nullptr;
    for (auto&& d : aggregates()) {
        if (d.name != name || d.parameters.size() != args.size()) continue;
        bool fit = true;
        for (std::size_t i = 0; i < args.size(); ++i) if (class_of(d.parameters[i]) != k.args[i]) fit = false;
        if (fit) def = std::addressof(d);
    }
    ex e {};
    if (!def) return constant(t);
    e.text = text;
    e.type = def->result;
    e.exact = true;
    e.eval = [def, args](ctx const& x) -> value {
        std::vector<row> l {};
        for (auto&& r : *x.group) {
            ctx y { std::addressof(r), x.base, nullptr, x.outer };
            row v {};
            for (std::size_t i = 0; i < args.size(); ++i) v.push_back(cast(def->parameters[i], args[i].eval(y)));
            l.push_back(std::move(v));
        }
        return def->call(l);
    };
    return e;
}

ex maker::subquery(tclass t, std::size_t depth, scope* s) {
    ex e {};
    ++subqueries_;
    std::vector<tclass> want { t };
    auto agg = no_aggregate;
    no_aggregate = true;
    auto q = make_query(depth, s, std::addressof(want), false);
    no_aggregate = agg;
    e.text = "(" + q.text + ")";
    e.type = q.columns[0].type;
    e.eval = [q](ctx const& x) -> value {
        auto rows = q.rows(std::addressof(x));
        // more than one row is an error of the statement; both sides choose the same one
        value best {};
        for (std::size_t i = 0; i < rows.size(); ++i) if (i == 0 || key(rows[i][0]) < key(best)) best = rows[i][0];
        return best;
    };
    return e;
}
ex maker::expression(tclass t, std::size_t depth, scope* s) {
    if (err(0)) return wrong(t, s);
    if (t == tclass::bo) return boolean_expression(depth, s);
    ex e {};
    if (depth == 0 || c_.ended()) {
        if (c_.pick(4) != 3 && column(t, s, e)) return e;
        return constant(t);
    }
    auto sub = depth - 1;
    bool integer_like = t == tclass::i4 || t == tclass::i8;
    bool number = integer_like || t == tclass::dec || t == tclass::f8;
    if (!no_aggregate && c_.pick(3) == 0) return aggregate(t, sub, s);
    switch (c_.pick(14)) {
        case 0: case 1: case 2: if (column(t, s, e)) return e; return constant(t);
        case 3: {       // parameters and variables
            std::vector<std::pair<std::string, std::pair<std::string, vtype>>> l {};
            for (auto&& h : v_.host) if (compatible(class_of(h.second), t)) l.push_back({ ":" + h.first, h });
            for (auto&& h : v_.globals) if (compatible(class_of(h.second), t)) l.push_back({ ident(h.first), h });
            if (l.empty()) return constant(t);
            auto& p = l[c_.pick(l.size())];
            e.text = p.first;
            e.type = p.second.second;
            e.exact = true;
            auto* db = v_.db;
            auto name = p.second.first;
            if (p.first[0] != ':') e.name = name;
            e.eval = [db, name](ctx const&) { return db->variables.at(name); };
            return e;
        }
        case 4: case 5: {
            if (number) {
                static char const ops[] { '+', '-', '*', '/', '%' };
                auto op = ops[c_.pick(5)];
                if (t == tclass::f8 && op == '%') op = '-';
                auto a = expression(t, sub, s), b = expression(t == tclass::dec && c_.pick(3) == 1 ? tclass::i8 : t, op == '*' ? 0 : sub, s);
                int p = op == '+' || op == '-' ? 6 : 7;
                e.text = paren(a, p) + (c_.pick(3) == 1 ? std::string { op } : std::string { " " } + op + " ");
                auto right = paren(b, p + 1);
                if (op == '-' && right[0] == '-') e.text += " ";
                if (op == '/' && right[0] == '*') e.text += " ";
                e.text += right;
                e.prec = p;
                e.type = a.type;
                if (integer_like) e.type.width = std::max(a.type.width, b.type.width);
                e.exact = integer_like && a.exact && b.exact;
                e.eval = [op, a, b](ctx const& x) { return arith(op, a.eval(x), b.eval(x)); };
                return e;
            }
            if (t == tclass::str || t == tclass::oct) {
                auto a = expression(t, sub, s), b = expression(t, sub, s);
                e.text = paren(a, 6) + " || " + paren(b, 7);
                e.prec = 6;
                e.type = type_of(t);
                e.eval = [a, b](ctx const& x) { return arith('|', a.eval(x), b.eval(x)); };
                return e;
            }
            return expression(t, sub, s);
        }
        case 6: {
            if (!number) return expression(t, sub, s);
            auto a = expression(t, sub, s);
            bool minus = c_.pick(3) != 2;
            auto in = paren(a, 8);
            e.text = (minus ? "-" : "+") + std::string { !in.empty() && (in[0] == '-' || in[0] == '+') ? " " : "" } + in;
            e.prec = 8;
            e.type = a.type;
            e.exact = a.exact && !a.constant;
            e.constant = a.constant;
            e.eval = [a, minus](ctx const& x) { auto v = a.eval(x); return minus ? negate(v) : v; };
            return e;
        }
        case 7: {       // CASE with conditions
            auto n = 1 + c_.pick(2);
            std::vector<std::pair<ex, ex>> l {};
            e.text = "CASE";
            for (std::size_t i = 0; i < n; ++i) {
                l.emplace_back(boolean_expression(sub, s), expression(t, sub, s));
                e.text += " WHEN " + l.back().first.text + " THEN " + l.back().second.text;
                e.type = i == 0 || l.back().second.type.width > e.type.width ? l.back().second.type : e.type;
            }
            ex other {};
            if (c_.pick(2) == 0) { other = expression(t, sub, s); e.text += " ELSE " + other.text; if (other.type.width > e.type.width) e.type = other.type; }
            e.text += " END";
            if (!integer_like) e.type = type_of(t);
            e.eval = [l, other](ctx const& x) -> value { for (auto&& [c, v] : l) if (of(c.eval(x)) == ternary::yes) return v.eval(x); return other.eval ? other.eval(x) : value {}; };
            return e;
        }
        case 8: {       // CASE with an operand
            auto n = 1 + c_.pick(2);
            static tclass const what[] { tclass::i8, tclass::str, tclass::dec, tclass::da };
            auto k = what[c_.pick(4)];
            auto op = expression(k, sub, s);
            std::vector<std::pair<ex, ex>> l {};
            e.text = "CASE " + op.text;
            for (std::size_t i = 0; i < n; ++i) {
                l.emplace_back(expression(k, sub, s), expression(t, sub, s));
                e.text += " WHEN " + l.back().first.text + " THEN " + l.back().second.text;
                e.type = i == 0 || l.back().second.type.width > e.type.width ? l.back().second.type : e.type;
            }
            ex other {};
            if (c_.pick(2) == 0) { other = expression(t, sub, s); e.text += " ELSE " + other.text; if (other.type.width > e.type.width) e.type = other.type; }
            e.text += " END";
            if (!integer_like) e.type = type_of(t);
            e.eval = [op, l, other](ctx const& x) -> value {
                auto v = op.eval(x);
                for (auto&& [c, r] : l) if (compare(cmp::eq, v, c.eval(x)) == ternary::yes) return r.eval(x);
                return other.eval ? other.eval(x) : value {};
            };
            return e;
        }
        case 9: {       // COALESCE, NULLIF
            if (c_.pick(2) == 0) {
                auto n = 1 + c_.pick(3);
                std::vector<ex> l {};
                e.text = "COALESCE(";
                for (std::size_t i = 0; i < n; ++i) { l.push_back(expression(t, sub, s)); e.text += (i > 0 ? ", " : "") + l.back().text; if (i == 0 || l.back().type.width > e.type.width) e.type = l.back().type; }
                e.text += ")";
                if (!integer_like) e.type = type_of(t);
                e.eval = [l](ctx const& x) -> value { for (auto&& a : l) { auto v = a.eval(x); if (!v.null()) return v; } return {}; };
                return e;
            }
            auto a = expression(t, sub, s), b = expression(t, sub, s);
            e.text = "NULLIF(" + a.text + ", " + b.text + ")";
            e.type = a.type;
            e.eval = [a, b](ctx const& x) -> value { auto v = a.eval(x); return compare(cmp::eq, v, b.eval(x)) == ternary::yes ? value {} : v; };
            return e;
        }
        case 10: {      // CAST
            static tclass const from_number[] { tclass::i8, tclass::dec, tclass::f8, tclass::str };
            tclass from = t;
            vtype to = type_of(t);
            if (integer_like) { from = from_number[c_.pick(4)]; to.width = c_.pick(2) == 0 ? 8 : 4; }
            else if (t == tclass::dec) { from = from_number[c_.pick(3)]; to.precision = 10; to.scale = static_cast<int>(c_.pick(3)); }
            else if (t == tclass::f8) from = from_number[c_.pick(3)];
            else if (t == tclass::str) { from = c_.pick(3) == 0 ? tclass::i8 : tclass::str; if (c_.pick(2) == 0) { to.precision = static_cast<int>(1 + c_.pick(12)); to.fixed = c_.pick(4) == 3; } }
            else if (t == tclass::da) from = c_.pick(2) == 0 ? tclass::tp : tclass::da;
            else if (t == tclass::tp) from = c_.pick(2) == 0 ? tclass::da : tclass::tp;
            else if (t == tclass::ti) from = c_.pick(2) == 0 ? tclass::tp : tclass::ti;
            else if (t == tclass::oct) { to.precision = static_cast<int>(1 + c_.pick(4)); to.fixed = c_.pick(4) == 3; }
            auto a = expression(from, sub, s);
            if (v_.st.context_null && c_.one_in(4)) { a = {}; a.text = "NULL"; a.eval = [](ctx const&) { return value {}; }; }
            bool postfix = c_.one_in(4);
            e.text = postfix ? paren(a, 9) + "::" + type_name(c_, to) : "CAST(" + a.text + " AS " + type_name(c_, to) + ")";
            e.prec = postfix ? 8 : 9;
            e.type = to;
            e.exact = true;
            e.eval = [a, to](ctx const& x) { return cast(to, a.eval(x)); };
            return e;
        }
        case 11: {      // functions
            std::vector<function_def const*> l {};
            for (auto&& f : functions()) {
                std::string n = f.name;
                if (f.schema != 0 && n != "only2") continue;
                if (f.schema != 0 && v_.path == 3) continue;
                if (n.rfind("extract_", 0) == 0 || n == "nextval") continue;
                auto k = class_of(f.result);
                if (compatible(k, t) && (n != "kind_of" || !s->grouped)) l.push_back(std::addressof(f));
            }
            // parts of dates and times
            if ((integer_like || t == tclass::dec) && c_.pick(3) == 0) {
                static char const* const fields[] { "YEAR", "MONTH", "DAY", "HOUR", "MINUTE" };
                auto f = t == tclass::dec ? 5 : c_.pick(5);
                tclass from = f < 3 ? (c_.pick(2) == 0 ? tclass::da : tclass::tp) : c_.pick(2) == 0 ? tclass::tp : tclass::ti;
                auto a = expression(from, sub, s);
                std::string fn = std::string { "extract_" } + (f == 5 ? "second" : std::string { fields[f] });
                for (auto& x : fn) if (x >= 'A' && x <= 'Z') x = static_cast<char>(x + 32);
                for (auto&& d : functions()) {
                    if (d.name != fn || class_of(d.parameters[0]) != from) continue;
                    e.text = std::string { "EXTRACT(" } + (f == 5 ? "SECOND" : fields[f]) + " FROM " + paren(a, 6) + ")";
                    e.type = d.result;
                    e.exact = true;
                    auto* def = std::addressof(d);
                    e.eval = [def, a](ctx const& x) { return def->call({ a.eval(x), integer(9) }); };
                    return e;
                }
            }
            if (l.empty()) return expression(t, sub, s);
            auto* f = l[c_.pick(l.size())];
            std::vector<ex> args {};
            std::string n = f->name;
            for (auto&& p : f->parameters) {
                auto k = class_of(p);
                ex a {};
                if (n == "kind_of") {       // the overload can be seen
                    if (!column(k, s, a, true) || !a.exact) {
                        auto in = constant(k);
                        a = {};
                        a.text = "CAST(" + in.text + " AS " + type_name(c_, k == tclass::dec ? vtype { kind::decimal, 8, 10, 2 } : k == tclass::str ? vtype { kind::text, 8, 20 } : p) + ")";
                        a.eval = [in, p](ctx const& x) { return cast(p, in.eval(x)); };
                    }
                } else if (n == "abs" && integer_like) {
                    a = expression(k, sub, s);
                    if (class_of(a.type) != k || !a.exact) { auto in = a; a.text = "CAST(" + in.text + " AS " + type_name(c_, p) + ")"; a.prec = 9; a.eval = [in, p](ctx const& x) { return cast(p, in.eval(x)); }; }
                } else {
                    a = expression(k, sub, s);
                }
                args.push_back(std::move(a));
            }
            e.text = ident(n) + "(";
            // some of the names are reserved words: these are functions only without qualifiers
            static char const* const plain[] { "kind_of", "concat3", "weigh", "is_ok", "days", "hello" };
            bool reserved = true;
            for (auto* p : plain) if (n == p) reserved = false;
            if (f->schema == 0 && !reserved && c_.one_in(8)) e.text = ident("pub") + "." + e.text;
            for (std::size_t i = 0; i < args.size(); ++i) e.text += (i > 0 ? ", " : "") + args[i].text;
            e.text += ")";
            e.type = f->result;
            e.exact = true;
            e.eval = [f, args](ctx const& x) { row l {}; for (std::size_t i = 0; i < args.size(); ++i) l.push_back(cast(f->parameters[i], args[i].eval(x))); return f->call(l); };
            return e;
        }
        case 12: {      // scalar subquery
            if (no_subquery || subqueries_ >= 3) return expression(t, sub, s);
            return subquery(t, sub, s);
        }
        default: {
            auto a = expression(t, sub, s);
            if (a.text.size() > 300) return a;
            e = a;
            e.text = "(" + a.text + ")";
            e.prec = 9;
            // it still keeps the name of the column
            return e;
        }
    }
}

// NOTE: types of conditions are checked by the compiler which takes the plan
ex maker::condition(std::size_t depth, scope* s) { return boolean_expression(depth, s); }

ex maker::boolean_expression(std::size_t depth, scope* s) {
    ex e {};
    e.type = type_of(tclass::bo);
    static tclass const classes[] { tclass::i8, tclass::str, tclass::dec, tclass::f8, tclass::da, tclass::i4, tclass::tp, tclass::ti, tclass::oct, tclass::tz };
    static char const* const names[] { " = ", " <> ", " < ", " <= ", " > ", " >= ", " != " };
    static cmp const kinds[] { cmp::eq, cmp::ne, cmp::lt, cmp::le, cmp::gt, cmp::ge, cmp::ne };
    auto sub = depth == 0 ? 0 : depth - 1;
    auto some_class = [&] { return classes[c_.pick(c_.one_in(3) ? 10 : 5)]; };
    auto comparison = [&]() {
        auto k = some_class();
        auto n = c_.pick(7);
        auto a = expression(k, sub, s), b = expression(k, sub, s);
        // different numeric types can be compared, too
        if (k == tclass::dec && c_.pick(3) == 1) b = expression(tclass::i8, sub, s);
        e.text = paren(a, 6) + names[n] + paren(b, 6);
        e.prec = 5;
        auto op = kinds[n];
        e.eval = [op, a, b](ctx const& x) { return to_value(compare(op, a.eval(x), b.eval(x))); };
        return e;
    };
    if (depth == 0 || c_.ended()) {
        if (c_.pick(4) == 1 && column(tclass::bo, s, e)) return e;
        return comparison();
    }
    switch (c_.pick(14)) {
        case 0: case 1: return comparison();
        case 2: {
            auto a = boolean_expression(sub, s), b = boolean_expression(sub, s);
            e.text = paren(a, 2) + " AND " + paren(b, 3);
            e.prec = 2;
            e.eval = [a, b](ctx const& x) { return to_value(both(of(a.eval(x)), of(b.eval(x)))); };
            return e;
        }
        case 3: {
            auto a = boolean_expression(sub, s), b = boolean_expression(sub, s);
            e.text = paren(a, 1) + " OR " + paren(b, 2);
            e.prec = 1;
            e.eval = [a, b](ctx const& x) { return to_value(either(of(a.eval(x)), of(b.eval(x)))); };
            return e;
        }
        case 4: {
            auto a = boolean_expression(sub, s);
            e.text = "NOT " + paren(a, 3);
            e.prec = 3;
            e.eval = [a](ctx const& x) { return to_value(!of(a.eval(x))); };
            return e;
        }
        case 5: {
            bool negated = c_.pick(2) == 1;
            auto a = expression(some_class(), sub, s);
            e.text = paren(a, 6) + (negated ? " IS NOT NULL" : " IS NULL");
            e.prec = 4;
            e.eval = [a, negated](ctx const& x) { return boolean(a.eval(x).null() != negated); };
            return e;
        }
        case 6: {
            static char const* const what[] { "TRUE", "FALSE", "UNKNOWN" };
            bool negated = c_.pick(2) == 1;
            auto k = c_.pick(3);
            auto a = boolean_expression(sub, s);
            e.text = paren(a, 5) + (negated ? " IS NOT " : " IS ") + what[k];
            e.prec = 4;
            e.eval = [a, k, negated](ctx const& x) { auto t = of(a.eval(x)); return boolean((k == 0 ? t == ternary::yes : k == 1 ? t == ternary::no : t == ternary::unknown) != negated); };
            return e;
        }
        case 7: {
            auto k = some_class();
            bool negated = c_.pick(3) == 1, symmetric = c_.pick(3) == 1;
            auto a = expression(k, sub, s), b = expression(k, sub, s), d = expression(k, 0, s);
            e.text = paren(a, 6) + (negated ? " NOT" : "") + " BETWEEN " + (symmetric ? "SYMMETRIC " : c_.one_in(4) ? "ASYMMETRIC " : "") + paren(b, 6) + " AND " + paren(d, 6);
            e.prec = 5;
            e.eval = [a, b, d, negated, symmetric](ctx const& x) {
                auto v = a.eval(x), l = b.eval(x), u = d.eval(x);
                auto in = [&](value const& p, value const& q) { return both(compare(cmp::ge, v, p), compare(cmp::le, v, q)); };
                auto t = symmetric ? either(in(l, u), in(u, l)) : in(l, u);
                return to_value(negated ? !t : t);
            };
            return e;
        }
        case 8: {
            auto k = some_class();
            bool negated = c_.pick(3) == 1;
            auto a = expression(k, sub, s);
            std::vector<ex> l {};
            auto n = 1 + c_.pick(3);
            e.text = paren(a, 6) + (negated ? " NOT IN (" : " IN (");
            for (std::size_t i = 0; i < n; ++i) { l.push_back(expression(k, i == 0 ? sub : 0, s)); e.text += (i > 0 ? ", " : "") + l.back().text; }
            // a list with one subquery would be a table
            if (n == 1 && l[0].text[0] == '(') e.text = paren(a, 6) + (negated ? " NOT IN (" : " IN (") + l[0].text + ", " + l[0].text;
            e.text += ")";
            e.prec = 5;
            e.eval = [a, l, negated](ctx const& x) { auto v = a.eval(x); auto t = ternary::no; for (auto&& b : l) t = either(t, compare(cmp::eq, v, b.eval(x))); return to_value(negated ? !t : t); };
            return e;
        }
        case 9: {
            static char const* const patterns[] { "a%", "%", "_", "%b%", "a!_b", "A", "", "100!%", "%'%" };
            bool negated = c_.pick(3) == 1;
            auto a = expression(tclass::str, sub, s);
            std::string p = patterns[c_.pick(9)];
            ex b {};
            if (c_.one_in(4)) b = expression(tclass::str, 0, s); else { b = {}; b.text = literal(c_, v_.st, text(p), {}); auto v = text(p); b.eval = [v](ctx const&) { return v; }; }
            bool escape = c_.pick(2) == 1;
            e.text = paren(a, 6) + (negated ? " NOT LIKE " : " LIKE ") + paren(b, 6) + (escape ? " ESCAPE '!'" : "");
            e.prec = 5;
            auto bang = text("!");
            e.eval = [a, b, escape, negated, bang](ctx const& x) { auto t = of(like(a.eval(x), b.eval(x), escape ? std::addressof(bang) : nullptr)); return to_value(negated ? !t : t); };
            return e;
        }
        case 10: case 11: case 12: {
            if (no_subquery || subqueries_ >= 3) return comparison();
            ++subqueries_;
            struct restore { bool& a; bool v; ~restore() { a = v; } } keep { no_aggregate, no_aggregate };
            auto kind = c_.pick(3);
            auto agg = no_aggregate;
            if (kind == 0) {
                no_aggregate = true;
                auto q = make_query(sub, s, nullptr, false);
                e.text = "EXISTS (" + q.text + ")";
                e.prec = 5;
                e.eval = [q](ctx const& x) { return boolean(!q.rows(std::addressof(x)).empty()); };
                return e;
            }
            auto k = some_class();
            no_aggregate = agg;
            auto a = expression(k, sub, s);
            no_aggregate = true;
            std::vector<tclass> want { k };
            auto q = make_query(sub, s, std::addressof(want), false);
            if (kind == 1) {
                bool negated = c_.pick(3) == 1;
                // NOTE: VALUES is not supported as an operand of IN
                bool values = q.text.compare(0, 6, "VALUES") == 0;
                e.text = paren(a, 6) + (values ? negated ? " <> ALL (" : " = ANY (" : negated ? " NOT IN (" : " IN (") + q.text + ")";
                e.prec = 5;
                e.eval = [a, q, negated](ctx const& x) { auto v = a.eval(x); auto t = ternary::no; for (auto&& r : q.rows(std::addressof(x))) t = either(t, compare(cmp::eq, v, r[0])); return to_value(negated ? !t : t); };
                return e;
            }
            auto n = c_.pick(7);
            auto quantifier = c_.pick(3);
            static char const* const qs[] { "ANY", "ALL", "SOME" };
            e.text = paren(a, 6) + names[n] + qs[quantifier] + " (" + q.text + ")";
            e.prec = 5;
            auto op = kinds[n];
            bool all = quantifier == 1;
            e.eval = [a, q, op, all](ctx const& x) {
                auto v = a.eval(x);
                auto t = all ? ternary::yes : ternary::no;
                for (auto&& r : q.rows(std::addressof(x))) { auto w = compare(op, v, r[0]); t = all ? both(t, w) : either(t, w); }
                return to_value(t);
            };
            return e;
        }
        default: {
            switch (c_.pick(4)) {
                case 0: if (column(tclass::bo, s, e)) return e; return comparison();
                case 1: { bool v = c_.pick(2) == 0; e.text = v ? "TRUE" : "FALSE"; e.constant = true; e.eval = [v](ctx const&) { return boolean(v); }; return e; }
                case 2: {
                    auto k = c_.pick(2) == 0 ? tclass::str : tclass::i8;
                    auto a = expression(k, sub, s);
                    for (auto&& f : functions()) {
                        if (std::string { f.name } != "is_ok" || class_of(f.parameters[0]) != k) continue;
                        auto* def = std::addressof(f);
                        e.text = ident("is_ok") + "(" + a.text + ")";
                        e.eval = [def, a](ctx const& x) { return def->call({ a.eval(x) }); };
                    }
                    return e;
                }
                default: {
                    auto a = boolean_expression(sub, s), b = boolean_expression(sub, s);
                    ex d {};
                    bool other = c_.pick(2) == 0;
                    e.text = "CASE WHEN " + a.text + " THEN " + b.text;
                    if (other) { d = boolean_expression(0, s); e.text += " ELSE " + d.text; }
                    e.text += " END";
                    e.eval = [a, b, d](ctx const& x) -> value { if (of(a.eval(x)) == ternary::yes) return b.eval(x); return d.eval ? d.eval(x) : value {}; };
                    return e;
                }
            }
        }
    }
}

// ---- FROM

maker::found_table maker::pick_table() {
    std::vector<found_table> l {};
    static char const* const schemas[] { "pub", "sch2", "third" };
    auto visible = [&](int s, std::string const& n) {     // by its name alone
        for (auto&& q : ctes_) if (q.name == n) return false;
        int const p0[] { 0, 1 }, p1[] { 1, 0 }, p3[] { 0, 0 };
        auto* p = v_.path == 1 ? p1 : v_.path == 3 ? p3 : p0;
        for (int i = 0; i < 2; ++i) if (v_.db->tables[p[i]].count(n) != 0) return p[i] == s;
        return false;
    };
    for (int s = 0; s < 3; ++s) for (auto&& [n, t] : v_.db->tables[s]) if (!v_.ordinary || ordinary(t.def)) l.push_back({ s, n, {} });
    auto r = l[c_.pick(l.size())];
    if (visible(r.schema, r.name) && !c_.one_in(5)) r.text = ident(r.name);
    else r.text = ident(schemas[r.schema]) + "." + ident(r.name);
    return r;
}
scope maker::relation_scope(found_table const& t, std::string const& correlation) {
    scope s {};
    source_relation r {};
    r.name = correlation.empty() ? t.name : correlation;
    auto&& def = v_.db->tables[t.schema].at(t.name).def;
    for (std::size_t i = 0; i < def.columns.size(); ++i) r.columns.push_back({ { def.columns[i].name, def.columns[i].type, true }, i, !def.columns[i].hidden });
    s.width = def.columns.size();
    s.relations.push_back(std::move(r));
    s.to = 1;
    return s;
}

std::string maker::correlation(scope& s, std::string const& preferred) {
    static char const* const names[] { "x", "y", "z", "w", "t0", "Q", "u1", "u2", "u3", "u4", "u5", "u6" };
    auto free = [&](std::string const& n) { return std::none_of(s.relations.begin(), s.relations.end(), [&](source_relation const& r) { return r.name == n; }); };
    if (!preferred.empty() && free(preferred)) return preferred;
    auto start = c_.pick(6);
    for (std::size_t i = 0; i < 12; ++i) if (free(names[(start + i) % 12])) return names[(start + i) % 12];
    return "u" + std::to_string(s.relations.size()) + "_" + std::to_string(c_.pick(90));
}

maker::from_node maker::table_primary(scope& s, std::size_t depth) {
    from_node n {};
    n.base = s.width;
    n.first = s.relations.size();
    auto done = [&](std::string const& name, std::vector<out_column> const& columns, std::vector<bool> const& visible) {
        source_relation r {};
        r.name = name;
        for (std::size_t i = 0; i < columns.size(); ++i) r.columns.push_back({ columns[i], s.width++, visible.empty() || visible[i] });
        s.relations.push_back(std::move(r));
        n.end = s.width;
        n.last = s.relations.size();
    };
    auto alias = [&](std::string const& name, std::vector<out_column>& columns, bool all, bool list, std::vector<bool> const& visible = {}) {
        std::string t = (c_.pick(2) == 0 ? " AS " : " ") + ident(name);
        if (all || (list && c_.one_in(5))) {
            static char const* const l[] { "a", "b", "c", "k", "d", "e", "v", "Mix", "f", "g", "h", "m", "n", "o", "p", "q" };
            auto start = c_.pick(8);
            t += " (";
            std::vector<std::size_t> at {};
            for (std::size_t i = 0; i < columns.size(); ++i) {
                if (!visible.empty() && !visible[i]) continue;
                columns[i].name = i < 16 ? l[(start + i) % 16] : "extra" + std::to_string(i);
                t += (at.empty() ? "" : ", ") + ident(columns[i].name);
                at.push_back(i);
            }
            if (err(2)) {
                if (at.size() > 1 && c_.pick(2) == 0) {
                    t = t.substr(0, t.rfind(", ") + 2);
                    t += made("a column of a relation twice", ident(columns[at[0]].name), { "column_already_exists" });
                } else {
                    t += ", " + made("too many columns of a relation", ident("nosuch"), { "inconsistent_columns" }, true);
                }
            }
            t += ")";
        }
        return t;
    };
    auto kind = depth == 0 ? c_.pick(2) : c_.pick(5);
    if (kind == 1 && !ctes_.empty()) {
        auto q = ctes_[c_.pick(ctes_.size())];
        for (std::size_t i = ctes_.size(); i-- > 0;) if (ctes_[i].name == q.name) { q = ctes_[i]; break; }
        auto name = correlation(s, c_.pick(2) == 0 ? q.name : "");
        n.text = ident(q.name);
        auto columns = q.columns;
        if (name != q.name || c_.one_in(6)) n.text += alias(name, columns, false, true);
        done(name, columns, {});
        auto rows = q.rows;
        n.run = [rows](ctx const&) { return rows(); };
        return n;
    }
    if (kind == 2) {
        scope blocked = s;
        blocked.from = blocked.to = 0;
        bool keep_aggregate = no_aggregate;
        no_aggregate = true;
        auto q = make_query(depth - 1, std::addressof(blocked), nullptr, false);
        no_aggregate = keep_aggregate;
        std::set<std::string> names {};
        bool unnamed = false;
        for (auto&& c : q.columns) if (c.name.empty() || !names.insert(c.name).second) unnamed = true;
        auto name = correlation(s, "");
        auto columns = q.columns;
        n.text = "(" + q.text + ")" + alias(name, columns, unnamed && c_.pick(4) != 3, true);
        done(name, columns, {});
        n.run = [q](ctx const& x) { return q.rows(std::addressof(x)); };
        return n;
    }
    auto t = pick_table();
    if (err(1)) t.text = wrong_table();
    auto&& def = v_.db->tables[t.schema].at(t.name).def;
    std::vector<out_column> columns {};
    std::vector<bool> visible {};
    for (auto&& c : def.columns) { columns.push_back({ c.name, c.type, true }); visible.push_back(!c.hidden); }
    auto name = correlation(s, c_.pick(2) == 0 ? t.name : "");
    n.text = t.text;
    if (name != t.name || c_.one_in(6)) n.text += alias(name, columns, false, true, visible);
    done(name, columns, visible);
    auto* db = v_.db;
    n.run = [db, t](ctx const&) { return db->tables[t.schema].at(t.name).rows; };
    return n;
}

maker::from_node maker::reference(scope& s, std::size_t depth) {
    auto left = table_primary(s, depth);
    std::size_t n = depth == 0 ? 0 : c_.pick(3);
    for (std::size_t i = 0; i < n && s.relations.size() < 5; ++i) {
        from_node r {};
        r.base = left.base;
        r.first = left.first;
        r.joined = true;
        if (c_.one_in(5)) {         // APPLY
            auto&& f = tvfs()[c_.pick(tvfs().size())];
            auto keep_from = s.from, keep_to = s.to;
            s.from = left.first; s.to = s.relations.size();
            auto keep = no_subquery, keep_aggregate = no_aggregate;
            no_subquery = no_aggregate = true;
            std::vector<ex> args {};
            { in_clause here { *this, 'p' }; for (auto&& p : f.parameters) args.push_back(expression(class_of(p), 1, std::addressof(s))); }
            auto fname = ident(f.name);
            if (err(1)) fname = made("a function of tables which does not exist", ident("nosuch"), { "function_not_found" }, true);
            no_subquery = keep; no_aggregate = keep_aggregate;
            s.from = keep_from; s.to = keep_to;
            auto outer = c_.pick(3) == 1;
            static char const* const words[] { " CROSS APPLY ", " OUTER APPLY ", " APPLY " };
            r.text = left.text + (outer ? words[1] : words[c_.pick(2) * 2]) + fname + "(";
            for (std::size_t k = 0; k < args.size(); ++k) r.text += (k > 0 ? ", " : "") + args[k].text;
            auto name = correlation(s, "");
            r.text += ")" + std::string { c_.pick(2) == 0 ? " AS " : " " } + ident(name);
            source_relation rel {};
            rel.name = name;
            bool rename = c_.one_in(3);
            if (rename) r.text += " (";
            for (std::size_t k = 0; k < f.result.size(); ++k) {
                std::string cn = rename ? std::string { "r" } + std::to_string(k) : std::string { f.result[k].first };
                if (rename) r.text += (k > 0 ? ", " : "") + ident(cn);
                rel.columns.push_back({ { cn, f.result[k].second, true }, s.width++ });
            }
            if (rename) r.text += ")";
            s.relations.push_back(std::move(rel));
            r.end = s.width;
            r.last = s.relations.size();
            auto lr = left.run;
            auto base = left.base;
            auto* def = std::addressof(f);
            r.run = [lr, base, def, args, outer](ctx const& x) {
                std::vector<row> out {};
                for (auto&& v : lr(x)) {
                    ctx y { std::addressof(v), base, nullptr, x.outer };
                    row a {};
                    for (std::size_t k = 0; k < args.size(); ++k) a.push_back(args[k].eval(y));
                    auto l = def->call(a);
                    if (l.empty() && outer) l.push_back(row(def->result.size()));
                    for (auto&& w : l) { auto z = v; z.insert(z.end(), w.begin(), w.end()); out.push_back(std::move(z)); }
                }
                return out;
            };
            left = std::move(r);
            continue;
        }
        struct kind_def { char const* text; char k; };
        static kind_def const kinds[] { { " JOIN ", 'i' }, { " LEFT JOIN ", 'l' }, { " CROSS JOIN ", 'c' }, { " INNER JOIN ", 'i' }, { " RIGHT OUTER JOIN ", 'r' }, { " FULL OUTER JOIN ", 'f' }, { " LEFT OUTER JOIN ", 'l' }, { " RIGHT JOIN ", 'r' }, { " FULL JOIN ", 'f' } };
        auto k = kinds[c_.pick(9)];
        bool nested = k.k != 'c' && depth > 1 && s.relations.size() < 4 && c_.one_in(5);
        auto right = nested ? reference(s, depth - 1) : table_primary(s, depth - 1);
        auto right_text = right.text;
        if (nested && right.joined && c_.pick(2) == 0) right_text = "(" + right_text + ")";
        r.end = right.end;
        r.last = right.last;
        if (left.joined && c_.one_in(6)) left.text = "(" + left.text + ")";
        r.text = left.text + k.text + right_text;
        ex on {};
        if (k.k != 'c') {
            // USING: columns which have the same name on both sides, once each
            std::vector<std::pair<source_column*, source_column*>> common {};
            for (auto a = left.first; a < left.last; ++a) for (auto& x : s.relations[a].columns) {
                if (!x.visible || x.c.name.empty()) continue;
                std::size_t na = 0, nb = 0;
                source_column* y = nullptr;
                for (auto b = left.first; b < left.last; ++b) for (auto& z : s.relations[b].columns) if (z.visible && z.c.name == x.c.name) ++na;
                for (auto b = right.first; b < right.last; ++b) for (auto& z : s.relations[b].columns) if (z.visible && z.c.name == x.c.name) { ++nb; y = std::addressof(z); }
                if (na == 1 && nb == 1 && compatible(class_of(x.c.type), class_of(y->c.type)) && x.merged.empty() && y->merged.empty()) common.emplace_back(std::addressof(x), y);
            }
            if (!common.empty() && c_.pick(2) == 0) {
                r.text += " USING (";
                auto m = 1 + c_.pick(common.size());
                std::vector<std::pair<std::size_t, std::size_t>> slots {};
                for (std::size_t q = 0; q < m; ++q) {
                    auto [x, y] = common[q];
                    auto nx = ident(x->c.name);
                    if (err(2)) nx = made("a column of USING which does not exist", ident("nosuch"), { "column_not_found" });
                    r.text += (q > 0 ? ", " : "") + nx;
                    slots.emplace_back(x->slot, y->slot);
                    y->visible = false;
                    if (k.k == 'r' || k.k == 'f') { x->merged = { y->slot }; if (x->c.type.width < y->c.type.width) x->c.type = y->c.type; x->c.exact = false; }
                }
                r.text += ")";
                on.eval = [slots](ctx const& x) {
                    auto t = ternary::yes;
                    for (auto [a, b] : slots) t = both(t, compare(cmp::eq, (*x.r)[a - x.base], (*x.r)[b - x.base]));
                    return to_value(t);
                };
            } else {
                auto keep_from = s.from, keep_to = s.to;
                s.from = left.first; s.to = s.relations.size();
                auto keep_aggregate = no_aggregate;
                no_aggregate = true;
                in_clause here { *this, 'o' };
                on = condition(1, std::addressof(s));
                no_aggregate = keep_aggregate;
                s.from = keep_from; s.to = keep_to;
                r.text += " ON " + on.text;
            }
        }
        auto lr = left.run, rr = right.run;
        auto base = left.base;
        auto lw = left.end - left.base, rw = right.end - right.base;
        auto jk = k.k;
        r.run = [lr, rr, base, lw, rw, jk, on](ctx const& x) {
            auto l = lr(x), q = rr(x);
            std::vector<bool> used(q.size());
            std::vector<row> out {};
            for (auto&& a : l) {
                bool match = false;
                for (std::size_t i = 0; i < q.size(); ++i) {
                    spend();
                    auto v = a;
                    v.insert(v.end(), q[i].begin(), q[i].end());
                    ctx y { std::addressof(v), base, nullptr, x.outer };
                    if (on.eval && of(on.eval(y)) != ternary::yes) continue;
                    match = true;
                    used[i] = true;
                    out.push_back(std::move(v));
                }
                if (!match && (jk == 'l' || jk == 'f')) { auto v = a; v.resize(lw + rw); out.push_back(std::move(v)); }
            }
            if (jk == 'r' || jk == 'f') for (std::size_t i = 0; i < q.size(); ++i) if (!used[i]) { row v(lw); v.insert(v.end(), q[i].begin(), q[i].end()); out.push_back(std::move(v)); }
            return out;
        };
        left = std::move(r);
    }
    return left;
}

// ---- queries

namespace {
bool sort_before(answer const& a, std::size_t x, std::size_t y) {
    for (std::size_t i = 0; i < a.desc.size(); ++i) { int o = sort_order(a.keys[x][i], a.keys[y][i]); if (o != 0) return (o < 0) != a.desc[i]; }
    return false;
}
std::vector<row> plain_rows(answer a) {
    if (a.ordered) {
        std::vector<std::size_t> at(a.rows.size());
        for (std::size_t i = 0; i < at.size(); ++i) at[i] = i;
        std::stable_sort(at.begin(), at.end(), [&](auto x, auto y) { return sort_before(a, x, y); });
        std::vector<row> rows {};
        for (auto i : at) rows.push_back(a.rows[i]);
        a.rows = std::move(rows);
    }
    if (a.limit >= 0 && a.rows.size() > static_cast<std::size_t>(a.limit)) a.rows.resize(static_cast<std::size_t>(a.limit));
    return std::move(a.rows);
}
std::vector<row> distinct(std::vector<row> rows) { std::set<std::string> seen {}; std::vector<row> out {}; for (auto& r : rows) if (seen.insert(key(r)).second) out.push_back(std::move(r)); return out; }
} // namespace

query maker::select(std::size_t depth, scope* outer, std::vector<tclass> const* want, bool top, bool nested_limit) {
    query q {};
    auto s = std::make_shared<scope>();
    s->outer = outer;
    struct flags { maker& m; bool a, b; ~flags() { m.no_aggregate = a; m.no_subquery = b; } } keep { *this, no_aggregate, no_subquery };
    no_aggregate = true;
    in_clause anew { *this, 'n' };
    std::vector<from_node> from {};
    bool no_from = c_.one_in(16);
    std::string from_text {};
    if (!no_from) {
        auto n = 1 + (depth > 0 && c_.one_in(3) ? 1U : 0U);
        for (std::size_t i = 0; i < n; ++i) { s->from = s->to = s->relations.size(); from.push_back(reference(*s, depth)); from_text += (i > 0 ? ", " : " FROM ") + from.back().text; }
    }
    s->from = 0;
    s->to = s->relations.size();
    ex where {};
    if (!no_from && c_.pick(2) == 1) { in_clause here { *this, 'w' }; where = condition(depth, s.get()); from_text += " WHERE " + where.text; }
    // groups
    bool grouped = false;
    std::string group_text {};
    std::vector<std::size_t> keys {};
    ex having {};
    if (!no_from && !nested_limit && c_.one_in(4)) {
        grouped = true;
        auto n = c_.pick(3);
        std::string by {};
        for (std::size_t i = 0; i < n; ++i) {
            static tclass const l[] { tclass::i8, tclass::str, tclass::bo, tclass::dec, tclass::da };
            ex k {};
            auto* o = s->outer;
            s->outer = nullptr;
            bool ok = column(l[c_.pick(5)], s.get(), k);
            s->outer = o;
            if (!ok) continue;
            // which slot is it?
            std::size_t slot = 0;
            bool found = false;
            row probe(s->width);
            for (std::size_t x = 0; x < s->width && !found; ++x) { probe[x] = text("probe"); ctx c { std::addressof(probe), 0, nullptr, nullptr }; if (k.eval(c).s == "probe") { slot = x; found = true; } probe[x] = {}; }
            bool merged = false;
            for (auto&& r : s->relations) for (auto&& c : r.columns) if (c.slot == slot && !c.merged.empty()) merged = true;
            if (!found || merged || std::find(keys.begin(), keys.end(), slot) != keys.end()) continue;
            keys.push_back(slot);
            by += (by.empty() ? " GROUP BY " : ", ") + k.text;
        }
        if (!want && c_.one_in(4)) {
            // all columns of a relation, so that `*` may be selected
            auto& r = s->relations[c_.pick(s->relations.size())];
            std::set<std::string> names {};
            std::string all {};
            std::vector<std::size_t> slots {};
            bool ok = !r.name.empty();
            for (auto&& c : r.columns) {
                if (!c.visible) continue;
                if (!c.merged.empty() || c.c.name.empty() || !names.insert(c.c.name).second) ok = false;
                if (std::find(keys.begin(), keys.end(), c.slot) != keys.end()) continue;
                slots.push_back(c.slot);
                all += (by.empty() && all.empty() ? " GROUP BY " : ", ") + ident(r.name) + "." + ident(c.c.name);
            }
            if (ok && slots.size() <= 6) { by += all; keys.insert(keys.end(), slots.begin(), slots.end()); }
        }
        if (keys.empty() && c_.one_in(3)) by = " GROUP BY ()";
        group_text = by;
        s->grouped = true;
        s->keys = keys;
    }
    // what is selected
    std::vector<ex> items {};
    std::vector<std::string> texts {};
    bool star_used = false;
    bool can_star = !want && !no_from && !grouped;
    auto star_safe = [&](source_relation const* only) {
        for (auto&& r : s->relations) for (auto&& c : r.columns) if (!c.merged.empty()) return false;
        (void) only;
        return true;
    };
    auto star = [&](source_relation const& r) {
        for (auto&& c : r.columns) {
            if (!c.visible) continue;
            ex e {};
            e.type = c.c.type;
            e.exact = c.c.exact;
            e.name = c.c.name;
            auto slot = c.slot;
            e.eval = [slot](ctx const& x) { return (*x.r)[slot]; };
            items.push_back(std::move(e));
        }
    };
    bool joined_using = false;
    for (auto&& r : s->relations) for (auto&& c : r.columns) if (!c.merged.empty()) joined_using = true;
    (void) joined_using;
    auto n = want ? want->size() : 1 + c_.pick(4);
    bool has_aggregate = false;
    bool needs_aggregate = grouped && keys.empty() && group_text.empty();
    for (std::size_t i = 0; i < n; ++i) {
        auto how = can_star ? c_.pick(6) : grouped && !want ? c_.pick(8) : 0;
        auto keyed = [&](source_relation const& r) { return std::all_of(r.columns.begin(), r.columns.end(), [&](auto& c) { return !c.visible || std::find(keys.begin(), keys.end(), c.slot) != keys.end(); }); };
        if (grouped && (how == 4 || how == 5) && star_safe(nullptr)) {
            auto& one = s->relations[c_.pick(s->relations.size())];
            bool all = how == 4 && std::all_of(s->relations.begin(), s->relations.end(), keyed);
            bool some = how == 5 && !one.name.empty() && keyed(one);
            if (!all && !some && (how == 4 || !one.name.empty()) && err(2)) {
                texts.push_back(made("all columns where some are not grouped", how == 4 ? std::string { "*" } : ident(one.name) + ".*", { "invalid_aggregation_column" }, false));
                all = how == 4;
                some = how == 5;
            } else if (all || some) texts.push_back(all ? std::string { "*" } : ident(one.name) + ".*");
            if (all || (some && std::any_of(one.columns.begin(), one.columns.end(), [](auto& c) { return c.visible; }))) {
                if (all) for (auto&& r : s->relations) star(r); else star(one);
                star_used = true;
                continue;
            }
            if (some) texts.pop_back();
            how = 0;
        }
        if (grouped && !keys.empty() && (how == 1 || how == 6)) {       // a grouping column itself
            auto slot = keys[c_.pick(keys.size())];
            ex e {};
            std::string t {};
            for (auto&& r : s->relations) for (auto&& x : r.columns) {
                if (x.slot != slot || !x.visible || !x.merged.empty()) continue;
                auto names = renderings(s.get(), 0, r, x);
                if (names.empty()) continue;
                t = names[c_.pick(names.size())];
                e.text = t;
                e.prec = 9;
                e.type = x.c.type;
                e.exact = x.c.exact;
                e.name = x.c.name;
                e.eval = [slot](ctx const& y) { return (*y.r)[slot]; };
            }
            if (!t.empty()) { texts.push_back(t); items.push_back(std::move(e)); continue; }
        }
        if (grouped) how = 0;
        if (how == 4 && star_safe(nullptr)) {
            texts.push_back("*");
            for (auto&& r : s->relations) star(r);
            star_used = true;
            continue;
        }
        if (how == 5 && star_safe(nullptr)) {
            auto& r = s->relations[c_.pick(s->relations.size())];
            if (!r.name.empty() && std::any_of(r.columns.begin(), r.columns.end(), [](auto& c) { return c.visible; })) { texts.push_back((err(2) ? made("all columns of a relation which does not exist", ident("nosuch"), { "table_not_found" }, true) : ident(r.name)) + ".*"); star(r); star_used = true; continue; }
        }
        static tclass const l[] { tclass::i8, tclass::str, tclass::dec, tclass::i8, tclass::f8, tclass::bo, tclass::da, tclass::tp, tclass::ti, tclass::oct, tclass::tz };
        auto t = want ? (*want)[i] : l[c_.pick(11)];
        no_aggregate = !grouped;
        ex e {};
        bool direct = needs_aggregate && i == 0 && (!want || t == tclass::i4 || t == tclass::i8 || t == tclass::dec || t == tclass::str || t == tclass::f8 || t == tclass::da);
        if (direct) { e = aggregate(want ? t : c_.pick(2) == 0 ? tclass::i8 : tclass::str, depth, s.get()); has_aggregate = !e.constant; }
        else e = expression(t, depth, s.get());
        no_aggregate = true;
        auto tx = e.text;
        if (!top || c_.pick(3) == 1) {
            if (c_.pick(3) != 2 || (!top && e.name.empty())) {
                static char const* const names[] { "a", "b", "c", "k", "v", "d", "Mix", "res" };
                e.name = names[c_.pick(8)];
                tx += (c_.pick(3) == 1 ? " " : " AS ") + ident(e.name);
            }
        }
        texts.push_back(tx);
        items.push_back(std::move(e));
    }
    if (grouped && needs_aggregate) {
        // HAVING makes it grouped whatever is selected
        if (!has_aggregate) group_text = " GROUP BY ()";
    }
    if (grouped && c_.pick(3) == 1) {
        no_aggregate = false;
        auto keep_sub = no_subquery;
        having = condition(depth == 0 ? 1 : depth, s.get());
        no_subquery = keep_sub;
        no_aggregate = true;
        group_text += " HAVING " + having.text;
    }
    bool dist = c_.one_in(grouped && !keys.empty() ? 2 : 5) && !nested_limit;
    // order
    struct sort_key { eval_fn eval; bool desc; int item; };
    std::vector<sort_key> order {};
    std::string tail {};
    long limit = -1;
    auto limit_text = [&](long n) {
        if (!err(2)) return std::to_string(n);
        static char const* const l[] { "'a'", "1.5", "TRUE", "1 + 1", "-1", "DATE '2000-01-01'" };
        return made("a limit which is not a number", l[c_.pick(6)], { "invalid_unsigned_integer" });
    };
    if (!no_from && (nested_limit || (top && c_.pick(2) == 1))) {
        auto add = [&](std::string const& t, eval_fn f, int item) {
            auto d = c_.pick(4);
            tail += (tail.empty() ? " ORDER BY " : ", ") + t + (d == 0 ? "" : d == 1 ? " DESC" : d == 2 ? " ASC" : " DESC");
            order.push_back({ std::move(f), d == 1 || d == 3, item });
        };
        if (nested_limit) {     // a total order of what is selected from
            bool complete = true;
            for (auto&& r : s->relations) for (auto&& c : r.columns) {
                auto l = c.visible ? renderings(s.get(), 0, r, c) : std::vector<std::string> {};
                if (l.empty() || !c.merged.empty()) { complete = false; continue; }
                auto slot = c.slot;
                add(l[c_.pick(l.size())], [slot](ctx const& x) { return (*x.r)[slot - x.base]; }, -1);
            }
            if (!complete) { order.clear(); tail.clear(); }
        } else if (dist) {
            for (std::size_t i = 0; i < items.size() && !star_used; ++i) {
                // the column itself, not its new name
                if (items[i].name.empty() || items[i].text.empty() || items[i].prec != 9 || items[i].constant || texts[i] != items[i].text || c_.pick(2) == 0) continue;
                bool plain = items[i].text.find('(') == std::string::npos && items[i].text[0] != ':';
                if (!plain) continue;
                auto it = items[i];
                add(it.text, it.eval, static_cast<int>(i));
            }
        } else {
            auto m = 1 + c_.pick(3);
            for (std::size_t i = 0; i < m; ++i) {
                static tclass const l[] { tclass::i8, tclass::str, tclass::dec, tclass::f8, tclass::da };
                no_aggregate = !grouped;
                auto e = expression(l[c_.pick(5)], depth == 0 ? 0 : 1, s.get());
                no_aggregate = true;
                if (e.constant) continue;
                add(e.text, e.eval, -1);
            }
        }
        if ((nested_limit && !order.empty()) || (!nested_limit && c_.pick(2) == 1)) { limit = static_cast<long>(c_.pick(5)); if (nested_limit && limit == 0) limit = 1; tail += " LIMIT " + limit_text(limit); }
    }
    q.text = std::string { "SELECT " } + (dist ? "DISTINCT " : c_.one_in(16) ? "ALL " : "");
    for (std::size_t i = 0; i < texts.size(); ++i) q.text += (i > 0 ? ", " : "") + texts[i];
    q.text += from_text + group_text + tail;
    q.tail = !tail.empty();
    for (auto&& e : items) q.columns.push_back({ e.name, e.type, e.exact });

    auto width = s->width;
    q.run = [from, where, grouped, keys, having, items, dist, order, limit, width, no_from](ctx const* outer) {
        spend(4);
        answer a {};
        ctx base { nullptr, 0, nullptr, outer };
        std::vector<row> rows { row {} };
        for (auto&& f : from) {
            std::vector<row> next {};
            auto l = f.run(base);
            for (auto&& x : rows) for (auto&& y : l) { spend(); auto z = x; z.insert(z.end(), y.begin(), y.end()); next.push_back(std::move(z)); }
            rows = std::move(next);
        }
        if (where.eval) {
            std::vector<row> next {};
            for (auto& r : rows) { ctx c { std::addressof(r), 0, nullptr, outer }; if (of(where.eval(c)) == ternary::yes) next.push_back(std::move(r)); }
            rows = std::move(next);
        }
        std::vector<std::pair<row, row>> out {};
        auto produce = [&](ctx const& c) {
            if (having.eval && of(having.eval(c)) != ternary::yes) return;
            row v {}, k {};
            for (auto&& e : items) v.push_back(e.eval(c));
            for (auto&& o : order) k.push_back(o.item >= 0 ? v[static_cast<std::size_t>(o.item)] : o.eval(c));
            out.emplace_back(std::move(v), std::move(k));
        };
        if (grouped) {
            std::map<std::string, std::vector<row>> groups {};
            for (auto& r : rows) { std::string k {}; for (auto i : keys) k += key(r[i]) + "|"; groups[k].push_back(std::move(r)); }
            if (keys.empty()) groups[""];
            row none(width);
            for (auto&& [k, g] : groups) { ctx c { g.empty() ? std::addressof(none) : std::addressof(g[0]), 0, std::addressof(g), outer }; produce(c); }
        } else {
            for (auto&& r : rows) { ctx c { std::addressof(r), 0, nullptr, outer }; produce(c); }
        }
        std::set<std::string> seen {};
        for (auto& [v, k] : out) {
            if (dist && !seen.insert(key(v)).second) continue;
            a.rows.push_back(std::move(v));
            a.keys.push_back(std::move(k));
        }
        for (auto&& o : order) a.desc.push_back(o.desc);
        a.ordered = !order.empty();
        a.limit = limit;
        return a;
    };
    auto run = q.run;
    q.rows = [run](ctx const* outer) { return plain_rows(run(outer)); };
    auto holder = s;        // closures do not use the scope, but keep it simple
    (void) holder;
    return q;
}

query maker::operand(query q, int prec) {
    if (q.prec < prec || q.tail || c_.one_in(8)) { if (q.prec != 0) { q.text = "(" + q.text + ")"; q.prec = 3; q.tail = false; } }
    return q;
}

query maker::body(std::size_t depth, scope* outer, std::vector<tclass> const* want, bool top) {
    auto kind = depth == 0 ? c_.pick(2) * 3 : c_.pick(8);
    if (kind == 1 || kind == 2) {
        std::vector<tclass> types {};
        if (want) types = *want;
        else {
            static tclass const l[] { tclass::i8, tclass::str, tclass::dec, tclass::bo, tclass::da };
            auto n = 1 + c_.pick(3);
            for (std::size_t i = 0; i < n; ++i) types.push_back(l[c_.pick(5)]);
        }
        auto l = body(depth - 1, outer, std::addressof(types), false);
        auto r = body(depth - 1, outer, std::addressof(types), false);
        auto op = c_.pick(3);
        static char const* const words[] { " UNION ", " EXCEPT ", " INTERSECT " };
        auto quantifier = c_.pick(3);
        bool all = quantifier == 1;
        int p = op == 2 ? 2 : 1;
        l = operand(std::move(l), p);
        r = operand(std::move(r), p + 1);
        query q {};
        if (err(2)) (void) made("different numbers of columns", "", {}, true);
        bool more = error != nullptr && error->what == "different numbers of columns" && error->codes.empty();
        if (more) { error->codes = { "inconsistent_columns" }; l.text = l.columns.size() == 1 ? "SELECT 1, 2" : "SELECT 1"; }
        q.text = (more ? "\x01" : "") + l.text + words[op] + (quantifier == 1 ? "ALL " : quantifier == 2 ? "DISTINCT " : "") + r.text + (more ? "\x02" : "");
        q.prec = p;
        for (std::size_t i = 0; i < l.columns.size(); ++i) {
            auto t = l.columns[i].type;
            if (r.columns[i].type.width > t.width) t = r.columns[i].type;
            q.columns.push_back({ l.columns[i].name, t, false });
        }
        auto a = l.rows, b = r.rows;
        q.rows = [a, b, op, all](ctx const* x) {
            auto l = a(x), r = b(x);
            if (op == 0) { l.insert(l.end(), r.begin(), r.end()); return all ? l : distinct(std::move(l)); }
            std::map<std::string, std::size_t> right {};
            for (auto&& v : r) ++right[key(v)];
            std::vector<row> out {};
            for (auto& v : all ? l : distinct(l)) {
                auto i = right.find(key(v));
                bool match = i != right.end() && i->second > 0;
                if (match && all) --i->second;
                if (match == (op == 2)) out.push_back(std::move(v));
            }
            return out;
        };
        auto rows = q.rows;
        q.run = [rows](ctx const* x) { answer a {}; a.rows = rows(x); return a; };
        return q;
    }
    if (kind == 3 && c_.pick(2) == 0) {      // VALUES
        query q {};
        static tclass const l[] { tclass::i8, tclass::str, tclass::dec, tclass::bo, tclass::da };
        std::vector<tclass> types {};
        if (want) types = *want;
        else { auto n = 1 + c_.pick(3); for (std::size_t i = 0; i < n; ++i) types.push_back(l[c_.pick(5)]); }
        auto n = 1 + c_.pick(3);
        std::vector<std::vector<ex>> rows {};
        scope none {};
        none.outer = outer;
        auto keep = no_subquery;
        auto keep_aggregate = no_aggregate;
        no_subquery = no_aggregate = true;
        in_clause here { *this, 'v' };
        q.text = "VALUES ";
        for (std::size_t i = 0; i < n; ++i) {
            q.text += i > 0 ? ", (" : "(";
            rows.emplace_back();
            for (std::size_t k = 0; k < types.size(); ++k) {
                rows.back().push_back(expression(types[k], c_.one_in(3) ? 1 : 0, std::addressof(none)));
                q.text += (k > 0 ? ", " : "") + rows.back().back().text;
            }
            q.text += ")";
        }
        no_subquery = keep;
        no_aggregate = keep_aggregate;
        for (std::size_t k = 0; k < types.size(); ++k) { out_column c { {}, rows[0][k].type, false }; for (auto&& r : rows) if (r[k].type.width > c.type.width) c.type = r[k].type; q.columns.push_back(c); }
        q.rows = [rows](ctx const* outer) {
            std::vector<row> out {};
            row empty {};
            ctx c { std::addressof(empty), 0, nullptr, outer };
            for (auto&& r : rows) { out.emplace_back(); for (auto&& e : r) out.back().push_back(e.eval(c)); }
            return out;
        };
        auto f = q.rows;
        q.run = [f](ctx const* x) { answer a {}; a.rows = f(x); return a; };
        return q;
    }
    if (kind == 4 && !want && c_.pick(2) == 0) {      // TABLE
        query q {};
        auto t = pick_table();
        if (err(1)) t.text = wrong_table();
        q.text = "TABLE " + t.text;
        auto&& def = v_.db->tables[t.schema].at(t.name).def;
        std::vector<std::size_t> at {};
        for (std::size_t i = 0; i < def.columns.size(); ++i) if (!def.columns[i].hidden) { at.push_back(i); q.columns.push_back({ def.columns[i].name, def.columns[i].type, true }); }
        auto* db = v_.db;
        q.rows = [db, t, at](ctx const*) { std::vector<row> out {}; for (auto&& r : db->tables[t.schema].at(t.name).rows) { out.emplace_back(); for (auto i : at) out.back().push_back(r[i]); } return out; };
        auto f = q.rows;
        q.run = [f](ctx const* x) { answer a {}; a.rows = f(x); return a; };
        return q;
    }
    return select(depth, outer, want, top, !top && depth > 0 && c_.one_in(8));
}

query maker::make_query(std::size_t depth, scope* outer, std::vector<tclass> const* want, bool top) {
    auto keep = ctes_.size();
    std::string with {};
    if (depth > 0 && ctes_.size() < 3 && c_.one_in(top ? 5 : 12)) {
        auto n = 1 + c_.pick(2);
        static char const* const names[] { "w", "t0", "v", "W2" };
        for (std::size_t i = 0; i < n; ++i) {
            std::string name = names[c_.pick(4)];
            bool twice = false;
            for (auto k = keep; k < ctes_.size(); ++k) if (ctes_[k].name == name) twice = true;
            if (twice) {
                if (err(2)) with += ", " + made("a query is named twice", ident(name), { "view_already_exists" }) + " AS (VALUES (1))";
                continue;
            }
            auto kw = no_aggregate;
            no_aggregate = true;
            auto q = make_query(depth - 1, nullptr, nullptr, false);
            no_aggregate = kw;
            cte t { name, q.columns, {} };
            std::set<std::string> seen {};
            bool rename = c_.one_in(4);
            for (auto&& c : t.columns) if (c.name.empty() || !seen.insert(c.name).second) rename = true;
            with += (with.empty() ? "WITH " : ", ") + ident(name);
            if (rename) {
                with += " (";
                for (std::size_t k = 0; k < t.columns.size(); ++k) { t.columns[k].name = std::string { "c" } + std::to_string(k); with += (k > 0 ? ", " : "") + ident(t.columns[k].name); }
                if (err(2)) {
                    if (t.columns.size() > 1 && c_.pick(2) == 0) { with = with.substr(0, with.rfind(", ") + 2); with += made("a column of a named query twice", ident("c0"), { "column_already_exists" }); }
                    else with += ", " + made("too many columns of a named query", ident("nosuch"), { "inconsistent_columns" }, true);
                }
                with += ")";
            }
            with += " AS (" + q.text + ")";
            auto f = q.rows;
            t.rows = [f] { return f(nullptr); };
            ctes_.push_back(std::move(t));
        }
    }
    auto q = body(depth, outer, want, top);
    ctes_.resize(keep);
    if (!with.empty()) { q.text = with + " " + q.text; q.prec = 0; }
    return q;
}
query maker::make_query(std::size_t depth) { return make_query(depth, nullptr, nullptr, true); }

// ---- comparison

std::string compare_answer(answer const& expected, std::vector<out_column> const& columns, outcome const& actual) {
    auto list = [](std::vector<row> const& l) { std::string s {}; std::size_t n = 0; for (auto&& r : l) { if (++n > 12) { s += " ..."; break; } s += " " + show(r); } return s.empty() ? std::string { " (no rows)" } : s; };
    auto both = [&](std::string const& m) { return m + "\n  expected:" + list(plain_rows(expected)) + (expected.ordered ? " (ordered)" : "") + "\n  actual:  " + list(actual.result); };
    if (actual.kind != outcome::rows) return "the plan does not return rows";
    std::vector<std::string> names {};
    for (auto&& c : columns) names.push_back(c.name);
    if (names != actual.names) { std::string m = "the columns have other names:"; for (auto&& n : actual.names) m += " \"" + n + "\""; m += " instead of"; for (auto&& n : names) m += " \"" + n + "\""; return m; }
    auto total = expected.rows.size();
    auto count = expected.limit >= 0 ? std::min(total, static_cast<std::size_t>(expected.limit)) : total;
    if (actual.result.size() != count) return both("the number of rows is " + std::to_string(actual.result.size()) + " instead of " + std::to_string(count));
    std::vector<std::size_t> at(total);
    for (std::size_t i = 0; i < total; ++i) at[i] = i;
    if (expected.ordered) std::stable_sort(at.begin(), at.end(), [&](auto x, auto y) { return sort_before(expected, x, y); });
    std::size_t begin = 0;
    while (begin < count) {
        auto end = begin + 1;
        if (!expected.ordered) end = total;
        else while (end < total && !sort_before(expected, at[begin], at[end])) ++end;
        std::map<std::string, long> n {};
        for (auto i = begin; i < end; ++i) ++n[key(expected.rows[at[i]])];
        for (auto i = begin; i < std::min(end, count); ++i) if (--n[key(actual.result[i])] < 0) return both("row " + std::to_string(i) + " is " + show(actual.result[i]));
        begin = end;
    }
    return {};
}

} // namespace sim::sql
