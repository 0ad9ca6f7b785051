// Definitions, rows, functions: what the executor and the reference model share.
#include "engine.h"

#include <takatori/value/all.h>

#include <algorithm>

namespace sim::sql {

namespace tt = ::takatori::type;
namespace tv = ::takatori::value;

void complete(table_def& t) {
    if (!t.primary.empty()) return;
    column_def d {};
    d.name = "__rowid";
    d.type.k = kind::integer;
    d.not_null = d.hidden = true;
    d.d = dflt::sequence;
    t.primary.push_back({ t.columns.size(), false });
    t.columns.push_back(std::move(d));
}
std::string index_name(table_def const& t, std::string const& given) {
    if (!given.empty()) return given;
    for (std::size_t i = t.indices.size();; ++i) {
        auto name = t.name + "$" + std::to_string(i);
        bool used = false;
        for (auto&& x : t.indices) if (x.name == name) used = true;
        if (!used) return name;
    }
}
std::string show(vtype const& t) {
    switch (t.k) {
        case kind::null: return "UNKNOWN";
        case kind::boolean: return "BOOLEAN";
        case kind::integer: return "INT" + std::to_string(t.width);
        case kind::decimal: return "DECIMAL(" + std::to_string(t.precision) + "," + std::to_string(t.scale) + ")";
        case kind::floating: return "FLOAT" + std::to_string(t.width);
        case kind::text: return std::string { t.fixed ? "CHAR(" : "VARCHAR(" } + std::to_string(t.precision) + ")";
        case kind::bytes: return std::string { t.fixed ? "BINARY(" : "VARBINARY(" } + std::to_string(t.precision) + ")";
        case kind::date: return "DATE";
        case kind::time: return t.zoned ? "TIMETZ" : "TIME";
        case kind::stamp: return t.zoned ? "TIMESTAMPTZ" : "TIMESTAMP";
    }
    return {};
}
std::string show(table_def const& t) {
    auto keys = [&](std::vector<key_def> const& l) { std::string s = "("; for (auto&& k : l) { s += " " + (k.column < t.columns.size() ? t.columns[k.column].name : std::string { "?" }) + (k.desc ? " DESC" : ""); } return s + " )"; };
    std::string s = "table \"" + t.name + "\" '" + t.description + "'";
    for (auto&& c : t.columns) {
        s += "\n  \"" + c.name + "\" " + show(c.type) + (c.not_null ? " NOT NULL" : " NULL") + (c.hidden ? " HIDDEN" : "") + (c.read_only ? " READ ONLY" : "") + " '" + c.description + "'";
        switch (c.d) {
            case dflt::none: break;
            case dflt::constant: s += " DEFAULT " + show(c.constant); break;
            case dflt::function: s += " DEFAULT " + c.function + "()"; break;
            case dflt::sequence: s += " IDENTITY(" + std::to_string(c.seq.initial) + "," + std::to_string(c.seq.increment) + "," + std::to_string(c.seq.min) + "," + std::to_string(c.seq.max) + (c.seq.cycle ? ",cycle" : "") + ")"; break;
        }
    }
    s += "\n  primary " + keys(t.primary);
    auto sorted = t.indices;
    std::sort(sorted.begin(), sorted.end(), [](auto& a, auto& b) { return a.name < b.name; });
    for (auto&& i : sorted) s += "\n  index \"" + i.name + "\" " + keys(i.keys) + " '" + i.description + "'";
    return s;
}

std::shared_ptr<tt::data const> to_type(vtype const& t) {
    auto len = [&]() -> std::optional<std::size_t> { if (t.precision < 0) return std::nullopt; return static_cast<std::size_t>(t.precision); };
    switch (t.k) {
        case kind::null: return std::make_shared<tt::unknown const>();
        case kind::boolean: return std::make_shared<tt::boolean const>();
        case kind::integer:
            if (t.width == 1) return std::make_shared<tt::int1 const>();
            if (t.width == 2) return std::make_shared<tt::int2 const>();
            if (t.width == 4) return std::make_shared<tt::int4 const>();
            return std::make_shared<tt::int8 const>();
        case kind::decimal: return std::make_shared<tt::decimal const>(len(), t.scale < 0 ? std::nullopt : std::optional<std::size_t> { static_cast<std::size_t>(t.scale) });
        case kind::floating: if (t.width == 4) return std::make_shared<tt::float4 const>(); return std::make_shared<tt::float8 const>();
        case kind::text: return std::make_shared<tt::character const>(tt::varying_t { !t.fixed }, len());
        case kind::bytes: return std::make_shared<tt::octet const>(tt::varying_t { !t.fixed }, len());
        case kind::date: return std::make_shared<tt::date const>();
        case kind::time: return std::make_shared<tt::time_of_day const>(tt::with_time_zone_t { t.zoned });
        case kind::stamp: return std::make_shared<tt::time_point const>(tt::with_time_zone_t { t.zoned });
    }
    return {};
}
vtype from_type(tt::data const& t) {
    auto opt = [](std::optional<std::size_t> x) { return x ? static_cast<int>(*x) : -1; };
    vtype r {};
    switch (t.kind()) {
        case tt::type_kind::boolean: r.k = kind::boolean; break;
        case tt::type_kind::int1: r.k = kind::integer; r.width = 1; break;
        case tt::type_kind::int2: r.k = kind::integer; r.width = 2; break;
        case tt::type_kind::int4: r.k = kind::integer; r.width = 4; break;
        case tt::type_kind::int8: r.k = kind::integer; break;
        case tt::type_kind::float4: r.k = kind::floating; r.width = 4; break;
        case tt::type_kind::float8: r.k = kind::floating; break;
        case tt::type_kind::decimal: r.k = kind::decimal; r.precision = opt(static_cast<tt::decimal const&>(t).precision()); r.scale = opt(static_cast<tt::decimal const&>(t).scale()); break;
        case tt::type_kind::character: { auto& c = static_cast<tt::character const&>(t); r.k = kind::text; r.precision = opt(c.length()); r.fixed = !c.varying(); break; }
        case tt::type_kind::octet: { auto& c = static_cast<tt::octet const&>(t); r.k = kind::bytes; r.precision = opt(c.length()); r.fixed = !c.varying(); break; }
        case tt::type_kind::date: r.k = kind::date; break;
        case tt::type_kind::time_of_day: r.k = kind::time; r.zoned = static_cast<tt::time_of_day const&>(t).with_time_zone(); break;
        case tt::type_kind::time_point: r.k = kind::stamp; r.zoned = static_cast<tt::time_point const&>(t).with_time_zone(); break;
        case tt::type_kind::blob: r.k = kind::bytes; break;
        case tt::type_kind::clob: r.k = kind::text; break;
        default: break;
    }
    return r;
}
value from_value(tv::data const& v) {
    value r {};
    switch (v.kind()) {
        case tv::value_kind::boolean: return boolean(static_cast<tv::boolean const&>(v).get());
        case tv::value_kind::int4: return integer(static_cast<tv::int4 const&>(v).get());
        case tv::value_kind::int8: return integer(static_cast<tv::int8 const&>(v).get());
        case tv::value_kind::float4: return floating(static_cast<double>(static_cast<tv::float4 const&>(v).get()));
        case tv::value_kind::float8: return floating(static_cast<tv::float8 const&>(v).get());
        case tv::value_kind::decimal: {
            auto t = static_cast<tv::decimal const&>(v).get();
            auto c = (static_cast<unsigned __int128>(t.coefficient_high()) << 64U) | t.coefficient_low();
            auto x = static_cast<__int128>(t.sign() < 0 ? static_cast<unsigned __int128>(0) - c : c);
            int s = -t.exponent();
            while (s < 0 && s > -40) { x = static_cast<__int128>(static_cast<unsigned __int128>(x) * 10U); ++s; }
            return decimal(x, s);
        }
        case tv::value_kind::character: return text(std::string { static_cast<tv::character const&>(v).get() });
        case tv::value_kind::octet: return bytes(std::string { static_cast<tv::octet const&>(v).get() });
        case tv::value_kind::date: r.k = kind::date; r.i = static_cast<tv::date const&>(v).get().days_since_epoch(); return r;
        case tv::value_kind::time_of_day: r.k = kind::time; r.i = static_cast<tv::time_of_day const&>(v).get().time_since_epoch().count(); return r;
        case tv::value_kind::time_point: { auto t = static_cast<tv::time_point const&>(v).get(); r.k = kind::stamp; r.i = t.seconds_since_epoch(); r.scale = static_cast<int>(t.subsecond()); return r; }
        case tv::value_kind::unknown: return {};
        default: throw plan_error { "unexpected kind of value" };
    }
}
std::shared_ptr<tv::data const> to_value(value const& v, vtype const& t) {
    switch (v.k) {
        case kind::null: return std::make_shared<tv::unknown const>();
        case kind::boolean: return std::make_shared<tv::boolean const>(v.i != 0);
        case kind::integer: if (t.width < 8) return std::make_shared<tv::int4 const>(static_cast<std::int32_t>(v.i)); return std::make_shared<tv::int8 const>(v.i);
        case kind::decimal: { auto u = static_cast<unsigned __int128>(v.c < 0 ? -v.c : v.c); return std::make_shared<tv::decimal const>(::takatori::decimal::triple { v.c < 0 ? -1 : 1, static_cast<std::uint64_t>(u >> 64U), static_cast<std::uint64_t>(u), -v.scale }); }
        case kind::floating: if (t.width == 4) return std::make_shared<tv::float4 const>(static_cast<float>(v.f)); return std::make_shared<tv::float8 const>(v.f);
        case kind::text: return std::make_shared<tv::character const>(v.s);
        case kind::bytes: return std::make_shared<tv::octet const>(v.s);
        case kind::date: return std::make_shared<tv::date const>(::takatori::datetime::date { v.i });
        case kind::time: return std::make_shared<tv::time_of_day const>(::takatori::datetime::time_of_day { std::chrono::nanoseconds { v.i } });
        case kind::stamp: {
            long d = v.i / 86400, s = v.i % 86400;
            if (s < 0) { --d; s += 86400; }
            return std::make_shared<tv::time_point const>(::takatori::datetime::time_point { ::takatori::datetime::date { d }, ::takatori::datetime::time_of_day { std::chrono::nanoseconds { s * 1000000000L + v.scale } } });
        }
    }
    return {};
}

// ---- functions

namespace {
vtype const i4 { kind::integer, 4 }, i8 { kind::integer, 8 }, f8 { kind::floating, 8 }, dec { kind::decimal }, str { kind::text }, bo { kind::boolean }, da { kind::date }, ti { kind::time }, tp { kind::stamp }, oct { kind::bytes };

/// number from 0 to 6
long small(value const& v) { auto i = cast({ kind::integer }, v); return i.null() ? 0 : std::min(std::max(i.i, 0L), 6L); }
bool any_null(row const& r) { return std::any_of(r.begin(), r.end(), [](value const& v) { return v.null(); }); }
value named(row const& r, char const* tag) { return r[0].null() ? text(std::string { tag } + ":null") : text(tag); }

void civil(long z, long& y, long& m, long& d) {
    z += 719468;
    long era = (z >= 0 ? z : z - 146096) / 146097;
    long doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    long doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
    d = doy - (153 * mp + 2) / 5 + 1;
    m = mp < 10 ? mp + 3 : mp - 9;
    y = yoe + era * 400 + (m <= 2 ? 1 : 0);
}
template<int F> value part(row const& r) {
    auto& v = r[0];
    if (v.null()) return {};
    auto d = cast({ kind::date }, v);
    auto t = cast({ kind::time }, v);
    long y = 0, m = 0, day = 0;
    civil(d.i, y, m, day);
    switch (F) {
        case 0: return integer(y);
        case 1: return integer(m);
        case 2: return integer(day);
        case 3: return integer(t.i / 3600000000000L);
        case 4: return integer(t.i / 60000000000L % 60);
        default: return decimal(t.i % 60000000000L, 9);
    }
}

std::vector<row> sorted(std::vector<row> rows, bool distinct) {
    std::vector<std::pair<std::string, row>> l {};
    for (auto& r : rows) if (!any_null(r)) l.emplace_back(key(r), std::move(r));
    std::sort(l.begin(), l.end(), [](auto& a, auto& b) { return a.first < b.first; });
    std::vector<row> out {};
    for (std::size_t i = 0; i < l.size(); ++i) if (!distinct || i == 0 || l[i].first != l[i - 1].first) out.push_back(std::move(l[i].second));
    return out;
}
template<bool D> value count_of(std::vector<row> const& rows) { return integer(static_cast<long>(sorted(rows, D).size())); }
template<bool D> value sum_of(std::vector<row> const& rows) { value s {}; for (auto&& r : sorted(rows, D)) s = s.null() ? r[0] : arith('+', s, r[0]); return s; }
template<bool D> value avg_of(std::vector<row> const& rows) { auto l = sorted(rows, D); if (l.empty()) return {}; value s = floating(0); for (auto&& r : l) s = arith('+', s, cast({ kind::floating }, r[0])); return arith('/', s, floating(static_cast<double>(l.size()))); }
value max_of(std::vector<row> const& rows) { value s {}; for (auto&& r : sorted(rows, false)) if (s.null() || order(s, r[0]) < 0) s = r[0]; return s; }
value min_of(std::vector<row> const& rows) { value s {}; for (auto&& r : sorted(rows, false)) if (s.null() || order(s, r[0]) > 0) s = r[0]; return s; }
value diff_of(std::vector<row> const& rows) { value s {}; for (auto&& r : sorted(rows, false)) { auto x = arith('-', arith('*', r[0], integer(3)), r[1]); s = s.null() ? x : arith('+', s, x); } return s; }
} // namespace

std::vector<function_def> const& functions() {
    static std::vector<function_def> const l {
        { "abs", i4, { i4 }, [](row const& r) -> value { return r[0].null() ? value {} : order(r[0], integer(0)) < 0 ? negate(r[0]) : r[0]; } },
        { "abs", i8, { i8 }, [](row const& r) -> value { return r[0].null() ? value {} : order(r[0], integer(0)) < 0 ? negate(r[0]) : r[0]; } },
        { "abs", dec, { dec }, [](row const& r) -> value { return r[0].null() ? value {} : order(r[0], integer(0)) < 0 ? negate(r[0]) : r[0]; } },
        { "abs", f8, { f8 }, [](row const& r) -> value { return r[0].null() ? value {} : order(r[0], integer(0)) < 0 ? negate(r[0]) : r[0]; } },
        { "kind_of", str, { i4 }, [](row const& r) { return named(r, "int4"); } },
        { "kind_of", str, { i8 }, [](row const& r) { return named(r, "int8"); } },
        { "kind_of", str, { dec }, [](row const& r) { return named(r, "decimal"); } },
        { "kind_of", str, { f8 }, [](row const& r) { return named(r, "float8"); } },
        { "kind_of", str, { str }, [](row const& r) { return named(r, "text"); } },
        { "kind_of", str, { bo }, [](row const& r) { return named(r, "boolean"); } },
        { "kind_of", str, { da }, [](row const& r) { return named(r, "date"); } },
        { "kind_of", str, { tp }, [](row const& r) { return named(r, "timestamp"); } },
        { "kind_of", str, { i8, i8 }, [](row const& r) { return named(r, "two"); } },
        { "concat3", str, { str, str, str }, [](row const& r) { return arith('|', arith('|', r[0], r[1]), r[2]); } },
        { "upper", str, { str }, [](row const& r) -> value { auto v = r[0]; for (auto& c : v.s) if (c >= 'a' && c <= 'z') c = static_cast<char>(c - 32); return v; } },
        { "length", i8, { str }, [](row const& r) -> value { return r[0].null() ? value {} : integer(static_cast<long>(r[0].s.size())); } },
        { "weigh", i8, { i8, i8 }, [](row const& r) { return arith('+', arith('*', r[0], integer(10)), r[1]); } },
        { "is_ok", bo, { str }, [](row const& r) -> value { return r[0].null() ? value {} : boolean(r[0].s.find('a') != std::string::npos); } },
        { "is_ok", bo, { i8 }, [](row const& r) -> value { return r[0].null() ? value {} : boolean(order(r[0], integer(2)) > 0); } },
        { "days", i8, { da }, [](row const& r) -> value { return r[0].null() ? value {} : integer(r[0].i); } },
        { "four", i4, {}, [](row const&) { return integer(4); } },
        { "hello", str, {}, [](row const&) { return text("hello"); } },
        { "nextval", i8, { i8 }, [](row const&) { return integer(0); } },
        { "extract_year", i8, { da }, part<0> }, { "extract_month", i8, { da }, part<1> }, { "extract_day", i8, { da }, part<2> },
        { "extract_year", i8, { tp }, part<0> }, { "extract_month", i8, { tp }, part<1> }, { "extract_day", i8, { tp }, part<2> },
        { "extract_hour", i8, { tp }, part<3> }, { "extract_minute", i8, { tp }, part<4> }, { "extract_second", dec, { tp, i4 }, part<5> },
        { "extract_hour", i8, { ti }, part<3> }, { "extract_minute", i8, { ti }, part<4> }, { "extract_second", dec, { ti, i4 }, part<5> },
        { "only2", i8, { i8 }, [](row const& r) { return arith('*', r[0], integer(2)); }, 1 },
    };
    return l;
}
std::vector<aggregate_def> const& aggregates() {
    static std::vector<aggregate_def> const l {
        { "count", i8, {}, [](std::vector<row> const& r) { return integer(static_cast<long>(r.size())); } },
        { "count", i8, { i8 }, count_of<false> }, { "count", i8, { str }, count_of<false> }, { "count", i8, { f8 }, count_of<false> }, { "count", i8, { dec }, count_of<false> }, { "count", i8, { da }, count_of<false> }, { "count", i8, { bo }, count_of<false> },
        { "count$distinct", i8, { i8 }, count_of<true>, true }, { "count$distinct", i8, { str }, count_of<true>, true }, { "count$distinct", i8, { dec }, count_of<true>, true },
        { "sum", i8, { i8 }, sum_of<false> }, { "sum", f8, { f8 }, sum_of<false> }, { "sum", dec, { dec }, sum_of<false> }, { "sum$distinct", i8, { i8 }, sum_of<true>, true },
        { "avg", f8, { f8 }, avg_of<false> }, { "avg", f8, { i8 }, avg_of<false> }, { "avg$distinct", f8, { i8 }, avg_of<true>, true },
        { "max", i8, { i8 }, max_of }, { "max", str, { str }, max_of }, { "max", dec, { dec }, max_of }, { "max", f8, { f8 }, max_of }, { "max", da, { da }, max_of },
        { "min", i8, { i8 }, min_of }, { "min", str, { str }, min_of }, { "min", dec, { dec }, min_of }, { "min", f8, { f8 }, min_of }, { "min", da, { da }, min_of },
        { "wdiff", i8, { i8, i8 }, diff_of },
    };
    return l;
}
std::vector<tvf_def> const& tvfs() {
    static std::vector<tvf_def> const l {
        { "series", { { "n", i8 } }, { i8, i8 }, [](row const& r) {
            std::vector<row> out {};
            if (any_null(r)) return out;
            for (long i = small(r[0]); i <= small(r[1]); ++i) out.push_back({ integer(i) });
            return out;
        } },
        { "chars", { { "pos", i8 }, { "c", str }, { "rest", i8 } }, { str }, [](row const& r) {
            std::vector<row> out {};
            if (any_null(r)) return out;
            for (std::size_t i = 0; i < r[0].s.size() && i < 4; ++i) out.push_back({ integer(static_cast<long>(i)), text(r[0].s.substr(i, 1)), integer(static_cast<long>(r[0].s.size() - i)) });
            return out;
        } },
    };
    return l;
}

// ---- rows

namespace {
std::string primary_key(table_def const& t, row const& r) { std::string s {}; for (auto&& k : t.primary) s += key(r[k.column]) + "|"; return s; }
bool nulls(stored_table const& t, std::vector<row> const& rows, std::string& message) {
    for (auto&& r : rows) for (std::size_t i = 0; i < r.size(); ++i) if (t.def.columns[i].not_null && r[i].null()) { message = "null in \"" + t.def.columns[i].name + "\""; return true; }
    return false;
}
} // namespace

value next_value(stored_table& t, std::size_t column) {
    auto& q = t.def.columns[column].seq;
    auto i = t.next.try_emplace(column, q.initial).first;
    auto r = i->second;
    i->second += q.increment;
    return integer(r);
}
bool apply_insert(stored_table& t, std::vector<row> const& rows, int mode, std::string& message) {
    if (nulls(t, rows, message)) return false;
    if (t.rows.size() + rows.size() > 150) throw too_large {};
    auto next = t.rows;
    for (auto&& r : rows) {
        auto k = primary_key(t.def, r);
        auto i = std::find_if(next.begin(), next.end(), [&](row const& x) { return primary_key(t.def, x) == k; });
        if (i == next.end() || t.def.primary.empty()) next.push_back(r);
        else if (mode == 1) *i = r;
        else if (mode == 0) { message = "duplicate key"; return false; }
    }
    t.rows = std::move(next);
    return true;
}
bool apply_update(stored_table& t, std::vector<std::size_t> const& which, std::vector<row> const& rows, std::string& message) {
    if (nulls(t, rows, message)) return false;
    auto next = t.rows;
    for (std::size_t i = 0; i < which.size(); ++i) next[which[i]] = rows[i];
    std::vector<std::string> keys {};
    for (auto&& r : next) keys.push_back(primary_key(t.def, r));
    std::sort(keys.begin(), keys.end());
    if (!t.def.primary.empty() && std::adjacent_find(keys.begin(), keys.end()) != keys.end()) { message = "duplicate key"; return false; }
    t.rows = std::move(next);
    return true;
}
void apply_delete(stored_table& t, std::vector<std::size_t> which) {
    std::sort(which.rbegin(), which.rend());
    for (auto i : which) t.rows.erase(t.rows.begin() + static_cast<std::ptrdiff_t>(i));
}

} // namespace sim::sql
