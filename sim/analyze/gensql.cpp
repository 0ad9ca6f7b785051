// Statements about the sample catalog: mostly meaningful, sometimes not.
#include "analyze.h"

namespace sim {
namespace {

enum class ty { i, big, str, dec, f, b, date, ts, oct, any };

struct col { std::string name; ty t; };
struct rel { std::string text; std::string alias; std::vector<col> cols; };

struct table_def { char const* name; std::vector<col> cols; bool key; };
std::vector<table_def> const& tables() {
    static std::vector<table_def> const t {
        { "t0", { { "k", ty::i }, { "c0", ty::i }, { "c1", ty::big }, { "c2", ty::str }, { "c3", ty::dec } }, true },
        { "t1", { { "k", ty::big }, { "f", ty::f }, { "v", ty::str }, { "d", ty::date }, { "ts", ty::ts }, { "tz", ty::ts }, { "t", ty::any } }, true },
        { "t3", { { "id", ty::big }, { "name", ty::str }, { "def", ty::i }, { "x", ty::oct }, { "bl", ty::any }, { "cl", ty::any }, { "b", ty::b } }, true },
        { "s0", { { "k", ty::i }, { "x", ty::f }, { "c1", ty::big } }, true },
        { "third.u0", { { "k", ty::i }, { "w", ty::str } }, true },
        { "t2", { { "a", ty::i }, { "b", ty::str }, { "c", ty::b } }, false },
        { "v0", { { "k", ty::i } }, false },
    };
    return t;
}

class maker {
public:
    explicit maker(rt::prng& r, long fuel) : r_ { r }, fuel_ { fuel } { static unsigned const rate[] { 0, 0, 0, 30, 30, 30, 100, 10 }; odd_ = rate[r_.below(8)]; }

    std::string statement() {
        switch (r_.below(24)) {
            case 0: case 1: return insert();
            case 2: case 3: return update();
            case 4: case 5: return remove();
            case 6: case 7: return create_table();
            case 8: return create_index();
            case 9: return alter();
            case 10: return drop();
            case 11: return grant();
            default: return query(true, 0);
        }
    }

private:
    rt::prng& r_;
    long fuel_;
    int names_ { 0 };
    std::vector<std::vector<rel>> scopes_ {};    // inner last
    std::vector<std::pair<std::string, std::vector<col>>> ctes_ {};
    bool aggregates_ { false };

    template<class... A> char const* one(A... a) { char const* const v[] { a... }; return v[r_.below(sizeof...(A))]; }
    unsigned odd_ { 30 };     // one out of so many choices is an odd one, 0: none
    bool odd() { return odd_ != 0 && r_.chance(1, odd_); }
    bool odd(unsigned k) { return odd_ != 0 && r_.chance(1, k); }
    template<class... A> char const* usual(char const* f, A... a) { return odd_ == 0 ? f : one(f, a...); }
    ty any_type() { if (odd_ == 0) return simple_type(); static ty const t[] { ty::i, ty::i, ty::big, ty::str, ty::str, ty::dec, ty::f, ty::b, ty::date, ty::ts, ty::oct }; return t[r_.below(std::size(t))]; }
    ty simple_type() { static ty const t[] { ty::i, ty::big, ty::str, ty::dec, ty::f }; return t[r_.below(std::size(t))]; }
    bool compatible(ty have, ty want) {
        if (want == ty::any || have == want) return true;
        auto n = [](ty t) { return t == ty::i || t == ty::big || t == ty::dec || t == ty::f; };
        return n(have) && n(want);
    }
    std::string name(std::string s) {
        auto k = r_.below(20);
        if (k == 0) for (auto& c : s) c = static_cast<char>(ascii::upper(static_cast<unsigned char>(c)));
        if (k == 1 && s.find('.') == std::string::npos) s = "\"" + s + "\"";
        return s;
    }
    std::string fresh(char const* p) { return p + std::to_string(names_++); }

    std::string literal(ty t) {
        if (odd(25)) return "NULL";
        switch (t) {
            case ty::i: case ty::big: return odd() ? one("2147483647", "2147483648", "-9223372036854775808", "9223372036854775808", "99999999999999999999999999999999999999", "999999999999999999999999999999999999999", "0") : std::to_string(r_.below(1000));
            case ty::str: return odd() ? one("''", "'\xe3\x81\x82'", "'it''s'") : one("'a'", "'abc'", "'2020-01-02'", "'x y'", "'12'");
            case ty::dec: return odd() ? one("0.0", "12345678901234567890123456789012345678.9", "1.00000000000000000000000000000000000000001") : one("1.5", "100.25", "0.01", "3.0");
            case ty::f: return odd() ? one("1e400", "1e-400", "1E38") : one("1e0", "2.5e3", "1.25E-2", "CAST ( 1.5 AS DOUBLE )");
            case ty::b: return usual("TRUE", "FALSE", "UNKNOWN");
            case ty::date: return odd() ? one("DATE '2020-13-01'", "DATE 'x'") : one("DATE '2020-01-02'", "DATE '1999-12-31'");
            case ty::ts: return usual("TIMESTAMP '2020-01-02 03:04:05'", "TIMESTAMP '2020-01-02 03:04:05.678'", "now ( )", "TIMESTAMP WITH TIME ZONE '2020-01-02 03:04:05+09:00'", "TIMESTAMP '2020-01-02T99'");
            case ty::oct: return usual("X'0a0b'", "X''", "x'FF'", "X'0'");
            default: return literal(simple_type());
        }
    }
    std::string type_name(ty t) {
        switch (t) {
            case ty::i: return one("INT", "INTEGER", "INT", "SMALLINT", "TINYINT");
            case ty::big: return one("BIGINT", "BIGINT", "BIGINT");
            case ty::str: return usual("VARCHAR ( 10 )", "CHAR ( 5 )", "VARCHAR ( * )", "CHARACTER VARYING ( 20 )", "CHAR", "VARCHAR", "STRING");
            case ty::dec: return usual("DECIMAL ( 10 , 2 )", "DECIMAL ( 5 )", "DECIMAL", "DECIMAL ( * , 2 )", "DECIMAL ( * , * )", "NUMERIC ( 10 , 3 )", "DECIMAL ( 3 , 5 )", "DECIMAL ( 39 )");
            case ty::f: return usual("DOUBLE", "REAL", "FLOAT", "FLOAT ( 20 )", "DOUBLE PRECISION");
            case ty::b: return "BOOLEAN";
            case ty::date: return "DATE";
            case ty::ts: return one("TIMESTAMP", "TIMESTAMP WITH TIME ZONE", "TIME", "TIME WITH TIME ZONE", "TIMESTAMP WITHOUT TIME ZONE");
            case ty::oct: return one("VARBINARY ( 10 )", "BINARY ( 4 )", "VARBINARY ( * )", "BINARY VARYING ( 20 )", "BLOB", "CLOB", "BIT ( 3 )");
            default: return one("INT ARRAY [ ]", "ROW ( a INT )", "no_such_type", "BLOB", "CLOB", "INTERVAL YEAR TO MONTH");
        }
    }
    std::string parameter(ty t) {
        switch (t) {
            case ty::i: return one(":p_int", ":h_int");
            case ty::big: return one(":p_big", ":h_big", ":p_int");
            case ty::str: return one(":p_str", ":h_str");
            case ty::dec: return one(":p_dec", ":p_int");
            case ty::f: return ":p_f";
            case ty::b: return ":p_bool";
            case ty::date: return ":p_date";
            default: return usual(":p_int", ":no_such", ":h_null", "?");
        }
    }
    std::string column(ty t) {
        std::vector<std::string> c {};
        for (std::size_t i = scopes_.size(); i > 0; --i) {
            if (i < scopes_.size() && !r_.chance(1, 3)) break;      // correlation
            for (auto&& x : scopes_[i - 1]) for (auto&& y : x.cols) if (compatible(y.t, t)) {
                c.push_back(x.alias.empty() ? y.name : x.alias + "." + y.name); if (!x.alias.empty() && scopes_.size() == 1 && scopes_[0].size() == 1 && r_.chance(1, 3)) c.back() = y.name;
                if (odd(10)) c.push_back(y.name);
            }
        }
        if (odd()) return one("no_such", "t0.no_such", "x.y.z", "pub.t0.k", "tsurugi.pub.t0.c0", "gv");
        if (c.empty()) return odd_ == 0 && r_.chance(1, 2) ? parameter(t) : literal(t);
        return c[r_.below(c.size())];
    }
    std::string list(std::size_t n, ty t, int d) { std::string s {}; for (std::size_t i = 0; i < n; ++i) s += (i ? " , " : "") + expr(t, d); return s; }

    std::string expr(ty t, int d) {
        --fuel_;
        if (d <= 0 || fuel_ <= 0) {
            auto k = r_.below(8);
            if (k < 5) return column(t);
            if (k == 5) return parameter(t);
            return literal(t);
        }
        if (odd()) t = any_type();
        switch (r_.below(14)) {
            case 0: return "( " + expr(t, d - 1) + " )";
            case 1: return "CAST ( " + expr(odd() ? ty::any : t == ty::str ? simple_type() : t, d - 1) + " AS " + type_name(t) + " )";
            case 2: {
                std::string s = "CASE";
                bool simple = r_.chance(1, 3);
                if (simple) s += " " + expr(ty::i, d - 1);
                for (auto n = r_.range(1, 2); n > 0; --n) s += " WHEN " + (simple ? expr(ty::i, d - 1) : condition(d - 1)) + " THEN " + expr(t, d - 1);
                if (r_.chance(2, 3)) s += " ELSE " + expr(t, d - 1);
                return s + " END";
            }
            case 3: return "COALESCE ( " + list(static_cast<std::size_t>(r_.range(1, 3)), t, d - 1) + " )";
            case 4: return "NULLIF ( " + expr(t, d - 1) + " , " + expr(t, d - 1) + " )";
            case 5: if (fuel_ > 8) return "( " + query_of(t, d - 1) + " )"; break;
            case 6: if ((aggregates_ || r_.chance(1, 12)) && !in_aggregate_) return aggregate(t, d); break;
            default: break;
        }
        switch (t) {
            case ty::i: case ty::big: case ty::dec: case ty::f:
                switch (r_.below(6)) {
                    case 0: case 1: return expr(t, d - 1) + " " + one("+", "-", "*", "/", "%") + " " + expr(t, d - 1);
                    case 2: return std::string { one("- ", "+ ") } + expr(t, d - 1);
                    case 3: return name("abs") + " ( " + expr(t, d - 1) + " )";
                    case 4: if (r_.chance(1, 2)) return "pairs ( " + list(2, ty::i, d - 1) + " )"; return std::string { usual("mix", "amb", "days", "only2", "sch2.only2", "no_such_function", "pub.mix", "nextval") } + " ( " + list(static_cast<std::size_t>(r_.range(1, 2)), ty::i, d - 1) + " )";
                    default: return column(t);
                }
            case ty::str:
                switch (r_.below(5)) {
                    case 0: return expr(t, d - 1) + " || " + expr(t, d - 1);
                    case 1: return name("upper") + " ( " + expr(t, d - 1) + " )";
                    case 2: return "concat ( " + expr(t, d - 1) + " , " + expr(t, d - 1) + " )";
                    case 3: return std::string { usual("upper ( ", "TRIM ( ", "LOWER ( ", "hex ( ") } + expr(t, d - 1) + " )";
                    default: return column(t);
                }
            case ty::b: return condition(d);
            default: return r_.chance(1, 2) ? column(t) : literal(t);
        }
    }
    bool in_aggregate_ { false };
    std::string aggregate(ty t, int d) {
        in_aggregate_ = true;
        std::string s {};
        switch (r_.below(8)) {
            case 0: s = "COUNT ( * )"; break;
            case 1: s = std::string { "COUNT ( " } + usual("", "DISTINCT ", "ALL ") + expr(simple_type(), d - 1) + " )"; break;
            case 2: s = std::string { "corr ( " } + expr(ty::f, d - 1) + " , " + expr(ty::f, d - 1) + " )"; break;
            case 3: s = "pair_sum ( " + list(2, ty::i, d - 1) + " )"; break;
            default: s = std::string { usual("SUM", "MAX", "MIN", "AVG", "max") } + " ( " + usual("", "", "DISTINCT ") + expr(t, d - 1) + " )"; break;
        }
        in_aggregate_ = false;
        return s;
    }
    std::string condition(int d) {
        --fuel_;
        auto t = r_.chance(4, 5) ? simple_type() : any_type();
        if (d <= 0 || fuel_ <= 0) return r_.chance(1, 8) ? column(ty::b) : expr(t, 0) + " " + one("=", "<>", "<", ">", "<=", ">=") + " " + expr(t, 0);
        switch (r_.below(16)) {
            case 0: return condition(d - 1) + " AND " + condition(d - 1);
            case 1: return condition(d - 1) + " OR " + condition(d - 1);
            case 2: return "NOT " + condition(d - 1);
            case 3: return "( " + condition(d - 1) + " )";
            case 4: return expr(t, d - 1) + one(" IS NULL", " IS NOT NULL", " IS TRUE", " IS NOT UNKNOWN");
            case 5: return expr(t, d - 1) + one("", " NOT") + " BETWEEN " + one("", "SYMMETRIC ", "ASYMMETRIC ") + expr(t, d - 1) + " AND " + expr(t, d - 1);
            case 6: return expr(t, d - 1) + one("", " NOT") + " IN ( " + list(static_cast<std::size_t>(r_.range(1, 3)), t, d - 1) + " )";
            case 7: return expr(t, d - 1) + one("", " NOT") + " IN ( " + query_of(t, d - 1) + " )";
            case 8: return expr(ty::str, d - 1) + one("", " NOT") + " LIKE " + expr(ty::str, d - 1) + one("", "", " ESCAPE '!'");
            case 9: return std::string { one("EXISTS", "NOT EXISTS") } + " ( " + query(false, d - 1) + " )";
            case 10: return expr(t, d - 1) + " " + one("=", "<", "<>") + " " + one("ALL", "ANY", "SOME") + " ( " + query_of(t, d - 1) + " )";
            case 11: if (!odd(3)) return expr(t, d - 1) + " = " + expr(t, d - 1); return "( " + expr(t, d - 1) + " , " + expr(ty::i, d - 1) + " ) " + one("=", "<", "<>") + " ( " + expr(t, d - 1) + " , " + expr(ty::i, d - 1) + " )";
            case 12: return std::string { "is_ok ( " } + expr(r_.chance(1, 2) ? ty::str : ty::big, d - 1) + " )";
            default: return expr(t, d - 1) + " " + one("=", "<>", "<", ">", "<=", ">=") + " " + expr(t, d - 1);
        }
    }

    table_def const& some_table(bool keyed = false) { auto&& t = tables(); return t[odd() ? r_.below(t.size()) : r_.below(5)]; }
    std::string table_name(table_def const& t) {
        std::string s { t.name };
        if (odd()) return one("no_such_table", "third.no_such", "no_such.t0", "no_catalog.pub.t0", "\"T0\"", "v0");
        if (s.find('.') == std::string::npos && r_.chance(1, 8)) s = std::string { s == "s0" ? "sch2" : "pub" } + "." + s;
        if (r_.chance(1, 12)) s = "tsurugi." + std::string { s.find('.') == std::string::npos ? (s == "s0" ? "sch2." : "pub.") : "" } + s;
        return name(s);
    }

    rel table_reference(int d) {
        rel r {};
        auto k = r_.below(10);
        if (k == 0 && d > 0 && fuel_ > 6) {
            r.alias = fresh("q");
            std::vector<col> out {};
            r.text = std::string { odd(8) ? "LATERAL " : "" } + "( " + query(false, d - 1, &out) + " ) " + one("AS ", "") + r.alias;
            r.cols = out;
            if (r_.chance(1, 4) && !out.empty()) { r.text += " ( "; for (std::size_t i = 0; i < out.size(); ++i) { r.cols[i].name = fresh("n"); r.text += (i ? " , " : "") + r.cols[i].name; } r.text += " )"; }
            return r;
        }
        if (k == 1 && !ctes_.empty()) {
            auto&& c = ctes_[r_.below(ctes_.size())];
            r.alias = r_.chance(1, 2) ? c.first : fresh("w");
            r.text = c.first + (r.alias == c.first ? "" : " AS " + r.alias);
            r.cols = c.second;
            return r;
        }
        auto&& t = some_table();
        r.text = table_name(t);
        r.cols = t.cols;
        if (odd_ == 0 || r_.chance(2, 3)) { r.alias = fresh("r"); r.text += std::string { one(" AS ", " ") } + r.alias; }
        if (!r.alias.empty() && r_.chance(1, 12)) { r.text += " ( "; for (std::size_t i = 0; i < r.cols.size(); ++i) { r.cols[i].name = fresh("n"); r.text += (i ? " , " : "") + r.cols[i].name; } r.text += " )"; }
        if (odd()) r.text = std::string { "ONLY ( " } + t.name + " )" + (r.alias.empty() ? "" : " AS " + r.alias);
        return r;
    }
    std::string joined(std::vector<rel>& into, int d) {
        auto a = table_reference(d);
        std::string s = a.text;
        into.push_back(a);
        for (auto n = r_.below(3); n > 0 && fuel_ > 4; --n) {
            switch (r_.below(9)) {
                case 0: { auto b = table_reference(d); s += " CROSS JOIN " + b.text; into.push_back(b); break; }
                case 1: { auto b = table_reference(d); s += std::string { usual(" CROSS JOIN ", " NATURAL JOIN ", " NATURAL LEFT JOIN ", " UNION JOIN ") } + b.text; into.push_back(b); break; }
                case 2: { auto b = table_reference(d); s += std::string { one(" JOIN ", " LEFT JOIN ", " FULL OUTER JOIN ") } + b.text + " USING ( " + usual("k", "k , c1", "c1", "a", "no_such") + " )"; into.push_back(b); break; }
                case 3: {
                    rel x {};
                    x.alias = fresh("f");
                    scopes_.push_back(into);
                    if (r_.chance(1, 2)) { s += std::string { one(" CROSS APPLY ", " OUTER APPLY ") } + "series ( " + list(2, ty::i, 1) + " ) " + one("AS ", "") + x.alias; x.cols = { { "n", ty::i } }; }
                    else { s += std::string { one(" CROSS APPLY ", " OUTER APPLY ") } + usual("split", "split", "upper", "no_such") + " ( " + expr(ty::str, 1) + " ) AS " + x.alias; x.cols = { { "pos", ty::big }, { "word", ty::str }, { "len", ty::i } }; }
                    scopes_.pop_back();
                    if (r_.chance(1, 3)) { s += " ( "; for (std::size_t i = 0; i < x.cols.size(); ++i) { x.cols[i].name = fresh("n"); s += (i ? " , " : "") + x.cols[i].name; } s += " )"; }
                    into.push_back(x);
                    break;
                }
                default: {
                    auto b = table_reference(d);
                    s += std::string { one(" JOIN ", " INNER JOIN ", " LEFT JOIN ", " LEFT OUTER JOIN ", " FULL OUTER JOIN ", " RIGHT JOIN ") } + b.text;
                    into.push_back(b);
                    scopes_.push_back(into);
                    auto agg = aggregates_;
                    aggregates_ = false;
                    s += " ON " + condition(1);
                    aggregates_ = agg;
                    scopes_.pop_back();
                    break;
                }
            }
        }
        return s;
    }
    std::string query_of(ty t, int d) {
        std::vector<col> out {};
        return query(false, d, &out, { t });
    }
    /// SELECT ... ; result columns go to out
    std::string select(int d, std::vector<col>* out, std::vector<ty> const& want) {
        --fuel_;
        std::vector<rel> from {};
        std::string f {};
        bool no_from = r_.chance(1, 25);
        if (!no_from) {
            f = joined(from, d);
            if (r_.chance(1, 6) && fuel_ > 6) f += " , " + joined(from, d);
        }
        scopes_.push_back(from);
        auto agg_before = aggregates_;
        auto in_before = in_aggregate_;
        in_aggregate_ = false;
        aggregates_ = false;
        std::string where {}, group {}, having {}, order {};
        if (r_.chance(1, 2)) where = " WHERE " + condition(d > 0 ? 2 : 1);
        std::vector<std::string> keys {};
        bool grouped = r_.chance(1, 4);
        if (grouped) {
            for (auto n = r_.range(r_.chance(1, 4) ? 0 : 1, 2); n > 0; --n) keys.push_back(!odd(6) ? column(simple_type()) : expr(simple_type(), 1));
            if (!keys.empty()) { group = " GROUP BY "; for (std::size_t i = 0; i < keys.size(); ++i) group += (i ? " , " : "") + keys[i]; }
            aggregates_ = true;
            if (r_.chance(1, 2)) having = " HAVING " + aggregate(ty::big, 1) + " > " + literal(ty::i);
        }
        std::string cols {};
        std::vector<col> result {};
        std::size_t n = want.empty() ? static_cast<std::size_t>(r_.range(1, 4)) : want.size();
        if (want.empty() && !grouped && r_.chance(1, 5)) {
            cols = r_.chance(1, 3) && !from.empty() && !from[0].alias.empty() ? from[0].alias + " .*" : "*";
            for (auto&& x : from) for (auto&& c : x.cols) result.push_back(c);
        } else {
            for (std::size_t i = 0; i < n; ++i) {
                auto t = want.empty() ? any_type() : want[i];
                std::string e {};
                if (grouped) e = !keys.empty() && r_.chance(1, 2) ? keys[r_.below(keys.size())] : aggregate(t, 1);
                else e = r_.chance(1, 2) ? column(t) : expr(t, d > 0 ? 2 : 1);
                auto nm = fresh("c");
                cols += (i ? " , " : "") + e;
                if (out || r_.chance(1, 2)) { cols += std::string { one(" AS ", " ") } + nm; result.push_back({ nm, t }); }
            }
        }
        if (odd()) cols += std::string { " , " } + one("COUNT ( * )", "t0 .*", "*", "1 2");
        std::string s = std::string { "SELECT " } + usual("", "", "", "DISTINCT ", "ALL ") + cols;
        if (!f.empty()) s += " FROM " + f;
        s += where + group + having;
        if (r_.chance(1, 5)) {
            s += " ORDER BY ";
            for (auto m = r_.range(1, 2), i = 0L; i < m; ++i) s += (i ? " , " : "") + (!result.empty() && r_.chance(2, 3) ? result[r_.below(result.size())].name : odd(4) ? std::to_string(r_.range(0, 3)) : column(ty::any)) + one("", " ASC", " DESC") + (odd() ? " NULLS FIRST" : "");
        }
        if (r_.chance(1, 8)) s += std::string { " LIMIT " } + (odd_ == 0 ? one("10", "0", "2147483648") : one("10", "0", ":p_int", ":h_int", "1.5", "'a'", "c0", "9999999999999999999"));
        scopes_.pop_back();
        aggregates_ = agg_before;
        in_aggregate_ = in_before;
        if (out) *out = result;
        return s;
    }
    std::string query(bool top, int d, std::vector<col>* out = nullptr, std::vector<ty> const& want = {}) {
        --fuel_;
        if (top) d = static_cast<int>(r_.range(0, 3));
        std::string with {};
        auto mark = ctes_.size();
        if (top && r_.chance(1, 6)) {
            with = std::string { "WITH " } + (odd() ? "RECURSIVE " : "");
            for (auto n = r_.range(1, 2), i = 0L; i < n; ++i) {
                auto nm = fresh("w");
                std::vector<col> c {};
                auto q = query(false, 1, &c);
                with += (i ? " , " : "") + nm;
                if (r_.chance(1, 4) && !c.empty()) { with += " ( "; for (std::size_t j = 0; j < c.size(); ++j) { c[j].name = fresh("n"); with += (j ? " , " : "") + c[j].name; } with += " )"; }
                with += " AS ( " + q + " ) ";
                ctes_.emplace_back(nm, c);
            }
        }
        std::string s {};
        auto k = r_.below(16);
        if (k == 0) {
            auto n = want.empty() ? static_cast<std::size_t>(r_.range(1, 3)) : want.size();
            std::vector<ty> t(n);
            for (std::size_t i = 0; i < n; ++i) t[i] = want.empty() ? any_type() : want[i];
            s = "VALUES ";
            for (auto m = r_.range(1, 3), i = 0L; i < m; ++i) {
                s += i ? " , ( " : "( ";
                for (std::size_t j = 0; j < n + (odd() ? 1 : 0); ++j) s += (j ? " , " : "") + (r_.chance(2, 3) ? literal(t[j < n ? j : 0]) : expr(t[j < n ? j : 0], 1));
                s += " )";
            }
            if (out) { out->clear(); for (std::size_t i = 0; i < n; ++i) out->push_back({ "c" + std::to_string(i), t[i] }); }
        } else if (k == 1 && want.empty()) {
            auto&& t = some_table();
            s = "TABLE " + table_name(t);
            if (out) *out = t.cols;
        } else if ((k == 2 || k == 3) && fuel_ > 6) {
            std::vector<ty> t = want;
            if (t.empty()) for (auto n = r_.range(1, 3); n > 0; --n) t.push_back(simple_type());
            std::vector<col> o2 {};
            s = select(d - 1, out, t) + " " + (odd(8) ? "UNION ALL CORRESPONDING" : one("UNION", "UNION ALL", "UNION DISTINCT", "INTERSECT", "EXCEPT", "INTERSECT ALL", "EXCEPT ALL")) + " " + (odd(6) ? query(false, d - 1, &o2, t) : select(d - 1, &o2, t));
        } else s = select(d, out, want);
        ctes_.resize(top ? 0 : mark);
        return with + s;
    }

    std::string insert() {
        auto&& t = some_table(true);
        std::string s = std::string { one("INSERT", "INSERT", "INSERT OR REPLACE", "INSERT OR IGNORE", "INSERT IF NOT EXISTS", "UPDATE OR INSERT") } + " INTO " + table_name(t);
        std::vector<col> cols {};
        if (r_.chance(2, 3)) {
            for (auto&& c : t.cols) if (r_.chance(2, 3)) cols.push_back(c);
            if (cols.empty()) cols = t.cols;
            if (odd()) cols.push_back({ "no_such", ty::i });
            if (odd()) cols.push_back(cols[0]);
            if (odd() && t.name == std::string_view { "t3" }) cols.push_back({ "rid", ty::big });
            s += " ( ";
            for (std::size_t i = 0; i < cols.size(); ++i) s += (i ? " , " : "") + cols[i].name;
            s += " )";
        } else cols = t.cols;
        if (r_.chance(1, 15)) return s + " DEFAULT VALUES";
        std::vector<ty> ts {};
        for (auto&& c : cols) ts.push_back(c.t);
        if (odd() && ts.size() > 1) ts.pop_back();
        if (r_.chance(1, 3)) return s + " " + query(false, 1, nullptr, ts);
        s += " VALUES ";
        for (auto m = r_.range(1, 3), i = 0L; i < m; ++i) {
            s += i ? " , ( " : "( ";
            for (std::size_t j = 0; j < ts.size(); ++j) s += (j ? " , " : "") + (odd() ? std::string { "DEFAULT" } : r_.chance(1, 5) ? parameter(ts[j]) : r_.chance(1, 6) ? expr(ts[j], 1) : literal(ts[j]));
            s += " )";
        }
        return s;
    }
    std::string where(rel const& x) {
        (void) x;
        if (r_.chance(1, 4)) return {};
        if (odd()) return " WHERE CURRENT OF cur";
        return " WHERE " + condition(2);
    }
    std::string update() {
        auto&& t = some_table(true);
        rel x { table_name(t), {}, t.cols };
        std::string s = "UPDATE " + x.text;
        if (r_.chance(1, 4)) { x.alias = fresh("r"); s += " AS " + x.alias; }
        scopes_.push_back({ x });
        s += " SET ";
        for (auto n = r_.range(1, 3), i = 0L; i < n; ++i) {
            auto c = t.cols[r_.below(t.cols.size())];
            if (odd()) c = { "no_such", ty::i };
            s += (i ? " , " : "") + c.name + " = " + (odd() ? std::string { "DEFAULT" } : expr(c.t, 2));
        }
        s += where(x);
        scopes_.pop_back();
        return s;
    }
    std::string remove() {
        auto&& t = some_table(true);
        rel x { table_name(t), {}, t.cols };
        std::string s = "DELETE FROM " + x.text;
        if (r_.chance(1, 4)) { x.alias = fresh("r"); s += " " + x.alias; }
        scopes_.push_back({ x });
        s += where(x);
        scopes_.pop_back();
        return s;
    }
    std::string comment() { return r_.chance(1, 10) ? std::string { one("/** a table */ ", "/* plain */ ", "/** multi\n * line\n */ ", "-- | text\n", "-- x\n") } : std::string {}; }
    std::string create_table() {
        std::string s = comment() + "CREATE " + (odd() ? "TEMPORARY " : "") + "TABLE " + one("", "", "IF NOT EXISTS ") + one("n0", "n1", "pub.n2", "third.n3", "t0", "no_such.n4", "\"Q\"") + " ( ";
        auto n = r_.range(1, 5);
        std::vector<col> cols {};
        bool pk = false;
        for (long i = 0; i < n; ++i) {
            auto t = odd() ? ty::any : any_type();
            col c { odd() ? "x0" : "x" + std::to_string(i), t };
            cols.push_back(c);
            s += (i ? " , " : "") + comment() + c.name + " " + type_name(t);
            for (auto m = r_.below(3); m > 0; --m) {
                switch (r_.below(11)) {
                    case 0: case 1: s += " NOT NULL"; break;
                    case 2: s += " NULL"; break;
                    case 3: case 4: s += " DEFAULT " + (odd() ? expr(t, 1) : literal(t)); break;
                    case 5: if (odd_ != 0 && r_.chance(1, 2)) break; if (!pk || odd()) s += " PRIMARY KEY"; pk = true; break;
                    case 6: if (odd(3)) s += " UNIQUE"; break;
                    case 7: if (odd(3)) s += " CHECK ( " + c.name + " > 0 )"; break;
                    case 8: s += std::string { one(" GENERATED ALWAYS AS IDENTITY", " GENERATED BY DEFAULT AS IDENTITY") } + one("", " ( START 10 INCREMENT 2 )", " ( START WITH 1 MINVALUE 1 MAXVALUE 9 CYCLE )", " ( START 0 MINVALUE 5 )", " ( INCREMENT BY 0 )", " ( NO CYCLE NO MAXVALUE )", " ( MAXVALUE 99999999999 )", " ( INCREMENT -1 )"); break;
                    case 9: if (odd(3)) s += one(" DEFAULT now ( )", " DEFAULT nextval ( 1 )", " REFERENCES t0 ( k )", " GENERATED ALWAYS AS ( 1 )"); break;
                    default: break;
                }
            }
        }
        for (auto m = r_.below(3); m > 0; --m) {
            auto c = odd() ? std::string { "no_such" } : cols[r_.below(cols.size())].name;
            switch (r_.below(5)) {
                case 0: case 1: case 2: if (!pk || odd()) { s += std::string { " , " } + (r_.chance(1, 6) ? "CONSTRAINT pk0 " : "") + "PRIMARY KEY ( " + c + one("", "", " DESC", " ASC , x0") + " )" + (odd() ? " INCLUDE ( x0 )" : ""); pk = true; } break;
                case 3: if (odd(3)) s += " , UNIQUE ( " + c + " )"; break;
                default: if (odd(3)) s += std::string { " , " } + one("CHECK ( x0 > 0 )", "FOREIGN KEY ( x0 ) REFERENCES t0 ( k ) ON DELETE CASCADE"); break;
            }
        }
        s += " )";
        if (r_.chance(1, 12)) s += one(" WITH ( a = 1 )", " WITH ( a )", " WITH ( a.b = 'c' , d )");
        return s;
    }
    std::string create_index() {
        auto&& t = some_table();
        auto c = [&] { return odd() ? std::string { "no_such" } : t.cols[r_.below(t.cols.size())].name; };
        return std::string { "CREATE " } + usual("", "", "UNIQUE ") + "INDEX " + one("", "", "IF NOT EXISTS ") + one("i0", "i1", "pub.i2", "sch2.i4", "t0_c1", "") + " ON " + table_name(t) + " ( " + c() + one("", " ASC", " DESC") + (r_.chance(1, 3) ? " , " + c() : "") + " )" + (odd(6) ? " INCLUDE ( " + c() + " )" : "") + (odd() ? " WHERE k > 0" : "") + (r_.chance(1, 12) ? " WITH ( p = 1 )" : "");
    }
    std::string alter() {
        auto&& t = some_table();
        switch (r_.below(4)) {
            case 0: return std::string { "ALTER INDEX " } + one("", "IF EXISTS ") + one("t0_c1", "t0", "no_such", "pub.t0_c12", "s0_x") + " RENAME TO " + one("i9", "t0_c12", "\"Q\"");
            case 1: return std::string { "ALTER TABLE " } + one("", "IF EXISTS ") + table_name(t) + " RENAME TO " + one("n9", "t1", "\"Q\"");
            default: return std::string { "ALTER TABLE " } + one("", "", "IF EXISTS ") + table_name(t) + " RENAME COLUMN " + one("", "", "IF EXISTS ") + (odd() ? "no_such" : t.cols[r_.below(t.cols.size())].name) + " TO " + one("n9", "k", "c1");
        }
    }
    std::string drop() {
        switch (r_.below(6)) {
            case 0: return std::string { "DROP INDEX " } + one("", "IF EXISTS ") + one("t0_c1", "t0", "no_such", "pub.t3_name", "sch2.s0_x") + one("", " CASCADE", " RESTRICT");
            case 1: if (odd_ == 0) return "DROP TABLE t0"; return std::string { "DROP " } + one("VIEW v0", "SEQUENCE t3_seq", "SCHEMA sch2", "SCHEMA IF EXISTS no_such", "TABLE v0");
            case 2: return "TRUNCATE TABLE " + table_name(some_table()) + one("", " RESTART IDENTITY", " CONTINUE IDENTITY");
            case 3: return "";
            default: return std::string { "DROP TABLE " } + one("", "IF EXISTS ") + table_name(some_table()) + usual("", " CASCADE", " RESTRICT");
        }
    }
    std::string grant() {
        bool g = r_.chance(1, 2);
        std::string s = std::string { g ? "GRANT " : "REVOKE " } + one("SELECT", "ALL PRIVILEGES", "INSERT , SELECT", "UPDATE , DELETE", "SELECT , SELECT") + " ON " + one("", "TABLE ") + table_name(some_table()) + (r_.chance(1, 4) ? " , " + table_name(some_table()) : "");
        return s + (g ? " TO " : " FROM ") + one("alice", "PUBLIC", "CURRENT_USER", "*", "alice , bob", "alice , alice", "* , alice");
    }
};

} // namespace

std::string random_statement(rt::prng& r, std::size_t size) {
    if (r.chance(1, 20)) return render(random_sentence(r, size), spacing::single, r).text;
    auto s = maker { r, static_cast<long>(size) }.statement();
    if (r.chance(1, 12)) {
        // replaces a token by another one of the text
        auto t = split(s);
        if (t.size() > 2) { t[r.below(t.size())] = t[r.below(t.size())]; s = render(t, spacing::single, r).text; }
    }
    if (r.chance(1, 10)) s = render(split(s), r.chance(1, 2) ? spacing::wild : spacing::comments, r).text;
    return s;
}

} // namespace sim
