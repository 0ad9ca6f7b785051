// B17: what a statement means does not depend on how, and where in a text, it is written.
#include "analyze.h"

#include <algorithm>
#include <cstring>
#include <locale>

namespace sim {
namespace {

constexpr char const* id = "B17";

enum : long { v_layout = 1, v_before = 2, v_after = 4, v_case = 8, v_words = 16, v_no_comments = 32, v_no_source = 64, v_new = 128, v_all = 255 };

struct writing { op o {}; token_map map {}; bool words { false }; };

/// words which are never identifiers, and whose letters may be of any case
bool reserved(std::string const& upper) {
    static char const* const words[] {
        "ALL", "AND", "AS", "BETWEEN", "BY", "CASE", "CAST", "CREATE", "CROSS", "DELETE", "DISTINCT", "DROP", "ELSE", "END", "EXCEPT", "EXISTS", "FALSE", "FOR", "FROM", "FULL", "GROUP", "HAVING", "IN", "INNER", "INSERT",
        "INTERSECT", "INTO", "IS", "JOIN", "LEFT", "LIKE", "LIMIT", "NOT", "NULL", "ON", "OR", "ORDER", "OUTER", "PRIMARY", "RIGHT", "ROW", "SELECT", "SET", "TABLE", "THEN", "TRUE", "UNION", "UPDATE", "USING", "VALUES", "WHEN", "WHERE", "WITH",
    };
    return std::any_of(std::begin(words), std::end(words), [&](auto* w) { return upper == w; });
}
std::string upper(std::string s) { for (auto& c : s) c = ascii::upper(c); return s; }

/// other words for the same
void reword(tokens& t, rt::prng& r) {
    auto is = [&](std::size_t i, char const* w) { return i < t.size() && upper(t[i].text) == w; };
    for (std::size_t i = 0; i < t.size(); ++i) {
        if (r.chance(1, 4)) continue;
        if (is(i, "<>")) t[i].text = "!=";
        else if (is(i, "!=")) t[i].text = "<>";
        else if (is(i, "INNER") && is(i + 1, "JOIN")) t.erase(t.begin() + static_cast<std::ptrdiff_t>(i));
        else if (i > 0 && is(i, "JOIN") && (t[i - 1].kind == 'i' || is(i - 1, ")")) && !reserved(upper(t[i - 1].text)) && !is(i - 1, "NATURAL")) t.insert(t.begin() + static_cast<std::ptrdiff_t>(i++), { "INNER", 'i' });
        else if ((is(i, "LEFT") || is(i, "RIGHT") || is(i, "FULL")) && is(i + 1, "OUTER") && is(i + 2, "JOIN")) t.erase(t.begin() + static_cast<std::ptrdiff_t>(i) + 1);
        else if ((is(i, "LEFT") || is(i, "RIGHT") || is(i, "FULL")) && is(i + 1, "JOIN")) t.insert(t.begin() + static_cast<std::ptrdiff_t>(i) + 1, { "OUTER", 'i' });
        else if ((is(i, "UNION") || is(i, "EXCEPT") || is(i, "INTERSECT")) && is(i + 1, "DISTINCT")) t.erase(t.begin() + static_cast<std::ptrdiff_t>(i) + 1);
        else if ((is(i, "UNION") || is(i, "EXCEPT") || is(i, "INTERSECT")) && (is(i + 1, "SELECT") || is(i + 1, "VALUES") || is(i + 1, "TABLE"))) t.insert(t.begin() + static_cast<std::ptrdiff_t>(i) + 1, { "DISTINCT", 'i' });
        else if (is(i, "SELECT") && is(i + 1, "ALL")) t.erase(t.begin() + static_cast<std::ptrdiff_t>(i) + 1);
        else if (is(i, "SELECT") && !is(i + 1, "DISTINCT")) t.insert(t.begin() + static_cast<std::ptrdiff_t>(i) + 1, { "ALL", 'i' });
        else if ((is(i, "SUM") || is(i, "AVG") || is(i, "MIN") || is(i, "MAX") || is(i, "COUNT")) && is(i + 1, "(") && i + 2 < t.size() && !is(i + 2, "*") && !is(i + 2, ")") && !is(i + 2, "DISTINCT") && !is(i + 2, "ALL")) t.insert(t.begin() + static_cast<std::ptrdiff_t>(i) + 2, { "ALL", 'i' });
        else if (is(i, "WITHOUT") && is(i + 1, "TIME") && is(i + 2, "ZONE")) t.erase(t.begin() + static_cast<std::ptrdiff_t>(i), t.begin() + static_cast<std::ptrdiff_t>(i) + 3);
        else if ((is(i, "CHAR") || is(i, "CHARACTER")) && is(i + 1, "VARYING")) { t.erase(t.begin() + static_cast<std::ptrdiff_t>(i)); t[i].text = "VARCHAR"; }
        else if (is(i, "BINARY") && is(i + 1, "VARYING")) { t.erase(t.begin() + static_cast<std::ptrdiff_t>(i)); t[i].text = "VARBINARY"; }
        else if (is(i, "INT")) t[i].text = "INTEGER";
        else if (is(i, "INTEGER")) t[i].text = "INT";
        else if (is(i, "DEC")) t[i].text = "DECIMAL";
        else if (is(i, "DECIMAL")) t[i].text = r.chance(1, 2) ? "NUMERIC" : "DEC";
        else if (is(i, "VARCHAR")) t[i].text = r.chance(1, 2) ? "CHAR VARYING" : "CHARACTER VARYING";
        else if (is(i, "CHAR")) t[i].text = "CHARACTER";
        else if (is(i, "VARBINARY")) t[i].text = "BINARY VARYING";
        else if (is(i, "DOUBLE") && is(i + 1, "PRECISION")) t.erase(t.begin() + static_cast<std::ptrdiff_t>(i) + 1);
    }
}

/// the text of an operation as it is, or written in another way
writing write(op const& o, long v, u64 seed) {
    writing w { o, {}, false };
    rt::prng r { seed };
    auto t = split(o.str(0));
    while (!t.empty() && t.back().text == ";") t.pop_back();
    // some tokens have blanks inside, but no comments
    for (std::size_t i = 0; i + 1 < t.size(); ++i) {
        auto a = upper(t[i].text), b = upper(t[i + 1].text);
        if ((a == "UNION" && b == "JOIN") || (a == "OUTER" && b == "APPLY") || (a == "." && b == "*")) {
            t[i].text += (a == "." ? "" : " ") + t[i + 1].text;
            t.erase(t.begin() + static_cast<std::ptrdiff_t>(i) + 1);
        }
    }
    if ((v & v_words) && !t.empty() && upper(t[0].text) != "GRANT" && upper(t[0].text) != "REVOKE") {
        auto old = t;
        reword(t, r);
        for (std::size_t i = 0; i < std::max(t.size(), old.size()); ++i) if (t.size() != old.size() || t[i].text != old[i].text) w.words = true;
    }
    if (v & v_case) for (auto& x : t) if (x.kind == 'i' && reserved(upper(x.text))) for (auto& c : x.text) if (ascii::alpha(static_cast<unsigned char>(c)) && r.chance(1, 3)) c = static_cast<char>(c ^ 0x20);
    std::string prefix {};
    long index = 0;
    if (v & v_before) {
        static char const* const others[] { "SELECT 1;", ";", "\n\nSELECT * FROM t0 WHERE c0 = 1 ;", "CREATE TABLE zz_1 (a INT /* b */, b INT);", "/* c */ DROP TABLE t1;  ", "VALUES (1, 'x');", "INSERT INTO t0 VALUES (1);", "DELETE FROM t0;\n" };
        for (auto n = r.range(1, 4); n > 0; --n) { prefix += r.chance(1, 10) ? std::string(r.chance(1, 8) ? 65536 + r.below(9000) : r.below(9000), ' ') : ""; prefix += others[r.below(std::size(others))]; ++index; }
    }
    if ((v & v_layout) && r.chance(1, 2)) prefix += std::string(r.below(40), r.chance(1, 2) ? '\n' : ' ');
    auto rd = render(t, v & v_layout ? static_cast<spacing>(r.range(1, 3)) : spacing::single, r, prefix);
    // comments do not become descriptions
    std::size_t at = prefix.size();
    for (std::size_t i = 0; i <= rd.at.size(); ++i) {
        auto end = i < rd.at.size() ? rd.at[i].first : rd.text.size();
        for (; at + 3 < end; ++at) if (rd.text.compare(at, 3, "/**") == 0 && rd.text[at + 3] != '/') rd.text[at + 2] = '-';
        if (i < rd.at.size()) at = rd.at[i].second;
    }
    w.map = { rd.at, rd.text.size() };
    if (v & v_after) rd.text += r.chance(1, 2) ? "\n; SELECT 2 FROM t1" : " ; DROP TABLE t0 ; ";
    w.o.s[0] = rd.text;
    w.o.n[a_statement] = index;
    w.o.n[a_source] = v & v_no_source ? 1 : v & v_no_comments ? 2 : 0;
    return w;
}

struct plain_locale {
    std::locale old { std::locale::global(std::locale::classic()) };
    ~plain_locale() { std::locale::global(old); }
};
/// with the places named by tokens
std::string by_tokens(analyzer::sql_analyzer_result const& r, token_map const& m, bool message = true) {
    plain_locale l {};
    return canon_named(r, [&](::takatori::document::region const& g) { return g ? m.name({ g.begin(), g.end() }) : std::string { "@?" }; }, message);
}
std::string without_places(analyzer::sql_analyzer_result const& r) {
    plain_locale l {};
    return canon_named(r, [](auto&&) { return std::string {}; }, false);
}

void solo(op const& o) {
    std::string a {}, b {};
    rt::run_single([&] {
        auto w = write(o, 0, 0);
        auto src = parse_source(w.o);
        if (!src.statement || src.unit->statements().size() != 1) return;
        world x {};
        if (o.num(a_catalog) != 0) x.become(o.num(a_catalog));
        auto options = make_options(x, w.o);
        analyzer::sql_analyzer an {};
        rt::armed y {};
        auto r = call(an, options, src, x, w.o);
        rt::disarmed d {};
        a = by_tokens(r, w.map);
        b = without_places(r);
        solo_events(lookups().seen);
    }, 65536);
    if (!a.empty()) rt::output(a + part_separator + b);
}

void execute(scenario const& s, expectations const& e) {
    apply_environment(s);
    rt::run_single([&] {
        world w {};
        auto a = std::make_unique<analyzer::sql_analyzer>();
        for (std::size_t i = 0; i < s.threads[0].size(); ++i) {
            auto&& o = s.threads[0][i];
            if (!parses(e[0][i])) continue;
            auto* f = s.fault_of(0, static_cast<int>(i), "vary");
            auto v = f ? f->arg : 0;
            auto x = write(o, v, f ? static_cast<u64>(f->at) : 0);
            auto told = where(o) + "\n  written: " + escape(x.o.str(0), 3000);
            auto src = parse_source(x.o);
            if (!src.statement || src.unit->statements().size() <= static_cast<std::size_t>(x.o.num(a_statement))) fail("written-differently", "another way of writing does not parse" + told);
            auto options = make_options(w, x.o);
            if (v & v_new) a = std::make_unique<analyzer::sql_analyzer>();
            rt::alloc_fault af {};
            if (auto* g = s.fault_of(0, static_cast<int>(i), "alloc")) { af.at = g->at; af.len = g->len; }
            lookups() = {};
            rt::set_alloc_fault(af);
            rt::armed y {};
            std::optional<analyzer::sql_analyzer_result> r {};
            try { r.emplace(call(*a, options, src, w, x.o)); } catch (std::bad_alloc const&) {}
            rt::set_alloc_fault({});
            rt::disarmed d {};
            if (!r) { rt::count(c_threw); continue; }
            if (af.at >= 0) continue; // messages may be cut
            count_result(*r);
            if (v & v_no_source) {
                // no place is known
                auto all = by_tokens(*r, x.map, false);
                auto none = without_places(*r);
                for (auto c = all.find("@?"); c != std::string::npos; c = all.find("@?", c)) all.erase(c, 2);
                auto plain = none;
                for (auto c = plain.find("@?"); c != std::string::npos; c = plain.find("@?", c)) plain.erase(c, 2);
                expect_same("written-differently", "a result without source tells places" + told, plain, all);
                expect_same("written-differently", "the result without source" + told, e[0][i].parts[1], none);
            } else if (x.words) expect_same("written-differently", "the result of other words for the same" + told, e[0][i].parts[1], without_places(*r));
            else expect_same("written-differently", "the result of the same tokens at another place (" + std::to_string(v) + ")" + told, e[0][i].parts[0], by_tokens(*r, x.map));
            rt::count(c_compared);
        }
        rt::armed y {};
        a.reset();
    }, 65536);
}

void generate(rt::prng& r, scenario& s, oracle& orc, bool thorough) {
    random_heap(r, s);
    s.threads.resize(1);
    auto n = r.range(1, thorough ? 8 : 5);
    for (long i = 0; i < n; ++i) {
        op o = !s.threads[0].empty() && r.chance(1, 3) ? r.pick(s.threads[0]) : parsed_analyze(r, orc, id, static_cast<std::size_t>(r.range(5, 70)));
        if (o.str(0).find("/*") != std::string::npos || o.str(0).find("--") != std::string::npos) continue;
        auto at = static_cast<int>(s.threads[0].size());
        auto v = static_cast<long>(r.next() & static_cast<u64>(v_all));
        if (r.chance(1, 2)) v &= static_cast<long>(r.next());
        if (r.chance(2, 3)) v &= ~v_words;
        if (r.chance(2, 3)) v &= ~v_no_source;
        s.faults.push_back({ 0, at, "vary", static_cast<long>(r.below(100000000)), 1, v });
        auto&& m = orc.solo(id, o);
        if (i + 1 < n && r.chance(1, 6) && m.allocs > 1) s.faults.push_back({ 0, at, "alloc", static_cast<long>(r.below(m.allocs)), r.chance(1, 4) ? 1000000 : 1, 0 });
        s.threads[0].push_back(std::move(o));
    }
}
bool needs(op const& o) { return o.kind == "analyze"; }

property const p { id, "", generate, execute, solo, needs, 6000, 200000,
    "A run analyses 1 to 5 statements by one analyzer, each written in another way than in its reference: other blanks and comments, letters of keywords, synonymous words, behind and before other statements, without comments or without the source; under a random heap policy, with failing allocations in the history." };
registrar const reg { &p };

} // namespace
} // namespace sim
