// A05: configured limits are exact, independent of each other, and follow every reconfiguration.
#include "common.h"

#include <algorithm>

namespace sim {
namespace {

constexpr char const* id = "A05";
constexpr long huge = 1000000000;
using kind = parser::sql_parser_element_kind;

/// statement templates with a list of known size
struct tmpl {
    kind k;
    std::string (*make)(std::size_t n);
    std::vector<std::pair<kind, std::size_t>> others;   // further lists with their sizes
};
template<class F> std::string list(std::size_t n, char const* sep, F f) { std::string s {}; for (std::size_t i = 0; i < n; ++i) { if (i > 0) s += sep; s += f(i); } return s; }
std::string num(std::size_t i) { return std::to_string(i); }
std::string ident(std::size_t i) { return "n" + std::to_string(i); }

std::vector<tmpl> const& templates() {
    static std::vector<tmpl> const t {
        { kind::schema_element_definition, [](std::size_t n) { return "CREATE SCHEMA s " + list(n, " ", [](std::size_t i) { return "CREATE TABLE t" + num(i) + " (a INT)"; }); }, {} },
        { kind::table_element_definition, [](std::size_t n) { return "CREATE TABLE t (" + list(n, ", ", [](std::size_t i) { return i % 3 == 2 ? "UNIQUE (c0)" : "c" + num(i) + " INT"; }) + ")"; }, {} },
        { kind::column_constraint_definition, [](std::size_t n) { return "CREATE TABLE t (a INT " + list(n, " ", [](std::size_t i) { return std::string { i % 3 == 0 ? "NOT NULL" : i % 3 == 1 ? "UNIQUE" : "DEFAULT 1" }; }) + ")"; }, {} },
        { kind::column_reference, [](std::size_t n) { return "INSERT INTO t (" + list(n, ", ", ident) + ") VALUES (1)"; }, {} },
        { kind::column_reference, [](std::size_t n) { return "CREATE TABLE t (a INT, FOREIGN KEY (a) REFERENCES u (" + list(n, ", ", ident) + "))"; }, { { kind::table_element_definition, 2 } } },
        { kind::column_reference, [](std::size_t n) { return "WITH q (" + list(n, ", ", ident) + ") AS (SELECT 1) SELECT 2"; }, {} },
        { kind::column_reference, [](std::size_t n) { return "SELECT 1 FROM a JOIN b USING (" + list(n, ", ", ident) + ")"; }, {} },
        { kind::column_reference, [](std::size_t n) { return "SELECT 1 FROM (SELECT 2) AS s (" + list(n, ", ", ident) + ")"; }, {} },
        { kind::storage_parameter, [](std::size_t n) { return "CREATE TABLE t (a INT) WITH (" + list(n, ", ", [](std::size_t i) { return "p" + num(i) + " = " + num(i); }) + ")"; }, {} },
        { kind::storage_parameter, [](std::size_t n) { return "CREATE INDEX i ON t (a) WITH (" + list(n, ", ", [](std::size_t i) { return "p" + num(i) + " = " + num(i); }) + ")"; }, {} },
        { kind::set_clause, [](std::size_t n) { return "UPDATE t SET " + list(n, ", ", [](std::size_t i) { return "c" + num(i) + " = " + num(i); }); }, {} },
        { kind::with_element, [](std::size_t n) { return "WITH " + list(n, ", ", [](std::size_t i) { return "q" + num(i) + " AS (SELECT " + num(i) + ")"; }) + " SELECT 1"; }, {} },
        { kind::select_element, [](std::size_t n) { return "SELECT " + list(n, ", ", [](std::size_t i) { return i % 3 == 1 ? std::string { "*" } : i % 3 == 2 ? "a.*" : "c AS x" + num(i); }); }, {} },
        { kind::select_element, [](std::size_t n) { return "SELECT (SELECT " + list(n, ", ", num) + " FROM u)"; }, {} },
        { kind::select_element, [](std::size_t n) { return "SELECT 1 UNION ALL SELECT " + list(n, ", ", num); }, {} },
        { kind::table_reference, [](std::size_t n) { return "SELECT * FROM " + list(n, ", ", [](std::size_t i) { return i % 2 == 0 ? "t" + num(i) : "(SELECT 1) s" + num(i); }); }, {} },
        { kind::grouping_element, [](std::size_t n) { return "SELECT 1 FROM t GROUP BY " + list(n, ", ", ident); }, {} },
        { kind::ordering_element, [](std::size_t n) { return "SELECT 1 FROM t ORDER BY " + list(n, ", ", [](std::size_t i) { return ident(i) + (i % 2 ? " DESC" : ""); }); }, {} },
        { kind::ordering_element, [](std::size_t n) { return "CREATE INDEX i ON t (" + list(n, ", ", [](std::size_t i) { return ident(i) + (i % 2 ? " DESC" : ""); }) + ")"; }, {} },
        { kind::field_definition, [](std::size_t n) { return "SELECT CAST(x AS ROW(" + list(n, ", ", [](std::size_t i) { return "f" + num(i) + " INT"; }) + "))"; }, {} },
        { kind::row_expression, [](std::size_t n) { return "INSERT INTO t VALUES " + list(n, ", ", [](std::size_t i) { return "(" + num(i) + ")"; }); }, {} },
        { kind::scalar_expression, [](std::size_t n) { return "SELECT f(" + list(n, ", ", num) + ")"; }, {} },
        { kind::scalar_expression, [](std::size_t n) { return "SELECT COALESCE(" + list(n, ", ", num) + ")"; }, {} },
        { kind::scalar_expression, [](std::size_t n) { return "INSERT INTO t VALUES (" + list(n, ", ", num) + ")"; }, {} },
        { kind::scalar_expression, [](std::size_t n) { return "SELECT 1 FROM t WHERE a IN (" + list(n, ", ", num) + ")"; }, {} },
        { kind::when_clause, [](std::size_t n) { return "SELECT CASE " + list(n, " ", [](std::size_t i) { return "WHEN a THEN " + num(i); }) + " END"; }, {} },
        { kind::when_clause, [](std::size_t n) { return "SELECT CASE x " + list(n, " ", [](std::size_t i) { return "WHEN a THEN " + num(i); }) + " ELSE 1 END"; }, {} },
        { kind::string_literal_concatenation, [](std::size_t n) { return "SELECT 'a' " + list(n, "\n", [](std::size_t i) { return "'" + num(i) + "'"; }); }, {} },
        { kind::privilege_action, [](std::size_t n) { return "GRANT " + list(n, ", ", [](std::size_t i) { static char const* const a[] { "SELECT", "INSERT", "UPDATE", "DELETE" }; return std::string { a[i % 4] }; }) + " ON TABLE t TO u"; }, {} },
        { kind::privilege_object, [](std::size_t n) { return "REVOKE SELECT ON TABLE " + list(n, ", ", ident) + " FROM u"; }, {} },
        { kind::privilege_user, [](std::size_t n) { return "GRANT SELECT ON TABLE t TO " + list(n, ", ", ident); }, {} },
        { kind::privilege_user, [](std::size_t n) { return "REVOKE SELECT ON TABLE t FROM " + list(n, ", ", ident); }, {} },
    };
    return t;
}

/// contexts which embed an expression x; the embedded expression adds its own nodes and depth
char const* const contexts[] {
    "(x) + 1", "1 * (x)", "- (x)", "NOT (x)", "(x) = 2", "2 < (x)", "(x) BETWEEN 1 AND 2", "1 BETWEEN (x) AND 2", "1 BETWEEN 2 AND (x)", "(x) IN (1)", "1 IN (2, (x))", "(x) LIKE 'a'", "'a' LIKE (x)", "'a' LIKE 'b' ESCAPE (x)",
    "CASE WHEN (x) THEN 1 END", "CASE WHEN 1 THEN (x) END", "CASE WHEN 1 THEN 2 ELSE (x) END", "CASE (x) WHEN 1 THEN 2 END", "CAST((x) AS INT)", "f(1, (x))", "COALESCE((x), 1)", "NULLIF(1, (x))", "ABS((x))", "SUM((x))", "COUNT(DISTINCT (x))", "EXTRACT(YEAR FROM (x))", "TRIM((x))",
    "TRIM('a' FROM (x))", "TRIM((x) FROM 'a')", "(x) IS NULL", "(x) IS TRUE", "(x) || 'a'", "(x) AND TRUE", "TRUE OR (x)", "(1, (x))", "(SELECT (x))", "(SELECT 1 FROM t WHERE (x))", "(SELECT 1 FROM t GROUP BY a HAVING (x))", "(SELECT 1 FROM a JOIN b ON (x))", "(SELECT 1 ORDER BY (x))",
    "(SELECT 1 LIMIT (x))", "(SELECT 1 FROM (SELECT (x)) AS s)", "(WITH q AS (SELECT (x)) SELECT 1)", "(VALUES ((x)))", "(SELECT 1 UNION SELECT (x))", "(SELECT (x) UNION SELECT 1)", "EXISTS (SELECT (x))", "1 = ANY (SELECT (x))", "1 IN (SELECT (x))", "ARRAY[(x)]", "a[(x)]", "LOWER((x))", "SUBSTRING((x) FROM 1)", "SUBSTRING('a' FROM (x))",
    "POSITION((x) IN 'a')", "MOD((x), 1)", "(x)::INT", "(SELECT 1 FROM APPLY_T CROSS APPLY f((x)) AS g)", "(SELECT 1 FROM UNNEST((x)) AS g)",
};
char const* const places[] { "SELECT x", "SELECT 1 FROM t WHERE x", "INSERT INTO t VALUES (x)", "UPDATE t SET a = x", "UPDATE t SET a = 1 WHERE x", "DELETE FROM t WHERE x", "SELECT 1 FROM t ORDER BY x", "CREATE TABLE t (a INT CHECK (x))", "CREATE TABLE t (a INT, CHECK (x))", "WITH q AS (SELECT x) SELECT 1", "VALUES (x)", "SELECT 1 FROM a LEFT JOIN b ON x", "CREATE VIEW v AS SELECT x" };

std::string substitute(std::string c, std::string const& with) {
    auto p = c.find("(x)");
    if (p != std::string::npos) return c.replace(p + 1, 1, with);
    // a single letter, surrounded by blanks or parentheses
    for (p = 0; p < c.size(); ++p) if (c[p] == 'x' && (p == 0 || !ascii::alnum(static_cast<unsigned char>(c[p - 1]))) && (p + 1 == c.size() || !ascii::alnum(static_cast<unsigned char>(c[p + 1])))) return c.replace(p, 1, with);
    return c;
}
std::string nest(op const& o, std::size_t from, std::string inner) {
    for (std::size_t i = o.n.size(); i-- > from;) inner = substitute(contexts[static_cast<std::size_t>(o.n[i]) % std::size(contexts)], inner);
    return substitute(places[static_cast<std::size_t>(o.num(from - 1)) % std::size(places)], inner);
}

/// operations
/// "lists": n = { node limit selector, depth limit selector, desc, number of templates, (template, size)..., (kind, limit)... }
/// "nest":  n = { level, place, context... }: counts and depth are additive
/// the text of "lists"
struct lists { std::string text; std::vector<std::pair<kind, std::size_t>> sizes; std::size_t limits_at; std::size_t count; };
lists build(op const& o) {
    lists r {};
    auto m = static_cast<std::size_t>(o.num(3));
    std::size_t at = 4;
    for (std::size_t i = 0; i < m && at + 1 < o.n.size(); ++i, at += 2) {
        auto&& t = templates()[static_cast<std::size_t>(o.n[at]) % templates().size()];
        auto n = static_cast<std::size_t>(std::max(1L, o.n[at + 1]));
        if (i > 0) r.text += " ; ";
        r.text += t.make(n);
        r.sizes.emplace_back(t.k, n);
        for (auto&& x : t.others) r.sizes.push_back(x);
        ++r.count;
    }
    r.sizes.emplace_back(kind::statement, r.count);
    r.limits_at = at;
    return r;
}

struct counted { std::size_t nodes, depth; std::string tree; bool ok; };
counted measure_text(std::string const& text) {
    auto q = make_parse(text, { huge, huge, 5, 1 });
    auto doc = make_document(q);
    auto p = make_parser(q);
    rt::armed a {};
    auto r = p(doc);
    rt::disarmed d {};
    if (!r.has_value()) return { 0, 0, canon_absolute(r), false };
    auto [rn, rd] = count_nodes(*r.value());
    if (rn != r.tree_node_count() || rd != r.max_tree_depth())
        fail("count", "the tree has " + std::to_string(rn) + " nodes and depth " + std::to_string(rd) + ", but " + std::to_string(r.tree_node_count()) + " nodes and depth " + std::to_string(r.max_tree_depth()) + " are reported\n  text: " + escape(text, 1500) + "\n  tree: " + dump(*r.value(), regions::none));
    return { r.tree_node_count(), r.max_tree_depth(), dump(*r.value(), regions::absolute), true };
}

void solo(op const& o) {
    std::string out {};
    rt::run_single([&] {
        if (o.kind == "lists") {
            auto c = measure_text(build(o).text);
            out = std::to_string(c.ok ? c.nodes : 0) + part_separator + std::to_string(c.depth) + part_separator + c.tree;
        }
    }, 65536);
    rt::output(out);
}

void run_lists(op const& o, measure const& m, std::optional<parser::sql_parser>& p, long mode) {
    auto l = build(o);
    if (l.count == 0) return;
    auto nodes = std::stol(m.parts[0]), depth = std::stol(m.parts[1]);
    if (nodes == 0) fail("rejected", "a valid text is rejected without any limit in effect\n  text: " + escape(l.text, 1000) + "\n  " + m.parts[2]);
    auto q = make_parse(l.text, { 0, 0, 5, 1 });
    // selectors: 0: unlimited, 1: exactly enough, 2: one too few, 3: one more than enough, 4: half
    auto limit = [](long sel, long n) { switch (sel) { case 0: return 0L; case 1: return n; case 2: return std::max(1L, n - 1); case 3: return n + 1; default: return std::max(1L, n / 2); } };
    q.n[p_node_limit] = limit(o.num(0), nodes);
    q.n[p_depth_limit] = limit(o.num(1), depth);
    for (std::size_t i = l.limits_at; i + 1 < o.n.size(); i += 2) { q.n.push_back(o.n[i] % static_cast<long>(element_kinds)); q.n.push_back(o.n[i + 1]); }
    if (!p || mode == 0) p.emplace(make_parser(q));
    else if (mode == 1) { parser::sql_parser_options x { std::move(p->options()) }; configure(x, q); p.emplace(std::move(x)); }
    else if (mode == 3) { parser::sql_parser x { std::move(*p) }; p.emplace(std::move(x)); configure(p->options(), q); }
    else configure(p->options(), q);
    // the model
    std::map<kind, std::size_t> limits {};
    for (std::size_t i = p_first_element; i + 1 < q.n.size(); i += 2) limits[static_cast<kind>(q.n[i])] = static_cast<std::size_t>(q.n[i + 1]);
    std::string reason {};
    for (auto&& [k, n] : l.sizes) { auto x = limits.count(k) ? limits[k] : 0; if (x != 0 && n > x) reason = "a list of " + std::to_string(n) + " " + std::string { to_string_view(k) } + " exceeds " + std::to_string(x); }
    bool by_list = !reason.empty();
    if (q.n[p_node_limit] > 0 && nodes > q.n[p_node_limit]) reason = reason.empty() ? std::to_string(nodes) + " nodes exceed " + std::to_string(q.n[p_node_limit]) : reason;
    if (q.n[p_depth_limit] > 0 && depth > q.n[p_depth_limit]) reason = reason.empty() ? "depth " + std::to_string(depth) + " exceeds " + std::to_string(q.n[p_depth_limit]) : reason;
    auto doc = make_document(q);
    rt::armed a {};
    auto r = (*p)(doc);
    rt::disarmed d {};
    auto where = "\n  node limit " + std::to_string(q.n[p_node_limit]) + " of " + std::to_string(nodes) + ", depth limit " + std::to_string(q.n[p_depth_limit]) + " of " + std::to_string(depth) + [&] { std::string s {}; for (auto&& [k, x] : limits) s += ", " + std::string { to_string_view(k) } + " limit " + std::to_string(x); return s; }() + "\n  text: " + escape(l.text, 1000);
    auto problem = check_result(r, l.text, doc.get(), true);
    if (!problem.empty()) fail("malformed-result", problem + where);
    if (reason.empty()) {
        rt::count(c_limit_ok);
        if (!r.has_value()) fail("rejected", "a text within all limits was rejected: " + canon_absolute(r) + where);
        expect_same("tree", "the tree depends on limits which are satisfied" + where, m.parts[2], dump(*r.value(), regions::absolute));
        bool on = q.n[p_node_limit] > 0 || q.n[p_depth_limit] > 0;
        if (on && (static_cast<long>(r.tree_node_count()) != nodes || static_cast<long>(r.max_tree_depth()) != depth))
            fail("count", "the reported size of the tree, " + std::to_string(r.tree_node_count()) + " nodes and depth " + std::to_string(r.max_tree_depth()) + ", depends on the limits" + where);
    } else {
        rt::count(c_limit_hit);
        if (r.has_value()) fail("accepted", "a text beyond a limit was accepted (" + reason + ")" + where);
        if (r.diagnostic().code() != parser::sql_parser_code::exceed_number_of_elements) fail("code", "a text beyond a limit (" + reason + ") was reported as " + canon_absolute(r) + where);
        // the report points at the list, if there is only one possibility
        if (by_list && l.count == 1 && limits.size() == 1) {
            std::size_t n = l.sizes[0].second, x = limits.begin()->second;
            if (l.sizes[0].first == limits.begin()->first && n > x) {
                auto&& t = templates()[static_cast<std::size_t>(o.n[4]) % templates().size()];
                // everything up to the first excess element is common to both texts
                auto shorter = t.make(x), longer = t.make(x + 1);
                std::size_t common = 0;
                while (common < shorter.size() && common < longer.size() && shorter[common] == longer[common]) ++common;
                while (common > 0 && longer[common - 1] == ' ') --common;
                auto g = ast::node_region { r.diagnostic().region() };
                if (g.begin + 1 < common) fail("location", "the diagnostic at " + std::to_string(g.begin) + " is before the first excess element, at " + std::to_string(common) + where);
                if (g.begin > common + 40) fail("location", "the diagnostic at " + std::to_string(g.begin) + " is far behind the first excess element, at " + std::to_string(common) + where);
            }
        }
    }
}

void run_nest(op const& o) {
    // C[x], C[e], x, e with e = a big and deep expression
    std::string big = "((((1 + 2) * 3) - 4) + f(5, 6))";
    for (long i = 0; i < o.num(0); ++i) big = "(" + big + " + 1)";
    auto small = measure_text(nest(o, 2, "a"));
    if (!small.ok) return; // not every combination is a sentence
    auto large = measure_text(nest(o, 2, big));
    auto e = measure_text("SELECT " + big), x = measure_text("SELECT a");
    auto where = "\n  text: " + escape(nest(o, 2, "a"), 1000);
    if (!large.ok) return;
    rt::count(c_limit_ok);
    if (large.nodes - small.nodes != e.nodes - x.nodes)
        fail("count", "replacing `a` by " + big + " adds " + std::to_string(static_cast<long>(large.nodes) - static_cast<long>(small.nodes)) + " nodes, but " + std::to_string(e.nodes - x.nodes) + " in a plain SELECT" + where);
    // deeper by one level per context at least
    auto base = nest(op { "", { 0, o.num(1) }, {} }, 2, big);
    auto flat = measure_text(base);
    if (flat.ok && large.depth < flat.depth + (o.n.size() - 2))
        fail("depth", "the depth " + std::to_string(large.depth) + " does not grow with " + std::to_string(o.n.size() - 2) + " enclosing expressions; it is " + std::to_string(flat.depth) + " without them" + where);
    auto q = make_parse(nest(o, 2, big), { 0, static_cast<long>(large.depth) - 1, 5, 1 });
    auto doc = make_document(q);
    auto p = make_parser(q);
    rt::armed a {};
    auto r = p(doc);
    rt::disarmed d {};
    if (r.has_value()) fail("accepted", "a tree of depth " + std::to_string(large.depth) + " was accepted with a limit of one less" + where);
    rt::count(c_limit_hit);
}

/// "sentence": s = tokens; n = { node limit selector, depth limit selector }: limits are exact for every construct
void run_sentence(op const& o) {
    tokens t {};
    for (auto&& x : o.s) t.push_back({ x, 'x' });
    rt::prng r { 1 };
    auto text = render(t, spacing::single, r).text;
    auto c = measure_text(text);
    if (!c.ok) return;
    for (int k = 0; k < 4; ++k) {
        auto n = static_cast<long>(c.nodes), d = static_cast<long>(c.depth);
        auto q = make_parse(text, { 0, 0, 5, 1 });
        bool over = k % 2 == 1;
        if (k < 2) q.n[p_node_limit] = over ? std::max(1L, n - 1 - o.num(0) % std::max(1L, n - 1)) : n; else q.n[p_depth_limit] = over ? std::max(1L, d - 1 - o.num(1) % std::max(1L, d - 1)) : d;
        if (over && (k < 2 ? n < 2 : d < 2)) continue;
        auto doc = make_document(q);
        auto p = make_parser(q);
        rt::armed a {};
        auto res = p(doc);
        rt::disarmed u {};
        auto problem = check_result(res, text, doc.get(), true);
        auto where = "\n  node limit " + std::to_string(q.n[p_node_limit]) + " of " + std::to_string(n) + ", depth limit " + std::to_string(q.n[p_depth_limit]) + " of " + std::to_string(d) + "\n  text: " + escape(text, 1200);
        if (!problem.empty()) fail("malformed-result", problem + where);
        rt::count(over ? c_limit_hit : c_limit_ok);
        if (over == res.has_value()) fail(over ? "accepted" : "rejected", (over ? "a tree beyond the limit was accepted" : "a tree at the limit was rejected: " + canon_absolute(res)) + where);
        if (over && res.diagnostic().code() != parser::sql_parser_code::exceed_number_of_elements) fail("code", "a tree beyond the limit was reported as " + canon_absolute(res) + where);
    }
}

void execute(scenario const& s, expectations const& e) {
    apply_environment(s);
    auto n = s.threads.size();
    std::vector<std::function<void()>> bodies {};
    for (std::size_t t = 0; t < n; ++t) bodies.emplace_back([&, t] {
        std::optional<parser::sql_parser> p {};
        for (std::size_t i = 0; i < s.threads[t].size(); ++i) {
            auto&& o = s.threads[t][i];
            if (o.kind == "lists") run_lists(o, e[t][i], p, o.num(2) % 4);
            else if (o.kind == "nest") run_nest(o);
            else run_sentence(o);
        }
    });
    if (n == 0) return;
    rt::run_threads(std::move(bodies), s.switches, true, 32768, 800000000ULL);
}

void generate(rt::prng& r, scenario& s, oracle& orc, bool thorough) {
    random_heap(r, s);
    auto n = r.chance(1, 6) ? 2 : 1;
    s.threads.resize(static_cast<std::size_t>(n));
    for (auto&& t : s.threads) for (auto k = r.range(2, thorough ? 8 : 5); k > 0; --k) {
        if (r.chance(1, 4)) {
            op o { "sentence", { r.range(0, 100), r.range(0, 10) }, {} };
            for (auto&& x : random_tokens(r, static_cast<std::size_t>(r.range(2, 60)))) o.s.push_back(x.text);
            t.push_back(std::move(o));
            continue;
        }
        if (r.chance(1, 4)) {
            op o { "nest", { r.range(0, 6), static_cast<long>(r.below(std::size(places))) }, {} };
            for (auto j = r.range(1, 4); j > 0; --j) o.n.push_back(static_cast<long>(r.below(std::size(contexts))));
            t.push_back(std::move(o));
            continue;
        }
        op o { "lists", { r.chance(1, 2) ? 0 : r.range(0, 4), r.chance(1, 2) ? 0 : r.range(0, 4), r.range(0, 3), r.chance(2, 3) ? 1 : r.range(2, 4) }, {} };
        std::vector<kind> used { kind::statement };
        std::vector<long> sizes { o.n[3] };
        for (long j = 0; j < o.n[3]; ++j) {
            auto x = r.below(templates().size());
            auto c = r.chance(1, 10) ? r.range(30, 120) : r.range(1, 8);
            o.n.push_back(static_cast<long>(x)); o.n.push_back(c);
            used.push_back(templates()[x].k); sizes.push_back(c);
        }
        for (auto j = r.range(0, 3); j > 0; --j) {
            if (r.chance(2, 3)) { auto u = r.below(used.size()); o.n.push_back(static_cast<long>(used[u])); o.n.push_back(std::max(0L, sizes[u] + r.range(-2, 1))); }
            else { o.n.push_back(static_cast<long>(r.below(element_kinds))); o.n.push_back(r.range(0, 4)); }
        }
        // one limit per kind
        auto at = 4 + 2 * static_cast<std::size_t>(o.n[3]);
        std::map<long, bool> seen {};
        for (std::size_t i = at; i + 1 < o.n.size();) { if (seen[o.n[i]]) o.n.erase(o.n.begin() + static_cast<std::ptrdiff_t>(i), o.n.begin() + static_cast<std::ptrdiff_t>(i) + 2); else { seen[o.n[i]] = true; i += 2; } }
        t.push_back(std::move(o));
    }
    if (n > 1) {
        // only steps of the listed operations are known
        for (std::size_t t = 0; t < s.threads.size(); ++t) { u64 total = 0; for (auto&& o : s.threads[t]) total += o.kind == "lists" ? orc.solo(id, o).steps : 30000; for (auto k = r.range(1, 8); k > 0; --k) s.switches.push_back({ static_cast<int>(t), 1 + r.below(total + 1), static_cast<int>(r.below(2)) }); }
    }
}
bool needs(op const& o) { return o.kind == "lists"; }

property const p { id, "", generate, execute, solo, needs, 2500, 250000,
    "A run is a history of 2 to 8 parses with one parser whose limits are changed before each (by assignment, by moving the options, by moving the parser), sometimes two such histories interleaved; texts have lists of known sizes for all 20 kinds of elements, and nested expressions from 59 contexts in 13 places; limits are one below, at, and one above what is needed; random sentences of the whole grammar must have exactly the size which their tree has by an independent walk.", true, true };
registrar const reg { &p };

} // namespace
} // namespace sim
