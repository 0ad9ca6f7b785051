// A11: what a diagnostic of the parser says may follow, may follow.
#include "common.h"

#include <algorithm>
#include <map>
#include <set>

namespace sim {
namespace {

constexpr char const* id = "A11";

/// names of tokens in messages and a text of each; a frozen copy
std::vector<std::pair<std::string, std::string>> const& samples() {
    static char const* const words[] {
    "-", "_", "ABS", "ASYMMETRIC", "AVG", "BETWEEN", "CARDINALITY", "CEIL", "CHAR_LENGTH", "CHARACTER_LENGTH", "COALESCE", "CONVERT", "COUNT", "EXISTS", "EXTRACT",
    "FLOOR", "GENERATED", "LENGTH", "LOWER", "MAX", "MIN", "MOD", "NULLIF", "OCTET_LENGTH", "OVERLAPS", "OVERLAY", "POSITION", "RESTART", "SIMILAR", "SUBLIST",
    "SUBSTRING", "SUM", "SYMMETRIC", "TRANSLATE", "TRIM", "UPPER", "ABSOLUTE", "ACTION", "ADD", "ADMIN", "AFTER", "ALIAS", "ALL", "ALTER", "AND", "ANY", "ARE", "ARRAY",
    "AS", "ASC", "ASSERTION", "AT", "AUTHORIZATION", "BEFORE", "BEGIN", "BINARY", "BLOB", "BOOLEAN", "BOTH", "BY", "CALL", "CASCADE", "CASCADED", "CASE", "CAST", "CHAR",
    "CHARACTER", "CHECK", "CLASS", "CLOB", "CLOSE", "COLLATE", "COLUMN", "COMMIT", "CONNECT", "CONSTRAINT", "CONSTRAINTS", "CONTINUE", "CORRESPONDING", "CREATE",
    "CROSS", "CUBE", "CURRENT", "CURRENT_DATE", "CURRENT_PATH", "CURRENT_ROLE", "CURRENT_TIME", "CURRENT_TIMESTAMP", "CURRENT_USER", "CURSOR", "CYCLE", "DATE", "DAY",
    "DEALLOCATE", "DEC", "DECIMAL", "DECLARE", "DEFAULT", "DELETE", "DEREF", "DESC", "DESCRIBE", "DETERMINISTIC", "DISCONNECT", "DISTINCT", "DOUBLE", "DROP", "DYNAMIC",
    "EACH", "ELSE", "END", "END-EXEC", "ESCAPE", "EVERY", "EXCEPT", "EXEC", "EXECUTE", "EXTERNAL", "FALSE", "FETCH", "FIRST", "FLOAT", "FOR", "FOREIGN", "FROM", "FULL",
    "FUNCTION", "GET", "GLOBAL", "GRANT", "GROUP", "GROUPING", "HAVING", "HOUR", "IDENTITY", "IGNORE", "IN", "INDICATOR", "INNER", "INOUT", "INSERT", "INT", "INTEGER",
    "INTERSECT", "INTERVAL", "INTO", "IS", "JOIN", "KEY", "LANGUAGE", "LARGE", "LAST", "LATERAL", "LEADING", "LEFT", "LIKE", "LIMIT", "LOCAL", "LOCALTIME",
    "LOCALTIMESTAMP", "MATCH", "MINUTE", "MODIFIES", "MODULE", "MONTH", "NATIONAL", "NATURAL", "NCHAR", "NCLOB", "NEW", "NEXT", "NO", "NONE", "NOT", "NULL", "NUMERIC",
    "OBJECT", "OF", "OLD", "ON", "ONLY", "OPEN", "OR", "ORDER", "ORDINALITY", "OUT", "OUTER", "PARAMETER", "PRECISION", "PREPARE", "PRIMARY", "PRIVILEGES", "PROCEDURE",
    "PUBLIC", "REAL", "RECURSIVE", "REF", "REFERENCES", "REFERENCING", "RESTRICT", "RENAME", "RESULT", "RETURN", "RETURNS", "REVOKE", "RIGHT", "ROLE", "ROLLBACK",
    "ROLLUP", "ROW", "ROWS", "SAVEPOINT", "SCHEMA", "SCOPE", "SEARCH", "SECOND", "SELECT", "SEQUENCE", "SESSION_USER", "SET", "SMALLINT", "SOME", "SPECIFIC", "SQL",
    "SQLEXCEPTION", "SQLSTATE", "SQLWARNING", "START", "STATIC", "SYSTEM_USER", "TABLE", "TEMPORARY", "THEN", "TIME", "TIMESTAMP", "TIMEZONE_HOUR", "TIMEZONE_MINUTE",
    "TO", "TRAILING", "TRANSLATION", "TREAT", "TRIGGER", "TRUE", "UNION", "UNIQUE", "UNKNOWN", "UNNEST", "UPDATE", "USER", "USING", "VALUE", "VALUES", "VARCHAR",
    "VARYING", "VIEW", "WHEN", "WHENEVER", "WHERE", "WITH", "WITHOUT", "YEAR", "ZONE", "ALWAYS", "MAXVALUE", "MINVALUE", "INCREMENT", "TRUNCATE", "IF", "INDEX",
    "INCLUDE", "NULLS", "REPLACE", "OWNED", "PLACING", "VARBINARY", "TINYINT", "BIGINT", "BIT_AND", "BIT_OR", "BOOL_AND", "BOOL_OR", "APPLY",
    };
    static std::vector<std::pair<std::string, std::string>> const list = [] {
        std::vector<std::pair<std::string, std::string>> r {
            { "<identifier>", "x1" }, { "<delimited-identifier>", "\"X 1\"" }, { "<unsigned-integer>", "17" }, { "<exact-numeric-literal>", "1.5" },
            { "<approximate-numeric-literal>", "1E5" }, { "<character-string-literal>", "'s'" }, { "<hex-string-literal>", "X'00'" },
            { "<host-parameter-name>", ":p" }, { "<END_OF_FILE>", "" }, { ". *", ".*" }, { "UNION JOIN", "UNION JOIN" }, { "OUTER APPLY", "OUTER APPLY" },
        };
        for (auto* s : { "%", "&", "(", ")", "*", "+", ",", "-", ".", "/", ":", ";", "<", "=", ">", "?", "[", "]", "^", "|", "{", "}", "<>", "!=", ">=", "<=", "||", "->", "::", "<@", "@>", "&&" }) r.emplace_back(s, s);
        for (auto* s : words) r.emplace_back(s, s);
        return r;
    }();
    return list;
}
/// words which are identifiers where one is expected, and are not mentioned there
std::set<std::string> const contextual { "ASC", "CONTINUE", "DESC", "KEY", "IGNORE", "SCHEMA", "SEQUENCE", "RESTART", "RESTRICT", "RENAME", "FIRST", "LAST", "ORDINALITY", "VALUE" };

struct listed { bool present, more; std::vector<std::string> names; std::string problem; };
listed read_list(std::string const& message) {
    listed r {};
    std::string const head = "expected one of {";
    auto at = message.rfind(head);
    if (at == std::string::npos) return r;
    if (message.back() != '}') { r.problem = "the list of expected tokens does not end"; return r; }
    r.present = true;
    auto text = message.substr(at + head.size(), message.size() - 1 - at - head.size());
    std::size_t i = 0;
    while (i < text.size()) {
        if (text.compare(i, std::string::npos, "...") == 0) { r.more = true; return r; }
        std::string best {};
        for (auto&& [n, s] : samples()) {
            if (n.size() < best.size() || text.compare(i, n.size(), n) != 0) continue;
            if (i + n.size() == text.size() || text.compare(i + n.size(), 2, ", ") == 0) best = n;
        }
        if (best.empty()) { r.problem = "an unknown token is expected: " + text.substr(i, 40); return r; }
        r.names.push_back(best);
        i += best.size() + 2;
    }
    return r;
}

std::optional<parser::sql_parser_result> parse(std::string const& text, long max) {
    auto q = make_parse(text, { 0, 0, max, 1 });
    auto doc = make_document(q);
    auto p = make_parser(q);
    rt::armed a {};
    return p(doc);
}
bool faulty(parser::sql_parser_result const& r) {
    return r.has_diagnostic() && (r.diagnostic().code() == parser::sql_parser_code::unexpected_token || r.diagnostic().code() == parser::sql_parser_code::unexpected_eof);
}
/// whether a token can follow a text: the parser gets beyond it; nothing if another mistake hides that
std::optional<bool> follows(std::string const& before, std::string const& token) {
    auto r = parse(token.empty() ? before : before + " " + token + " $", 0);
    if (r->has_value()) return true;
    if (token.empty()) return faulty(*r) ? std::optional<bool> { false } : std::nullopt;
    ast::node_region g { r->diagnostic().region() };
    if (g.begin > before.size() + token.size()) return true; // NOTE: usually about the last character
    return faulty(*r) ? std::optional<bool> { false } : std::nullopt;
}

/// "expect": s = { text }, n = { expected candidates, whether the parser is new, seed of probes, number of probes or 0 for every token }
void solo(op const& o) {
    rt::run_single([&] { (void) parse(o.str(0), o.num(0)); }, 65536);
    rt::output("done");
}

void execute(scenario const& s, expectations const&) {
    apply_environment(s);
    rt::run_single([&] {
        std::optional<parser::sql_parser> p {};
        int i = 0;
        for (auto&& o : s.threads[0]) {
            auto&& text = o.str(0);
            auto q = make_parse(text, { 0, 0, o.num(0), 1 });
            if (!p || o.num(1) != 0) p.emplace(make_parser(q));
            else configure(p->options(), q);
            auto doc = make_document(q);
            rt::alloc_fault af {};
            if (auto* f = s.fault_of(0, i, "alloc")) { af.at = f->at; af.len = f->len; }
            ++i;
            std::optional<parser::sql_parser_result> r {};
            rt::set_alloc_fault(af);
            {
                rt::armed a {};
                try { r.emplace((*p)(doc)); } catch (std::bad_alloc const&) {}
            }
            rt::set_alloc_fault({});
            if (!r) { rt::count(c_threw); continue; }
            rt::count(r->has_value() ? c_parse_ok : c_parse_diag);
            if (af.at >= 0) continue; // NOTE: output streams swallow failing allocations, so messages may be cut
            if (!faulty(*r)) continue;
            ast::node_region g { r->diagnostic().region() };
            std::string before = text.substr(0, g.begin);
            auto message = r->diagnostic().message();
            auto where = "\n  message: " + escape(message, 400) + "\n  text: " + escape(text, 1000);
            auto max = static_cast<std::size_t>(o.num(0));
            auto said = read_list(message);
            if (!said.problem.empty()) fail("expected-tokens", said.problem + where);
            if (said.present != (max > 0)) fail("expected-tokens", std::string { "expected tokens are " } + (said.present ? "" : "not ") + "listed though the limit is " + std::to_string(max) + where);
            if (r->diagnostic().code() == parser::sql_parser_code::unexpected_token && message.find("\"" + text.substr(g.begin, g.end - g.begin) + "\"") == std::string::npos) fail("expected-tokens", "the message does not contain the token it is about" + where);
            // all of them
            auto x = parse(text, 100000);
            if (!faulty(*x) || ast::node_region { x->diagnostic().region() } != g || x->diagnostic().code() != r->diagnostic().code()) fail("expected-tokens", "another diagnostic if all expected tokens are to be listed: " + canon_absolute(*x) + where);
            auto all = read_list(x->diagnostic().message());
            where += "\n  all: " + escape(x->diagnostic().message(), 3000);
            if (!all.problem.empty() || !all.present || all.more) fail("expected-tokens", "not all expected tokens are listed; " + all.problem + where);
            std::set<std::string> names { all.names.begin(), all.names.end() };
            if (names.size() != all.names.size()) fail("expected-tokens", "a token is listed twice" + where);
            if (max > 0) {
                if (said.names.size() != std::min(max, names.size())) fail("expected-tokens", std::to_string(said.names.size()) + " tokens are listed; there are " + std::to_string(names.size()) + " and the limit is " + std::to_string(max) + where);
                if (said.more != (names.size() > max)) fail("expected-tokens", std::string { "the message says that there are " } + (said.more ? "" : "no ") + "more tokens" + where);
                std::set<std::string> some { said.names.begin(), said.names.end() };
                for (auto&& n : some) if (names.count(n) == 0) fail("expected-tokens", "a token is listed which is not expected: " + n + where);
                if (some.size() != said.names.size()) fail("expected-tokens", "a token is listed twice" + where);
            }
            // the listed ones can follow, others cannot
            rt::prng pr { static_cast<u64>(o.num(2)) };
            auto&& list = samples();
            bool each = o.num(3) == 0;
            for (long k = 0; k < (each ? static_cast<long>(list.size()) : o.num(3)); ++k) {
                auto&& [name, sample] = each ? list[static_cast<std::size_t>(k)] : k % 2 == 0 && !all.names.empty() ? *std::find_if(list.begin(), list.end(), [&, n = all.names[pr.below(all.names.size())]](auto&& z) { return z.first == n; }) : list[pr.below(list.size())];
                bool has = names.count(name) != 0;
                auto decided = follows(before, sample);
                if (!decided) continue;
                bool can = *decided;
                if (has && !can) fail("expected-tokens", "a token is listed which cannot follow: " + name + where);
                if (!has && can) {
                    bool identifier = names.count("<identifier>") != 0;
                    if (identifier && (name == "<delimited-identifier>" || contextual.count(name) != 0)) continue;
                    // words which are no tokens of their own are identifiers
                    if (identifier && sample.size() > 1 && ascii::alpha(static_cast<unsigned char>(sample[0])) && follows("SELECT", sample).value_or(false) && follows("CREATE TABLE", sample).value_or(false)) continue;
                    fail("expected-tokens", "a token which can follow is not listed: " + name + where);
                }
                rt::count(c_compared);
            }
        }
    }, 65536);
    rt::check_heap();
}

void generate(rt::prng& r, scenario& s, oracle&, bool thorough) {
    random_heap(r, s);
    if (r.chance(1, 4)) s.cfg["locale"] = 1;
    s.threads.resize(1);
    auto&& list = samples();
    for (auto k = r.range(1, thorough ? 6 : 4); k > 0; --k) {
        bool each = r.chance(1, 4);
        auto t = random_tokens(r, static_cast<std::size_t>(each ? r.range(2, 24) : r.range(2, 70)));
        if (t.empty()) continue;
        // the text is cut, and goes on in another way
        t.resize(r.below(t.size() + 1));
        if (each && t.size() > 16) each = false;
        auto text = render(t, r.chance(1, 3) ? spacing::wild : spacing::single, r).text;
        for (auto n = r.range(0, 3); n > 0; --n) text += (text.empty() ? "" : " ") + list[r.below(list.size())].second;
        op o { "expect", { r.chance(1, 2) ? r.range(0, 12) : r.chance(1, 2) ? r.range(13, 300) : 5, r.chance(1, 3) ? 1 : 0, static_cast<long>(r.below(1000000)), each ? 0 : thorough ? 60 : 24 }, { text } };
        if (r.chance(1, 8)) {
            fault f { 0, static_cast<int>(s.threads[0].size()), "alloc", 0, 1, 0 };
            f.at = 10 + static_cast<long>(r.below(20 + t.size() * 3));
            f.len = r.chance(1, 3) ? 1000000 : static_cast<long>(r.range(1, 3));
            s.faults.push_back(f);
        }
        s.threads[0].push_back(std::move(o));
    }
}
bool needs(op const&) { return false; }

property const p { id, "", generate, execute, solo, needs, 4000, 200000,
    "A run parses 1 to 6 texts which begin like a random sentence of the whole grammar and go on with random tokens or end, by new and reused parsers with changing limits of the listed tokens under a random heap policy, 1 in 8 of them while allocations fail; each diagnostic about a token is compared with parses which probe which tokens can follow.", false, true };
registrar const reg { &p };

} // namespace
} // namespace sim
