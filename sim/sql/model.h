// Reference model of SQL: statements are made from a string of choices, together with what they mean.
// The meaning is a closure over the rows of the tables; it shares the operations on single values with the executor, and nothing else.
#pragma once
#include "../ascii.h"
#include "engine.h"

#include <functional>

namespace sim::sql {

/// decisions: one character each; the simplest alternative (0) when the string ends
class choices {
public:
    explicit choices(std::string s) : s_ { std::move(s) } {}
    std::size_t pick(std::size_t n) {
        if (n <= 1 || at_ >= s_.size()) return 0;
        auto c = static_cast<unsigned char>(s_[at_++]);
        return (c < 33 ? 0U : c - 33U) % n;
    }
    /// true in (about) one of n cases; false if the string ends
    bool one_in(std::size_t n) { return pick(n) == n - 1 && n > 1; }
    [[nodiscard]] bool ended() const { return at_ >= s_.size(); }
private:
    std::string s_;
    std::size_t at_ { 0 };
};
std::string random_choices(rt::prng& r, std::size_t n);

/// classes of types
enum class tclass : std::uint8_t { i4, i8, dec, f8, str, bo, da, ti, tp, oct, tz, last };
vtype type_of(tclass c);
bool ordinary(table_def const& t);
tclass class_of(vtype const& t);
/// i4 and i8 are the same family
bool compatible(tclass a, tclass b);
value random_value(choices& c, tclass t, bool null = true);

/// how identifiers are written
struct style {
    bool lowercase { true };            // regular identifiers are folded
    bool fancy { true };                // delimited or mixed case at random
    bool small_integers { false };
    bool context_null { false };
};
std::string identifier(choices& c, style const& s, std::string const& name);
std::string literal(choices& c, style const& s, value const& v, vtype const& t);
std::string type_name(choices& c, vtype const& t);

struct ctx {
    row const* r { nullptr };
    std::size_t base { 0 };
    std::vector<row> const* group { nullptr };
    ctx const* outer { nullptr };
};
using eval_fn = std::function<value(ctx const&)>;
struct ex {
    std::string text {};
    int prec { 9 };                     // 1 OR, 2 AND, 3 NOT, 4 IS, 5 predicates, 6 + - ||, 7 * / %, 8 unary, 9 primary
    vtype type {};
    bool exact { false };               // the type is known exactly
    bool constant { false };            // a literal
    std::string name {};                // of a column
    eval_fn eval {};
};

struct out_column { std::string name {}; vtype type {}; bool exact { false }; };
struct answer {
    std::vector<row> rows {};
    std::vector<row> keys {};           // sort keys, if ordered
    std::vector<bool> desc {};
    long limit { -1 };
    bool ordered { false };
};
struct query {
    std::string text {};
    int prec { 3 };                     // 0 with, 1 union or except, 2 intersect, 3 others
    bool tail { false };                // ends with ORDER BY or LIMIT
    std::vector<out_column> columns {};
    std::function<answer(ctx const*)> run {};
    /// the rows after ORDER BY and LIMIT, if that is well-defined
    std::function<std::vector<row>(ctx const*)> rows {};
};

struct source_column { out_column c {}; std::size_t slot { 0 }; bool visible { true }; std::vector<std::size_t> merged {}; };
struct source_relation { std::string name {}; std::string schema {}; std::vector<source_column> columns {}; };
struct cte { std::string name; std::vector<out_column> columns; std::function<std::vector<row>()> rows; };
struct scope {
    std::vector<source_relation> relations {};
    std::size_t from { 0 };             // relations which can be referred to: [from, to)
    std::size_t to { 0 };
    std::size_t width { 0 };            // slots in use
    bool grouped { false };
    std::vector<std::size_t> keys {};   // slots which can be used when grouped
    scope* outer { nullptr };
};

/// what statements are made about
struct vocabulary {
    database* db { nullptr };
    style st {};
    std::vector<std::pair<std::string, vtype>> host {};          // host variables, values in database::variables
    std::vector<std::pair<std::string, vtype>> globals {};       // variables of the catalog
    int path { 0 };                                              // as in make_options
    bool sequence_cycle { false };                               // option of the analyzer
    bool ordinary { false };                                     // only tables whose columns have types which expressions are made of
};

/// one error, made in a valid statement: marked by the characters 1 and 2 in its text
struct mistake {
    int family { 0 };                   // 0 an expression, 1 a table, 2 a list, a number of columns or another part
    std::size_t countdown { 0 };        // places to pass
    std::string what {};                // what was made, if it was
    std::vector<std::string> codes {};  // possible answers
    bool around { false };              // a region around the error is fine, too
};

class maker {
public:
    maker(choices& c, vocabulary const& v) : c_ { c }, v_ { v } {}
    query make_query(std::size_t depth);
    query make_query(std::size_t depth, scope* outer, std::vector<tclass> const* want, bool top);
    ex expression(tclass t, std::size_t depth, scope* s);
    ex subquery(tclass t, std::size_t depth, scope* s);
    ex condition(std::size_t depth, scope* s);
    std::string paren(ex const& e, int prec);
    std::string ident(std::string const& n) { return identifier(c_, v_.st, n); }
    /// table as seen from a name in the text
    struct found_table { int schema; std::string name; std::string text; };
    found_table pick_table();
    scope relation_scope(found_table const& t, std::string const& correlation);
    bool no_subquery { false };
    bool no_aggregate { true };
    mistake* error { nullptr };
    char clause { 'n' };                // w WHERE, o ON, v VALUES, s SET, d WHERE of a change, a argument of an aggregate, p argument of APPLY, n others
    bool err(int family) { return error != nullptr && error->what.empty() && error->family == family && error->countdown-- == 0; }
    std::string made(std::string const& what, std::string const& text, std::vector<std::string> codes, bool around = false);
private:
    choices& c_;
    vocabulary const& v_;
    std::vector<cte> ctes_ {};
    std::size_t subqueries_ { 0 };

    using from_fn = std::function<std::vector<row>(ctx const&)>;
    struct from_node { std::string text {}; from_fn run {}; std::size_t base { 0 }, end { 0 }, first { 0 }, last { 0 }; bool joined { false }; };
    from_node table_primary(scope& s, std::size_t depth);
    from_node reference(scope& s, std::size_t depth);
    query select(std::size_t depth, scope* outer, std::vector<tclass> const* want, bool top, bool nested_limit);
    query body(std::size_t depth, scope* outer, std::vector<tclass> const* want, bool top);
    query operand(query q, int prec);
    std::string correlation(scope& s, std::string const& preferred);
    struct candidate { std::size_t up; source_column const* column; std::string text; bool exact; };
    std::vector<candidate> candidates(scope* s, tclass t, bool same_class);
    std::vector<std::string> renderings(scope* s, std::size_t up, source_relation const& r, source_column const& c);
    bool column(tclass t, scope* s, ex& out, bool same_class = false);
    ex constant(tclass t);
    ex wrong(tclass t, scope* s);
    std::string wrong_table();
    ex boolean_expression(std::size_t depth, scope* s);
    ex aggregate(tclass t, std::size_t depth, scope* s);
    bool ambiguous_with_variable(std::string const& name) const;
};

/// compares the result of a plan with what it should be; "" or what is wrong
std::string compare_answer(answer const& expected, std::vector<out_column> const& columns, outcome const& actual);

} // namespace sim::sql
