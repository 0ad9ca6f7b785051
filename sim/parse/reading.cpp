#include "reading.h"

#include "reflect.inc"

#include <algorithm>
#include <cctype>
#include <cerrno>
#include <cstdlib>
#include <initializer_list>

namespace sim {

namespace {

using namespace ::mizugaki::ast;
using ::takatori::util::unsafe_downcast;

struct mismatch { std::string what; };

/// binding strength of what an expression is made of
enum : int { l_any = 0, l_or = 10, l_and = 20, l_not = 30, l_is = 40, l_predicate = 50, l_row = 55, l_add = 60, l_mul = 70, l_sign = 80, l_postfix = 90, l_primary = 100 };
enum : int { q_with = 0, q_union = 10, q_intersect = 20, q_primary = 30 };

struct word { std::string text {}, upper {}; std::size_t begin {}, end {}; int match { -1 }; bool quoted {}; };

class reader {
public:
    explicit reader(rendered const& r) : text_ { r.text } {
        std::vector<int> open {};
        auto add = [&](std::size_t b, std::size_t e) {
            word w {};
            w.text = r.text.substr(b, e - b);
            w.begin = b; w.end = e;
            w.quoted = w.text.find('\'') != std::string::npos || w.text[0] == '"';
            w.upper = w.text;
            if (!w.quoted) for (auto& c : w.upper) c = static_cast<char>(ascii::upper(static_cast<unsigned char>(c)));
            if (w.text == "(") open.push_back(static_cast<int>(s_.size()));
            if (w.text == ")" && !open.empty()) {
                w.match = open.back();
                s_[static_cast<std::size_t>(open.back())].match = static_cast<int>(s_.size());
                open.pop_back();
            }
            s_.push_back(w);
        };
        for (auto [b, e] : r.at) {
            // tokens which consist of several words
            bool quoted = r.text.substr(b, e - b).find_first_of("'\"") != std::string::npos;
            if (quoted) { add(b, e); continue; }
            while (b < e) {
                while (b < e && ascii::space(static_cast<unsigned char>(r.text[b])) != 0) ++b;
                auto x = b;
                while (x < e && ascii::space(static_cast<unsigned char>(r.text[x])) == 0) ++x;
                if (b < x) add(b, x);
                b = x;
            }
        }
        used_.assign(s_.size(), false);
    }

    void unit(compilation_unit const& u) {
        bool first = true;
        for (auto&& x : u.statements()) {
            if (!first) expect(";");
            first = false;
            if (!x) fail("a statement of the tree is missing");
            statement(*x);
        }
        (void) accept(";");   // after the last statement
        while (cur_ < s_.size()) {
            if (!paren(cur_)) fail("the tree says nothing about the rest of the text");
            ++cur_;
        }
        for (std::size_t i = 0; i < s_.size(); ++i) if (!used_[i] && s_[i].match >= 0 && used_[static_cast<std::size_t>(s_[i].match)]) { cur_ = i; fail("one parenthesis of a pair is not accounted for"); }
        for (auto&& p : places_) check(p);
    }

private:
    struct place_of { node_region region; std::size_t first, last; char const* type; };
    std::string const& text_;
    std::vector<word> s_ {};
    std::vector<bool> used_ {};
    std::vector<std::size_t> log_ {};
    std::vector<place_of> places_ {};
    std::size_t cur_ { 0 };

    [[noreturn]] void fail(std::string const& what) const {
        std::string near {};
        for (std::size_t i = cur_ > 6 ? cur_ - 6 : 0; i < s_.size() && i < cur_ + 6; ++i) { if (i == cur_) near += "<here> "; near += s_[i].text.substr(0, 40) + " "; }
        throw mismatch { what + "\n  near: " + near };
    }
    bool paren(std::size_t i) const { return s_[i].match >= 0; }

    // tokens
    void consume(std::size_t i) { used_[i] = true; log_.push_back(i); cur_ = i + 1; }
    /// the next token which is not a parenthesis
    std::size_t next() const { auto i = cur_; while (i < s_.size() && paren(i)) ++i; return i; }
    static bool one_of(std::string const& t, char const* alternatives) {
        std::string_view a { alternatives };
        while (true) {
            auto e = a.find('|');
            if (a == "||") return t == "||";
            if (a.substr(0, e) == t) return true;
            if (e == std::string_view::npos) return false;
            a.remove_prefix(e + 1);
        }
    }
    bool is(std::size_t i, char const* t) const { return i < s_.size() && !s_[i].quoted && one_of(s_[i].upper, t); }
    bool peek(char const* t) const { return is(next(), t); }
    bool peek(char const* t, char const* u) const { auto i = next(); return is(i, t) && is(i + 1, u); }
    bool here(std::initializer_list<char const*> list) const { auto i = cur_; for (auto x : list) if (!is(i++, x)) return false; return true; }
    void expect(char const* t) {
        auto i = next();
        if (!is(i, t)) fail(std::string { "the tree says `" } + t + "`");
        consume(i);
    }
    void expect(std::initializer_list<char const*> list) { for (auto x : list) expect(x); }
    bool accept(char const* t) { if (!peek(t)) return false; expect(t); return true; }
    bool accept(std::initializer_list<char const*> list) { if (!here(list)) return false; for (auto x : list) { (void) x; consume(cur_); } return true; }

    /// a parenthesis which belongs to what precedes it
    std::size_t open() {
        while (cur_ < s_.size() && s_[cur_].text == ")" && paren(cur_)) ++cur_;
        if (cur_ >= s_.size() || s_[cur_].text != "(") fail("the tree says `(`");
        auto r = cur_;
        consume(cur_);
        return r;
    }
    /// a part which parentheses enclose: they are the innermost ones which leave the rest of the part in between
    template<class F> void parenthesized(F const& body) {
        while (cur_ < s_.size() && s_[cur_].text == ")" && paren(cur_)) ++cur_;
        auto from = cur_, to = cur_;
        while (to < s_.size() && s_[to].text == "(") ++to;
        if (from == to) fail("the tree says `(`");
        auto used = used_;
        auto read = log_.size();
        auto places = places_.size();
        for (auto o = to; o-- > from;) {
            try {
                consume(o);
                body();
                close(o);
                return;
            } catch (mismatch const&) {
                if (o == from) throw;
                used_ = used;
                log_.resize(read);
                places_.erase(places_.begin() + static_cast<std::ptrdiff_t>(places), places_.end());
                cur_ = from;
            }
        }
    }
    void close(std::size_t o) {
        auto m = static_cast<std::size_t>(s_[o].match);
        while (cur_ < m && s_[cur_].text == ")") ++cur_;
        if (cur_ != m) fail("the tree says that the parenthesis ends here");
        consume(m);
    }

    // places
    struct mark { std::size_t n; };
    mark begin() const { return { log_.size() }; }
    void place(node_region g, mark m, char const* type) {
        if (log_.size() == m.n) { if (g && g.begin != g.end) throw mismatch { std::string { "the place of " } + type + ", which has no text, is not empty" }; return; }
        places_.push_back({ g, log_[m.n], log_.back(), type });
    }
    void nowhere(node_region g, char const* type) const { if (g) fail(std::string { "there is a place for " } + type + ", which the text does not state"); }
    template<class T> void words(common::regioned<T> const& x, std::initializer_list<char const*> list, char const* type) { auto m = begin(); expect(list); place(x.region(), m, type); }
    template<class T> void words(std::optional<common::regioned<T>> const& x, std::initializer_list<char const*> list, char const* type) { words(*x, list, type); }
    void flag(common::regioned<bool> const& x, std::initializer_list<char const*> list, char const* type) {
        if (x.value()) words(x, list, type);
        else nowhere(x.region(), type);
    }
    void check(place_of const& p) const {
        auto at = [](node_region x) { return x ? "[" + std::to_string(x.begin) + "," + std::to_string(x.end) + ")" : std::string { "undefined" }; };
        auto tell = [&] {
            auto e = s_[p.last].end - s_[p.first].begin;
            throw mismatch { std::string { "the place of " } + p.type + " is " + at(p.region) + (p.region ? " `" + text_.substr(p.region.begin, std::min<std::size_t>(p.region.end - p.region.begin, 200)) + "`" : std::string {}) + ", but its text is at [" + std::to_string(s_[p.first].begin) + "," + std::to_string(s_[p.last].end) + ") `" + text_.substr(s_[p.first].begin, std::min<std::size_t>(e, 200)) + "`" };
        };
        if (!p.region) tell();
        std::size_t i = 0;
        while (i < s_.size() && s_[i].begin < p.region.begin) ++i;
        if (i == s_.size() || s_[i].begin != p.region.begin) tell();
        auto j = i;
        while (j < s_.size() && s_[j].end < p.region.end) ++j;
        if (j == s_.size() || s_[j].end != p.region.end) tell();
        while (i < j && !used_[i]) ++i;
        while (j > i && !used_[j]) --j;
        if (i != p.first || j != p.last) tell();
    }
    /// is the text enclosed by parentheses which no other part of the tree needs?
    bool enclosed(mark m) const {
        auto first = log_[m.n], last = log_.back();
        for (auto k = first; k > 0; --k) {
            auto o = k - 1;
            if (s_[o].text != "(" || used_[o] || !paren(o)) return false;
            auto c = static_cast<std::size_t>(s_[o].match);
            if (c <= last) continue;
            bool only = true;
            for (auto x = last + 1; x < c; ++x) if (s_[x].text != ")") only = false;
            if (only) return true;
        }
        return false;
    }

    // values
    void chars_of(common::regioned<common::chars> const& x, char const* type) {
        auto m = begin();
        auto i = next();
        if (i >= s_.size() || s_[i].text != x.value()) fail("the tree says " + x.value());
        consume(i);
        place(x.region(), m, type);
    }
    void size_of(common::regioned<std::size_t> const& x, char const* type) {
        auto m = begin();
        auto i = next();
        if (i >= s_.size()) fail("the tree says a number");
        if (x.value() == static_cast<std::size_t>(-1) && s_[i].text == "*") {}
        else {
            errno = 0;
            char* end {};
            auto v = std::strtoull(s_[i].text.c_str(), &end, 10);
            // NOTE: the greatest value stands for `*`, so it is out of range as greater ones are
            bool in_range = errno == 0 && v != static_cast<unsigned long long>(-1);
            if (end == s_[i].text.c_str() || *end != 0 || (in_range ? v != x.value() : x.value() == static_cast<std::size_t>(-1))) fail("the tree says " + std::to_string(x.value()));
        }
        consume(i);
        place(x.region(), m, type);
    }

    // names
    void identifier(ast::name::simple const& n, bool host = false) {
        auto m = begin();
        auto i = next();
        if (i >= s_.size()) fail("the tree says the name " + n.identifier());
        auto&& t = s_[i].text;
        std::string want {};
        bool delimited = t[0] == '"' && !host;
        if (delimited) for (std::size_t k = 1; k + 1 < t.size(); ++k) { want += t[k]; if (t[k] == '"') ++k; }
        else want = t;
        if (n.identifier() != want) fail("the tree says the name " + n.identifier());
        if ((n.identifier_kind() == ast::name::identifier_kind::delimited) != delimited) fail("the tree is wrong about whether the name " + n.identifier() + " is delimited");
        consume(i);
        place(n.region(), m, "name::simple");
    }
    void name(ast::name::name const& n) {
        if (n.node_kind() == ast::name::kind::simple) { identifier(unsafe_downcast<ast::name::simple>(n)); return; }
        auto m = begin();
        auto&& q = unsafe_downcast<ast::name::qualified>(n);
        name(*q.qualifier());
        expect(".");
        identifier(*q.last());
        place(n.region(), m, "name::qualified");
    }
    template<class L> void names(L const& list) { bool first = true; for (auto&& x : list) { if (!first) expect(","); first = false; name(*x); } }
    template<class L> void column_names(L const& list) { if (list.empty()) return; auto o = open(); names(list); close(o); }

    // types
    void type(ast::type::type const& t) {
        using k = ast::type::kind;
        auto m = begin();
        auto optional_size = [&](auto const& x, char const* what) { if (x) { auto o = open(); size_of(*x, what); close(o); } };
        switch (t.node_kind()) {
            case k::character: case k::character_varying: {
                auto&& x = unsafe_downcast<ast::type::character_string>(t);
                auto n = begin();
                if (t.node_kind() == k::character) expect("CHARACTER|CHAR");
                else if (!accept("VARCHAR")) expect({ "CHARACTER|CHAR", "VARYING" });
                place(x.type_kind().region(), n, "type::character_string::type_kind");
                optional_size(x.length(), "type::character_string::length");
                break;
            }
            case k::octet: case k::octet_varying: {
                auto&& x = unsafe_downcast<ast::type::octet_string>(t);
                auto n = begin();
                if (t.node_kind() == k::octet) expect("BINARY");
                else if (!accept("VARBINARY")) expect({ "BINARY", "VARYING" });
                place(x.type_kind().region(), n, "type::octet_string::type_kind");
                optional_size(x.length(), "type::octet_string::length");
                break;
            }
            case k::numeric: case k::decimal: {
                auto&& x = unsafe_downcast<ast::type::decimal>(t);
                words(x.type_kind(), { t.node_kind() == k::numeric ? "NUMERIC" : "DECIMAL|DEC" }, "type::decimal::type_kind");
                if (x.precision()) {
                    auto o = open();
                    size_of(*x.precision(), "type::decimal::precision");
                    if (x.scale()) { expect(","); size_of(*x.scale(), "type::decimal::scale"); }
                    close(o);
                } else if (x.scale()) fail("the tree says a scale without a precision");
                break;
            }
            case k::binary_integer: case k::binary_float: {
                auto&& x = unsafe_downcast<ast::type::binary_numeric>(t);
                words(x.type_kind(), { t.node_kind() == k::binary_integer ? "INT|INTEGER" : "FLOAT" }, "type::binary_numeric::type_kind");
                if (!x.precision()) fail("the tree does not say the precision");
                optional_size(x.precision(), "type::binary_numeric::precision");
                break;
            }
            case k::time: case k::timestamp: {
                auto&& x = unsafe_downcast<ast::type::datetime>(t);
                words(x.type_kind(), { t.node_kind() == k::time ? "TIME" : "TIMESTAMP" }, "type::datetime::type_kind");
                if (x.has_time_zone()) words(x.has_time_zone(), { x.has_time_zone()->value() ? "WITH" : "WITHOUT", "TIME", "ZONE" }, "type::datetime::has_time_zone");
                break;
            }
            case k::integer: expect("INT|INTEGER"); break;
            case k::tiny_integer: expect("TINYINT"); break;
            case k::small_integer: expect("SMALLINT"); break;
            case k::big_integer: expect("BIGINT"); break;
            case k::float_: expect("FLOAT"); break;
            case k::real: expect("REAL"); break;
            case k::double_precision: expect("DOUBLE"); (void) (here({ "PRECISION" }) && accept("PRECISION")); break;
            case k::boolean: expect("BOOLEAN"); break;
            case k::date: expect("DATE"); break;
            case k::interval: expect("INTERVAL"); break;
            case k::binary_large_object: if (!accept("BLOB")) expect({ "BINARY", "LARGE", "OBJECT" }); break;
            case k::character_large_object: if (!accept("CLOB")) expect({ "CHARACTER|CHAR", "LARGE", "OBJECT" }); break;
            case k::row: {
                expect("ROW");
                auto o = open();
                bool first = true;
                for (auto&& x : unsafe_downcast<ast::type::row>(t).elements()) {
                    if (!first) expect(",");
                    first = false;
                    auto n = begin();
                    identifier(*x.name());
                    type(*x.type());
                    if (x.collation()) { expect("COLLATE"); name(*x.collation()); }
                    place(x.region(), n, "type::field_definition");
                }
                close(o);
                break;
            }
            case k::collection: {
                auto&& x = unsafe_downcast<ast::type::collection>(t);
                type(*x.element());
                (void) (here({ "ARRAY" }) && accept("ARRAY"));
                expect("[");
                if (x.length()) size_of(*x.length(), "type::collection::length");
                expect("]");
                break;
            }
            case k::user_defined: name(*unsafe_downcast<ast::type::user_defined>(t).name()); break;
            default: fail("the tree says a type of kind " + std::to_string(static_cast<int>(t.node_kind())));
        }
        place(t.region(), m, "type");
    }

    // literals
    int literal(ast::literal::literal const& v) {
        using k = ast::literal::kind;
        auto m = begin();
        int level = l_primary;
        switch (v.node_kind()) {
            case k::boolean: {
                auto b = unsafe_downcast<ast::literal::boolean>(v).value();
                expect(b == ast::literal::boolean_kind::true_ ? "TRUE" : b == ast::literal::boolean_kind::false_ ? "FALSE" : "UNKNOWN");
                break;
            }
            case k::exact_numeric: case k::approximate_numeric: {
                auto&& x = unsafe_downcast<ast::literal::numeric>(v);
                if (x.sign()) { level = l_sign; words(x.sign(), { x.sign()->value() == ast::literal::sign::plus ? "+" : "-" }, "literal::numeric::sign"); }
                auto i = next();
                bool approximate = i < s_.size() && s_[i].upper.find('E') != std::string::npos;
                if (approximate != (v.node_kind() == k::approximate_numeric)) fail("the tree is wrong about whether a number is exact");
                m = begin(); // the sign is not a part of the literal's place
                chars_of(x.unsigned_value(), "literal::numeric::value");
                break;
            }
            case k::character_string: case k::hex_string: {
                auto&& x = unsafe_downcast<ast::literal::string>(v);
                if (v.node_kind() == k::character_string) { nowhere(x.value_kind().region(), "literal::string::value_kind"); chars_of(x.value(), "literal::string::value"); }
                else {
                    auto i = next();
                    if (i >= s_.size() || ascii::upper(static_cast<unsigned char>(s_[i].text[0])) != 'X' || s_[i].text.substr(1) != x.value().value()) fail("the tree says X" + x.value().value());
                    auto b = s_[i].begin;
                    auto&& kr = x.value_kind().region();
                    auto&& vr = x.value().region();
                    if (kr.begin != b || kr.end != b + 1) fail("the place of the prefix of a string is wrong");
                    if (vr.begin != b + 1 || vr.end != s_[i].end) fail("the place of the value of a string is wrong");
                    consume(i);
                }
                for (auto&& c : x.concatenations()) chars_of(c, "literal::string::concatenations");
                break;
            }
            case k::date: case k::time: case k::time_with_time_zone: case k::timestamp: case k::timestamp_with_time_zone: {
                auto&& x = unsafe_downcast<ast::literal::datetime>(v);
                auto n = begin();
                bool tz = v.node_kind() == k::time_with_time_zone || v.node_kind() == k::timestamp_with_time_zone;
                expect(v.node_kind() == k::date ? "DATE" : v.node_kind() == k::time || v.node_kind() == k::time_with_time_zone ? "TIME" : "TIMESTAMP");
                if (tz) expect({ "WITH", "TIME", "ZONE" });
                else if (v.node_kind() != k::date) accept({ "WITHOUT", "TIME", "ZONE" });
                place(x.value_kind().region(), n, "literal::datetime::value_kind");
                chars_of(x.value(), "literal::datetime::value");
                break;
            }
            case k::interval: {
                auto&& x = unsafe_downcast<ast::literal::interval>(v);
                expect("INTERVAL");
                if (x.sign()) words(x.sign(), { x.sign()->value() == ast::literal::sign::plus ? "+" : "-" }, "literal::interval::sign");
                chars_of(x.value(), "literal::interval::value");
                break;
            }
            case k::null: expect("NULL"); break;
            case k::empty: expect({ "ARRAY", "[", "]" }); break;
            case k::default_: expect("DEFAULT"); break;
            default: fail("the tree says an unknown literal");
        }
        place(v.region(), m, "literal");
        return level;
    }

    // scalar expressions
    void expr(scalar::expression const& e, int least = l_or) {
        auto m = begin();
        auto level = read(e);
        if (log_.size() == m.n) fail("an expression without text");
        place(e.region(), m, "scalar::expression");
        if (level < least && !enclosed(m)) {
            std::string t {};
            for (auto k = m.n; k < log_.size(); ++k) t += s_[log_[k]].text + " ";
            fail("the tree takes `" + t.substr(0, 300) + "` together, which does not bind that strongly");
        }
    }
    template<class L> void exprs(L const& list, int least = l_or) { bool first = true; for (auto&& x : list) { if (!first) expect(","); first = false; expr(*x, least); } }
    template<class L> void arguments(L const& list) { auto o = open(); if (list.empty()) (void) 0; exprs(list, l_any); close(o); }
    static char const* symbol(scalar::comparison_operator o) {
        using k = scalar::comparison_operator;
        switch (o) {
            case k::equals: return "=";
            case k::not_equals: return "<>";
            case k::not_equals_alternative: return "!=";
            case k::less_than: return "<";
            case k::greater_than: return ">";
            case k::less_than_or_equals: return "<=";
            case k::greater_than_or_equals: return ">=";
            default: return "?";
        }
    }
    void subquery(query::expression const& q) { auto o = open(); query(q); close(o); }
    int read(scalar::expression const& e) {
        using k = scalar::kind;
        switch (e.node_kind()) {
            case k::literal_expression: {
                // a sign which was joined with its literal
                return literal(*unsafe_downcast<scalar::literal_expression>(e).value());
            }
            case k::variable_reference: name(*unsafe_downcast<scalar::variable_reference>(e).name()); return l_primary;
            case k::host_parameter_reference: identifier_of_host(*unsafe_downcast<scalar::host_parameter_reference>(e).name()); return l_primary;
            case k::placeholder_reference: {
                auto index = unsafe_downcast<scalar::placeholder_reference>(e).index();
                expect("?");
                std::size_t n = 0;
                for (std::size_t i = 0; i < cur_; ++i) if (s_[i].text == "?") ++n;
                if (index != n) fail("placeholder " + std::to_string(n) + " has the index " + std::to_string(index));
                return l_primary;
            }
            case k::field_reference: {
                auto&& x = unsafe_downcast<scalar::field_reference>(e);
                expr(*x.value(), l_primary);
                words(x.operator_kind(), { x.operator_kind() == scalar::reference_operator::period ? "." : "->" }, "scalar::field_reference::operator_kind");
                identifier(*x.name());
                return l_primary;
            }
            case k::case_expression: {
                auto&& x = unsafe_downcast<scalar::case_expression>(e);
                expect("CASE");
                if (x.operand()) expr(*x.operand());
                for (auto&& w : x.when_clauses()) {
                    auto m = begin();
                    expect("WHEN");
                    expr(*w.when());
                    expect("THEN");
                    expr(*w.result());
                    place(w.region(), m, "scalar::case_when_clause");
                }
                if (x.default_result()) { expect("ELSE"); expr(*x.default_result()); }
                expect("END");
                return l_primary;
            }
            case k::cast_expression: {
                auto&& x = unsafe_downcast<scalar::cast_expression>(e);
                if (x.operator_kind() == scalar::cast_operator::generalize) {
                    nowhere(x.operator_kind().region(), "scalar::cast_expression::operator_kind");
                    expr(*x.operand());
                    expect("AS");
                    type(*x.type());
                    return l_any + 1;   // in parentheses, or an argument
                }
                if (x.operator_kind() == scalar::cast_operator::treat || (peek("CAST") && x.operator_kind().region())) {
                    words(x.operator_kind(), { x.operator_kind() == scalar::cast_operator::treat ? "TREAT" : "CAST" }, "scalar::cast_expression::operator_kind");
                    auto o = open();
                    expr(*x.operand());
                    expect("AS");
                    type(*x.type());
                    close(o);
                    return l_primary;
                }
                expr(*x.operand(), l_primary);
                nowhere(x.operator_kind().region(), "scalar::cast_expression::operator_kind");
                expect("::");
                type(*x.type());
                return l_postfix;
            }
            case k::unary_expression: {
                using o = scalar::unary_operator;
                auto&& x = unsafe_downcast<scalar::unary_expression>(e);
                static char const* const t = "scalar::unary_expression::operator_kind";
                switch (*x.operator_kind()) {
                    case o::plus: case o::minus: words(x.operator_kind(), { *x.operator_kind() == o::plus ? "+" : "-" }, t); expr(*x.operand(), l_sign); return l_sign;
                    case o::not_: words(x.operator_kind(), { "NOT" }, t); expr(*x.operand(), l_not); return l_not;
                    case o::at_local: expr(*x.operand(), l_primary); words(x.operator_kind(), { "AT", "LOCAL" }, t); return l_postfix;
                    case o::reference_resolution: { words(x.operator_kind(), { "DEREF" }, t); auto p = open(); expr(*x.operand()); close(p); return l_primary; }
                    default: fail("the tree says an unknown operator");
                }
            }
            case k::binary_expression: {
                using o = scalar::binary_operator;
                auto&& x = unsafe_downcast<scalar::binary_expression>(e);
                auto infix = [&](std::initializer_list<char const*> w, int level, int left, int right) {
                    expr(*x.left(), left);
                    words(x.operator_kind(), w, "scalar::binary_expression::operator_kind");
                    expr(*x.right(), right);
                    return level;
                };
                switch (*x.operator_kind()) {
                    case o::or_: return infix({ "OR" }, l_or, l_or, l_or + 1);
                    case o::and_: return infix({ "AND" }, l_and, l_and, l_and + 1);
                    case o::is: return infix({ "IS" }, l_is, l_predicate, l_primary);
                    case o::is_not: return infix({ "IS", "NOT" }, l_is, l_predicate, l_primary);
                    case o::overlaps: return infix({ "OVERLAPS" }, l_predicate, l_row, l_row);
                    case o::contains: return infix({ "<@" }, l_predicate, l_row, l_row);
                    case o::is_contained_by: return infix({ "@>" }, l_predicate, l_row, l_row);
                    case o::have_elements_in_common: return infix({ "&&" }, l_predicate, l_row, l_row);
                    case o::plus: return infix({ "+" }, l_add, l_add, l_add + 1);
                    case o::minus: return infix({ "-" }, l_add, l_add, l_add + 1);
                    case o::concatenation: return infix({ "||" }, l_add, l_add, l_add + 1);
                    case o::asterisk: return infix({ "*" }, l_mul, l_mul, l_mul + 1);
                    case o::solidus: return infix({ "/" }, l_mul, l_mul, l_mul + 1);
                    case o::percent: return infix({ "%" }, l_mul, l_mul, l_mul + 1);
                    case o::at_time_zone: return infix({ "AT", "TIME", "ZONE" }, l_postfix, l_primary, l_sign);
                    case o::element_reference: expr(*x.left(), l_primary); words(x.operator_kind(), { "[" }, "scalar::binary_expression::operator_kind"); expr(*x.right()); expect("]"); return l_primary;
                    default: fail("the tree says an unknown operator");
                }
            }
            case k::extract_expression: {
                using f = scalar::extract_field_kind;
                auto&& x = unsafe_downcast<scalar::extract_expression>(e);
                static char const* const t = "scalar::extract_expression::field";
                expect("EXTRACT");
                auto o = open();
                auto&& field = x.field();
                switch (*field) {
                    case f::year: words(field, { "YEAR" }, t); break;
                    case f::month: words(field, { "MONTH" }, t); break;
                    case f::day: words(field, { "DAY" }, t); break;
                    case f::hour: words(field, { "HOUR" }, t); break;
                    case f::minute: words(field, { "MINUTE" }, t); break;
                    case f::second: words(field, { "SECOND" }, t); break;
                    case f::timezone_hour: words(field, { "TIMEZONE_HOUR" }, t); break;
                    case f::timezone_minute: words(field, { "TIMEZONE_MINUTE" }, t); break;
                    case f::date: words(field, { "DATE" }, t); break;
                    case f::year_to_month: words(field, { "YEAR", "TO", "MONTH" }, t); break;
                    case f::year_to_day: words(field, { "YEAR", "TO", "DAY" }, t); break;
                    case f::year_to_hour: words(field, { "YEAR", "TO", "HOUR" }, t); break;
                    case f::year_to_minute: words(field, { "YEAR", "TO", "MINUTE" }, t); break;
                    case f::year_to_second: words(field, { "YEAR", "TO", "SECOND" }, t); break;
                    default: fail("the tree says an unknown field");
                }
                if (x.subsecond_digits()) { auto p = open(); size_of(*x.subsecond_digits(), "scalar::extract_expression::subsecond_digits"); close(p); }
                expect("FROM");
                expr(*x.operand(), l_add);
                close(o);
                return l_primary;
            }
            case k::trim_expression: {
                auto&& x = unsafe_downcast<scalar::trim_expression>(e);
                expect("TRIM");
                auto o = open();
                if (auto&& s = x.specification()) words(s, { s->value() == scalar::trim_specification::leading ? "LEADING" : s->value() == scalar::trim_specification::trailing ? "TRAILING" : "BOTH" }, "scalar::trim_expression::specification");
                if (x.character()) expr(*x.character(), l_add);
                if (x.character() || x.specification()) expect("FROM"); else (void) accept({ "FROM" });
                expr(*x.source(), l_add);
                close(o);
                return l_primary;
            }
            case k::value_constructor: {
                auto&& x = unsafe_downcast<scalar::value_constructor>(e);
                static char const* const t = "scalar::value_constructor::operator_kind";
                if (x.operator_kind() == scalar::value_constructor_kind::array) {
                    words(x.operator_kind(), { "ARRAY" }, t);
                    expect("[");
                    exprs(x.elements());
                    expect("]");
                    return l_primary;
                }
                if (x.operator_kind().region()) {
                    words(x.operator_kind(), { "ROW" }, t);
                    auto o = open();
                    exprs(x.elements());
                    close(o);
                    return l_row;
                }
                if (x.elements().size() == 1) fail("the tree says a row of a single value");
                parenthesized([&] { exprs(x.elements()); });
                return l_primary;
            }
            case k::subquery: {
                auto&& x = unsafe_downcast<scalar::subquery>(e);
                if (x.context_kind() != scalar::expression_context_kind::scalar) fail("the tree says a subquery of rows");
                parenthesized([&] { query(*x.query()); });
                return l_primary;
            }
            case k::comparison_predicate: {
                auto&& x = unsafe_downcast<scalar::comparison_predicate>(e);
                expr(*x.left(), l_row);
                words(x.operator_kind(), { symbol(*x.operator_kind()) }, "scalar::comparison_predicate::operator_kind");
                expr(*x.right(), l_row);
                return l_predicate;
            }
            case k::quantified_comparison_predicate: {
                auto&& x = unsafe_downcast<scalar::quantified_comparison_predicate>(e);
                expr(*x.left(), l_row);
                words(x.operator_kind(), { symbol(*x.operator_kind()) }, "scalar::quantified_comparison_predicate::operator_kind");
                auto q = *x.quantifier();
                words(x.quantifier(), { q == scalar::quantifier::all ? "ALL" : q == scalar::quantifier::any ? "ANY" : "SOME" }, "scalar::quantified_comparison_predicate::quantifier");
                subquery(*x.right());
                return l_predicate;
            }
            case k::between_predicate: {
                auto&& x = unsafe_downcast<scalar::between_predicate>(e);
                expr(*x.target(), l_row);
                flag(x.is_not(), { "NOT" }, "scalar::between_predicate::is_not");
                expect("BETWEEN");
                if (auto&& o = x.operator_kind()) words(o, { o->value() == scalar::between_operator::symmetric ? "SYMMETRIC" : "ASYMMETRIC" }, "scalar::between_predicate::operator_kind");
                expr(*x.left(), l_row);
                expect("AND");
                expr(*x.right(), l_row);
                return l_predicate;
            }
            case k::in_predicate: {
                auto&& x = unsafe_downcast<scalar::in_predicate>(e);
                expr(*x.left(), l_row);
                flag(x.is_not(), { "NOT" }, "scalar::in_predicate::is_not");
                expect("IN");
                auto m = begin();
                auto o = open();
                auto&& r = *x.right();
                if (r.node_kind() == query::kind::table_value_constructor && !is(cur_, "VALUES")) {
                    exprs(unsafe_downcast<query::table_value_constructor>(r).elements());
                    close(o);
                    place(r.region(), m, "query::table_value_constructor");
                } else {
                    query(r);
                    close(o);
                }
                return l_predicate;
            }
            case k::pattern_match_predicate: {
                auto&& x = unsafe_downcast<scalar::pattern_match_predicate>(e);
                static char const* const t = "scalar::pattern_match_predicate::operator_kind";
                expr(*x.match_value(), l_row);
                flag(x.is_not(), { "NOT" }, "scalar::pattern_match_predicate::is_not");
                if (x.operator_kind() == scalar::pattern_match_operator::like) words(x.operator_kind(), { "LIKE" }, t); else words(x.operator_kind(), { "SIMILAR", "TO" }, t);
                expr(*x.pattern(), l_row);
                if (x.escape()) { expect("ESCAPE"); expr(*x.escape(), l_row); }
                return l_predicate;
            }
            case k::table_predicate: {
                auto&& x = unsafe_downcast<scalar::table_predicate>(e);
                words(x.operator_kind(), { x.operator_kind() == scalar::table_operator::exists ? "EXISTS" : "UNIQUE" }, "scalar::table_predicate::operator_kind");
                subquery(*x.operand());
                return l_predicate;
            }
            case k::function_invocation: {
                auto&& x = unsafe_downcast<scalar::function_invocation>(e);
                name(*x.name());
                arguments(x.arguments());
                return l_primary;
            }
            case k::builtin_function_invocation: builtin(unsafe_downcast<scalar::builtin_function_invocation>(e)); return l_primary;
            case k::builtin_set_function_invocation: {
                using f = scalar::builtin_set_function_kind;
                auto&& x = unsafe_downcast<scalar::builtin_set_function_invocation>(e);
                char const* n = "?";
                switch (*x.function()) {
                    case f::avg: n = "AVG"; break;
                    case f::max: n = "MAX"; break;
                    case f::min: n = "MIN"; break;
                    case f::sum: n = "SUM"; break;
                    case f::every: n = "EVERY"; break;
                    case f::count: n = "COUNT"; break;
                    case f::bit_and: n = "BIT_AND"; break;
                    case f::bit_or: n = "BIT_OR"; break;
                    case f::bool_and: n = "BOOL_AND"; break;
                    case f::bool_or: n = "BOOL_OR"; break;
                    default: break;
                }
                words(x.function(), { n }, "scalar::builtin_set_function_invocation::function");
                auto o = open();
                quantifier(x.quantifier(), "scalar::builtin_set_function_invocation::quantifier");
                if (x.arguments().empty()) expect("*"); else if (x.arguments().size() != 1) fail("the tree says several arguments"); else expr(*x.arguments()[0]);
                close(o);
                return l_primary;
            }
            case k::new_invocation: {
                auto&& x = unsafe_downcast<scalar::new_invocation>(e);
                expect("NEW");
                type(*x.type());
                arguments(x.arguments());
                return l_primary;
            }
            case k::method_invocation: {
                auto&& x = unsafe_downcast<scalar::method_invocation>(e);
                expr(*x.value(), l_primary);
                words(x.operator_kind(), { x.operator_kind() == scalar::reference_operator::period ? "." : "->" }, "scalar::method_invocation::operator_kind");
                identifier(*x.name());
                arguments(x.arguments());
                return l_primary;
            }
            case k::static_method_invocation: {
                auto&& x = unsafe_downcast<scalar::static_method_invocation>(e);
                type(*x.type());
                expect("::");
                identifier(*x.name());
                arguments(x.arguments());
                return l_primary;
            }
            case k::current_of_cursor: expect({ "CURRENT", "OF" }); name(*unsafe_downcast<scalar::current_of_cursor>(e).name()); return l_primary;
            default: fail("the tree says an unknown expression");
        }
    }
    void identifier_of_host(ast::name::simple const& n) { identifier(n, true); }
    void builtin(scalar::builtin_function_invocation const& x) {
        using f = scalar::builtin_function_kind;
        static char const* const t = "scalar::builtin_function_invocation::function";
        auto&& a = x.arguments();
        auto simple = [&](char const* n, std::size_t count) {
            words(x.function(), { n }, t);
            if (count != 0 && a.size() != count) fail("the tree says a wrong number of arguments");
            auto o = open();
            exprs(a);
            close(o);
        };
        auto needs = [&](std::size_t low, std::size_t high) { if (a.size() < low || a.size() > high) fail("the tree says a wrong number of arguments"); };
        auto with = [&](char const* n, std::initializer_list<char const*> separators, std::size_t low) {
            words(x.function(), { n }, t);
            needs(low, separators.size() + 1);
            auto o = open();
            auto s = separators.begin();
            for (std::size_t i = 0; i < a.size(); ++i) { if (i > 0) expect(*s++); expr(*a[i], l_add); }
            close(o);
        };
        auto precise = [&](char const* n) { words(x.function(), { n }, t); needs(0, 1); if (!a.empty()) { auto o = open(); expr(*a[0]); close(o); } };
        switch (*x.function()) {
            case f::position: with("POSITION", { "IN" }, 2); break;
            case f::length: simple("LENGTH", 0); break;
            case f::character_length: simple("CHAR_LENGTH|CHARACTER_LENGTH", 0); break;
            case f::octet_length: simple("OCTET_LENGTH", 0); break;
            case f::cardinality: simple("CARDINALITY", 0); break;
            case f::abs: simple("ABS", 0); break;
            case f::ceil: simple("CEIL", 0); break;
            case f::floor: simple("FLOOR", 0); break;
            case f::mod: simple("MOD", 0); break;
            case f::upper: simple("UPPER", 0); break;
            case f::lower: simple("LOWER", 0); break;
            case f::substring: with("SUBSTRING", { "FROM", "FOR" }, 2); break;
            case f::overlay: with("OVERLAY", { "PLACING", "FROM", "FOR" }, 3); break;
            case f::convert: case f::translate: with(*x.function() == f::convert ? "CONVERT" : "TRANSLATE", { "USING" }, 2); break;
            case f::current_date: words(x.function(), { "CURRENT_DATE" }, t); needs(0, 0); break;
            case f::current_time: precise("CURRENT_TIME"); break;
            case f::localtime: precise("LOCALTIME"); break;
            case f::current_timestamp: precise("CURRENT_TIMESTAMP"); break;
            case f::localtimestamp: precise("LOCALTIMESTAMP"); break;
            case f::nullif: simple("NULLIF", 2); break;
            case f::coalesce: simple("COALESCE", 0); break;
            case f::next_value_for: words(x.function(), { "NEXT", "VALUE", "FOR" }, t); needs(1, 1); expr(*a[0], l_primary); break;
            default: fail("the tree says an unknown function");
        }
    }
    void quantifier(std::optional<common::regioned<scalar::set_quantifier>> const& q, char const* type) { if (q) words(*q, { q->value() == scalar::set_quantifier::all ? "ALL" : "DISTINCT" }, type); }

    // queries
    void query(query::expression const& q, int least = q_with) {
        auto m = begin();
        int level = q_primary;
        using k = query::kind;
        switch (q.node_kind()) {
            case k::query: select(unsafe_downcast<query::query>(q)); break;
            case k::table_reference: expect("TABLE"); name(*unsafe_downcast<query::table_reference>(q).name()); break;
            case k::table_value_constructor: {
                expect("VALUES");
                bool first = true;
                for (auto&& e : unsafe_downcast<query::table_value_constructor>(q).elements()) {
                    if (!first) expect(",");
                    first = false;
                    auto n = begin();
                    if (e->node_kind() == scalar::kind::subquery) {
                        auto&& x = unsafe_downcast<scalar::subquery>(*e);
                        if (x.context_kind() != scalar::expression_context_kind::row) fail("the tree says a row which is a scalar subquery");
                        subquery(*x.query());
                    } else if (e->node_kind() == scalar::kind::value_constructor) {
                        auto&& x = unsafe_downcast<scalar::value_constructor>(*e);
                        if (x.operator_kind() != scalar::value_constructor_kind::row) fail("the tree says a row which is an array");
                        if (x.operator_kind().region()) words(x.operator_kind(), { "ROW" }, "scalar::value_constructor::operator_kind");
                        auto o = open();
                        exprs(x.elements());
                        close(o);
                    } else fail("the tree says a row which is no row");
                    place(e->region(), n, "row of VALUES");
                }
                break;
            }
            case k::binary_expression: {
                using o = query::binary_operator;
                auto&& x = unsafe_downcast<query::binary_expression>(q);
                bool intersect = x.operator_kind() == o::intersect;
                level = intersect ? q_intersect : q_union;
                query(*x.left(), level);
                static char const* const t = "query::binary_expression::operator_kind";
                switch (*x.operator_kind()) {
                    case o::union_: words(x.operator_kind(), { "UNION" }, t); break;
                    case o::outer_union: words(x.operator_kind(), { "OUTER", "UNION" }, t); break;
                    case o::except: words(x.operator_kind(), { "EXCEPT" }, t); break;
                    case o::intersect: words(x.operator_kind(), { "INTERSECT" }, t); break;
                    default: fail("the tree says an unknown operator");
                }
                quantifier(x.quantifier(), "query::binary_expression::quantifier");
                if (auto&& c = x.corresponding()) {
                    auto n = begin();
                    expect("CORRESPONDING");
                    if (!c->column_names().empty()) { expect("BY"); column_names(c->column_names()); }
                    place(c->region(), n, "query::corresponding_clause");
                }
                query(*x.right(), intersect ? q_primary : q_intersect);
                break;
            }
            case k::with_expression: {
                auto&& x = unsafe_downcast<query::with_expression>(q);
                level = q_with;
                expect("WITH");
                flag(x.is_recursive(), { "RECURSIVE" }, "query::with_expression::is_recursive");
                bool first = true;
                for (auto&& e : x.elements()) {
                    if (!first) expect(",");
                    first = false;
                    auto n = begin();
                    identifier(*e.name());
                    column_names(e.column_names());
                    expect("AS");
                    subquery(*e.expression());
                    place(e.region(), n, "query::with_element");
                }
                query(*x.expression(), q_union);
                break;
            }
            default: fail("the tree says an unknown query");
        }
        place(q.region(), m, "query::expression");
        if (level < least && !enclosed(m)) fail("the tree takes queries together which do not bind that strongly");
    }
    void select(query::query const& q) {
        expect("SELECT");
        quantifier(q.quantifier(), "query::query::quantifier");
        bool first = true;
        for (auto&& e : q.elements()) {
            if (!first) expect(",");
            first = false;
            auto m = begin();
            if (e->node_kind() == query::select_element_kind::asterisk) {
                auto&& x = unsafe_downcast<query::select_asterisk>(*e);
                if (x.qualifier()) { expr(*x.qualifier()); expect("."); }
                expect("*");
            } else {
                auto&& x = unsafe_downcast<query::select_column>(*e);
                expr(*x.value());
                if (x.name()) { (void) accept("AS"); identifier(*x.name()); }
            }
            place(e->region(), m, "query::select_element");
        }
        if (q.from().empty()) {
            if (q.where() || q.group_by() || q.having() || !q.order_by().empty() || q.limit()) fail("the tree says clauses without FROM");
            return;
        }
        expect("FROM");
        first = true;
        for (auto&& t : q.from()) { if (!first) expect(","); first = false; table(*t, true); }
        if (q.where()) { expect("WHERE"); expr(*q.where()); }
        if (auto&& g = q.group_by()) {
            auto m = begin();
            expect({ "GROUP", "BY" });
            if (g->elements().empty()) { auto o = open(); close(o); }
            first = true;
            for (auto&& e : g->elements()) {
                if (!first) expect(",");
                first = false;
                auto n = begin();
                auto&& c = unsafe_downcast<query::grouping_column>(*e);
                expr(*c.column());
                if (c.collation()) { expect("COLLATE"); name(*c.collation()); }
                place(e->region(), n, "query::grouping_column");
            }
            place(g->region(), m, "query::group_by_clause");
        }
        if (q.having()) { expect("HAVING"); expr(*q.having()); }
        if (!q.order_by().empty()) { expect({ "ORDER", "BY" }); sort_keys(q.order_by()); }
        if (q.limit()) { expect("LIMIT"); expr(*q.limit()); }
    }
    template<class L> void sort_keys(L const& list) {
        bool first = true;
        for (auto&& e : list) {
            if (!first) expect(",");
            first = false;
            auto m = begin();
            expr(*e.key());
            if (e.collation()) { expect("COLLATE"); name(*e.collation()); }
            if (auto&& d = e.direction()) words(d, { d->value() == common::ordering_specification::asc ? "ASC" : "DESC" }, "common::sort_element::direction");
            if (auto&& l = e.null_location()) words(l, { "NULLS", l->value() == common::null_ordering_specification::first ? "FIRST" : "LAST" }, "common::sort_element::null_location");
            place(e.region(), m, "common::sort_element");
        }
    }
    void correlation(table::correlation_clause const& c) {
        auto m = begin();
        (void) accept("AS");
        identifier(*c.correlation_name());
        column_names(c.column_names());
        place(c.region(), m, "table::correlation_clause");
    }
    template<class T> void correlation(std::optional<T> const& c) { if (c) correlation(*c); }
    void table(ast::table::expression const& t, bool joined) {
        using k = ast::table::kind;
        auto m = begin();
        bool primary = true;
        switch (t.node_kind()) {
            case k::table_reference: {
                auto&& x = unsafe_downcast<ast::table::table_reference>(t);
                flag(x.is_only(), { "ONLY" }, "table::table_reference::is_only");
                if (x.is_only().value()) { auto o = open(); name(*x.name()); close(o); } else name(*x.name());
                correlation(x.correlation());
                break;
            }
            case k::subquery: {
                auto&& x = unsafe_downcast<ast::table::subquery>(t);
                flag(x.is_lateral(), { "LATERAL" }, "table::subquery::is_lateral");
                if (x.is_lateral().value()) { auto o = open(); query(*x.expression()); close(o); }
                else parenthesized([&] { query(*x.expression()); });
                correlation(x.correlation());
                break;
            }
            case k::unnest: {
                auto&& x = unsafe_downcast<ast::table::unnest>(t);
                expect("UNNEST");
                auto o = open();
                expr(*x.expression());
                close(o);
                flag(x.with_ordinality(), { "WITH", "ORDINALITY" }, "table::unnest::with_ordinality");
                correlation(x.correlation());
                break;
            }
            case k::join: {
                using j = ast::table::join_type;
                auto&& x = unsafe_downcast<ast::table::join>(t);
                primary = false;
                table(*x.left(), true);
                auto n = begin();
                auto type = *x.operator_kind();
                bool natural = type == j::natural_inner || type == j::natural_left_outer || type == j::natural_right_outer || type == j::natural_full_outer;
                if (natural) expect("NATURAL");
                bool outer = true;
                switch (type) {
                    case j::cross: expect("CROSS"); outer = false; break;
                    case j::inner: case j::natural_inner: (void) accept("INNER"); outer = false; break;
                    case j::left_outer: case j::natural_left_outer: expect("LEFT"); break;
                    case j::right_outer: case j::natural_right_outer: expect("RIGHT"); break;
                    case j::full_outer: case j::natural_full_outer: expect("FULL"); break;
                    case j::union_: expect("UNION"); outer = false; break;
                    default: fail("the tree says an unknown join");
                }
                if (outer) (void) accept("OUTER");
                expect("JOIN");
                place(x.operator_kind().region(), n, "table::join::operator_kind");
                bool condition = type == j::inner || type == j::left_outer || type == j::right_outer || type == j::full_outer;
                table(*x.right(), condition);
                if (condition != static_cast<bool>(x.specification())) fail("the tree is wrong about whether there is a join condition");
                if (condition) {
                    auto s = begin();
                    if (x.specification()->node_kind() == ast::table::join_specification_kind::condition) { expect("ON"); expr(*unsafe_downcast<ast::table::join_condition>(*x.specification()).expression()); }
                    else { expect("USING"); column_names(unsafe_downcast<ast::table::join_columns>(*x.specification()).columns()); }
                    place(x.specification()->region(), s, "table::join_specification");
                }
                break;
            }
            case k::apply: {
                auto&& x = unsafe_downcast<ast::table::apply>(t);
                primary = false;
                table(*x.operand(), true);
                if (auto&& o = x.operator_kind()) words(o, { o->value() == ast::table::apply_type::cross ? "CROSS" : "OUTER" }, "table::apply::operator_kind");
                expect("APPLY");
                name(*x.name());
                arguments(x.arguments());
                correlation(x.correlation());
                break;
            }
            default: fail("the tree says an unknown table");
        }
        place(t.region(), m, "table::expression");
        if (!primary && !joined && !enclosed(m)) fail("the tree takes tables together which are not joined first");
    }
    // statements
    void description(node_region) const {}
    template<class L> void parameters(L const& list) {
        if (list.empty()) { (void) accept({ "WITH", "(", ")" }); return; }
        expect("WITH");
        auto o = open();
        bool first = true;
        for (auto&& e : list) {
            if (!first) expect(",");
            first = false;
            auto m = begin();
            name(*e.name());
            if (e.value()) { expect("="); expr(*e.value(), l_add); }
            place(e.region(), m, "statement::storage_parameter");
        }
        close(o);
    }
    template<class L> void include(L const& list) {
        if (list.empty()) { (void) accept({ "INCLUDE", "(", ")" }); return; }
        expect("INCLUDE");
        auto o = open();
        exprs(list, l_add);
        close(o);
    }
    template<class L, class E> typename L::value_type const* option(L const& list, E e) const {
        typename L::value_type const* r = nullptr;
        for (auto&& x : list) if (x.value() == e) { if (r != nullptr) fail("the tree says an option twice"); r = &x; }
        return r;
    }
    template<class L, class E> bool option(L const& list, E e, std::initializer_list<char const*> w, char const* type) {
        if (auto o = option(list, e)) { words(*o, w, type); ++options_; return true; }
        return false;
    }
    std::size_t options_ { 0 };
    struct sequence {
        scalar::expression const *initial, *increment, *min, *max;
        std::optional<common::regioned<bool>> cycle;
        ast::type::type const* type;
        ast::name::name const* owner;
    };
    void sequence_options(sequence q) {
        bool initial = false, increment = false, min = false, max = false, cycle = false, type_seen = false, owner = false;
        auto once = [&](bool& b) { if (b) fail("the tree is made of an option which is stated twice"); b = true; };
        auto value = [&](scalar::expression const* e) { if (e == nullptr) fail("the tree does not say the value"); expr(*e, l_add); };
        auto none = [&](scalar::expression const* e) { if (e != nullptr) fail("the tree says a value"); };
        for (;;) {
            if (peek("START")) { once(initial); expect("START"); (void) accept({ "WITH" }); value(q.initial); }
            else if (peek("INCREMENT")) { once(increment); expect("INCREMENT"); (void) accept({ "BY" }); value(q.increment); }
            else if (peek("MAXVALUE")) { once(max); expect("MAXVALUE"); value(q.max); }
            else if (peek("MINVALUE")) { once(min); expect("MINVALUE"); value(q.min); }
            else if (peek("NO", "MAXVALUE")) { once(max); expect({ "NO", "MAXVALUE" }); none(q.max); }
            else if (peek("NO", "MINVALUE")) { once(min); expect({ "NO", "MINVALUE" }); none(q.min); }
            else if (peek("CYCLE")) { once(cycle); if (!q.cycle || !q.cycle->value()) fail("the tree does not say CYCLE"); words(*q.cycle, { "CYCLE" }, "cycle"); }
            else if (peek("NO", "CYCLE")) { once(cycle); if (!q.cycle || q.cycle->value()) fail("the tree does not say NO CYCLE"); expect("NO"); words(*q.cycle, { "CYCLE" }, "cycle"); }
            else if (q.type != nullptr && !type_seen && peek("AS")) { once(type_seen); expect("AS"); type(*q.type); }
            else if (q.owner != nullptr && !owner && peek("OWNED")) { once(owner); expect({ "OWNED", "BY" }); name(*q.owner); }
            else break;
        }
        if ((q.initial != nullptr && !initial) || (q.increment != nullptr && !increment) || (q.min != nullptr && !min) || (q.max != nullptr && !max) || (q.cycle && !cycle) || (q.type != nullptr && !type_seen) || (q.owner != nullptr && !owner)) fail("the tree says an option of a sequence which the text does not state");
    }
    void action(common::regioned<statement::referential_action> const& a) {
        using k = statement::referential_action;
        static char const* const t = "statement::referential_constraint::action";
        switch (*a) {
            case k::cascade: words(a, { "CASCADE" }, t); break;
            case k::set_null: words(a, { "SET", "NULL" }, t); break;
            case k::set_default: words(a, { "SET", "DEFAULT" }, t); break;
            case k::restrict: words(a, { "RESTRICT" }, t); break;
            case k::no_action: words(a, { "NO", "ACTION" }, t); break;
            default: fail("the tree says an unknown action");
        }
    }
    void constraint(statement::constraint const& c, bool column) {
        using k = statement::constraint_kind;
        auto m = begin();
        auto kind = c.node_kind();
        switch (kind) {
            case k::null: words(unsafe_downcast<statement::simple_constraint>(c).constraint_kind(), { "NULL" }, "constraint_kind"); break;
            case k::not_null: words(unsafe_downcast<statement::simple_constraint>(c).constraint_kind(), { "NOT", "NULL" }, "constraint_kind"); break;
            case k::check: case k::generation_clause: {
                auto&& x = unsafe_downcast<statement::expression_constraint>(c);
                words(x.constraint_kind(), { kind == k::check ? "CHECK" : "GENERATED" }, "constraint_kind");
                if (kind == k::generation_clause) expect({ "ALWAYS", "AS" });
                auto o = open();
                expr(*x.expression(), l_add);
                close(o);
                break;
            }
            case k::default_clause: {
                auto&& x = unsafe_downcast<statement::expression_constraint>(c);
                words(x.constraint_kind(), { "DEFAULT" }, "constraint_kind");
                expr(*x.expression(), l_add);
                break;
            }
            case k::unique: case k::primary_key: {
                auto&& x = unsafe_downcast<statement::key_constraint>(c);
                if (kind == k::unique) words(x.constraint_kind(), { "UNIQUE" }, "constraint_kind"); else words(x.constraint_kind(), { "PRIMARY", "KEY" }, "constraint_kind");
                if (!column) { auto o = open(); sort_keys(x.key()); close(o); } else if (!x.key().empty()) fail("the tree says a key of several columns");
                include(x.values());
                parameters(x.parameters());
                break;
            }
            case k::referential: {
                auto&& x = unsafe_downcast<statement::referential_constraint>(c);
                if (!column) { expect({ "FOREIGN", "KEY" }); auto o = open(); names(x.columns()); close(o); } else if (!x.columns().empty()) fail("the tree says columns of a foreign key");
                expect("REFERENCES");
                name(*x.target());
                column_names(x.target_columns());
                bool update = false, remove = false;
                while (here({ "ON", "UPDATE|DELETE" })) {
                    bool u = is(cur_ + 1, "UPDATE");
                    auto&& a = u ? x.on_update() : x.on_delete();
                    if ((u ? update : remove) || !a) fail("the tree does not say the action");
                    (u ? update : remove) = true;
                    expect({ "ON", "UPDATE|DELETE" });
                    action(*a);
                }
                if ((x.on_update() && !update) || (x.on_delete() && !remove)) fail("the tree says an action which the text does not state");
                break;
            }
            case k::identity_column: {
                auto&& x = unsafe_downcast<statement::identity_constraint>(c);
                expect("GENERATED");
                static char const* const t = "statement::identity_constraint::generation";
                if (x.generation() == statement::identity_generation_type::always) words(x.generation(), { "ALWAYS" }, t); else words(x.generation(), { "BY", "DEFAULT" }, t);
                expect({ "AS", "IDENTITY" });
                bool list = here({ "(" });
                std::size_t o = 0;
                if (list) o = open();
                sequence q { x.initial_value().get(), x.increment_value().get(), x.min_value().get(), x.max_value().get(), {}, nullptr, nullptr };
                if (auto&& y = x.cycle()) q.cycle = *y;
                if (!list) { if (q.initial != nullptr || q.increment != nullptr || q.min != nullptr || q.max != nullptr || q.cycle) fail("the tree says options of a sequence"); }
                else { sequence_options(q); close(o); }
                break;
            }
            default: fail("the tree says an unknown constraint");
        }
        place(c.region(), m, "statement::constraint");
    }
    void statement(ast::statement::statement const& s) {
        using k = ast::statement::kind;
        namespace st = ast::statement;
        auto m = begin();
        auto start = options_;
        std::size_t stated = 0;
        auto where = [&](auto const& w) {
            if (!w) return;
            expect("WHERE");
            expr(*w);
        };
        auto alias = [&](auto const& a) { if (a) { (void) accept("AS"); identifier(*a); } };
        switch (s.node_kind()) {
            case k::select_statement: {
                auto&& x = unsafe_downcast<st::select_statement>(s);
                query(*x.expression());
                if (!x.targets().empty()) fail("the tree says targets");
                break;
            }
            case k::insert_statement: {
                auto&& x = unsafe_downcast<st::insert_statement>(s);
                stated = x.options().size();
                if (stated > 1) fail("the tree says several options");
                if (stated == 1) {
                    auto n = begin();
                    bool replace = x.options()[0].value() == st::insert_statement_option::or_replace;
                    if (replace && peek("UPDATE")) expect({ "UPDATE", "OR", "INSERT" });
                    else if (replace) expect({ "INSERT", "OR", "REPLACE" });
                    else if (peek("INSERT", "IF")) expect({ "INSERT", "IF", "NOT", "EXISTS" });
                    else expect({ "INSERT", "OR", "IGNORE" });
                    place(x.options()[0].region(), n, "statement::insert_statement::options");
                    ++options_;
                } else expect("INSERT");
                expect("INTO");
                name(*x.table_name());
                column_names(x.columns());
                if (x.expression()) query(*x.expression()); else expect({ "DEFAULT", "VALUES" });
                break;
            }
            case k::update_statement: {
                auto&& x = unsafe_downcast<st::update_statement>(s);
                expect("UPDATE");
                name(*x.table_name());
                alias(x.alias_name());
                expect("SET");
                bool first = true;
                for (auto&& e : x.elements()) {
                    if (!first) expect(",");
                    first = false;
                    auto n = begin();
                    name(*e.target());
                    expect("=");
                    expr(*e.value());
                    place(e.region(), n, "statement::set_element");
                }
                where(x.where());
                break;
            }
            case k::delete_statement: {
                auto&& x = unsafe_downcast<st::delete_statement>(s);
                expect({ "DELETE", "FROM" });
                name(*x.table_name());
                alias(x.alias_name());
                where(x.where());
                break;
            }
            case k::table_definition: {
                auto&& x = unsafe_downcast<st::table_definition>(s);
                stated = x.options().size();
                expect("CREATE");
                option(x.options(), st::table_definition_option::temporary, { "TEMPORARY" }, "statement::table_definition::options");
                expect("TABLE");
                option(x.options(), st::table_definition_option::if_not_exists, { "IF", "NOT", "EXISTS" }, "statement::table_definition::options");
                name(*x.name());
                auto o = open();
                bool first = true;
                for (auto&& e : x.elements()) {
                    if (!first) expect(",");
                    first = false;
                    auto n = begin();
                    if (e->node_kind() == st::table_element_kind::column_definition) {
                        auto&& c = unsafe_downcast<st::column_definition>(*e);
                        identifier(*c.name());
                        type(*c.type());
                        for (auto&& d : c.constraints()) {
                            auto p = begin();
                            if (d.name()) { expect("CONSTRAINT"); name(*d.name()); }
                            constraint(*d.body(), true);
                            place(d.region(), p, "statement::column_constraint_definition");
                        }
                    } else {
                        auto&& c = unsafe_downcast<st::table_constraint_definition>(*e);
                        if (c.name()) { expect("CONSTRAINT"); name(*c.name()); }
                        constraint(*c.body(), false);
                    }
                    place(e->region(), n, "statement::table_element");
                }
                close(o);
                parameters(x.parameters());
                break;
            }
            case k::index_definition: {
                auto&& x = unsafe_downcast<st::index_definition>(s);
                stated = x.options().size();
                expect("CREATE");
                option(x.options(), st::index_definition_option::unique, { "UNIQUE" }, "statement::index_definition::options");
                expect("INDEX");
                option(x.options(), st::index_definition_option::if_not_exists, { "IF", "NOT", "EXISTS" }, "statement::index_definition::options");
                if (x.name()) name(*x.name());
                expect("ON");
                name(*x.table_name());
                auto o = open();
                sort_keys(x.keys());
                close(o);
                include(x.values());
                parameters(x.parameters());
                where(x.predicate());
                break;
            }
            case k::view_definition: {
                auto&& x = unsafe_downcast<st::view_definition>(s);
                stated = x.options().size();
                expect("CREATE");
                static char const* const t = "statement::view_definition::options";
                if (option(x.options(), st::view_definition_option::or_replace) != nullptr) { expect("OR"); option(x.options(), st::view_definition_option::or_replace, { "REPLACE" }, t); }
                option(x.options(), st::view_definition_option::temporary, { "TEMPORARY" }, t);
                option(x.options(), st::view_definition_option::recursive, { "RECURSIVE" }, t);
                expect("VIEW");
                option(x.options(), st::view_definition_option::if_not_exists, { "IF", "NOT", "EXISTS" }, t);
                name(*x.name());
                column_names(x.columns());
                parameters(x.parameters());
                expect("AS");
                query(*x.query());
                break;
            }
            case k::sequence_definition: {
                auto&& x = unsafe_downcast<st::sequence_definition>(s);
                stated = x.options().size();
                static char const* const t = "statement::sequence_definition::options";
                expect("CREATE");
                option(x.options(), st::sequence_definition_option::temporary, { "TEMPORARY" }, t);
                expect("SEQUENCE");
                option(x.options(), st::sequence_definition_option::if_not_exists, { "IF", "NOT", "EXISTS" }, t);
                name(*x.name());
                sequence q { x.initial_value().get(), x.increment_value().get(), x.min_value().get(), x.max_value().get(), {}, x.type().get(), x.owner().get() };
                if (auto c = option(x.options(), st::sequence_definition_option::cycle)) { q.cycle.emplace(true, c->region()); ++options_; }
                if (auto c = option(x.options(), st::sequence_definition_option::no_cycle)) { if (q.cycle) fail("the tree says both CYCLE and NO CYCLE"); q.cycle.emplace(false, c->region()); ++options_; }
                sequence_options(q);
                break;
            }
            case k::schema_definition: {
                auto&& x = unsafe_downcast<st::schema_definition>(s);
                stated = x.options().size();
                expect({ "CREATE", "SCHEMA" });
                option(x.options(), st::schema_definition_option::if_not_exists, { "IF", "NOT", "EXISTS" }, "statement::schema_definition::options");
                if (x.name()) name(*x.name());
                if (x.user_name()) {
                    expect("AUTHORIZATION");
                    auto i = next();
                    if (is(i, "CURRENT_ROLE|CURRENT_USER|SESSION_USER")) {
                        auto n = begin();
                        std::string w = s_[i].upper;
                        for (auto& c : w) c = static_cast<char>(ascii::lower(static_cast<unsigned char>(c)));
                        if (x.user_name()->identifier() != w) fail("the tree says the user " + x.user_name()->identifier());
                        consume(i);
                        place(x.user_name()->region(), n, "name::simple");
                    } else identifier(*x.user_name());
                }
                for (auto&& e : x.elements()) statement(*e);
                break;
            }
            case k::alter_table_statement: {
                auto&& x = unsafe_downcast<st::alter_table_statement>(s);
                expect({ "ALTER", "TABLE" });
                flag(x.if_exists(), { "IF", "EXISTS" }, "statement::alter_table_statement::if_exists");
                name(*x.name());
                auto n = begin();
                expect("RENAME");
                if (x.action()->node_kind() == st::alter_table_action_kind::rename_table) {
                    expect("TO");
                    identifier(*unsafe_downcast<st::rename_table_action>(*x.action()).replacement());
                } else {
                    auto&& a = unsafe_downcast<st::rename_column_action>(*x.action());
                    expect("COLUMN");
                    flag(a.if_exists(), { "IF", "EXISTS" }, "statement::rename_column_action::if_exists");
                    identifier(*a.column_name());
                    expect("TO");
                    identifier(*a.replacement());
                }
                place(x.action()->region(), n, "statement::alter_table_action");
                break;
            }
            case k::alter_index_statement: {
                auto&& x = unsafe_downcast<st::alter_index_statement>(s);
                expect({ "ALTER", "INDEX" });
                flag(x.if_exists(), { "IF", "EXISTS" }, "statement::alter_index_statement::if_exists");
                name(*x.name());
                auto n = begin();
                expect({ "RENAME", "TO" });
                identifier(*unsafe_downcast<st::rename_index_action>(*x.action()).replacement());
                place(x.action()->region(), n, "statement::alter_index_action");
                break;
            }
            case k::drop_table_statement: case k::drop_index_statement: case k::drop_view_statement: case k::drop_sequence_statement: case k::drop_schema_statement: {
                auto&& x = unsafe_downcast<st::drop_statement>(s);
                stated = x.options().size();
                expect("DROP");
                auto kd = s.node_kind();
                words(x.statement_kind(), { kd == k::drop_table_statement ? "TABLE" : kd == k::drop_index_statement ? "INDEX" : kd == k::drop_view_statement ? "VIEW" : kd == k::drop_sequence_statement ? "SEQUENCE" : "SCHEMA" }, "statement::drop_statement::statement_kind");
                static char const* const t = "statement::drop_statement::options";
                option(x.options(), st::drop_statement_option::if_exists, { "IF", "EXISTS" }, t);
                name(*x.name());
                option(x.options(), st::drop_statement_option::cascade, { "CASCADE" }, t);
                option(x.options(), st::drop_statement_option::restrict, { "RESTRICT" }, t);
                break;
            }
            case k::truncate_table_statement: {
                auto&& x = unsafe_downcast<st::truncate_table_statement>(s);
                expect({ "TRUNCATE", "TABLE" });
                name(*x.name());
                if (auto&& o = x.identity_column_option()) words(*o, { o->value() == st::identity_column_restart_option::restart_identity ? "RESTART" : "CONTINUE", "IDENTITY" }, "statement::truncate_table_statement::identity_column_option");
                break;
            }
            case k::grant_privilege_statement: {
                auto&& x = unsafe_downcast<st::grant_privilege_statement>(s);
                expect("GRANT");
                privileges(x, "TO");
                break;
            }
            case k::revoke_privilege_statement: {
                auto&& x = unsafe_downcast<st::revoke_privilege_statement>(s);
                expect("REVOKE");
                privileges(x, "FROM");
                break;
            }
            case k::empty_statement: break;
            default: fail("the tree says an unknown statement");
        }
        if (s.node_kind() != k::schema_definition && options_ - start != stated) fail("the tree says options which the text does not state");
        place(s.region(), m, "statement");
    }
    template<class T> void privileges(T const& x, char const* to) {
        namespace st = ast::statement;
        using a = st::privilege_action_kind;
        bool first = true;
        for (auto&& e : x.actions()) {
            if (!first) expect(",");
            first = false;
            auto m = begin();
            auto n = begin();
            switch (*e.action_kind()) {
                case a::all_privileges: if (x.actions().size() != 1) fail("the tree says ALL PRIVILEGES among others"); expect({ "ALL", "PRIVILEGES" }); break;
                case a::select: expect("SELECT"); break;
                case a::insert: expect("INSERT"); break;
                case a::update: expect("UPDATE"); break;
                case a::delete_: expect("DELETE"); break;
                default: fail("the tree says an unknown privilege");
            }
            place(e.action_kind().region(), n, "statement::privilege_action::action_kind");
            place(e.region(), m, "statement::privilege_action");
        }
        expect("ON");
        first = true;
        for (auto&& e : x.objects()) {
            if (!first) expect(",");
            first = false;
            auto m = begin();
            if (auto&& o = e.object_kind()) words(o, { o->value() == st::privilege_object_kind::table ? "TABLE" : "SCHEMA" }, "statement::privilege_object::object_kind");
            name(*e.object_name());
            place(e.region(), m, "statement::privilege_object");
        }
        expect(to);
        first = true;
        for (auto&& e : x.users()) {
            if (!first) expect(",");
            first = false;
            auto m = begin();
            using u = st::privilege_user_kind;
            if ((e.user_kind() == u::identifier) != static_cast<bool>(e.authorization_identifier())) fail("the tree is wrong about whether a user is named");
            switch (e.user_kind()) {
                case u::identifier: identifier(*e.authorization_identifier()); break;
                case u::all_users: expect("*"); break;
                case u::current_user: expect("CURRENT_USER"); break;
                case u::public_: expect("PUBLIC"); break;
                default: fail("the tree says an unknown user");
            }
            place(e.region(), m, "statement::privilege_user");
        }
    }
};

} // namespace

std::string read_along(ast::compilation_unit const& u, rendered const& text) {
    try {
        reader r { text };
        r.unit(u);
        return {};
    } catch (mismatch const& m) { return m.what; }
}

} // namespace sim
