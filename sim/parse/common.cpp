#include <set>
#include "common.h"

#include <algorithm>
#include <cctype>
#include <cstring>

namespace sim {

op make_parse(std::string text, std::vector<long> n) { return { "parse", std::move(n), { std::move(text), "sim.sql" } }; }

void configure(parser::sql_parser_options& o, op const& p) {
    o.tree_node_limit() = static_cast<std::size_t>(p.num(p_node_limit));
    o.tree_depth_limit() = static_cast<std::size_t>(p.num(p_depth_limit));
    o.max_expected_candidates() = static_cast<std::size_t>(p.num(p_expected, 5));
    o.enable_description_comments() = p.num(p_description, 1) != 0;
    for (std::size_t i = 0; i < element_kinds; ++i) o.element_limits()[static_cast<parser::sql_parser_element_kind>(i)] = 0;
    for (std::size_t i = p_first_element; i + 1 < p.n.size(); i += 2) o.element_limits()[static_cast<parser::sql_parser_element_kind>(p.n[i])] = static_cast<std::size_t>(p.n[i + 1]);
}
parser::sql_parser make_parser(op const& p) {
    parser::sql_parser_options o {};
    configure(o, p);
    return parser::sql_parser { std::move(o) };
}
document_ptr make_document(op const& p) { return std::make_shared<::takatori::document::basic_document>(p.str(1), p.str(0)); }

std::string canon_absolute(parser::sql_parser_result const& r, bool message) { return canon(r, regions::absolute, nullptr, message); }
std::string canon_brief(parser::sql_parser_result const& r) { return canon_absolute(r, false); }

void solo_parse(op const& o) {
    std::string full {}, brief {};
    rt::run_single([&] {
        auto doc = make_document(o);
        auto p = make_parser(o);
        rt::armed a {};
        auto r = p(doc);
        rt::disarmed d {};
        full = canon_absolute(r);
        brief = canon_brief(r);
    }, 65536);
    rt::output(full);
    rt::output(std::string { part_separator });
    rt::output(brief);
}

lexed lex(std::string_view s) {
    lexed out {};
    auto word = [](char c) { return ascii::alnum(static_cast<unsigned char>(c)) != 0 || c == '_'; };
    for (std::size_t i = 0; i < s.size();) {
        char c = s[i];
        if (c == ' ' || c == '\t' || c == '\r' || c == '\n' || c == '\f' || c == '\v') { ++i; continue; }
        std::size_t b = i;
        char k = 'p';
        auto quoted = [&](char q) { ++i; for (;;) { if (i >= s.size()) { out.closed = false; return; } if (s[i] == q) { if (i + 1 < s.size() && s[i + 1] == q) { i += 2; continue; } ++i; return; } ++i; } };
        if (s.substr(i, 2) == "--") { while (i < s.size() && s[i] != '\n' && s.substr(i, 2) != "\r\n") ++i; k = 'c'; }
        else if (s.substr(i, 2) == "/*") { auto e = s.find("*/", i + 2); if (e == std::string_view::npos) { out.closed = false; i = s.size(); } else i = e + 2; k = 'c'; }
        else if (c == '\'') { quoted('\''); k = 's'; }
        else if ((c == 'x' || c == 'X') && i + 1 < s.size() && s[i + 1] == '\'') { ++i; quoted('\''); k = 's'; }
        else if (c == '"') { quoted('"'); k = 'i'; }
        else if (ascii::alpha(static_cast<unsigned char>(c)) || c == '_') { while (i < s.size() && word(s[i])) ++i; k = 'i'; }
        else if (ascii::digit(static_cast<unsigned char>(c))) { while (i < s.size() && ascii::digit(static_cast<unsigned char>(s[i]))) ++i; k = 'n'; }
        else { ++i; k = c == '?' ? 'q' : 'p'; }
        out.items.push_back({ b, i, k });
    }
    return out;
}

std::string check_result(parser::sql_parser_result const& r, std::string const& text, void const* document, bool descriptions) {
    auto at = [](ast::node_region x) { return "[" + std::to_string(x.begin) + "," + std::to_string(x.end) + ")"; };
    if (r.has_value() == r.has_diagnostic()) return "a result holds " + std::string { r.has_value() ? "both" : "neither" } + " of a tree and a diagnostic";
    if (static_cast<bool>(r) != r.has_value()) return "operator bool disagrees with has_value()";
    if (!r.has_value()) {
        auto&& d = r.diagnostic();
        if (d.code() == parser::sql_parser_code::unknown) return "the diagnostic has no code";
        if (static_cast<int>(d.code()) < 0 || to_string_view(d.code()).empty()) return "the diagnostic has an undefined code";
        if (d.message().empty()) return "the diagnostic has no message";
        if (d.document().get() != document) return "the diagnostic does not refer to the parsed document";
        ast::node_region g { d.region() };
        if (!g || g.begin > g.end || g.end > text.size()) return "the region of the diagnostic " + at(g) + " is outside of the text, whose size is " + std::to_string(text.size());
        if (d.contents() != std::string_view { text }.substr(g.begin, g.end - g.begin)) return "the contents of the diagnostic differ from the text at its region";
        switch (d.code()) {
            case parser::sql_parser_code::unexpected_eof: {
                bool comment = g.end - g.begin == 2 && text.compare(g.begin, 2, "/*") == 0 && text.find("*/", g.begin + 2) == std::string::npos;
                if (!comment && (g.begin != text.size())) return "unexpected_eof is reported at " + at(g) + ", which is not the end of the text";
                break;
            }
            case parser::sql_parser_code::invalid_character: case parser::sql_parser_code::invalid_token: case parser::sql_parser_code::unexpected_token: case parser::sql_parser_code::syntax_error:
                if (g.begin == g.end) return std::string { to_string_view(d.code()) } + " is reported for an empty region";
                break;
            default: break;
        }
        return {};
    }
    auto&& u = *r.value();
    if (u.document().get() != document) return "the tree does not refer to the parsed document";
    // comments
    auto lx = lex(text);
    std::vector<std::pair<std::size_t, std::size_t>> want {}, got {};
    std::vector<std::size_t> marks {};
    for (auto&& i : lx.items) { if (i.kind == 'c') want.emplace_back(i.begin, i.end); else if (i.kind == 'q') marks.push_back(i.begin); }
    for (auto c : u.comments()) got.emplace_back(c.begin, c.end);
    if (lx.closed && want != got) {
        std::string m = "the comments of the tree differ from those of the text; expected";
        for (auto&& x : want) m += " " + std::to_string(x.first) + "-" + std::to_string(x.second);
        m += "; actual";
        for (auto&& x : got) m += " " + std::to_string(x.first) + "-" + std::to_string(x.second);
        return m;
    }
    auto list = collect_regions(u);
    std::size_t last = 0;
    std::set<int> described {};
    for (auto&& e : list) {
        auto g = e.region;
        if (!g) continue;
        if (g.begin > g.end || g.end > text.size()) return "the region of " + e.type + " " + at(g) + " is outside of the text, whose size is " + std::to_string(text.size());
        if (e.parent < 0) {
            if (g.begin < last) return "the statement at " + at(g) + " begins before the end of the previous one";
            last = g.end;
        }
        // descriptions lie before their declaration
        if (e.type == ".description") {
            if (!descriptions) return "a description comment is attached although they are disabled";
            if (std::find(want.begin(), want.end(), std::make_pair(g.begin, g.end)) == want.end()) return "the description " + at(g) + " is not a comment of the text";
            if (text.compare(g.begin, 3, "/**") != 0) return "the description " + at(g) + " is not a description comment";
            described.insert(e.parent);
            continue;
        }
        if (e.parent >= 0 && e.is_node && list[static_cast<std::size_t>(e.parent)].is_node) {
            auto&& p = list[static_cast<std::size_t>(e.parent)];
            if (p.region && (g.begin < p.region.begin || g.end > p.region.end)) return "the region of " + e.type + " " + at(g) + " is not inside of the region of its parent " + p.type + " " + at(p.region);
        }
        if (e.type.find("placeholder") != std::string::npos && e.is_node) {
            if (g.end - g.begin != 1 || text[g.begin] != '?') return "a placeholder is not at a question mark: " + at(g);
        }
    }
    // the description of a declaration is the last description comment between the previous token and it
    static std::set<std::string> const declarations { "table_definition", "column_definition", "index_definition", "sequence_definition", "schema_definition", "view_definition" };
    if (descriptions && lx.closed) {
        for (std::size_t i = 0; i < list.size(); ++i) {
            auto simple = list[i].type.substr(list[i].type.rfind(':') + 1);
            if (declarations.count(simple) == 0 || !list[i].region) continue;
            std::pair<std::size_t, std::size_t> expect {};
            for (auto&& x : lx.items) {
                if (x.begin >= list[i].region.begin) break;
                if (x.kind != 'c') expect = {};
                else if (x.end - x.begin >= 5 && text.compare(x.begin, 3, "/**") == 0 && text.compare(x.end - 2, 2, "*/") == 0) expect = { x.begin, x.end };
            }
            bool has = described.count(static_cast<int>(i)) != 0;
            std::pair<std::size_t, std::size_t> actual {};
            if (has) for (auto&& e : list) if (e.type == ".description" && e.parent == static_cast<int>(i)) actual = { e.region.begin, e.region.end };
            if (actual != expect) return "the description of " + list[i].type + " " + at(list[i].region) + " is " + std::to_string(actual.first) + "-" + std::to_string(actual.second) + " instead of " + std::to_string(expect.first) + "-" + std::to_string(expect.second);
        }
    }
    return {};
}

tokens random_tokens(rt::prng& r, std::size_t size) {
    static char const* const starts[] { "program", "program", "statement", "query_expression", "value_expression", "table_definition", "insert_statement" };
    (void) starts;
    return random_sentence(r, size);
}
std::string random_sql(rt::prng& r, std::size_t size) {
    auto t = random_tokens(r, size);
    static spacing const sp[] { spacing::single, spacing::tight, spacing::wild, spacing::comments };
    return render(t, sp[r.below(4)], r).text;
}

} // namespace sim
