#include "gen.h"

#include <algorithm>
#include <cctype>
#include <unordered_map>

namespace sim {

namespace {

struct rule { std::string lhs; std::vector<std::string> rhs; };
std::vector<rule> const& rules() {
    static std::vector<rule> const r {
#define R(L, ...) { L, std::vector<std::string> { __VA_ARGS__ } },
#include "grammar.inc"
#undef R
    };
    return r;
}

struct grammar {
    struct alt { std::vector<int> rhs; unsigned depth; unsigned uses { 0 }; };
    std::vector<std::string> names {};
    std::vector<std::vector<alt>> alts {};   // empty: terminal
    std::unordered_map<std::string, int> index {};
    std::vector<unsigned> depth {};
    int id(std::string const& n) { auto [i, ok] = index.emplace(n, static_cast<int>(names.size())); if (ok) { names.push_back(n); alts.emplace_back(); } return i->second; }
    grammar() {
        for (auto&& r : rules()) {
            int l = id("@" + r.lhs);
            alt a {};
            for (auto&& s : r.rhs) if (s != "<END_OF_FILE>") a.rhs.push_back(id(s));
            a.depth = 1000;
            alts[static_cast<std::size_t>(l)].push_back(a);
        }
        depth.assign(names.size(), 1000);
        for (std::size_t i = 0; i < names.size(); ++i) if (alts[i].empty()) depth[i] = 0;
        for (bool again = true; again;) {
            again = false;
            for (std::size_t i = 0; i < names.size(); ++i) for (auto&& a : alts[i]) {
                unsigned d = 1;
                for (int s : a.rhs) d = std::max(d, depth[static_cast<std::size_t>(s)] + 1);
                if (d < a.depth) a.depth = d;
                if (d < depth[i]) { depth[i] = d; again = true; }
            }
        }
    }
};
grammar const& the_grammar() { static grammar const g {}; return g; }

std::string mixed_case(rt::prng& r, std::string s) {
    auto k = r.below(6);
    if (k <= 2) return s;
    for (auto& c : s) if (k == 3 || (k == 4 && r.chance(1, 2))) c = static_cast<char>(ascii::lower(static_cast<unsigned char>(c)));
    return s;
}

std::string random_string_body(rt::prng& r) {
    static char const* const parts[] { "", "a", "abc", "it''s", "''", "\xe3\x81\x82", "\n", "--", "/*", "*/", "\"", "%", "_", "\\", "0123456789abcdef", " ", ";", "\xff", "\xf0\x9f\x98\x80" };
    std::string s {};
    for (auto n = r.below(5); n > 0; --n) s += parts[r.below(std::size(parts))];
    if (r.chance(1, 40)) s += std::string(r.below(9000), 'z');
    return s;
}

token lexeme(rt::prng& r, std::string const& name) {
    if (name == "<identifier>") return random_identifier(r);
    if (name == "<delimited-identifier>") {
        static char const* const parts[] { "a", "A b", "\"\"", "\xe3\x81\x82", "select", "'", "--", "x.y", "c0", "T0", "/*", "9" };
        std::string s {};
        for (auto n = 1 + r.below(3); n > 0; --n) s += parts[r.below(std::size(parts))];
        if (s.compare(0, 2, "__") == 0) s = "a" + s;
        return { "\"" + s + "\"", 'i' };
    }
    if (name == "<unsigned-integer>") {
        static char const* const v[] { "0", "1", "2", "10", "38", "007", "255", "65536", "2147483647", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999999999999999999" };
        return { r.chance(2, 3) ? std::to_string(r.below(50)) : v[r.below(std::size(v))], 'n' };
    }
    if (name == "<exact-numeric-literal>") { return { std::to_string(r.below(1000)) + "." + std::to_string(r.below(100000)), 'n' }; }
    if (name == "<approximate-numeric-literal>") { static char const* const e[] { "e", "E", "e+", "e-", "E-" }; return { std::to_string(r.below(100)) + (r.chance(1, 2) ? "." + std::to_string(r.below(100)) : "") + e[r.below(5)] + std::to_string(r.below(400)), 'n' }; }
    if (name == "<character-string-literal>") return { "'" + random_string_body(r) + "'", 's' };
    if (name == "<hex-string-literal>") {
        static char const* const v[] { "x''", "X'0a'", "x'ABCDEF'", "X'zz'", "x'0'", "x'00 11'", "X'''", "x'deadbeef'" };
        auto i = r.below(std::size(v));
        return { i == 6 ? "X''''" : v[i], 's' };
    }
    if (name == "<host-parameter-name>") return { ":" + random_identifier(r).text, 'i' };
    bool word = ascii::alpha(static_cast<unsigned char>(name[0])) != 0;
    return { word ? mixed_case(r, name) : name, word ? 'k' : 'p' };
}

void expand(grammar const& g, rt::prng& r, int sym, unsigned level, long& fuel, tokens& out) {
    auto i = static_cast<std::size_t>(sym);
    if (g.alts[i].empty()) { out.push_back(lexeme(r, g.names[i])); --fuel; return; }
    auto& alts = g.alts[i];
    grammar::alt const* pick = nullptr;
    if (fuel <= 0 || level > 60) {
        // the shallowest alternative
        unsigned best = 1000; std::vector<grammar::alt const*> c {};
        for (auto&& a : alts) { if (a.depth < best) { best = a.depth; c.clear(); } if (a.depth == best) c.push_back(&a); }
        pick = c[r.below(c.size())];
    } else {
        pick = &alts[r.below(alts.size())];
        // chains of operator levels are long: prefer alternatives which are not recursive a little
        if (pick->depth > 30 && r.chance(1, 2)) pick = &alts[r.below(alts.size())];
    }
    for (int s : pick->rhs) expand(g, r, s, level + 1, fuel, out);
}

} // namespace

token random_identifier(rt::prng& r) {
    static char const* const v[] { "a", "b", "C0", "c1", "c2", "T0", "t1", "T2", "x", "y_1", "Foo", "S", "_z", "q", "count1", "AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA" };
    if (r.chance(1, 60)) return { "L" + std::string(r.below(300), 'o') + "ng", 'i' };
    return { v[r.below(std::size(v))], 'i' };
}

tokens random_sentence(rt::prng& r, std::size_t size, char const* start) {
    auto&& g = the_grammar();
    tokens out {};
    long fuel = static_cast<long>(size);
    expand(g, r, g.index.at(std::string { "@" } + start), 0, fuel, out);
    return out;
}

tokens split(std::string_view s) {
    tokens out {};
    auto ident = [](char c) { return ascii::alnum(static_cast<unsigned char>(c)) || c == '_'; };
    for (std::size_t i = 0; i < s.size();) {
        char c = s[i];
        if (ascii::space(static_cast<unsigned char>(c))) { ++i; continue; }
        std::size_t b = i;
        char kind = 'p';
        auto quoted = [&](char q) { ++i; while (i < s.size()) { if (s[i] == q) { if (i + 1 < s.size() && s[i + 1] == q) { i += 2; continue; } ++i; break; } ++i; } };
        if ((c == 'x' || c == 'X') && i + 1 < s.size() && s[i + 1] == '\'') { ++i; quoted('\''); kind = 's'; }
        else if (c == '\'') { quoted('\''); kind = 's'; }
        else if (c == '"') { quoted('"'); kind = 'i'; }
        else if (c == ':' && i + 1 < s.size() && (ascii::alpha(static_cast<unsigned char>(s[i + 1])) || s[i + 1] == '_')) { ++i; while (i < s.size() && ident(s[i])) ++i; kind = 'i'; }
        else if (ascii::alpha(static_cast<unsigned char>(c)) || c == '_') { while (i < s.size() && ident(s[i])) ++i; kind = 'i'; }
        else if (ascii::digit(static_cast<unsigned char>(c))) {
            while (i < s.size() && ascii::digit(static_cast<unsigned char>(s[i]))) ++i;
            if (i + 1 < s.size() && s[i] == '.' && ascii::digit(static_cast<unsigned char>(s[i + 1]))) { ++i; while (i < s.size() && ascii::digit(static_cast<unsigned char>(s[i]))) ++i; }
            if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) { std::size_t j = i + 1; if (j < s.size() && (s[j] == '+' || s[j] == '-')) ++j; if (j < s.size() && ascii::digit(static_cast<unsigned char>(s[j]))) { while (j < s.size() && ascii::digit(static_cast<unsigned char>(s[j]))) ++j; i = j; } }
            kind = 'n';
        } else {
            static char const* const two[] { "<>", "!=", ">=", "<=", "||", "->", "::", "<@", "@>", "&&", ".*" };
            i += 1;
            for (auto* t : two) if (s.substr(b, 2) == t) { i = b + 2; break; }
        }
        out.push_back({ std::string { s.substr(b, i - b) }, kind });
    }
    return out;
}

rendered render(tokens const& t, spacing sp, rt::prng& r, std::string const& prefix) {
    rendered o {};
    o.text = prefix;
    auto space = [&] {
        static char const* const w[] { " ", "  ", "\n", "\t", "\r\n", " \n ", "\f", "      ", "\v" };
        static char const* const cm[] { "/* c */", "-- line\n", "/**/", "/** doc */", "/** other doc */", "/***/", "/**\n * lines\n */", "--\r\n", "/*\xe3\x81\x82*/", "/*** * ** */", "/* -- */", "-- /*\n" };
        std::string s = sp == spacing::single || sp == spacing::tight ? " " : w[r.below(std::size(w))];
        if (sp == spacing::comments) for (int n = 0; n < 4 && r.chance(1, n == 0 ? 5 : 2); ++n) { s += cm[r.below(std::size(cm))]; s += r.chance(1, 2) ? " " : "\n"; }
        return s;
    };
    for (std::size_t i = 0; i < t.size(); ++i) {
        if (i > 0) {
            auto tight = [](token const& x) { return x.text == "(" || x.text == ")" || x.text == "," || x.text == ";" || x.text == "="; };
            if (sp == spacing::tight && (tight(t[i - 1]) || tight(t[i])) && !(t[i - 1].text == "=" && t[i].kind == 'p') && !(t[i].text == "=" && t[i - 1].kind == 'p')) {}
            else if (sp == spacing::wild && r.chance(1, 4) && (t[i].text == "(" || t[i].text == ")" || t[i].text == ",") ) {}
            else o.text += space();
        }
        o.at.emplace_back(o.text.size(), o.text.size() + t[i].text.size());
        o.text += t[i].text;
    }
    if (sp == spacing::wild || sp == spacing::comments) { if (r.chance(1, 2)) o.text += space(); }
    return o;
}

std::string damage(rt::prng& r, std::string s, bool& truncated) {
    truncated = false;
    static char const* const junk[] { "$", "\\", "'", "\"", "/*", "--", "\xff", "\xe3\x81", "\xc3", "#", "\x01", ";", "(", ")", "@", ".", ",", "SELECT", "0x", "1e", ":", "::", "__a", "\"__b\"", "\xf0\x9f\x98\x80", "{", "}", "[", "\x7f", "*/", "\xef\xbb\xbf", "\xc0\x80", "\xed\xa0\x80" };
    for (auto k = 1 + r.below(3); k > 0; --k) {
        auto at = r.below(s.size() + 1);
        switch (r.below(9)) {
            case 0: case 1: s.resize(at); truncated = true; break;
            case 2: s.insert(at, junk[r.below(std::size(junk))]); break;
            case 3: if (!s.empty()) s[at % s.size()] = static_cast<char>(r.below(256)); break;
            case 4: if (at < s.size()) s.erase(at, 1 + r.below(8)); break;
            case 5: if (at < s.size()) { auto p = s.substr(at, 1 + r.below(20)); s.insert(r.below(s.size()), p); } break;
            case 6: s.insert(at, std::string(1 + r.below(3), '\0')); break;
            case 7: if (at < s.size()) s[at] = static_cast<char>(s[at] ^ (1U << r.below(8))); break;
            default: s.insert(at, std::string(1 + r.below(4), "('\"/"[r.below(4)])); break;
        }
    }
    return s;
}

} // namespace sim
