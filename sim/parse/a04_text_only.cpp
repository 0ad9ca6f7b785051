// A04: the result of a parse is a function of the token sequence: not of blanks, comments, positions in the
// scanner's buffer, the heap, the locale, or of what the parser and the process did before.
#include "common.h"

#include <cstring>
#include <algorithm>
#include <cerrno>

namespace sim {
namespace {

constexpr char const* id = "A04";

/// "sent": s = tokens, n = { spacing, render seed, padding, padding kind, expected candidates, anchor token, distance }
rendered make_text(op const& o, bool reference) {
    tokens t {};
    for (auto&& x : o.s) { auto one = split(x); t.push_back({ x, one.size() == 1 ? one[0].kind : 'x' }); }
    rt::prng r { static_cast<u64>(o.num(1)) };
    if (reference) return render(t, spacing::single, r);
    std::string prefix {};
    auto pad = static_cast<std::size_t>(o.num(2));
    auto fill = [&](std::size_t n) {
        switch (o.num(3)) {
            case 0: return std::string(n, ' ');
            case 1: return std::string(n, '\n');
            case 2: { std::string x {}; while (x.size() < n) x += "\t \r\n"; return x; }
            case 3: return n < 5 ? std::string(n, ' ') : "/*" + std::string(n - 5, '*') + "*/ ";
            case 4: return n < 3 ? std::string(n, ' ') : "--" + std::string(n - 3, '-') + "\n";
            default: { std::string x {}; while (x.size() < n) x += "/*/*/ --*/\n"; return x; }
        }
    };
    if (pad > 0) prefix = fill(pad);
    auto first = render(t, static_cast<spacing>(o.num(0)), r, prefix);
    if (o.num(6) >= 0 && !o.s.empty()) {
        // the anchor token begins at a given distance from a boundary of the scanner's buffer
        auto k = static_cast<std::size_t>(o.num(5)) % o.s.size();
        auto at = first.at[k].first;
        auto boundary = (at / 8192 + 1) * 8192;
        auto back = static_cast<std::size_t>(o.num(6));
        if (boundary >= at + back) {
            prefix += fill(boundary - back - at);
            rt::prng q { static_cast<u64>(o.num(1)) };
            return render(t, static_cast<spacing>(o.num(0)), q, prefix);
        }
    }
    return first;
}

// `.` and `*` are one token even when blanks are between them, and a message may show the token as it is written.
std::string joined_asterisks(std::string s) {
    static char const* const blanks[] { " ", "\t", "\r", "\n", "\f", "\v", "\\t", "\\r", "\\n", "\\f", "\\v", "\\x09", "\\x0a", "\\x0b", "\\x0c", "\\x0d" };
    for (auto n = s.find('.'); n != std::string::npos; n = s.find('.', n + 1)) {
        auto e = n + 1;
        for (bool more = true; more;) {
            more = false;
            for (auto&& b : blanks) if (s.compare(e, std::strlen(b), b) == 0) { e += std::strlen(b); more = true; }
        }
        if (e < s.size() && s[e] == '*') s.erase(n + 1, e - n - 1);
    }
    return s;
}

std::string canon_tokens(parser::sql_parser_result const& r, rendered const& rd) {
    token_map m { rd.at, rd.text.size() };
    if (!r.has_value()) {
        auto&& d = r.diagnostic();
        ast::node_region g { d.region() };
        std::string where {};
        if (d.code() == parser::sql_parser_code::unexpected_eof) where = "eof"; else where = m.name(g);
        return "error " + std::string { to_string_view(d.code()) } + " " + where + " " + joined_asterisks(d.message());
    }
    auto s = canon(r, regions::tokens, &m, true);
    auto c = s.find("comments");
    for (auto n = c; n != std::string::npos; n = s.find("comments", n + 1)) c = n;
    return s.substr(0, c);
}

void solo(op const& o) {
    std::string out {};
    rt::run_single([&] {
        auto rd = make_text(o, true);
        auto q = make_parse(rd.text, { 1000000000, 1000000000, o.num(4), 0 });
        auto doc = make_document(q);
        auto p = make_parser(q);
        rt::armed a {};
        auto r = p(doc);
        rt::disarmed d {};
        out = canon_tokens(r, rd);
    }, 65536);
    rt::output(out);
}

void execute(scenario const& s, expectations const& e) {
    apply_environment(s);
    rt::run_single([&] {
        std::optional<parser::sql_parser> p {};
        std::vector<parser::sql_parser_result> kept {};
        for (std::size_t i = 0; i < s.threads[0].size(); ++i) {
            auto&& o = s.threads[0][i];
            auto rd = make_text(o, false);
            auto q = make_parse(rd.text, { 1000000000, 1000000000, o.num(4), 0 });
            if (!p || o.num(7) == 0) p.emplace(make_parser(q));
            else if (o.num(7) == 1) { parser::sql_parser moved { std::move(*p) }; p.emplace(std::move(moved)); }
            configure(p->options(), q);
            if (s.get("errno") != 0) errno = static_cast<int>(s.get("errno"));
            bool direct = o.num(8) != 0;
            auto doc = make_document(q);
            std::string out {};
            {
                rt::armed a {};
                auto r = direct ? (*p)("another location", rd.text) : (*p)(doc);
                rt::disarmed d {};
                out = canon_tokens(r, rd);
                rt::count(r.has_value() ? c_parse_ok : c_parse_diag);
                if (o.num(9) != 0) kept.push_back(std::move(r));
            }
            if (o.num(2) > 0) rt::count(c_shifted);
            expect_same("text-dependence", "the result differs from that of the same tokens separated by single blanks\n  text: " + escape(rd.text.size() > 1500 ? rd.text.substr(rd.text.size() - 1500) : rd.text, 1500) + " (size " + std::to_string(rd.text.size()) + ")", e[0][i].parts[0], out);
        }
    }, 65536);
    rt::check_heap();
}

void generate(rt::prng& r, scenario& s, oracle&, bool thorough) {
    random_heap(r, s);
    if (r.chance(1, 4)) s.cfg["locale"] = 1;
    if (r.chance(1, 4)) s.cfg["errno"] = r.chance(1, 2) ? 34 : 12;
    s.threads.resize(1);
    for (auto k = r.range(1, thorough ? 5 : 3); k > 0; --k) {
        op o { "sent", {}, {} };
        for (auto&& t : random_tokens(r, static_cast<std::size_t>(r.chance(1, 10) ? r.range(100, 500) : r.range(2, 60)))) o.s.push_back(t.text);
        if (o.s.empty()) continue;
        if (r.chance(1, 4)) { // an erroneous sentence
            auto i = r.below(o.s.size());
            switch (r.below(4)) {
                case 0: o.s.erase(o.s.begin() + static_cast<std::ptrdiff_t>(i)); break;
                case 1: std::swap(o.s[i], o.s[r.below(o.s.size())]); break;
                case 2: o.s.insert(o.s.begin() + static_cast<std::ptrdiff_t>(i), r.chance(1, 2) ? "$" : "SELECT"); break;
                default: o.s.resize(i); break;
            }
        }
        if (o.s.empty()) continue;
        long pad = r.chance(1, 2) ? 0 : r.chance(1, 2) ? r.range(1, 200) : r.range(7000, 70000);
        o.n = { r.range(0, 3), static_cast<long>(r.below(1000000)), pad, r.range(0, 5), r.range(0, 12), static_cast<long>(r.below(o.s.size())), r.chance(1, 2) ? r.range(0, 12) : -1, r.range(0, 2), r.range(0, 1), r.range(0, 1) };
        s.threads[0].push_back(std::move(o));
    }
}
bool needs(op const&) { return true; }

property const p { id, "", generate, execute, solo, needs, 3000, 300000,
    "A run parses 1 to 5 token sequences one after another in one process, each rendered with random blanks, comments and padding (a chosen token placed at a chosen distance from a refill boundary of the scanner's buffer), under a random heap policy, locale and errno, with a reused, moved or new parser; the reference is the same token sequence in its plainest rendering in a fresh process.", false, true };
registrar const reg { &p };

} // namespace
} // namespace sim
