// B15: invalid statements are refused, with the reason at its place.
#include "changes.h"

#include <algorithm>
#include <sstream>
#include <cstdlib>
#include <iostream>

namespace sim::sql {
namespace {

constexpr char const* id = "B15";

enum : int { m_family = q_last, m_countdown };

void execute(scenario const& s, expectations const&) {
    apply_environment(s);
    rt::run_single([&] {
        session c { s };
        c.schema("", true);
        for (std::size_t n = 0; n < s.threads[0].size(); ++n) {
            auto&& o = s.threads[0][n];
            auto i = static_cast<int>(n);
            if (o.kind == "schema") { c.schema(o.str(0), true); continue; }
            if (o.kind == "rows") { c.rows(o.str(0)); continue; }
            if (o.kind == "host") { c.host(o.str(0)); continue; }
            if (o.kind == "crash") { c.crash(); continue; }
            choices ch { o.str(0) };
            auto v = c.words(o);
            maker m { ch, v };
            mistake e {};
            if (o.num(m_family) < 3) { e.family = static_cast<int>(o.num(m_family)); e.countdown = static_cast<std::size_t>(o.num(m_countdown)); m.error = std::addressof(e); }
            auto depth = static_cast<std::size_t>(o.num(q_depth));
            std::string text {};
            if (o.kind == "query") text = m.make_query(depth).text;
            else text = (o.kind == "insert" ? make_insert(m, ch, std::addressof(c.db), depth) : make_change(m, ch, std::addressof(c.db), depth)).text;
            auto where = unmark(text);
            if (std::getenv("DSIM_SHOW") != nullptr) std::cerr << "TEXT " << text << std::endl;
            auto r = c.analyze(text, o, i);
            rt::scratch temporary {};
            rt::count(c_compared);
            bool refused = r.kind() == analyzer::sql_analyzer_result_kind::diagnostics;
            if (where.empty()) {        // the error was not made, or its part is not in the statement
                if (refused) fail("refused", "a valid statement is refused:" + errors(r) + c.where(text, i));
                continue;
            }
            if (!refused) fail("accepted", "an invalid statement is accepted, which has " + e.what + c.where(show_marks(text, where), i));
            for (auto&& d : r.element<analyzer::sql_analyzer_result_kind::diagnostics>()) {
                std::ostringstream code {};
                code << d.code();
                auto from = d.location().begin(), to = d.location().end();
                bool inside = false, around = false;
                for (auto [x, y] : where) {
                    if (x <= from && to <= y && from < to) inside = true;
                    if (from <= x && y <= to) around = true;
                }
                bool expected = std::find(e.codes.begin(), e.codes.end(), code.str()) != e.codes.end();
                if (!expected) fail("wrong-diagnostic", "the statement, which has " + e.what + ", is refused for another reason:" + errors(r) + c.where(show_marks(text, where), i));
                if (!inside && !(e.around && around)) fail("wrong-place", "the statement, which has " + e.what + ", is refused at another place (" + std::to_string(from) + " to " + std::to_string(to) + "):" + errors(r) + c.where(show_marks(text, where), i));
            }
        }
    }, 65536);
}

void generate(rt::prng& r, scenario& s, oracle&, bool thorough) {
    random_heap(r, s);
    s.threads.resize(1);
    auto& l = s.threads[0];
    l.push_back({ "schema", {}, { random_choices(r, static_cast<std::size_t>(r.range(60, 160))) } });
    auto n = r.range(4, thorough ? 24 : 14);
    for (long i = 0; i < n; ++i) {
        auto k = r.below(16);
        if (k == 0) l.push_back({ "rows", {}, { random_choices(r, 120) } });
        else if (k == 1) l.push_back({ "host", {}, { random_choices(r, 24) } });
        else if (k == 2) l.push_back({ "crash", {}, {} });
        else {
            random_faults(r, s, static_cast<int>(l.size()));
            auto kind = r.below(4);
            auto options = statement_options(r);
            options.resize(m_countdown + 1);
            auto f = r.below(16);
            options[m_family] = f == 0 ? 3 : f <= 8 ? 0 : f <= 11 ? 1 : 2;
            options[m_countdown] = f <= 8 ? r.below(r.chance(1, 2) ? 6 : 40) : r.below(r.chance(1, 2) ? 2 : 6);
            l.push_back({ kind <= 1 ? "query" : kind == 2 ? "insert" : "change", options, { random_choices(r, static_cast<std::size_t>(r.range(10, thorough ? 260 : 160))) } });
        }
    }
}
bool needs(op const&) { return false; }

property const p { id, "", generate, execute, nullptr, needs, 12000, 400000,
    "A run makes a database of 1 to 4 tables and analyses queries, INSERT, UPDATE and DELETE statements made from a seed, each of which is valid but for one error made at a random place (names which are missing, ambiguous, out of scope or used twice, wrong arguments and numbers of columns, misplaced aggregates, literals and types which are none), between valid ones. Each is answered by diagnostics of the right code whose region lies in the error; in some calls memory runs out or the catalog throws, and the call is repeated." };
registrar const reg { &p };

} // namespace
} // namespace sim::sql
