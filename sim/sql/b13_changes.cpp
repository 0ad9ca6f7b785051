// B13: INSERT, UPDATE and DELETE change exactly the stated rows.
#include "changes.h"

#include <cstdlib>
#include <iostream>

namespace sim::sql {
namespace {

constexpr char const* id = "B13";

void execute(scenario const& s, expectations const&) {
    apply_environment(s);
    rt::run_single([&] {
        session c { s };
        struct kept { change x; std::unique_ptr<analyzer::sql_analyzer_result> r; };
        std::vector<kept> plans {};
        c.schema("", true);
        for (std::size_t n = 0; n < s.threads[0].size(); ++n) {
            auto&& o = s.threads[0][n];
            auto i = static_cast<int>(n);
            if (o.kind == "schema") { plans.clear(); c.schema(o.str(0), true); continue; }
            if (o.kind == "rows") { c.rows(o.str(0)); continue; }
            if (o.kind == "host") { c.host(o.str(0)); continue; }
            if (o.kind == "crash") { plans.clear(); c.crash(); continue; }
            if (o.kind == "again") { if (!plans.empty()) { auto& k = plans[static_cast<std::size_t>(o.num(0)) % plans.size()]; perform(c, k.x, *k.r, i); }; continue; }
            choices ch { o.str(0) };
            auto v = c.words(o);
            maker m { ch, v };
            auto depth = static_cast<std::size_t>(o.num(q_depth));
            kept k { o.kind == "insert" ? make_insert(m, ch, std::addressof(c.db), depth) : make_change(m, ch, std::addressof(c.db), depth), {} };
            if (std::getenv("DSIM_SHOW") != nullptr) std::cerr << "TEXT " << k.x.text << std::endl;
            k.r = std::make_unique<analyzer::sql_analyzer_result>(c.analyze(k.x.text, o, i));
            if (k.r->kind() == analyzer::sql_analyzer_result_kind::diagnostics) fail("refused", "a valid statement is refused:" + errors(*k.r) + c.where(k.x.text, i));
            perform(c, k.x, *k.r, i);
            plans.push_back(std::move(k));
        }
        plans.clear();
    }, 65536);
}

void generate(rt::prng& r, scenario& s, oracle&, bool thorough) {
    random_heap(r, s);
    s.threads.resize(1);
    auto& l = s.threads[0];
    l.push_back({ "schema", {}, { random_choices(r, static_cast<std::size_t>(r.range(60, 160))) } });
    auto n = r.range(4, thorough ? 24 : 14);
    for (long i = 0; i < n; ++i) {
        auto k = r.below(16);
        if (k == 0) l.push_back({ "rows", {}, { random_choices(r, 120) } });
        else if (k == 1) l.push_back({ "host", {}, { random_choices(r, 24) } });
        else if (k == 2) l.push_back({ "crash", {}, {} });
        else if (k <= 4) l.push_back({ "again", { r.range(0, 20) }, {} });
        else {
            random_faults(r, s, static_cast<int>(l.size()));
            l.push_back({ r.chance(1, 2) ? "insert" : "change", statement_options(r), { random_choices(r, static_cast<std::size_t>(r.range(10, thorough ? 260 : 160))) } });
        }
    }
}
bool needs(op const&) { return false; }

property const p { id, "", generate, execute, nullptr, needs, 12000, 400000,
    "A run makes a database of 1 to 4 tables with keys, defaults, sequences, hidden columns and constraints, and changes it by 4 to 14 statements made from a seed together with their effect: the plans and write statements are executed (rows in an order chosen by the simulator), the same ones again on other rows and host variables; the database is restarted from its definitions; in some calls memory runs out or the catalog throws, and the call is repeated. All tables are compared after each statement." };
registrar const reg { &p };

} // namespace
} // namespace sim::sql
