// B12: the plan of a query returns what the query means.
#include "session.h"
#include <cstdlib>
#include <iostream>

namespace sim::sql {
namespace {

constexpr char const* id = "B12";

void execute(scenario const& s, expectations const&) {
    apply_environment(s);
    rt::run_single([&] {
        session c { s };
        struct kept { std::string text; query q; std::unique_ptr<analyzer::sql_analyzer_result> r; };
        std::vector<kept> plans {};
        c.schema("", false);
        auto check = [&](kept const& k, int i) {
            std::string m {};
            rt::scratch temporary {};
            try {
                budget = 10000;
                auto expected = k.q.run(nullptr);
                rt::count(c_rows, expected.rows.size());
                budget = 100000;
                m = compare_answer(expected, k.q.columns, c.db.execute(*k.r));
            } catch (too_large const&) {
                rt::count(c_too_large);
                return;
            } catch (plan_error const& e) {
                m = "the plan cannot be executed: " + e.message;
            }
            rt::count(c_compared);
            if (!m.empty()) fail("wrong-rows", m + c.where(k.text, i));
        };
        for (std::size_t n = 0; n < s.threads[0].size(); ++n) {
            auto&& o = s.threads[0][n];
            auto i = static_cast<int>(n);
            if (o.kind == "schema") { plans.clear(); c.schema(o.str(0), false); continue; }
            if (o.kind == "rows") { c.rows(o.str(0)); continue; }
            if (o.kind == "host") { c.host(o.str(0)); continue; }
            if (o.kind == "crash") { plans.clear(); c.crash(); continue; }
            if (o.kind == "again") { if (!plans.empty()) check(plans[static_cast<std::size_t>(o.num(0)) % plans.size()], i); continue; }
            choices ch { o.str(0) };
            auto v = c.words(o);
            maker m { ch, v };
            kept k { {}, m.make_query(static_cast<std::size_t>(o.num(q_depth))), {} };
            k.text = k.q.text;
            if (std::getenv("DSIM_SHOW") != nullptr) std::cerr << "TEXT " << k.text << std::endl;
            k.r = std::make_unique<analyzer::sql_analyzer_result>(c.analyze(k.text, o, i));
            if (k.r->kind() == analyzer::sql_analyzer_result_kind::diagnostics) fail("refused", "a valid query is refused:" + errors(*k.r) + c.where(k.text, i));
            check(k, i);
            plans.push_back(std::move(k));
        }
        plans.clear();
    }, 65536);
}

void generate(rt::prng& r, scenario& s, oracle&, bool thorough) {
    random_heap(r, s);
    s.threads.resize(1);
    auto& l = s.threads[0];
    l.push_back({ "schema", {}, { random_choices(r, static_cast<std::size_t>(r.range(60, 160))) } });
    auto n = r.range(4, thorough ? 24 : 12);
    for (long i = 0; i < n; ++i) {
        auto k = r.below(12);
        if (k == 0) l.push_back({ "rows", {}, { random_choices(r, 120) } });
        else if (k == 1) l.push_back({ "host", {}, { random_choices(r, 24) } });
        else if (k == 2) l.push_back({ "crash", {}, {} });
        else if (k == 3) l.push_back({ "again", { r.range(0, 20) }, {} });
        else {
            random_faults(r, s, static_cast<int>(l.size()));
            l.push_back({ "query", statement_options(r), { random_choices(r, static_cast<std::size_t>(r.range(10, thorough ? 260 : 160))) } });
        }
    }
}
bool needs(op const&) { return false; }

property const p { id, "", generate, execute, nullptr, needs, 12000, 400000,
    "A run makes a database of 1 to 4 tables, gives 4 to 12 queries made from a seed together with their meaning, executes the plans on the rows (in an order chosen by the simulator wherever the plan leaves it open), changes rows and host variables and executes the same plans again, and restarts the database from its definitions; in some calls memory runs out or the catalog throws, and the call is repeated." };
registrar const reg { &p };

} // namespace
} // namespace sim::sql
