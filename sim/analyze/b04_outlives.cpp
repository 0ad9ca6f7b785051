// B04: a result stands alone.
#include "analyze.h"

namespace sim {
namespace {

constexpr char const* id = "B04";

void execute(scenario const& s, expectations const& e) {
    apply_environment(s);
    rt::run_single([&] {
        auto w = std::make_unique<world>();
        auto live = rt::live_armed_blocks();
        struct held { std::size_t index; analyzer::sql_analyzer_result result; };
        std::vector<std::unique_ptr<held>> results {};
        {
            auto a = std::make_unique<analyzer::sql_analyzer>();
            std::vector<source> kept {};
            for (std::size_t i = 0; i < s.threads[0].size(); ++i) {
                auto&& o = s.threads[0][i];
                if (!parses(e[0][i])) continue;
                auto h = std::make_unique<held>();
                h->index = i;
                {
                    // all of these go before the result does
                    auto src = parse_source(o);
                    auto options = std::make_unique<analyzer::sql_analyzer_options>(make_options(*w, o));
                    auto faults = install_faults(s, 0, static_cast<int>(i));
                    try {
                        rt::armed x {};
                        h->result = call(*a, *options, src, *w, o);
                    } catch (...) {
                        rt::count(c_threw);
                        remove_faults();
                        continue;
                    }
                    remove_faults();
                    if (faults.alloc.at >= 0 || faults.catalog) continue;
                    count_result(h->result);
                    if (s.get("tree") != 0) { src.statement = nullptr; src.unit.reset(); kept.push_back(std::move(src)); }
                }
                results.push_back(std::move(h));
                if (s.get("analyzer") == 1) a = std::make_unique<analyzer::sql_analyzer>();
                if (s.get("early") != 0 && results.size() > 1) {
                    // results come and go in any order
                    auto k = static_cast<std::size_t>(s.get("early")) % (results.size() - 1);
                    rt::armed x {};
                    results[k].reset();
                    results.erase(results.begin() + static_cast<long>(k));
                }
            }
        }
        if (s.get("placeholders") != 0) { w->placeholders.clear(); w->parameters.reset(); }
        for (auto&& h : results) {
            auto text = where(s.threads[0][h->index]);
            expect_same("wrong-result", "a result after analyzer, options and syntax tree are gone" + text, e[0][h->index].parts[0], canon_full(h->result));
            rt::count(c_outlived);
            // results are values which can be moved
            rt::armed x {};
            analyzer::sql_analyzer_result r { std::move(h->result) };
            analyzer::sql_analyzer_result q {};
            q = std::move(r);
            rt::disarmed d {};
            expect_same("wrong-result", "a result which was moved" + text, e[0][h->index].parts[0], canon_full(q));
            h->result = std::move(q);
        }
        {
            rt::armed x {};
            while (!results.empty()) {
                auto k = static_cast<std::size_t>(s.get("order")) % results.size();
                results[k].reset();
                results.erase(results.begin() + static_cast<long>(k));
            }
        }
        rt::check_heap();
        rt::count(c_leak_checked);
        if (rt::live_armed_blocks() != live) fail("leak", "blocks remain allocated after all results are gone\n" + rt::describe_live(4));
    }, 65536);
}

void generate(rt::prng& r, scenario& s, oracle& orc, bool thorough) {
    random_heap(r, s);
    s.threads.resize(1);
    s.cfg["tree"] = r.range(0, 1);
    s.cfg["analyzer"] = r.range(0, 1);
    s.cfg["placeholders"] = r.range(0, 1);
    s.cfg["early"] = r.chance(1, 2) ? 0 : r.range(1, 3);
    s.cfg["order"] = r.range(0, 3);
    for (auto n = r.range(1, thorough ? 6 : 4), i = 0L; i < n; ++i) {
        auto o = parsed_analyze(r, orc, id, static_cast<std::size_t>(r.range(5, 60)));
        auto&& m = orc.solo(id, o);
        if (n > 1 && r.chance(1, 6)) {
            auto at = static_cast<int>(i);
            if (m.events > 0 && r.chance(1, 2)) s.faults.push_back({ 0, at, "catalog", static_cast<long>(r.below(m.events)), 1, r.range(1, 4) });
            else if (m.allocs > 0) s.faults.push_back({ 0, at, "alloc", static_cast<long>(r.below(m.allocs)), 1, 0 });
        }
        s.threads[0].push_back(std::move(o));
    }
}
bool needs(op const& o) { return o.kind == "analyze"; }

property const p { id, "", generate, execute, solo_analyze, needs, 2500, 300000,
    "A run analyses 1 to 4 statements (some of which fail by injected faults), destroys the syntax trees, documents, options, the analyzer and the placeholders, poisons or reuses their memory, examines all results, moves them and destroys them in some order." };
registrar const reg { &p };

} // namespace
} // namespace sim
