// B08: analyzers of several threads do not affect each other.
#include "analyze.h"

namespace sim {
namespace {

constexpr char const* id = "B08";

struct shared_parts {
    std::vector<std::vector<std::shared_ptr<source>>> sources {};
    std::vector<std::vector<std::shared_ptr<analyzer::sql_analyzer_options>>> options {};
};

void one(scenario const& s, measure const& m, op const& o, int t, int i, analyzer::sql_analyzer& a, world const& w, analyzer::sql_analyzer_options const& options, source const& src) {
    auto text = " of thread " + std::to_string(t) + where(o);
    auto f = install_faults(s, t, i);
    bool alloc = f.alloc.at >= 0;
    try {
        rt::armed x {};
        auto r = call(a, options, src, w, o);
        rt::disarmed d {};
        remove_faults();
        count_result(r);
        expect_same("wrong-result", "the result of a concurrent analysis" + text, m.parts[alloc ? 1 : 0], alloc ? canon_brief(r) : canon_full(r));
    } catch (std::bad_alloc const&) {
        rt::disarmed d {};
        if (!alloc && !f.catalog) fail("exception", "bad_alloc without a fault in the call" + text);
        rt::count(c_threw);
    } catch (injected_error const&) {
        rt::disarmed d {};
        if (!f.catalog) fail("exception", "the exception of another thread's catalog lookup" + text);
        rt::count(c_threw);
    } catch (std::exception const& x) {
        rt::disarmed d {};
        fail("exception", std::string { "unexpected exception " } + x.what() + text);
    }
    remove_faults();
}

void execute(scenario const& s, expectations const& e) {
    apply_environment(s);
    auto n = s.threads.size();
    world w {};
    auto before = w.describe();
    shared_parts sh {};
    std::map<std::string, std::shared_ptr<source>> texts {};
    std::map<std::vector<long>, std::shared_ptr<analyzer::sql_analyzer_options>> opts {};
    bool share = s.get("share") != 0;
    for (std::size_t t = 0; t < n; ++t) {
        sh.sources.emplace_back();
        sh.options.emplace_back();
        for (auto&& o : s.threads[t]) {
            auto& x = texts[o.str(0)];
            if (!x || !share) x = std::make_shared<source>(parse_source(o));
            sh.sources[t].push_back(x);
            auto& y = opts[o.n];
            if (!y || !share) y = std::make_shared<analyzer::sql_analyzer_options>(make_options(w, o));
            sh.options[t].push_back(y);
        }
    }
    texts.clear();
    opts.clear();
    std::vector<std::unique_ptr<analyzer::sql_analyzer>> own {};
    for (std::size_t t = 0; t < n; ++t) own.push_back(std::make_unique<analyzer::sql_analyzer>());
    std::vector<std::function<void()>> bodies {};
    std::vector<int> inside(n, 0);
    for (std::size_t t = 0; t < n; ++t) bodies.emplace_back([&, t] {
        for (std::size_t i = 0; i < s.threads[t].size(); ++i) {
            if (!parses(e[t][i])) continue;
            for (std::size_t k = 0; k < n; ++k) if (inside[k]) rt::count(c_overlap);
            inside[t] = 1;
            one(s, e[t][i], s.threads[t][i], static_cast<int>(t), static_cast<int>(i), *own[t], w, *sh.options[t][i], *sh.sources[t][i]);
            if (s.get("fresh") != 0) { rt::armed x {}; own[t] = std::make_unique<analyzer::sql_analyzer>(); }
            inside[t] = 0;
        }
    });
    rt::run_threads(std::move(bodies), s.switches, true, 16384, 400000000ULL);
    if (w.describe() != before) expect_same("changed", "the catalog after concurrent analyses", before, w.describe());
}

void generate(rt::prng& r, scenario& s, oracle& orc, bool thorough) {
    random_heap(r, s);
    auto n = static_cast<std::size_t>(r.chance(3, 4) ? 2 : thorough && r.chance(1, 3) ? 4 : 3);
    s.threads.resize(n);
    s.cfg["share"] = r.chance(3, 4);
    s.cfg["fresh"] = r.chance(1, 3);
    for (std::size_t t = 0; t < n; ++t) for (auto k = r.range(1, 3); k > 0; --k) {
        if (t > 0 && r.chance(1, 3)) { s.threads[t].push_back(r.pick(s.threads[r.below(t)])); continue; }
        s.threads[t].push_back(parsed_analyze(r, orc, id, static_cast<std::size_t>(r.range(5, 50))));
    }
    random_switches(r, s, orc, 12);
    if (r.chance(1, 3)) {
        auto t = r.below(n);
        auto i = r.below(s.threads[t].size());
        auto&& m = orc.solo(id, s.threads[t][i]);
        int a = static_cast<int>(t), b = static_cast<int>(i);
        if (m.events > 0 && r.chance(1, 2)) s.faults.push_back({ a, b, "catalog", static_cast<long>(r.below(m.events)), 1, r.range(1, 2) });
        else if (m.allocs > 0) s.faults.push_back({ a, b, "alloc", static_cast<long>(r.below(m.allocs)), r.chance(1, 3) ? 100000 : 1, 0 });
    }
}
bool needs(op const& o) { return o.kind == "analyze"; }

property const p { id, "", generate, execute, solo_analyze, needs, 1500, 200000,
    "A run lets 2 to 4 threads, with an analyzer each, give 1 to 3 statements each; catalog, options, placeholders and syntax trees are shared, and the scheduler switches at points drawn from the distinct program points; in some runs memory runs out or the catalog throws in one thread." };
registrar const reg { &p };

} // namespace
} // namespace sim
