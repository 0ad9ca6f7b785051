// B07: when memory runs out, analysis raises bad_alloc or gives the right result.
#include "analyze.h"

namespace sim {
namespace {

constexpr char const* id = "B07";

void execute(scenario const& s, expectations const& e) {
    apply_environment(s);
    rt::run_single([&] {
        world w {};
        auto live = rt::live_armed_blocks();
        auto owner = std::make_unique<analyzer::sql_analyzer>();
        auto& a = *owner;
        for (std::size_t i = 0; i < s.threads[0].size(); ++i) {
            auto&& o = s.threads[0][i];
            if (!parses(e[0][i])) continue;
            auto text = where(o);
            auto src = parse_source(o);
            auto options = make_options(w, o);
            auto before = rt::fired_allocs();
            auto f = install_faults(s, 0, static_cast<int>(i));
            try {
                rt::armed x {};
                auto r = call(a, options, src, w, o);
                rt::disarmed d {};
                bool hit = rt::fired_allocs() != before;
                remove_faults();
                count_result(r);
                expect_same("wrong-result", std::string { "the result of an analysis" } + (hit ? " in which an allocation failed" : "") + text, e[0][i].parts[hit ? 1 : 0], hit ? canon_brief(r) : canon_full(r));
            } catch (std::bad_alloc const&) {
                rt::disarmed d {};
                if (rt::fired_allocs() == before) fail("exception", "bad_alloc although no allocation failed" + text);
                rt::count(c_threw);
            } catch (std::exception const& x) {
                rt::disarmed d {};
                fail("exception", std::string { "an analysis in which an allocation failed raised another exception: " } + x.what() + text);
            }
            remove_faults();
        }
        {
            rt::armed x {};
            owner.reset();
        }
        rt::count(c_leak_checked);
        if (rt::live_armed_blocks() != live) fail("leak", std::string { "blocks remain allocated after an analyzer is gone in which calls ran out of memory\n" } + rt::describe_live(4));
        rt::check_heap();
    }, 65536);
}

void generate(rt::prng& r, scenario& s, oracle& orc, bool thorough) {
    random_heap(r, s);
    s.threads.resize(1);
    for (auto n = r.range(1, thorough ? 6 : 4), i = 0L; i < n; ++i) {
        op o = i > 0 && r.chance(1, 2) ? s.threads[0].back() : parsed_analyze(r, orc, id, static_cast<std::size_t>(r.range(5, 60)));
        auto&& m = orc.solo(id, o);
        if (m.allocs > 0 && r.chance(4, 5)) {
            long at = !m.alloc_points.empty() && r.chance(2, 3) ? static_cast<long>(r.pick(m.alloc_points)) : static_cast<long>(r.below(m.allocs));
            s.faults.push_back({ 0, static_cast<int>(i), "alloc", at, r.chance(1, 4) ? 1000000 : r.chance(1, 4) ? r.range(2, 4) : 1, 0 });
        }
        s.threads[0].push_back(std::move(o));
    }
}
bool needs(op const& o) { return o.kind == "analyze"; }

property const p { id, "", generate, execute, solo_analyze, needs, 2500, 300000,
    "A run gives 1 to 4 statements to one analyzer; in most calls an allocation, drawn from the distinct allocation sites of the statement and from all its allocations, fails, alone or with the following ones." };
registrar const reg { &p };

} // namespace
} // namespace sim
