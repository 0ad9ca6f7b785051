// B06: whatever the catalog answers, a result is well-formed.
#include "analyze.h"

namespace sim {
namespace {

constexpr char const* id = "B06";

void execute(scenario const& s, expectations const& e) {
    apply_environment(s);
    rt::run_single([&] {
        world w {};
        if (s.get("catalog") != 0) w.ddl(static_cast<int>(s.get("catalog")));
        analyzer::sql_analyzer a {};
        for (std::size_t i = 0; i < s.threads[0].size(); ++i) {
            auto&& o = s.threads[0][i];
            if (!parses(e[0][i])) continue;
            auto text = where(o);
            auto src = parse_source(o);
            auto options = make_options(w, o);
            install_faults(s, 0, static_cast<int>(i));
            try {
                rt::armed x {};
                auto r = call(a, options, src, w, o);
                rt::disarmed d {};
                remove_faults();
                count_result(r);
                rt::count(c_nodes_checked);
                auto problem = check_well_formed(r, src.document.get());
                if (!problem.empty()) fail("malformed-result", problem + text);
            } catch (std::exception const& x) {
                rt::disarmed d {};
                fail("exception", std::string { "an analysis raised: " } + x.what() + text);
            }
            remove_faults();
        }
    }, 65536);
}

void generate(rt::prng& r, scenario& s, oracle& orc, bool thorough) {
    random_heap(r, s);
    s.threads.resize(1);
    s.cfg["catalog"] = r.chance(1, 4) ? r.range(1, 2) : 0;
    for (auto n = r.range(1, thorough ? 8 : 5), i = 0L; i < n; ++i) {
        op o = i > 0 && r.chance(1, 3) ? s.threads[0].back() : parsed_analyze(r, orc, id, static_cast<std::size_t>(r.range(5, 80)));
        auto&& m = orc.solo(id, o);
        for (auto k = r.range(0, 3); k > 0 && m.events > 0; --k) s.faults.push_back({ 0, static_cast<int>(i), "catalog", static_cast<long>(r.below(m.events < 12 ? m.events : 12)), r.chance(1, 8) ? 3 : 1, r.range(5, 6) });
        s.threads[0].push_back(std::move(o));
    }
}
bool needs(op const& o) { return o.kind == "analyze"; }

property const p { id, "", generate, execute, solo_analyze, needs, 2500, 300000,
    "A run gives 1 to 5 statements to one analyzer over a catalog in which, call by call, up to three of the objects looked up are missing or answered by others, or whose definitions changed; every result is walked completely (plan structure, variables defined before use, arities, resolved declarations, regions, diagnostics)." };
registrar const reg { &p };

} // namespace
} // namespace sim
