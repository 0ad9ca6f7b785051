// B03: analysis leaves everything which was given to it as it was.
#include "analyze.h"

namespace sim {
namespace {

constexpr char const* id = "B03";

struct snapshot {
    std::string tree, options, world, comments;
};
snapshot take(source const& s, analyzer::sql_analyzer_options const& o, world const& w) {
    rt::disarmed d {};
    snapshot r {};
    r.tree = dump(*s.unit, regions::absolute);
    for (auto p : addresses(*s.statement)) { char b[24]; snprintf(b, sizeof b, " %p", p); r.tree += b; }
    for (auto&& c : s.unit->comments()) r.comments += std::to_string(c.begin) + "-" + std::to_string(c.end) + " ";
    r.options = describe(o);
    r.world = w.describe();
    return r;
}
void compare(snapshot const& a, snapshot const& b, std::string const& text) {
    expect_same("input-changed", "the syntax tree after its analysis" + text, a.tree, b.tree);
    expect_same("input-changed", "the comments after the analysis" + text, a.comments, b.comments);
    expect_same("input-changed", "the options after the analysis" + text, a.options, b.options);
    expect_same("input-changed", "the catalog and the placeholders after the analysis" + text, a.world, b.world);
}

void execute(scenario const& s, expectations const& e) {
    apply_environment(s);
    rt::run_single([&] {
        world w {};
        analyzer::sql_analyzer a {};
        for (std::size_t i = 0; i < s.threads[0].size(); ++i) {
            auto&& o = s.threads[0][i];
            if (!parses(e[0][i])) continue;
            auto text = where(o);
            auto src = parse_source(o);
            auto options = make_options(w, o);
            auto before = take(src, options, w);
            auto first_use = w.first.use_count();
            auto catalog_use = w.catalog.use_count();
            auto doc_use = src.document.use_count();
            // the same inputs are used several times
            for (long k = 0; k < 1 + s.get("repeat"); ++k) {
                bool clean = k > 0 || s.faults_of(0, static_cast<int>(i)).empty();
                if (clean) remove_faults(); else install_faults(s, 0, static_cast<int>(i));
                std::string out {};
                try {
                    rt::armed x {};
                    auto r = call(a, options, src, w, o);
                    rt::disarmed d {};
                    remove_faults();
                    if (clean) {
                        count_result(r);
                        expect_same("wrong-result", "the result of an analysis of inputs which were analysed before" + text, e[0][i].parts[0], canon_full(r));
                    }
                    // while the result exists
                    compare(before, take(src, options, w), text);
                    rt::count(c_compared);
                } catch (injected_error const&) {
                    rt::count(c_threw);
                } catch (std::exception const& x) {
                    if (clean) fail("exception", std::string { "an analysis raised: " } + x.what() + text);
                    rt::count(c_threw);
                } catch (odd_error const&) {
                    rt::count(c_threw);
                }
                remove_faults();
                compare(before, take(src, options, w), text);
                if (w.first.use_count() != first_use || w.catalog.use_count() != catalog_use || src.document.use_count() != doc_use)
                    fail("input-retained", "an object given to an analysis is still held after its result is gone" + text);
            }
        }
    }, 65536);
}

void generate(rt::prng& r, scenario& s, oracle& orc, bool thorough) {
    random_heap(r, s);
    s.threads.resize(1);
    s.cfg["repeat"] = r.range(0, 2);
    for (auto n = r.range(1, thorough ? 5 : 3), i = 0L; i < n; ++i) {
        auto o = parsed_analyze(r, orc, id, static_cast<std::size_t>(r.range(5, 60)));
        auto&& m = orc.solo(id, o);
        if (r.chance(1, 2)) {
            auto at = static_cast<int>(i);
            if (m.events > 0 && r.chance(1, 2)) s.faults.push_back({ 0, at, "catalog", static_cast<long>(r.below(m.events)), r.chance(1, 4) ? 1000 : 1, r.range(1, 6) });
            else if (m.allocs > 0) s.faults.push_back({ 0, at, "alloc", static_cast<long>(r.below(m.allocs)), r.chance(1, 4) ? 1000000 : 1, 0 });
        }
        s.threads[0].push_back(std::move(o));
    }
}
bool needs(op const& o) { return o.kind == "analyze"; }

property const p { id, "", generate, execute, solo_analyze, needs, 2500, 300000,
    "A run analyses 1 to 3 statements up to three times each with the same objects as inputs, the first time (in half of the runs) while memory runs out or the catalog throws or changes its mind; syntax tree, comments, options, catalog and placeholders are compared with their state before, object by object." };
registrar const reg { &p };

} // namespace
} // namespace sim
