// B02: an analyzer is as good as new after any history.
#include "analyze.h"

namespace sim {
namespace {

constexpr char const* id = "B02";

/// a call which is disturbed; its outcome does not matter
void disturbed(scenario const& s, op const& o, analyzer::sql_analyzer& a, world& w, int i) {
    auto src = parse_source(o);
    if (!src.statement) return;
    auto options = make_options(w, o);
    rt::alloc_fault af {};
    auto& l = lookups();
    l = {};
    for (auto* f : s.faults_of(0, i)) {
        if (f->kind == "alloc") { af.at = f->at; af.len = f->len; }
        if (f->kind == "catalog") l.entries.push_back({ f->at, f->len, static_cast<lookup_action>(f->arg) });
    }
    rt::set_alloc_fault(af);
    try {
        rt::armed x {};
        auto r = call(a, options, src, w, o);
        rt::set_alloc_fault({});
    } catch (...) {
        rt::set_alloc_fault({});
        rt::count(c_threw);
    }
    l = {};
}

void execute(scenario const& s, expectations const& e) {
    apply_environment(s);
    rt::run_single([&] {
        world w {};
        auto a = std::make_unique<analyzer::sql_analyzer>();
        for (std::size_t i = 0; i < s.threads[0].size(); ++i) {
            auto&& o = s.threads[0][i];
            if (o.kind == "move") {
                rt::armed x {};
                if (o.num(0) == 0) { auto b = std::make_unique<analyzer::sql_analyzer>(std::move(*a)); a = std::move(b); }
                else { auto b = std::make_unique<analyzer::sql_analyzer>(); *b = std::move(*a); a = std::move(b); }
                continue;
            }
            if (!s.faults_of(0, static_cast<int>(i)).empty()) { disturbed(s, o, *a, w, static_cast<int>(i)); continue; }
            if (!parses(e[0][i])) continue;
            auto src = parse_source(o);
            auto options = make_options(w, o);
            lookups() = {};
            rt::armed x {};
            auto r = call(*a, options, src, w, o);
            rt::disarmed d {};
            count_result(r);
            if (i > 0) rt::count(c_reused);
            expect_same("wrong-result", "the result of call " + std::to_string(i) + " of an analyzer which was used before" + where(o), e[0][i].parts[0], canon_full(r));
        }
    }, 65536);
}

void generate(rt::prng& r, scenario& s, oracle& orc, bool thorough) {
    random_heap(r, s);
    s.threads.resize(1);
    auto n = r.range(2, thorough ? 10 : 6);
    for (long i = 0; i < n; ++i) {
        if (i > 0 && r.chance(1, 8)) { s.threads[0].push_back({ "move", { r.range(0, 1) }, {} }); continue; }
        if (i > 1 && r.chance(1, 4)) { auto k = s.threads[0][r.below(s.threads[0].size())]; if (k.kind == "analyze") { s.threads[0].push_back(k); continue; } }
        auto o = parsed_analyze(r, orc, id, static_cast<std::size_t>(r.range(5, 60)));
        if (i + 1 < n && r.chance(1, 3)) {
            auto&& m = orc.solo(id, o);
            auto at = static_cast<int>(i);
            if (m.events > 0 && r.chance(1, 2)) s.faults.push_back({ 0, at, "catalog", static_cast<long>(r.below(m.events)), r.chance(1, 4) ? 1000 : 1, r.range(1, 4) });
            else if (m.allocs > 0) s.faults.push_back({ 0, at, "alloc", static_cast<long>(r.below(m.allocs)), r.chance(1, 4) ? 1000000 : 1, 0 });
        }
        s.threads[0].push_back(std::move(o));
    }
}
bool needs(op const& o) { return o.kind == "analyze"; }

property const p { id, "", generate, execute, solo_analyze, needs, 1500, 200000,
    "A run uses one analyzer for 2 to 6 statements with differing options; in some calls memory runs out or the catalog throws, and the analyzer may be moved between calls." };
registrar const reg { &p };

} // namespace
} // namespace sim
