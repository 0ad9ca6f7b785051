// B10: every call sees the catalog as it is at that time.
#include "analyze.h"

namespace sim {
namespace {

constexpr char const* id = "B10";

void execute(scenario const& s, expectations const& e) {
    apply_environment(s);
    rt::run_single([&] {
        world w {};
        long state = 0;
        auto a = std::make_unique<analyzer::sql_analyzer>();
        std::optional<analyzer::sql_analyzer_options> kept {};
        std::vector<long> kept_for {};
        std::map<std::string, source> sources {};
        // results which are kept hold objects of the catalog of their time
        bool hold = s.get("hold") != 0;
        std::vector<analyzer::sql_analyzer_result> results {};
        for (std::size_t i = 0; i < s.threads[0].size(); ++i) {
            auto&& o = s.threads[0][i];
            if (o.kind == "rebuild") { w.become(state); continue; }
            if (!parses(e[0][i])) continue;
            if (o.num(a_catalog) != state) { auto before = std::exchange(state, o.num(a_catalog)); w.become(state, (before & 127) == (state & 127)); }
            auto text = " (call " + std::to_string(i) + ", catalog " + std::to_string(state) + ")" + where(o);
            // statement and options survive changes of the catalog
            auto& src = sources[o.str(0)];
            if (!src.statement) src = parse_source(o);
            auto opts = o.n;
            if (opts.size() > a_catalog) opts.resize(a_catalog);
            if (!kept || opts != kept_for) { kept.emplace(make_options(w, o)); kept_for = opts; }
            auto f = install_faults(s, 0, static_cast<int>(i));
            bool fault = f.alloc.at >= 0 || f.catalog;
            try {
                rt::armed x {};
                auto r = call(*a, *kept, src, w, o);
                rt::disarmed d {};
                remove_faults();
                count_result(r);
                if (!f.answers) expect_same("wrong-result", "the result of an analyzer after the catalog was changed" + text, e[0][i].parts[f.alloc.at >= 0 ? 1 : 0], f.alloc.at >= 0 ? canon_brief(r) : canon_full(r));
                rt::armed y {};
                if (hold) results.push_back(std::move(r));
                else { auto gone = std::move(r); }
            } catch (std::bad_alloc const&) {
                rt::disarmed d {};
                if (!fault) fail("exception", "bad_alloc without a fault" + text);
                rt::count(c_threw);
            } catch (injected_error const&) {
                rt::disarmed d {};
                rt::count(c_threw);
            }
            remove_faults();
        }
        rt::armed x {};
        results.clear();
        results.shrink_to_fit();
        a.reset();
    }, 65536);
}

void generate(rt::prng& r, scenario& s, oracle& orc, bool thorough) {
    random_heap(r, s);
    s.cfg["reuse"] = r.chance(1, 2) ? 0 : r.range(1, 2);
    s.cfg["hold"] = r.chance(1, 3) ? 1 : 0;
    s.threads.resize(1);
    auto& l = s.threads[0];
    long state = 0;
    auto n = r.range(3, thorough ? 12 : 7);
    for (long i = 0; i < n; ++i) {
        if (i > 0 && r.chance(1, 5)) { l.push_back({ "rebuild", {}, {} }); continue; }
        op o {};
        if (!l.empty() && l.back().kind == "analyze" && r.chance(1, 2)) o = l.back();
        else if (i > 1 && r.chance(1, 4) && l[0].kind == "analyze") o = l[0];
        else o = parsed_analyze(r, orc, id, static_cast<std::size_t>(r.range(5, 50)));
        if (i > 0 && r.chance(2, 3)) {
            auto before = state;
            state = r.chance(1, 2) ? r.range(0, 1) : r.chance(1, 6) ? 2 : 0;
            if (r.chance(1, 3)) state += 4 * r.range(0, 31);
            if (r.chance(1, 4)) state = 0;
            if (r.chance(1, 2)) state = (r.chance(2, 3) ? before : state) % 128 + 128 * r.range(0, 63);
        }
        o.n.resize(a_catalog + 1);
        o.n[a_catalog] = state;
        auto&& m = orc.solo(id, o);
        if (r.chance(1, 6)) {
            if (m.events > 0 && r.chance(2, 3)) s.faults.push_back({ 0, static_cast<int>(i), "catalog", static_cast<long>(r.below(m.events)), r.chance(1, 3) ? 1000 : 1, r.chance(1, 3) ? static_cast<long>(lookup_action::answer_nothing) : r.range(1, 2) });
            else if (m.allocs > 0) s.faults.push_back({ 0, static_cast<int>(i), "alloc", static_cast<long>(r.below(m.allocs)), r.chance(1, 4) ? 1000000 : 1, 0 });
        }
        l.push_back(std::move(o));
    }
}
bool needs(op const& o) { return o.kind == "analyze"; }

property const p { id, "", generate, execute, solo_analyze, needs, 1800, 200000,
    "A run uses one analyzer, one options object and the same syntax trees for 3 to 7 statements while the objects of the catalog are replaced by equal ones, replaced by others, dropped one by one or all at once between the calls, or single indices, functions, variables and sequences are exchanged while their tables remain; in some calls memory runs out, or the catalog throws or misses an object." };
registrar const reg { &p };

} // namespace
} // namespace sim
