// A03: concurrent use of one parser.
#include "common.h"

#include <algorithm>

namespace sim {
namespace {

constexpr char const* id = "A03";

void one(scenario const& s, measure const& m, op const& o, parser::sql_parser const& p, document_ptr const& doc, int t, int i) {
    std::string out {};
    auto text = " of thread " + std::to_string(t) + "\n  text: " + escape(o.str(0), 800);
    rt::alloc_fault af {};
    if (auto* f = s.fault_of(t, i, "alloc")) { af.at = f->at; af.len = f->len; }
    auto fired = rt::fired_allocs();
    rt::set_alloc_fault(af);
    {
        rt::armed a {};
        try {
            auto r = p(doc);
            rt::disarmed d {};
            bool clean = af.at < 0;
            out = clean ? canon_absolute(r) : canon_brief(r);
            (void) fired;
            expect_same("wrong-result", "the result of a concurrent parse" + text, clean ? m.parts[0] : m.parts[1], out);
            auto problem = check_result(r, o.str(0), doc.get(), o.num(p_description, 1) != 0);
            if (!problem.empty() && clean) fail("malformed-result", problem + text);
            rt::count(r.has_value() ? c_parse_ok : c_parse_diag);
        } catch (std::bad_alloc const&) {
            rt::disarmed d {};
            if (af.at < 0) fail("exception", "bad_alloc without a fault in the call" + text);
            rt::count(c_threw);
        }
    }
    rt::set_alloc_fault({});
}

void execute(scenario const& s, expectations const& e) {
    apply_environment(s);
    auto n = s.threads.size();
    std::vector<parser::sql_parser> parsers {};
    bool own = s.get("own") != 0;
    op const* first = nullptr;
    for (auto&& t : s.threads) if (!t.empty() && !first) first = &t[0];
    if (!first) return;
    for (std::size_t i = 0; i < (own ? n : 1); ++i) parsers.push_back(make_parser(own && !s.threads[i].empty() ? s.threads[i][0] : *first));
    // one document object for equal texts
    std::vector<std::vector<document_ptr>> docs(n);
    std::map<std::string, document_ptr> shared {};
    for (std::size_t t = 0; t < n; ++t) for (auto&& o : s.threads[t]) {
        auto& d = shared[o.str(0)];
        if (!d || s.get("share") == 0) d = make_document(o);
        docs[t].push_back(d);
    }
    shared.clear();
    std::vector<std::function<void()>> bodies {};
    std::vector<int> inside(n, 0);
    for (std::size_t t = 0; t < n; ++t) bodies.emplace_back([&, t] {
        for (std::size_t i = 0; i < s.threads[t].size(); ++i) {
            for (std::size_t k = 0; k < n; ++k) if (inside[k]) rt::count(c_overlap);
            inside[t] = 1;
            one(s, e[t][i], s.threads[t][i], parsers[own ? t : 0], docs[t][i], static_cast<int>(t), static_cast<int>(i));
            inside[t] = 0;
        }
    });
    auto live = rt::live_armed_blocks();
    rt::run_threads(std::move(bodies), s.switches, s.get("races", 1) != 0, 16384, 400000000ULL);
    if (s.faults.empty()) rt::count(c_leak_checked);
    if (s.faults.empty() && rt::live_armed_blocks() != live) fail("leak", "blocks remain allocated after all parses\n" + rt::describe_live(4));
    for (auto&& t : docs) for (auto&& d : t) { auto u = d.use_count(); (void) u; }
}

void generate(rt::prng& r, scenario& s, oracle& orc, bool thorough) {
    random_heap(r, s);
    auto n = static_cast<std::size_t>(r.chance(3, 4) ? 2 : thorough && r.chance(1, 3) ? 4 : 3);
    s.threads.resize(n);
    s.cfg["own"] = r.chance(1, 3);
    s.cfg["share"] = r.chance(1, 2);
    s.cfg["races"] = 1;
    std::vector<long> opt { r.chance(1, 4) ? r.range(5, 60) : 0, r.chance(1, 4) ? r.range(3, 12) : 0, r.range(0, 8), r.range(0, 1) };
    if (r.chance(1, 4)) { opt.push_back(static_cast<long>(r.below(element_kinds))); opt.push_back(r.range(1, 3)); }
    std::vector<std::string> pool {};
    for (std::size_t t = 0; t < n; ++t) {
        if (s.get("own") && r.chance(1, 2)) opt = { r.chance(1, 2) ? r.range(5, 60) : 0, r.chance(1, 2) ? r.range(3, 12) : 0, r.range(0, 8), r.range(0, 1) };
        for (auto k = r.range(1, 3); k > 0; --k) {
            std::string text {};
            if (!pool.empty() && r.chance(1, 3)) text = r.pick(pool);
            else {
                bool cut = false;
                text = random_sql(r, static_cast<std::size_t>(r.range(2, 50)));
                if (r.chance(1, 4)) text = damage(r, std::move(text), cut);
                if (r.chance(1, 12)) text += std::string(static_cast<std::size_t>(r.range(8000, 17000)), ' ');
                pool.push_back(text);
            }
            s.threads[t].push_back(make_parse(std::move(text), opt));
        }
    }
    random_switches(r, s, orc);
    if (r.chance(1, 4)) {
        auto t = r.below(n);
        auto i = r.below(s.threads[t].size());
        auto&& m = orc.solo(id, s.threads[t][i]);
        if (m.allocs > 0) s.faults.push_back({ static_cast<int>(t), static_cast<int>(i), "alloc", static_cast<long>(r.below(m.allocs)), r.chance(1, 3) ? 100000 : 1, 0 });
    }
}
bool needs(op const&) { return true; }

property const p { id, "", generate, execute, solo_parse, needs, 1500, 200000,
    "A run lets 2 to 4 threads parse 1 to 3 texts each with one shared parser (or one parser each), the scheduler switching at up to 16 points drawn from the distinct program points and from all steps; in some runs memory runs out in one thread." };
registrar const reg { &p };

} // namespace
} // namespace sim
